#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md; notes about those missed at first are here
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {
	"token-wrap": "missed first: `c12_many_calls` added",
	"binary-child-128": "missed first: objects with over 128 and 256 members added (C13 too)",
	"batch-resync": "missed first: entries with unreadable strings added",
	"kept-start-space": "first reported as an error of the harness: offered space is now examined before use",
	"array-depth": "missed first: formats with limited depth added",
	"map-index-byte": "missed first: containers of hundreds and tens of thousands of elements added (C01, C02, C03 too)",
	"js-empty-error": "missed first: errors without messages added",
}
missed.update(json.load(open(root + "/tools/bugs_missed.json")) if os.path.exists(root + "/tools/bugs_missed.json") else {})
rows = []
for bug in sorted(os.listdir(root + "/seeded")):
	meta = json.load(open(f"{root}/seeded/{bug}/meta.json"))
	rows.append(f"| {bug} | {meta['property']} | {meta['needs']} | {meta['property']}{' – ' + missed[bug] if bug in missed else ''} |")
path = root + "/DESIGN.md"
text = open(path).read()
head = text[:text.index("|---|---|---|---|\n", text.index("## Planted bugs")) + len("|---|---|---|---|\n")]
open(path, "w").write(head + "\n".join(rows) + "\n")
