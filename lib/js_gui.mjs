// Uses the forms made by the JavaScript client as a person would, according to lines of JSON from the standard input. What is right is decided by the program on the other side.
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { pathToFileURL } from "node:url";
import * as dom from "./dom.mjs";

let input = Buffer.alloc(0);
function readLine() {
	while (true) {
		const end = input.indexOf(10);
		if (end >= 0) {
			const line = input.subarray(0, end).toString("utf8");
			input = input.subarray(end + 1);
			return JSON.parse(line);
		}
		const piece = Buffer.alloc(1 << 16);
		let size = 0;
		try { size = fs.readSync(0, piece); } catch (e) { if (e.code === "EAGAIN") continue; throw e; }
		if (size === 0) process.exit(0);
		input = Buffer.concat([input, piece.subarray(0, size)]);
	}
}
function writeLine(value) {
	const data = Buffer.from(JSON.stringify(value) + "\n");
	for (let at = 0; at < data.length;) {
		try { at += fs.writeSync(1, data, at); } catch (e) { if (e.code !== "EAGAIN") throw e; }
	}
}

globalThis.window = globalThis;
Object.assign(globalThis, { Node: dom.Node, Element: dom.Element, HTMLElement: dom.Element, Text: dom.Text, DocumentFragment: dom.DocumentFragment, Event: class { constructor(type) { this.type = type; } } });
globalThis.document = dom.makeDocument();
let alerts = [];
globalThis.alert = (text) => alerts.push(String(text));
process.on("unhandledRejection", () => {}); // A browser writes about them to its console
let fetches = [];
globalThis.fetch = (target, params) => new Promise((resolve, reject) => fetches.push({target, params, resolve, reject}));
const settle = async () => { for (let i = 0; i < 3; i++) await new Promise((resolve) => setImmediate(resolve)); };
const respond = (one, text) => one.resolve({ ok: true, status: 200, text: async () => text, json: async () => JSON.parse(text) });
const describeError = (e) => e instanceof Error ? e.name + ": " + e.message : String(e);

const folder = path.dirname(process.argv[2]);
let bomba, api, types, description, whole;

function own(object, name) { return Object.prototype.hasOwnProperty.call(object, name); }
function find(path) {
	let at = api;
	for (const part of path) at = at !== undefined && own(at, part) ? at[part] : undefined;
	return at;
}
function basic(type) { return type === "number" || type === "string" || type === "boolean"; }
// If all values in it can be entered in a form
function enterable(type, above = []) {
	if (basic(type)) return true;
	if (Array.isArray(type) || !own(description.types, type) || above.includes(type)) return false;
	return Object.values(description.types[type]).every((it) => enterable(it, [...above, type]));
}
function refersToItself(type, above = []) {
	if (Array.isArray(type) || !own(description.types, type)) return false;
	return above.includes(type) || Object.values(description.types[type]).some((it) => refersToItself(it, [...above, type]));
}
function parameters(path) {
	const result = [];
	for (const [name, definition] of Object.entries(description.methods[path.join(".")].params)) result[definition.def_order - 1] = { name, type: definition.type };
	return result;
}
// Names, types and values of what has to be entered, in order
function entries(name, type, value, out) {
	if (basic(type)) {
		if (value === null || value === undefined) throw "unsupported"; // Nothing to enter
		if (type === "string" && /[\r\n]/.test(value)) throw "unsupported"; // A field has one line
		out.push({ name, type, value });
		return;
	}
	if (value === null || value === undefined) throw "unsupported";
	for (const [member, memberType] of Object.entries(description.types[type])) entries(member, memberType, own(value, member) ? value[member] : undefined, out);
}
const all = (element, name) => [...element.descendants()].filter((it) => it.localName === name);
const fieldsOf = (element) => [...element.descendants()].filter((it) => it.localName === "input" || it.localName === "textarea");
const withButton = (element, button) => { // The part of the page that belongs to the button
	let at = button;
	while (at.parentNode && at !== element && all(at.parentNode, "button").length === 1) at = at.parentNode;
	return at;
};
const shownIn = (element) => element.textContent + [...element.descendants()].filter((it) => it.localName === "output" || it.localName === "textarea").map((it) => it.value).join("");
const simplified = (text) => text.replace(/[\s_]/g, "").toLowerCase();
const plainName = (text) => /^[\x21-\x7e]+$/.test(text);

function fill(fields, wanted) {
	for (let i = 0; i < wanted.length; i++) {
		if (wanted[i].type === "boolean") {
			fields[i].checked = wanted[i].value;
			fields[i].fire("change");
		} else {
			fields[i].value = String(wanted[i].value);
			fields[i].fire("input");
			fields[i].fire("change");
		}
	}
}
async function press(button) {
	Promise.allSettled(button.fire("click"));
	await settle();
}
// Labels that belong to one field only
function labelProblem(element, field, name) {
	let at = field;
	while (at !== element && simplified(at.textContent) === "") at = at.parentNode;
	if (fieldsOf(at).length > 1 || at === element || !plainName(name)) return undefined;
	return simplified(at.textContent).includes(simplified(name)) ? undefined : `the field for ${name} is labelled ${at.textContent}`;
}

let used = [];
const operations = {
	async load(command) {
		description = JSON.parse(command.description);
		fetches = [];
		used = [];
		whole = undefined;
		globalThis.document = dom.makeDocument();
		let failure;
		const targets = [];
		let done;
		if (command.index) { // The page
			const page = fs.readFileSync(process.env.VERIF_REPO + "/public_html/index.html", "utf8");
			const title = document.createElement("h1"), content = document.createElement("div");
			title.id = "title";
			content.id = "content";
			for (const [, attributes] of page.matchAll(/<(?:\w+)([^>]*\bid=[^>]*)>/g)) {
				const id = attributes.match(/\bid="?([\w-]+)/)[1];
				if (!document.getElementById(id)) { const it = id === "body" ? document.body : document.createElement("div"); it.id = id; if (it !== document.body) document.body.appendChild(it); }
			}
			document.body.append(title, content);
			for (const [, script] of page.matchAll(/<script[^>]*>([\s\S]*?)<\/script>/g)) {
				try {
					vm.runInThisContext(`(() => {${script.replace(/^(\s*)\[bomba,/m, "$1[globalThis.bomba,")}\n})()`, { filename: path.join(folder, "index.js"), importModuleDynamically: vm.constants.USE_MAIN_CONTEXT_DEFAULT_LOADER });
				} catch (e) { failure = describeError(e); }
			}
			for (let i = 0; i < 200 && fetches.length === 0; i++) await settle();
			targets.push(...fetches.map((it) => it.target));
			for (const one of fetches) respond(one, command.description);
			for (let i = 0; i < 50 && all(document, "button").length === 0; i++) await settle();
			await settle();
			whole = document.body;
			api = globalThis.bomba;
			fetches = [];
			return { targets, failure, title: document.body.textContent, pageTitle: document.title };
		}
		const loading = bomba.loadApi(command.path);
		done = loading.then((it) => { api = it[0]; types = it[1]; }, (e) => { failure = describeError(e); });
		await settle();
		for (const one of fetches) respond(one, command.description);
		await done;
		fetches = [];
		return { failure };
	},
	// The form of everything
	async whole() {
		for (const method of Object.values(description.methods)) for (const it of Object.values(method.params)) if (refersToItself(it.type)) return { unsupported: true };
		if (!whole) {
			try {
				whole = api.gui();
			} catch (e) {
				return { failure: describeError(e) };
			}
			document.body.appendChild(whole);
		}
		return { buttons: all(whole, "button").length, text: simplified(whole.textContent) };
	},
	// Enters values into the form of a procedure and presses its button
	async use(command) {
		const params = parameters(command.path);
		const wanted = [];
		try {
			params.forEach((it, index) => {
				if (!enterable(it.type)) throw "unsupported";
				entries(it.name, it.type, own(command.args[index], "value") ? command.args[index].value : undefined, wanted);
			});
		} catch (e) {
			if (e === "unsupported") return { unsupported: true };
			throw e;
		}
		let form, button;
		const key = JSON.stringify(command.path);
		const known = used.find((it) => it.key === key && it.fromWhole === command.fromWhole);
		if (known && !command.anew) ({ form, button } = known);
		else if (command.fromWhole) {
			if (!whole) return { unsupported: true };
			// Which one it is is visible from what it does; the name is also there
			const candidates = all(whole, "button").map((button) => ({ button, form: withButton(whole, button) })).filter((it) => simplified(it.form.textContent).includes(simplified(command.path[command.path.length - 1])));
			for (const it of candidates) {
				if (fieldsOf(it.form).length !== wanted.length) continue;
				const keys = fieldsOf(it.form).map((field) => [field.value, field.checked]);
				fetches = [];
				fill(fieldsOf(it.form), wanted);
				await press(it.button);
				const bodies = fetches.map((one) => { try { return JSON.parse(one.params.body); } catch { return {}; } });
				for (const one of fetches) respond(one, JSON.stringify({ jsonrpc: "2.0", id: 0, error: { code: 1, message: "refused" } }));
				await settle();
				if (bodies.length === 1 && bodies[0].method === command.path.join(".")) { form = it.form; button = it.button; break; }
				void keys;
			}
			if (!form) return { notFound: true, candidates: candidates.length };
		} else {
			try {
				form = find(command.path).gui();
			} catch (e) {
				return { failure: describeError(e) };
			}
			if (!(form instanceof dom.Element)) return { failure: "no element" };
			const buttons = all(form, "button");
			if (buttons.length !== 1) return { failure: buttons.length + " buttons" };
			button = buttons[0];
			document.body.appendChild(form);
		}
		if (!known) used.push({ key, fromWhole: command.fromWhole, form, button });
		const fields = fieldsOf(form);
		if (fields.length !== wanted.length) return { failure: `${fields.length} fields for ${wanted.length} values`, wanted };
		for (let i = 0; i < fields.length; i++) {
			if ((fields[i].type === "checkbox") !== (wanted[i].type === "boolean")) return { failure: `field ${i} is of type ${fields[i].type} for ${wanted[i].type}`, wanted };
			const problem = labelProblem(form, fields[i], wanted[i].name);
			if (problem) return { failure: problem };
		}
		if (!simplified(shownIn(form)).includes(simplified(command.path[command.path.length - 1])) && plainName(command.path[command.path.length - 1])) return { failure: "the name is not there: " + form.textContent };
		fetches = [];
		fill(fields, wanted);
		const kept = used.filter((it) => it.form !== form).map((it) => ({ fields: fieldsOf(it.form), values: fieldsOf(it.form).map((field) => [field.value, field.checked]), text: shownIn(it.form) }));
		const done = Promise.allSettled(button.fire("click"));
		await settle();
		const posts = fetches.map(({target, params}) => ({ target, method: params && params.method, body: params && params.body }));
		writeLine({ posts, entered: wanted.length });
		const answer = readLine();
		for (const one of fetches) respond(one, answer.response);
		await settle();
		await done;
		const posted = fetches.length;
		fetches = [];
		const response = JSON.parse(answer.response);
		const result = response.result;
		return {
			posted,
			shown: shownIn(form),
			result: result === undefined ? null : String(result),
			showable: result !== null && result !== undefined && typeof result !== "object",
			othersChanged: kept.some((it) => shownIn({ textContent: it.text, *descendants() {} }) !== it.text || it.fields.some((field, i) => field.value !== it.values[i][0] || field.checked !== it.values[i][1])) || kept.some((it, i) => { const forms = used.filter((one) => one.form !== form); return shownIn(forms[i].form) !== it.text; }),
			fieldsChanged: fields.some((field, i) => wanted[i].type === "boolean" ? field.checked !== wanted[i].value : wanted[i].type === "string" && field.value !== wanted[i].value),
		};
	},
};

bomba = await import(pathToFileURL(process.argv[2]));
writeLine({ ready: true });
while (true) {
	const command = readLine();
	let answer;
	try { answer = await operations[command.op](command); } catch (e) { answer = { broken: String(e instanceof Error ? e.stack : e) }; }
	writeLine(answer);
}
