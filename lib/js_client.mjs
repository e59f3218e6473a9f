// Drives the JavaScript client according to lines of JSON from the standard input, its requests are answered through the standard output.
// Everything about what is right is decided by the program on the other side, except for making values of wrong types.
import fs from "node:fs";
import { pathToFileURL } from "node:url";

let input = Buffer.alloc(0);
function readLine() {
	while (true) {
		const end = input.indexOf(10);
		if (end >= 0) {
			const line = input.subarray(0, end).toString("utf8");
			input = input.subarray(end + 1);
			return JSON.parse(line);
		}
		const piece = Buffer.alloc(1 << 16);
		let size = 0;
		try { size = fs.readSync(0, piece); } catch (e) { if (e.code === "EAGAIN") continue; throw e; }
		if (size === 0) process.exit(0);
		input = Buffer.concat([input, piece.subarray(0, size)]);
	}
}
function writeLine(value) {
	const data = Buffer.from(JSON.stringify(value) + "\n");
	for (let at = 0; at < data.length;) {
		try { at += fs.writeSync(1, data, at); } catch (e) { if (e.code !== "EAGAIN") throw e; }
	}
}

globalThis.window = globalThis;
let fetches = [];
globalThis.fetch = (target, params) => new Promise((resolve, reject) => fetches.push({target, params, resolve, reject}));
const settle = async () => { for (let i = 0; i < 3; i++) await new Promise((resolve) => setImmediate(resolve)); };
const respond = (one, text) => one.resolve({ ok: true, status: 200, text: async () => text, json: async () => JSON.parse(text) });
const describeError = (e) => e instanceof Error ? e.name + ": " + e.message : e;

let bomba, api, types, description;

function own(object, name) { return Object.prototype.hasOwnProperty.call(object, name); }
function list(object, prefix, out) {
	for (const name of Object.keys(object)) {
		if (name === "gui") continue;
		if (typeof object[name] === "function") out.push([...prefix, name]);
		else list(object[name], [...prefix, name], out);
	}
	return out;
}
function find(path) {
	let at = api;
	for (const part of path) at = own(at, part) ? at[part] : undefined;
	return at;
}
// Makes instances of the generated classes out of plain values
function build(type, value, how) {
	if (Array.isArray(type)) {
		if (value.some((it) => it === null)) throw "unsupported"; // Optional elements are not described as such
		return value.map((it) => build(type[0], it, how));
	}
	if (own(types, type)) {
		const members = Object.entries(description.types[type]);
		const parts = members.map(([name, memberType]) => {
			if (value === null || value === undefined || !own(value, name) || value[name] === null) throw "unsupported"; // Optional members are not described as such
			return build(memberType, value[name], how);
		});
		if (how.byConstructor) return new types[type](...parts);
		const made = new types[type]();
		members.forEach(([name], index) => { made[name] = parts[index]; });
		return made;
	}
	return value;
}
// Something of a type that is not right, rng is a function returning a random number
function wrong(type, value, rng, topLevel) {
	const pick = (options) => options[Math.floor(rng() * options.length)];
	const absent = topLevel ? [] : [null, undefined];
	const isClass = !Array.isArray(type) && own(types, type);
	if (Array.isArray(type)) {
		if (value.length > 0 && rng() < 0.7) {
			const index = Math.floor(rng() * value.length), copy = [...value];
			copy[index] = wrong(type[0], value[index], rng, false);
			return copy;
		}
		return pick(["text", 5, true, {}, { length: 0 }, () => [], ...absent]);
	}
	if (isClass) {
		const members = Object.entries(description.types[type]);
		if (members.length > 0 && rng() < 0.7) {
			const [name, memberType] = members[Math.floor(rng() * members.length)];
			const copy = new types[type]();
			for (const [other] of members) copy[other] = value[other];
			copy[name] = wrong(memberType, value[name], rng, false);
			return copy;
		}
		const others = Object.keys(types).filter((it) => it !== type);
		const made = others.length > 0 ? [new types[pick(others)]()] : [];
		return pick(["text", 0, false, [], { ...value }, {}, [value], type, types[type], ...made, ...absent]);
	}
	switch (type) {
	case "number": return pick(["5", "", true, [], {}, [5], BigInt(3), () => 5, ...absent]);
	case "string": return pick([5, 0, true, false, ["text"], {}, [], () => "text", Symbol("text"), ...absent]);
	case "boolean": return pick([0, 1, "true", "", [], {}, [true], () => true, ...absent]);
	case "object": return pick([0, 1, "text", "", [], [1], true, ...absent]);
	}
	throw "unknown type " + type;
}
function random(seed) {
	let s = seed;
	return () => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return (s >>> 8) / 16777216; };
}
function argumentTypes(path) {
	const params = description.methods[path.join(".")].params;
	const result = [];
	for (const [name, definition] of Object.entries(params)) result[definition.def_order - 1] = definition.type;
	return result;
}
function prepared(call) {
	const wanted = argumentTypes(call.path);
	return call.args.map((arg, index) => own(arg, "value") ? build(wanted[index], arg.value, call) : arg.absent === "null" ? null : undefined);
}
function start(call, args) {
	const outcome = {};
	const before = fetches.length;
	let promise;
	try {
		promise = find(call.path)(...args);
	} catch (e) {
		return { threw: true, error: describeError(e) };
	}
	outcome.sent = () => fetches.length - before;
	outcome.done = Promise.resolve(promise).then((result) => { outcome.result = result === undefined ? null : result; outcome.resolved = true; }, (e) => { outcome.error = describeError(e); outcome.rejected = true; });
	return outcome;
}

const operations = {
	async load(command) {
		description = JSON.parse(command.description);
		fetches = [];
		const loading = bomba.loadApi(command.path);
		let failure;
		const done = loading.then((it) => { api = it[0]; types = it[1]; }, (e) => { failure = describeError(e); });
		await settle();
		const targets = fetches.map((it) => it.target);
		for (const one of fetches) respond(one, command.description);
		await done;
		fetches = [];
		if (failure !== undefined) return { failure: String(failure), targets };
		return { targets, offered: list(api, [], []), types: Object.keys(types) };
	},
	// Several calls at once, answered in the given order
	async calls(command) {
		let made;
		try {
			made = command.calls.map(prepared);
		} catch (e) {
			if (e === "unsupported") return { unsupported: true };
			throw e;
		}
		fetches = [];
		const outcomes = [];
		for (let i = 0; i < made.length; i++) outcomes.push(start(command.calls[i], made[i]));
		await settle();
		const posts = fetches.map(({target, params}) => ({ target, method: params && params.method, body: params && params.body, type: params && params.headers && (params.headers["Content-Type"] ?? params.headers["content-type"]) }));
		const early = outcomes.map((it) => it.error !== undefined || it.resolved === true);
		writeLine({ posts, early, errors: outcomes.map((it) => it.error === undefined ? null : String(it.error)) });
		const answer = readLine();
		for (const index of answer.order) {
			respond(fetches[index], answer.responses[index]);
			if (command.apart) await settle();
		}
		await Promise.all(outcomes.map((it) => it.done));
		const posted = fetches.length;
		fetches = [];
		return { posted, outcomes: outcomes.map((it) => it.resolved ? { result: it.result } : { error: it.error === undefined ? null : it.error }) };
	},
	async refused(command) {
		let args, mutated;
		const wanted = argumentTypes(command.path);
		const rng = random(command.seed);
		for (let i = 0; i < 5; i++) rng();
		try {
			args = prepared(command);
		} catch (e) {
			if (e === "unsupported") return { unsupported: true };
			throw e;
		}
		args[command.index] = mutated = wrong(wanted[command.index], args[command.index], rng, true);
		fetches = [];
		const outcome = start(command, args);
		await settle();
		const sent = fetches.map((it) => it.params && it.params.body);
		for (const one of fetches) one.reject("no response");
		if (outcome.done) await outcome.done;
		fetches = [];
		let shown;
		try { shown = typeof mutated === "symbol" || typeof mutated === "function" || typeof mutated === "bigint" ? typeof mutated : JSON.stringify(mutated); } catch { shown = typeof mutated; }
		return { sent, rejected: outcome.rejected === true || outcome.threw === true, shown: String(shown), type: JSON.stringify(wanted[command.index]) };
	},
};

bomba = await import(pathToFileURL(process.argv[2]));
writeLine({ ready: true });
while (true) {
	const command = readLine();
	let answer;
	try { answer = await operations[command.op](command); } catch (e) { answer = { broken: String(e instanceof Error ? e.stack : e) }; }
	writeLine(answer);
}
