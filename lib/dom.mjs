// As much of the document object model as forms made by scripts may need, with the checks and conversions browsers do
const nameStart = /^[A-Za-z_:\u00C0-\u{10FFFF}]/u;
const validName = (name) => nameStart.test(name) && !/[\s\/>=\0]/.test(name);
class DomError extends Error { constructor(name, message) { super(message); this.name = name; } }

class Node {
	constructor() { this.parentNode = null; this.childNodes = []; this.listeners = {}; }
	get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
	get firstChild() { return this.childNodes[0] ?? null; }
	get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
	get nextSibling() { return this.parentNode ? this.parentNode.childNodes[this.parentNode.childNodes.indexOf(this) + 1] ?? null : null; }
	insertBefore(node, before) {
		if (!(node instanceof Node)) throw new TypeError("parameter 1 is not of type 'Node'");
		if (node instanceof DocumentFragment) { for (const it of [...node.childNodes]) this.insertBefore(it, before); return node; }
		for (let at = this; at; at = at.parentNode) if (at === node) throw new DomError("HierarchyRequestError", "The new child contains the parent");
		node.remove();
		const index = before ? this.childNodes.indexOf(before) : this.childNodes.length;
		if (index < 0) throw new DomError("NotFoundError", "Not a child");
		this.childNodes.splice(index, 0, node);
		node.parentNode = this;
		return node;
	}
	appendChild(node) { return this.insertBefore(node, null); }
	removeChild(node) { if (node.parentNode !== this) throw new DomError("NotFoundError", "Not a child"); node.remove(); return node; }
	replaceChild(node, old) { this.insertBefore(node, old); old.remove(); return old; }
	append(...nodes) { for (const it of nodes) this.appendChild(it instanceof Node ? it : new Text(String(it))); }
	prepend(...nodes) { const first = this.firstChild; for (const it of nodes) this.insertBefore(it instanceof Node ? it : new Text(String(it)), first); }
	replaceChildren(...nodes) { for (const it of [...this.childNodes]) it.remove(); this.append(...nodes); }
	after(...nodes) { const next = this.nextSibling; for (const it of nodes) this.parentNode.insertBefore(it instanceof Node ? it : new Text(String(it)), next); }
	before(...nodes) { for (const it of nodes) this.parentNode.insertBefore(it instanceof Node ? it : new Text(String(it)), this); }
	remove() { if (this.parentNode) { this.parentNode.childNodes.splice(this.parentNode.childNodes.indexOf(this), 1); this.parentNode = null; } }
	contains(other) { for (let at = other; at; at = at.parentNode) if (at === this) return true; return false; }
	hasChildNodes() { return this.childNodes.length > 0; }
	get textContent() { return this.childNodes.map((it) => it.textContent).join(""); }
	set textContent(text) { this.replaceChildren(); if (text !== null && text !== undefined && String(text) !== "") this.appendChild(new Text(String(text))); }
	addEventListener(type, listener, options) { (this.listeners[type] ??= []).push({ listener, once: options && options.once }); }
	removeEventListener(type, listener) { this.listeners[type] = (this.listeners[type] ?? []).filter((it) => it.listener !== listener); }
	// Returns what the handlers returned
	fire(type, target) {
		const event = { type, target: target ?? this, currentTarget: this, defaultPrevented: false, preventDefault() { this.defaultPrevented = true; }, stopPropagation() { this.stopped = true; }, stopImmediatePropagation() { this.stopped = true; } };
		const results = [];
		for (let at = this; at && !event.stopped; at = at.parentNode) {
			event.currentTarget = at;
			if (typeof at["on" + type] === "function") results.push(at["on" + type](event));
			for (const it of [...(at.listeners[type] ?? [])]) {
				if (it.once) at.removeEventListener(type, it.listener);
				results.push(typeof it.listener === "function" ? it.listener.call(at, event) : it.listener.handleEvent(event));
			}
		}
		this.lastEvent = event;
		return results;
	}
	dispatchEvent(event) { this.fire(event.type); return true; }
}
class Text extends Node {
	constructor(data) { super(); this.data = data; this.nodeType = 3; }
	get textContent() { return this.data; }
	set textContent(text) { this.data = String(text); }
	get nodeValue() { return this.data; }
	set nodeValue(text) { this.data = String(text); }
}
class DocumentFragment extends Node {}
class Element extends Node {
	constructor(tag) {
		super();
		this.nodeType = 1;
		this.localName = tag.toLowerCase();
		this.attributes = {};
		this.style = { setProperty(name, value) { this[name] = value; } };
		this.dataset = {};
		this.typed = "";
		this.checked = false;
	}
	get tagName() { return this.localName.toUpperCase(); }
	get nodeName() { return this.tagName; }
	get children() { return this.childNodes.filter((it) => it instanceof Element); }
	get firstElementChild() { return this.children[0] ?? null; }
	get lastElementChild() { return this.children[this.children.length - 1] ?? null; }
	get childElementCount() { return this.children.length; }
	setAttribute(name, value) { if (!validName(String(name))) throw new DomError("InvalidCharacterError", `'${name}' is not a valid attribute name`); this.attributes[String(name).toLowerCase()] = String(value); }
	getAttribute(name) { return this.attributes[String(name).toLowerCase()] ?? null; }
	hasAttribute(name) { return this.getAttribute(name) !== null; }
	removeAttribute(name) { delete this.attributes[String(name).toLowerCase()]; }
	toggleAttribute(name, force) { if (force ?? !this.hasAttribute(name)) this.setAttribute(name, ""); else this.removeAttribute(name); }
	get classList() {
		const parts = () => (this.getAttribute("class") ?? "").split(/\s+/).filter((it) => it);
		const store = (list) => this.setAttribute("class", list.join(" "));
		return { add: (...names) => store([...new Set([...parts(), ...names])]), remove: (...names) => store(parts().filter((it) => !names.includes(it))), contains: (name) => parts().includes(name), toggle: (name) => parts().includes(name) ? store(parts().filter((it) => it !== name)) : store([...parts(), name]) };
	}
	get value() {
		if (this.localName === "textarea") return this.typed;
		if (this.localName !== "input") return this.getAttribute("value") ?? "";
		if (this.type === "checkbox" || this.type === "radio") return this.getAttribute("value") ?? "on";
		return this.sanitise(this.typed);
	}
	set value(value) { if (this.localName === "input" || this.localName === "textarea") this.typed = this.sanitise(value === null ? "" : String(value)); else this.setAttribute("value", value); }
	sanitise(value) {
		if (this.localName !== "input") return value;
		if (this.type === "number" || this.type === "range") return /^-?(\d+|\d*\.\d+)([eE][-+]?\d+)?$/.test(value) && Number.isFinite(Number(value)) ? value : "";
		return value.replace(/[\r\n]/g, "");
	}
	get valueAsNumber() { return this.type === "number" && this.value !== "" ? Number(this.value) : NaN; }
	set valueAsNumber(value) { this.value = String(value); }
	click() { this.fire("click"); }
	focus() {}
	blur() {}
	scrollIntoView() {}
	// Contents given as text may contain markup, it's only important if it does
	get innerHTML() { return this.textContent.replaceAll("&", "&amp;").replaceAll("<", "&lt;").replaceAll(">", "&gt;"); }
	set innerHTML(html) { this.textContent = String(html).replace(/<[a-zA-Z\/!][^>]*>/g, "").replaceAll("&lt;", "<").replaceAll("&gt;", ">").replaceAll("&quot;", '"').replaceAll("&amp;", "&"); }
	get innerText() { return this.textContent; }
	set innerText(text) { this.textContent = text; }
	*descendants() { for (const it of this.children) { yield it; yield* it.descendants(); } }
	matches(selector) { return selector.split(",").some((it) => { it = it.trim(); return it === "*" || (it[0] === "." ? this.classList.contains(it.slice(1)) : it[0] === "#" ? this.id === it.slice(1) : this.localName === it.toLowerCase()); }); }
	querySelectorAll(selector) { return [...this.descendants()].filter((it) => it.matches(selector)); }
	querySelector(selector) { return this.querySelectorAll(selector)[0] ?? null; }
	getElementsByTagName(name) { return this.querySelectorAll(name); }
	getElementsByClassName(name) { return this.querySelectorAll("." + name); }
	closest(selector) { for (let at = this; at instanceof Element; at = at.parentNode) if (at.matches(selector)) return at; return null; }
}
for (const name of ["id", "name", "title", "placeholder", "step", "min", "max"]) Object.defineProperty(Element.prototype, name, { get() { return this.getAttribute(name) ?? ""; }, set(value) { this.setAttribute(name, value); }, configurable: true });
for (const name of ["open", "required", "disabled", "hidden", "readOnly"]) Object.defineProperty(Element.prototype, name, { get() { return this.hasAttribute(name); }, set(value) { this.toggleAttribute(name, Boolean(value)); }, configurable: true });
Object.defineProperty(Element.prototype, "className", { get() { return this.getAttribute("class") ?? ""; }, set(value) { this.setAttribute("class", value); } });
Object.defineProperty(Element.prototype, "htmlFor", { get() { return this.getAttribute("for") ?? ""; }, set(value) { this.setAttribute("for", value); } });
Object.defineProperty(Element.prototype, "type", { get() { return (this.getAttribute("type") ?? (this.localName === "input" ? "text" : this.localName === "button" ? "submit" : "")).toLowerCase(); }, set(value) { this.setAttribute("type", value); } });

export function makeDocument() {
	const document = new Element("document");
	document.createElement = (name) => {
		if (!validName(String(name))) throw new DomError("InvalidCharacterError", `The tag name provided ('${name}') is not a valid name.`);
		return new Element(String(name));
	};
	document.createTextNode = (text) => new Text(String(text));
	document.createDocumentFragment = () => new DocumentFragment();
	document.getElementById = (id) => [...document.descendants()].find((it) => it.id === id) ?? null;
	document.body = new Element("body");
	document.appendChild(document.body);
	return document;
}
export { Node, Element, Text, DocumentFragment };
