// A small document: enough of the DOM and of jQuery to run the scripts of the web pages without a browser.

const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const RAW = new Set(["script", "style"]);
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };

export function decode(s) {
	return s.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z]+);?/gi, (m, e) => {
		if (e[0] === "#") return String.fromCodePoint(/^#x/i.test(e) ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
		return e.toLowerCase() in ENT ? ENT[e.toLowerCase()] : m;
	});
}

class Text {
	constructor(data) { this.data = data; this.parentNode = null; }
	get textContent() { return this.data; }
	get nodeType() { return 3; }
}

export class Event {
	constructor(type, init = {}) {
		this.type = type; this.bubbles = init.bubbles !== false; this.target = null; this.currentTarget = null;
		this.defaultPrevented = false; this.stopped = false;
	}
	preventDefault() { this.defaultPrevented = true; }
	stopPropagation() { this.stopped = true; }
	stopImmediatePropagation() { this.stopped = true; }
}

class Target {
	constructor() { this.listeners = {}; }
	addEventListener(type, f, opts) { (this.listeners[type] ||= []).push({ f, once: !!(opts && opts.once) }); }
	removeEventListener(type, f) { this.listeners[type] = (this.listeners[type] || []).filter(x => x.f !== f); }
	dispatchEvent(ev) {
		ev.target ||= this;
		for (let n = this; n; n = n.parentNode || (n.document ? null : n.ownerDocument === undefined ? null : n === n.ownerDocument ? n.defaultView : null)) {
			ev.currentTarget = n;
			for (const l of [...((n.listeners || {})[ev.type] || [])]) {
				if (l.once) n.removeEventListener(ev.type, l.f);
				const r = typeof l.f === "function" ? l.f.call(n, ev) : l.f.handleEvent(ev);
				if (r === false) { ev.preventDefault(); ev.stopped = true; }
			}
			const on = n["on" + ev.type];
			if (typeof on === "function" && on.call(n, ev) === false) ev.preventDefault();
			if (ev.stopped || !ev.bubbles) break;
		}
		return !ev.defaultPrevented;
	}
}

export class Element extends Target {
	constructor(doc, tag, attrs = {}) {
		super();
		this.ownerDocument = doc; this.localName = tag; this.attrs = { ...attrs }; this.childNodes = []; this.parentNode = null; this.style = {};
		this.dirty = undefined; this.dirtyCheck = undefined; this.picked = undefined;
		this.dataset = {};
	}
	get nodeType() { return 1; }
	get tagName() { return this.localName.toUpperCase(); }
	get nodeName() { return this.tagName; }
	get children() { return this.childNodes.filter(x => x instanceof Element); }
	get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
	get firstChild() { return this.childNodes[0] || null; }
	get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
	get firstElementChild() { return this.children[0] || null; }
	sibling(d) { const s = this.parentNode ? this.parentNode.children : [this]; return s[s.indexOf(this) + d] || null; }
	get nextElementSibling() { return this.sibling(1); }
	get previousElementSibling() { return this.sibling(-1); }
	getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
	setAttribute(n, v) { this.attrs[n] = String(v); }
	hasAttribute(n) { return n in this.attrs; }
	removeAttribute(n) { delete this.attrs[n]; }
	toggleAttribute(n, on) { if (on === undefined ? !(n in this.attrs) : on) this.attrs[n] = ""; else delete this.attrs[n]; }
	get id() { return this.attrs.id || ""; }
	set id(v) { this.attrs.id = String(v); }
	get className() { return this.attrs.class || ""; }
	set className(v) { this.attrs.class = String(v); }
	get title() { return this.attrs.title || ""; }
	set title(v) { this.attrs.title = String(v); }
	get type() { return this.attrs.type || ""; }
	get classList() {
		const e = this, get = () => e.className.split(/\s+/).filter(Boolean), set = x => { e.className = x.join(" "); };
		return {
			add: (...c) => set([...new Set([...get(), ...c])]), remove: (...c) => set(get().filter(x => !c.includes(x))),
			contains: c => get().includes(c),
			toggle(c, on) { const h = get().includes(c), w = on === undefined ? !h : on; w ? this.add(c) : this.remove(c); return w; },
		};
	}
	get textContent() { return this.childNodes.map(x => x.textContent).join(""); }
	set textContent(v) { this.replaceChildren(); if (v !== null && v !== undefined && String(v) !== "") this.append(String(v)); }
	get innerText() { return this.textContent; }
	set innerText(v) { this.textContent = v; }
	set innerHTML(v) { this.replaceChildren(...parse(this.ownerDocument, String(v))); }
	get innerHTML() { return this.childNodes.map(serial).join(""); }
	insertAdjacentHTML(where, v) {
		const ns = parse(this.ownerDocument, String(v));
		if (where === "beforeend") this.append(...ns); else if (where === "afterbegin") this.prepend(...ns); else throw new Error("insertAdjacentHTML " + where);
	}
	adopt(n) {
		const x = typeof n === "string" || typeof n === "number" ? new Text(String(n)) : n;
		if (x.parentNode) x.parentNode.removeChild(x);
		x.parentNode = this;
		return x;
	}
	append(...ns) { for (const n of ns) this.childNodes.push(this.adopt(n)); }
	prepend(...ns) { this.childNodes.unshift(...ns.map(n => this.adopt(n))); }
	appendChild(n) { this.append(n); return n; }
	insertBefore(n, ref) { const x = this.adopt(n), i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length; this.childNodes.splice(i, 0, x); return n; }
	removeChild(n) { this.childNodes = this.childNodes.filter(x => x !== n); n.parentNode = null; return n; }
	remove() { if (this.parentNode) this.parentNode.removeChild(this); }
	replaceChildren(...ns) { for (const c of this.childNodes) c.parentNode = null; this.childNodes = []; this.append(...ns); }
	before(...ns) { for (const n of ns) this.parentNode.insertBefore(n, this); }
	after(...ns) { const p = this.parentNode, q = p.childNodes[p.childNodes.indexOf(this) + 1] || null; for (const n of ns) p.insertBefore(n, q); }
	hasChildNodes() { return this.childNodes.length > 0; }
	get childElementCount() { return this.children.length; }
	get isConnected() { return this.ownerDocument.root.contains(this); }
	get outerHTML() { return serial(this); }
	get hidden() { return "hidden" in this.attrs; }
	set hidden(v) { this.toggleAttribute("hidden", !!v); }
	get name() { return this.attrs.name || ""; }
	get rows() { return this.querySelectorAll("tr"); }
	get cells() { return this.children; }
	cloneNode(deep) { const e = new Element(this.ownerDocument, this.localName, this.attrs); if (deep) e.append(...this.childNodes.map(c => c instanceof Text ? new Text(c.data) : c.cloneNode(true))); return e; }
	replaceWith(n) { const p = this.parentNode; p.insertBefore(n, this); this.remove(); }
	contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
	*walk() { for (const c of this.children) { yield c; yield* c.walk(); } }
	matches(sel) { return matches(this, sel); }
	closest(sel) { for (let n = this; n instanceof Element; n = n.parentNode) if (matches(n, sel)) return n; return null; }
	querySelectorAll(sel) { return [...this.walk()].filter(x => matches(x, sel)); }
	querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
	getElementsByTagName(t) { return this.querySelectorAll(t); }
	getElementsByClassName(c) { return this.querySelectorAll("." + c); }
	scrollIntoView() { this.ownerDocument.scrolled = this; }
	focus() {}
	blur() {}
	click() { this.dispatchEvent(new Event("click")); }
	// Form elements.
	get options() { const o = this.querySelectorAll("option"); o.add = x => this.append(x); o.item = i => o[i]; return o; }
	add(o) { this.append(o); }
	get length() { return this.options.length; }
	set length(n) { this.options.slice(n).forEach(o => o.remove()); }
	get text() { return this.textContent.replace(/\s+/g, " ").trim(); }
	set text(v) { this.textContent = v; }
	get selected() { const s = this.closest("select"); return s ? s.chosen() === this : "selected" in this.attrs; }
	set selected(v) { const s = this.closest("select"); if (s) s.picked = v ? this : s.picked === this ? null : s.picked; else this.toggleAttribute("selected", v); }
	chosen() {
		const o = this.options;
		if (this.picked === null) return null;
		if (this.picked && o.includes(this.picked)) return this.picked;
		return o.filter(x => "selected" in x.attrs).pop() || o[0] || null;
	}
	get selectedIndex() { return this.options.indexOf(this.chosen()); }
	set selectedIndex(i) { this.picked = this.options[i] || null; }
	get selectedOptions() { const c = this.chosen(); return c ? [c] : []; }
	get value() {
		if (this.localName === "select") { const c = this.chosen(); return c ? c.value : ""; }
		if (this.localName === "option") return "value" in this.attrs ? this.attrs.value : this.text;
		if (this.dirty !== undefined) return this.dirty;
		return "value" in this.attrs ? this.attrs.value : this.type === "checkbox" ? "on" : "";
	}
	set value(v) {
		if (this.localName === "select") this.picked = this.options.find(o => o.value === String(v)) || null;
		else if (this.localName === "option") this.attrs.value = String(v);
		else this.dirty = v === null ? "" : String(v);
	}
	get checked() { return this.dirtyCheck !== undefined ? this.dirtyCheck : "checked" in this.attrs; }
	set checked(v) { this.dirtyCheck = !!v; }
	get disabled() { return "disabled" in this.attrs; }
	set disabled(v) { this.toggleAttribute("disabled", !!v); }
	get hash() { return ""; }
}

function serial(n) {
	const esc = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;");
	if (n instanceof Text) return esc(n.data);
	const a = Object.entries(n.attrs).map(([k, v]) => ` ${k}="${esc(v)}"`).join("");
	return `<${n.localName}${a}>` + (VOID.has(n.localName) ? "" : n.innerHTML + `</${n.localName}>`);
}

// Compound selectors: tag, #id, .class, [attr=value], :checked, :selected; descendants, children and lists of them.
function compound(e, sel) {
	const re = /([#.]?)((?:\\.|[\w\-\u0080-\uffff*])+)|\[([\w-]+)(?:([~^$*]?)=["']?([^"'\]]*)["']?)?\]|:([\w-]+)(?:\(([^)]*)\))?/gy;
	let pos = 0, m;
	while (pos < sel.length) {
		re.lastIndex = pos;
		m = re.exec(sel);
		if (!m) throw new SyntaxError(`'${sel}' is not a valid selector`);
		pos = re.lastIndex;
		if (m[6]) {
			if (m[6] === "checked") { if (!(e.checked || (e.localName === "option" && e.selected))) return false; }
			else if (m[6] === "selected") { if (!e.selected) return false; }
			else if (m[6] === "first-child") { if (e.previousElementSibling) return false; }
			else if (m[6] === "not") { if (compound(e, m[7])) return false; }
			else throw new SyntaxError(`unknown pseudo-class ${m[6]}`);
		} else if (m[3]) {
			const v = e.getAttribute(m[3]);
			if (v === null) return false;
			if (m[5] !== undefined && !({ "": v === m[5], "~": v.split(/\s+/).includes(m[5]), "^": v.startsWith(m[5]), "$": v.endsWith(m[5]), "*": v.includes(m[5]) })[m[4]]) return false;
		} else {
			const n = m[2].replace(/\\(.)/g, "$1");
			if (m[1] === "#" ? e.id !== n : m[1] === "." ? !e.classList.contains(n) : n !== "*" && e.localName !== n.toLowerCase()) return false;
		}
	}
	return true;
}
export function matches(e, sel) {
	return split(sel, ",").some(s => {
		const parts = split(s.trim().replace(/\s*>\s*/g, " >"), " ").filter(Boolean);
		const up = (n, i) => {
			if (i < 0) return true;
			const child = parts[i + 1] && parts[i + 1][0] === ">";
			for (let p = n.parentNode; p instanceof Element; p = p.parentNode) {
				if (compound(p, parts[i].replace(/^>/, "")) && up(p, i - 1)) return true;
				if (child) return false;
			}
			return false;
		};
		return compound(e, parts[parts.length - 1].replace(/^>/, "")) && up(e, parts.length - 2);
	});
}
function split(s, c) {
	const out = [""];
	let depth = 0;
	for (let i = 0; i < s.length; i++) {
		if (s[i] === "\\") { out[out.length - 1] += s[i] + (s[++i] ?? ""); continue; }
		if (s[i] === "[" || s[i] === "(") depth++;
		if (s[i] === "]" || s[i] === ")") depth--;
		if (s[i] === c && !depth) out.push(""); else out[out.length - 1] += s[i];
	}
	return out;
}

export function parse(doc, s) {
	const root = new Element(doc, "#root");
	let cur = root, i = 0;
	while (i < s.length) {
		const j = s.indexOf("<", i);
		if (j < 0 || j > i) { cur.append(decode(s.slice(i, j < 0 ? s.length : j))); if (j < 0) break; i = j; }
		let m;
		if (s.startsWith("<!--", i)) { const k = s.indexOf("-->", i); i = k < 0 ? s.length : k + 3; continue; }
		if (s.startsWith("<!", i)) { const k = s.indexOf(">", i); i = k < 0 ? s.length : k + 1; continue; }
		if ((m = /^<\/([a-zA-Z][^\s>]*)[^>]*>/.exec(s.slice(i, i + 200)))) {
			const t = m[1].toLowerCase();
			for (let n = cur; n && n !== root; n = n.parentNode) if (n.localName === t) { cur = n.parentNode; break; }
			i += m[0].length;
			continue;
		}
		if ((m = /^<([a-zA-Z][^\s/>]*)/.exec(s.slice(i, i + 100)))) {
			const t = m[1].toLowerCase(), attrs = {};
			i += m[0].length;
			const re = /[\s/]*(?:([^\s=>/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?|(>))/gy;
			for (;;) {
				re.lastIndex = i;
				const a = re.exec(s);
				if (!a) { i = s.length; break; }
				i = re.lastIndex;
				if (a[5]) break;
				const n = a[1].toLowerCase();
				if (!(n in attrs)) attrs[n] = decode(a[2] ?? a[3] ?? a[4] ?? "");
			}
			if (t === "option" && cur.localName === "option") cur = cur.parentNode;
			const e = new Element(doc, t, attrs);
			cur.append(e);
			if (RAW.has(t)) {
				const k = s.toLowerCase().indexOf("</" + t, i);
				e.append(s.slice(i, k < 0 ? s.length : k));
				i = k < 0 ? s.length : s.indexOf(">", k) + 1;
			} else if (!VOID.has(t)) cur = e;
			continue;
		}
		cur.append("<");
		i++;
	}
	const out = root.childNodes;
	for (const n of out) n.parentNode = null;
	return [...out];
}

export class Document extends Target {
	constructor(html) {
		super();
		this.readyState = "loading"; this.scrolled = null;
		this.ownerDocument = this;
		this.root = new Element(this, "#document");
		this.root.append(...parse(this, html));
		this.root.parentNode = this;
	}
	get nodeType() { return 9; }
	get documentElement() { return this.root.querySelector("html"); }
	get body() { return this.root.querySelector("body"); }
	get head() { return this.root.querySelector("head"); }
	getElementById(id) { return [...this.root.walk()].find(e => e.id === String(id)) || null; }
	querySelectorAll(s) { return this.root.querySelectorAll(s); }
	querySelector(s) { return this.root.querySelector(s); }
	getElementsByTagName(s) { return this.root.querySelectorAll(s); }
	getElementsByClassName(s) { return this.root.querySelectorAll("." + s); }
	createElement(t) { return new Element(this, t.toLowerCase()); }
	createTextNode(t) { return new Text(String(t)); }
	createDocumentFragment() { return new Element(this, "#fragment"); }
}
