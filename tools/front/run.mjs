// Runs the scripts of a page in a small document and records what they ask for. Reads scenarios from a file, one JSON object
// per line: {html, url, scripts: {path: source}, storage, steps: [...]}; writes what was observed after each step.
import fs from "node:fs";
import vm from "node:vm";
import { Document, Element, Event, matches, parse } from "./dom.mjs";

function jquery(w) {
	const doc = w.document;
	const readies = [];
	class JQ {
		constructor(es) { this.es = es; es.forEach((e, i) => { this[i] = e; }); this.length = es.length; }
		get(i) { return i === undefined ? this.es : this.es.at(i); }
		toArray() { return this.es; }
		[Symbol.iterator]() { return this.es[Symbol.iterator](); }
		each(f) { for (let i = 0; i < this.es.length; i++) if (f.call(this.es[i], i, this.es[i]) === false) break; return this; }
		map(f) { return new JQ(this.es.map((e, i) => f.call(e, i, e))).wrap(); }
		filter(s) { return $(this.es.filter((e, i) => typeof s === "function" ? s.call(e, i, e) : matches(e, s))); }
		not(s) { return $(this.es.filter((e, i) => !$(e).is(typeof s === "function" ? () => s.call(e, i, e) : s))); }
		eq(i) { return $(this.es.slice(i, i + 1 || undefined)); }
		first() { return this.eq(0); }
		last() { return $(this.es.slice(-1)); }
		index(x) { const e = x === undefined ? this.es[0] : x.es ? x.es[0] : x; return x === undefined ? (e && e.parentNode ? e.parentNode.children.indexOf(e) : -1) : this.es.indexOf(e); }
		find(s) { return $(this.es.flatMap(e => e.querySelectorAll(s))); }
		children(s) { return $(this.es.flatMap(e => e.children).filter(e => !s || matches(e, s))); }
		parent() { return $(this.es.map(e => e.parentNode).filter(Boolean)); }
		closest(s) { return $(this.es.map(e => e.closest(s)).filter(Boolean)); }
		next() { return $(this.es.map(e => e.nextElementSibling).filter(Boolean)); }
		prev() { return $(this.es.map(e => e.previousElementSibling).filter(Boolean)); }
		is(s) { return this.es.some((e, i) => typeof s === "function" ? s.call(e, i, e) : typeof s === "string" ? matches(e, s) : (s.es || [s]).includes(e)); }
		ready(f) { return $(f) && this; }
		on(ts, sel, f) {
			for (const t of ts.split(/\s+/)) for (const e of this.es) {
				const type = t.split(".")[0];
				if (typeof sel === "function") e.addEventListener(type, sel);
				else e.addEventListener(type, ev => { const n = ev.target.closest(sel); if (n) return f.call(n, ev); });
			}
			return this;
		}
		one(t, f) { for (const e of this.es) e.addEventListener(t, f, { once: true }); return this; }
		off(t) { for (const e of this.es) if (e.listeners) e.listeners[t] = []; return this; }
		trigger(t) { for (const e of this.es) e.dispatchEvent(new Event(typeof t === "string" ? t.split(".")[0] : t.type)); return this; }
		val(v) {
			if (arguments.length === 0) {
				const e = this.es[0];
				if (!e) return undefined;
				return e.localName === "select" && !e.chosen() ? null : e.value;
			}
			for (const e of this.es) {
				const x = typeof v === "function" ? v.call(e, 0, $(e).val()) : v;
				if (e.localName === "select") e.picked = x === null || x === undefined ? null : e.options.find(o => o.value === String(x)) || null;
				else e.value = x === null || x === undefined ? "" : String(x);
			}
			return this;
		}
		text(v) { if (arguments.length === 0) return this.es.map(e => e.textContent).join(""); for (const e of this.es) e.textContent = String(typeof v === "function" ? v.call(e, 0, e.textContent) : v); return this; }
		html(v) { if (arguments.length === 0) return this.es[0] && this.es[0].innerHTML; for (const e of this.es) e.innerHTML = v; return this; }
		attr(n, v) {
			if (typeof n === "object") { for (const k in n) this.attr(k, n[k]); return this; }
			if (v === undefined) { const e = this.es[0]; return !e ? undefined : e instanceof Element ? e.getAttribute(n) ?? undefined : e[n]; }
			for (const e of this.es) v === null ? e.removeAttribute(n) : e.setAttribute(n, v);
			return this;
		}
		removeAttr(n) { for (const e of this.es) e.removeAttribute(n); return this; }
		prop(n, v) { if (v === undefined) return this.es[0] && this.es[0][n]; for (const e of this.es) e[n] = v; return this; }
		data(n, v) { if (v === undefined) return this.es[0] && (this.es[0].dataset[n] ?? this.es[0].getAttribute("data-" + n)); for (const e of this.es) e.dataset[n] = v; return this; }
		css(n, v) { if (typeof n === "string" && v === undefined) return this.es[0] && this.es[0].style[n]; for (const e of this.es) Object.assign(e.style, typeof n === "string" ? { [n]: v } : n); return this; }
		addClass(c) { for (const e of this.es) e.classList.add(...c.split(/\s+/)); return this; }
		removeClass(c) { for (const e of this.es) e.classList.remove(...c.split(/\s+/)); return this; }
		toggleClass(c, on) { for (const e of this.es) for (const x of c.split(/\s+/)) e.classList.toggle(x, on); return this; }
		hasClass(c) { return this.es.some(e => e.classList.contains(c)); }
		nodes(xs) { return xs.flat(9).flatMap(x => x.es ? x.es : typeof x === "string" ? parse(doc, x) : [x]); }
		append(...x) { for (const e of this.es) e.append(...this.nodes(x)); return this; }
		prepend(...x) { for (const e of this.es) e.prepend(...this.nodes(x)); return this; }
		appendTo(x) { $(x).append(this); return this; }
		empty() { for (const e of this.es) e.replaceChildren(); return this; }
		remove() { for (const e of this.es) e.remove(); return this; }
		replaceWith(x) { for (const e of this.es) { e.before(...this.nodes([x])); e.remove(); } return this; }
		before(...x) { for (const e of this.es) e.before(...this.nodes(x)); return this; }
		after(...x) { for (const e of this.es) e.after(...this.nodes(x)); return this; }
		siblings(s) { return $(this.es.flatMap(e => e.parentNode.children.filter(x => x !== e && (!s || matches(x, s))))); }
		slice(a, b) { return $(this.es.slice(a, b)); }
		add(x) { return $([...this.es, ...$(x).es]); }
		has(s) { return $(this.es.filter(e => e.querySelector(s))); }
		bind(t, f) { return this.on(t, f); }
		delegate(s, t, f) { return this.on(t, s, f); }
		triggerHandler(t) { return this.trigger(t); }
		detach() { return this.remove(); }
		DataTable(o) { return table(this.es[0], o || {}); }
		dataTable(o) { this.DataTable(o); return this; }
		wrap() {
			// What is not known here only changes how the page looks.
			return new Proxy(this, { get(t, k) { return k in t || typeof k === "symbol" || k === "then" || k === "await" ? t[k] : () => $(t.es); } });
		}
	}
	for (const t of ["click", "dblclick", "change", "input", "submit", "keyup", "keydown", "focus", "blur", "mouseenter", "mouseleave", "hover"])
		JQ.prototype[t] = function (f) { return f ? this.on(t, f) : this.trigger(t); };
	function $(x) {
		if (typeof x === "function") {
			const f = () => { try { x.call(doc, $); } catch (e) { w.failed(e); } };
			doc.readyState === "complete" ? queueMicrotask(f) : readies.push(f);
			return new JQ([doc]).wrap();
		}
		if (typeof x === "string") return new JQ(x.trim()[0] === "<" ? parse(doc, x.trim()) : doc.querySelectorAll(x)).wrap();
		if (x && x.es) return x;
		return new JQ(Array.isArray(x) ? x : x === undefined || x === null ? [] : [x]).wrap();
	}
	$.fn = JQ.prototype;
	$.fn.dataTable = Object.assign($.fn.dataTable, {
		render: { text: () => ({ display: d => String(d).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;") }) },
	});
	$.each = (o, f) => { Array.isArray(o) ? o.every((v, i) => f.call(v, i, v) !== false) : Object.entries(o).every(([k, v]) => f.call(v, k, v) !== false); return o; };
	$.map = (a, f) => a.flatMap((v, i) => { const r = f(v, i); return r === null || r === undefined ? [] : r; });
	$.extend = (...o) => Object.assign(...o);
	$.trim = s => String(s).trim();
	$.escapeSelector = s => String(s).replace(/[^\w\-\u0080-\uffff]/g, "\\$&");
	$.param = o => new URLSearchParams(o).toString();
	const enc = d => d === undefined || d === null ? "" : typeof d === "string" ? d : new URLSearchParams(d).toString();
	$.ajax = (u, o) => {
		o = typeof u === "object" ? u : { ...o, url: u };
		const q = enc(o.data);
		const p = w.request(o.url + (q ? (o.url.includes("?") ? "&" : "?") + q : ""));
		const call = f => (...a) => { try { f(...a); } catch (e) { w.failed(e); } };
		const json = r => JSON.parse(r.body);
		const x = p.then(r => { if (r.status < 200 || r.status > 299) throw Object.assign(new Error("status"), { status: r.status, responseText: r.body }); return json(r); });
		x.catch(() => {});
		const xhr = {
			done(f) { x.then(call(d => f(d, "success", xhr)), () => {}); return xhr; },
			fail(f) { x.catch(call(e => f(xhr, "error", e))); return xhr; },
			always(f) { x.then(call(d => f(d, "success", xhr)), call(e => f(xhr, "error", e))); return xhr; },
			then(f, g) { return x.then(f, g); },
			catch(f) { return x.catch(f); },
		};
		x.catch(e => { xhr.status = e.status; xhr.responseText = e.responseText; });
		if (o.success) xhr.done(o.success);
		if (o.error) xhr.fail(o.error);
		if (o.complete) xhr.always(o.complete);
		return xhr;
	};
	$.getJSON = $.get = (url, data, success) => typeof data === "function" ? $.ajax({ url, success: data }) : $.ajax({ url, data, success });
	$.when = (...xs) => {
		const all = Promise.all(xs), call = f => (...a) => { try { f(...a); } catch (e) { w.failed(e); } };
		all.catch(() => {});
		const d = { done(f) { all.then(call(r => f(...r)), () => {}); return d; }, fail(f) { all.catch(call(f)); return d; }, always(f) { all.then(call(f), call(f)); return d; }, then: (f, g) => all.then(r => f && f(...r), g), catch: f => all.catch(f) };
		return d;
	};
	$.isEmptyObject = o => Object.keys(o).length === 0;
	$.isArray = Array.isArray;
	$.isFunction = f => typeof f === "function";
	$.inArray = (x, a) => a.indexOf(x);
	$.grep = (a, f) => a.filter((x, i) => f(x, i));
	$.makeArray = a => [...a];
	$.noop = () => {};
	$.parseHTML = h => parse(doc, h);
	$.ajaxSetup = () => {};
	// What the data table does with rows: strings are HTML, unless a column renders them in another way.
	function table(el, o) {
		const body = el.querySelector("tbody") || (() => { const b = doc.createElement("tbody"); el.append(b); return b; })();
		const cols = i => (o.columns && o.columns[i]) || (o.columnDefs || []).find(c => c.targets === "_all" || [].concat(c.targets).includes(i)) || {};
		const chain = x => new Proxy(x, { get(t, k) { return k in t || typeof k === "symbol" || k === "then" ? t[k] : () => chain(t); } });
		const rowapi = es => chain({ node: () => es[0], nodes: () => $(es), select() { es.forEach(e => e && e.classList.add("selected")); return this; }, draw() { return this; }, length: es.length, any: () => es.length > 0, data: () => es[0] && es[0].data });
		const add = r => {
			let tr = r && r.es ? r.es[0] : r;
			if (!(tr instanceof Element)) {
				tr = doc.createElement("tr");
				tr.data = r;
				(Array.isArray(r) ? r : (o.columns || []).map(c => r[c.data])).forEach((v, i) => {
					const td = doc.createElement("td"), f = cols(i).render;
					const t = typeof f === "function" ? f(v, "display", r, { row: 0, col: i }) : f && f.display ? f.display(v) : v;
					if (t instanceof Element) td.append(t); else td.innerHTML = String(t);
					tr.append(td);
				});
				if (o.createdRow) o.createdRow(tr, r, 0, tr.children);
			}
			body.append(tr);
			return tr;
		};
		const row = s => rowapi(typeof s === "string" ? [...body.walk()].filter(e => s[0] === "#" ? e.id === s.slice(1) : matches(e, s)) : s instanceof Element ? [s] : typeof s === "number" ? [body.children[s]] : []);
		row.add = r => rowapi([add(r)]);
		const rows = s => s === undefined ? rowapi(body.children) : row(s);
		rows.add = rs => rowapi([...rs].map(add));
		// The order in which the rows are shown at first: by the values that the cells name, or their text.
		const sort = by => {
			const keys = [by].flat().length && !Array.isArray(by[0]) ? [by] : by;
			const at = (tr, i) => { const c = tr.children[i]; return c === undefined ? "" : c.getAttribute("data-order") ?? c.getAttribute("data-sort") ?? c.textContent.trim(); };
			const num = x => { const s = x.toLowerCase().trim(); return s === "inf" || s === "infinity" || s === "+inf" ? Infinity : s === "-inf" ? -Infinity : s === "" ? NaN : Number(s); };
			const rows = body.children.slice();
			for (const [i, dir] of keys.slice().reverse()) {
				const xs = new Map(rows.map(r => [r, at(r, i)])), ns = [...xs.values()].every(x => !Number.isNaN(num(x)));
				const cmp = (a, b) => { const [x, y] = ns ? [num(xs.get(a)), num(xs.get(b))] : [xs.get(a).toLowerCase(), xs.get(b).toLowerCase()]; return x < y ? -1 : x > y ? 1 : 0; };
				rows.sort((a, b) => dir === "desc" ? -cmp(a, b) : cmp(a, b));
			}
			doc.order = rows.map(r => r.getAttribute("id"));
		};
		if (el.getAttribute("id") === "sort_me") o.ordering === false ? doc.order = body.children.map(r => r.getAttribute("id")) : sort(o.order || o.aaSorting || [[0, "asc"]]);
		return chain({ row, rows, order(by) { if (by) sort(by); return this; }, on(t, s, f) { $(el).on(t, s, f); return this; }, draw() { return this; } });
	}
	$.start = () => { doc.readyState = "complete"; doc.dispatchEvent(new Event("DOMContentLoaded")); w.dispatch("load"); readies.forEach(f => f()); };
	return $;
}

const settle = async () => { for (let i = 0; i < 8; i++) await new Promise(r => setImmediate(r)); };
const sink = new Proxy(function () {}, { get: () => sink, apply: () => sink, construct: () => sink });

async function open(s, store) {
	const doc = new Document(s.html);
	const base = s.url;
	let navs = [], errors = [], alerts = 0, pending = [];
	const failed = e => errors.push(String(e && e.stack || e).slice(0, 400));
	const safe = (f, e) => { try { return f(); } catch (x) { failed(x); } };
	const go = u => navs.push(String(u));
	const here = new URL(base);
	const location = {
		get href() { return here.href; }, set href(u) { go(u); }, assign: go, replace: go, reload: () => go(here.href),
		get search() { return here.search; }, set search(q) { const u = new URL(here); u.search = q; go(u); },
		get hash() { return here.hash; }, get pathname() { return here.pathname; }, get origin() { return here.origin; },
		get host() { return here.host; }, get hostname() { return here.hostname; }, get protocol() { return here.protocol; },
		toString: () => here.href,
	};
	const storage = { getItem: k => store.has(k) ? store.get(k) : null, setItem: (k, v) => store.set(k, String(v)), removeItem: k => store.delete(k), clear: () => store.clear(), get length() { return store.size; } };
	const request = url => new Promise((res, rej) => pending.push({ url: String(url), res, rej }));
	const listeners = {};
	const w = { failed, request, document: doc, dispatch: t => (listeners[t] || []).forEach(f => safe(() => f(new Event(t)))) };
	const $ = jquery(w);
	class Option extends Element {
		constructor(text = "", value, def, sel) { super(doc, "option", value === undefined ? {} : { value: String(value) }); this.append(String(text)); if (def || sel) this.attrs.selected = ""; }
	}
	const g = {
		document: doc, $, jQuery: $, console: { log() {}, debug() {}, info() {}, warn() {}, error() {}, trace() {} }, localStorage: storage, sessionStorage: { ...storage, getItem: () => null },
		alert: () => { alerts++; }, confirm: () => true, Option, Event, HTMLElement: Element, Element, URL, URLSearchParams, setTimeout: (f, t, ...a) => setTimeout(() => safe(() => f(...a)), 0), clearTimeout, queueMicrotask,
		setInterval: () => 0, clearInterval() {}, requestAnimationFrame: f => setImmediate(f), navigator: { userAgent: "x", language: "en" }, history: { pushState() {}, replaceState() {} }, moment: sink, bootstrap: sink,
		matchMedia: () => ({ matches: false, addEventListener() {}, addListener() {} }), CSS: { escape: x => $.escapeSelector(x) }, getComputedStyle: () => ({}), scrollTo() {},
		addEventListener: (t, f) => (listeners[t] ||= []).push(f), removeEventListener() {},
		open: u => go(u), AbortController, AbortSignal, structuredClone, performance, TextEncoder, TextDecoder, Node: Element, CustomEvent: Event, encodeURIComponent,
		fetch: async u => { const r = await request(u && u.url || u); return { ok: r.status >= 200 && r.status < 300, status: r.status, json: async () => JSON.parse(r.body), text: async () => r.body }; },
	};
	Object.defineProperty(g, "location", { get: () => location, set: go, enumerable: true });
	g.window = g; g.self = g; g.globalThis = g;
	doc.defaultView = g;
	Object.defineProperty(doc, "location", { get: () => location, set: go });
	// An error in a handler does not stop the others.
	const add = doc.addEventListener;
	for (const p of [Object.getPrototypeOf(Object.getPrototypeOf(doc))]) {
		p.addEventListener = function (t, f, o) {
			(this.listeners[t] ||= []).push({ f: typeof f === "function" ? function (ev) { const n = this; return safe(() => f.call(n, ev)); } : f, once: !!(o && o.once) });
		};
	}
	const context = vm.createContext(g);
	const rejected = e => failed(e);
	process.on("unhandledRejection", rejected);
	const mods = new Map();
	const load = (path, from) => {
		const p = new URL(path, from).pathname;
		if (!mods.has(p)) {
			if (!(p in s.scripts)) throw new Error("no script " + p);
			mods.set(p, new vm.SourceTextModule(s.scripts[p], { context, identifier: here.origin + p }));
		}
		return mods.get(p);
	};
	for (const e of doc.querySelectorAll("script")) {
		const src = e.getAttribute("src");
		try {
			if (src && new URL(src, base).origin !== here.origin) continue;
			const text = src ? s.scripts[new URL(src, base).pathname] : e.textContent;
			if (text === undefined) throw new Error("no script " + src);
			if (e.type === "module") {
				const m = src ? load(src, base) : new vm.SourceTextModule(text, { context, identifier: base });
				if (m.status === "unlinked") await m.link((spec, ref) => load(spec, ref.identifier));
				await m.evaluate();
			} else vm.runInContext(text, context);
		} catch (x) { failed(x); }
	}
	$.start();
	await settle();
	const show = u => { const x = new URL(u, base); return { host: x.origin === here.origin ? "" : x.host, path: decodeURIComponent(x.pathname), params: [...x.searchParams].map(([k, v]) => [k, v]), raw: u }; };
	const opts = id => { const e = doc.getElementById(id); return e ? e.options.map(o => o.value) : []; };
	const val = id => { const e = doc.getElementById(id); return !e ? "?" : e.localName === "select" && !e.chosen() ? "" : e.value; };
	const look = () => {
		const rows = doc.querySelectorAll("#mrTable tbody tr").map(r => ({ cells: r.children.map(c => c.textContent), title: r.getAttribute("title") || "", tags: [...r.walk()].map(x => x.localName).filter(x => x !== "td" && x !== "th") }));
		const o = {
			first: opts("firstSelect"), second: opts("secondSelect"), values: [val("repoSelect"), val("firstSelect"), val("secondSelect")],
			fields: [val("selectedRepo"), val("selectedFirst"), val("selectedSecond")], counts: doc.querySelectorAll(".branchCount").map(e => e.textContent),
			rows, highlighted: (doc.getElementById("highlighted") || { textContent: "" }).textContent, selrepo: val("select_repo"),
			busy: doc.querySelectorAll(".spanner, .overlay").some(e => e.classList.contains("show")), anchor: doc.scrolled ? doc.scrolled.id : "",
			order: doc.order || [], selected: doc.querySelectorAll("#sort_me tbody tr").filter(r => r.classList.contains("selected")).map(r => r.getAttribute("id")),
			pending: pending.map(p => show(p.url)), navs: navs.map(show), alerts, errors,
		};
		navs = []; errors = []; alerts = 0;
		return o;
	};
	const common = mods.get("/static/common.js");
	const presets = common && common.status === "evaluated" ? common.namespace.path_pattern_presets || {} : {};
	return { doc, look, pending, safe, show, presets, base, here, close: () => process.off("unhandledRejection", rejected) };
}

async function scenario(s) {
	const store = new Map(), obs = [];
	let p = await open(s, store);
	obs.push(p.look());
	for (const t of s.steps) {
		const { doc, pending, safe, show, base, here } = p;
		let missing = false, more = {};
		const user = (e, f) => { if (e) safe(f); else missing = true; };
		const fire = (e, ...ts) => ts.forEach(x => e.dispatchEvent(new Event(x)));
		const id = t.id && doc.getElementById(t.id);
		if (t.do === "select") {
			const opt = id && id.options.find(x => x.value === t.value);
			user(opt, () => { id.value = t.value; fire(id, "input", "change"); });
		} else if (t.do === "click") {
			const e = t.id ? id : doc.querySelectorAll(t.tag).filter(x => x.textContent.trim() === t.text)[t.n];
			user(e, () => fire(e, "click"));
		} else if (t.do === "type") {
			user(id, () => { id.value = t.value; fire(id, "input", "change"); });
		} else if (t.do === "check") {
			user(id, () => { id.checked = t.value; fire(id, "click", "input", "change"); });
		} else if (t.do === "dblclick") {
			const e = doc.querySelectorAll("#mrTable tbody tr")[t.row];
			user(e && e.children[0], () => fire(e.children[0], "dblclick"));
		} else if (t.do === "reload") {
			p.close();
			p = await open(s, store);
		} else if (t.do === "answer") {
			const q = pending.splice(t.i % Math.max(1, pending.length), 1)[0];
			if (q) {
				const u = new URL(q.url, base);
				const list = u.pathname === "/branches" ? s.server[u.searchParams.get("repo")] : undefined;
				const names = list && list[u.searchParams.get("fetch") === "true" ? "fetched" : "plain"];
				const github = u.origin !== here.origin;
				const ok = !t.fail && (github || !!names);
				if (!ok) q.res({ status: 500, body: "failed" });
				else q.res({ status: 200, body: JSON.stringify(github ? s.github : { branch: names.map(n => [n, "0123456789ab"]) }) });
				more = { ok, names: names || [] };
			} else missing = true;
		} else throw new Error("unknown step " + t.do);
		await settle();
		obs.push({ ...p.look(), ...more, missing });
	}
	p.close();
	return { obs, presets: p.presets };
}

const lines = fs.readFileSync(process.argv[2], "utf8").split("\n").filter(Boolean);
const shared = JSON.parse(lines[0]);
const out = [];
for (const l of lines.slice(1)) {
	const s = JSON.parse(l);
	s.html = shared.html[s.page];
	s.scripts = shared.scripts;
	out.push(JSON.stringify(await scenario(s)));
}
fs.writeFileSync(process.argv[3], out.join("\n") + "\n");
process.exit(0);
