// A page of the report server, run as a browser would run it: the HTML the
// server sent (parsed by pagechecks.py into a tree), its scripts and the
// Alpine library it ships, on a small document object model.  One request
// per line (JSON), one answer each.
//
//   {op: "open", tree, scripts: {url: source}}   load a page
//   {op: "click", text | row}                    click what carries that text
//   {op: "submit"}                               submit the form with a file chosen
//   {op: "answer", status}                       the server answers the upload
//   {op: "chunk", data}                          bytes of the answer's body arrive
//   {op: "end"} {op: "break"}                    the body ends, the connection is lost
// Every answer carries what is visible then.
"use strict";
const vm = require("vm");
const readline = require("readline");

let W = null;                                     // the page being run

class EvTarget {
    constructor() { this._l = {}; }
    addEventListener(t, f, o) { (this._l[t] = this._l[t] || []).push([f, o]); }
    removeEventListener(t, f) { this._l[t] = (this._l[t] || []).filter(x => x[0] !== f); }
    dispatchEvent(ev) {
        if (!ev.target) ev.target = this;
        const path = [];
        for (let n = this; n; n = n.parentNode) path.push(n);
        if (W && this !== W.document && this !== W) { if (!path.includes(W.document)) path.push(W.document); }
        if (W && this !== W) path.push(W);
        for (const n of (ev.bubbles ? path : [this])) {
            ev.currentTarget = n;
            for (const [f, o] of (n._l[ev.type] || []).slice()) {
                if (o && o.once) n.removeEventListener(ev.type, f);
                typeof f === "function" ? f.call(n, ev) : f.handleEvent(ev);
                if (ev._now) return !ev.defaultPrevented;
            }
            if (ev._stop) break;
        }
        return !ev.defaultPrevented;
    }
}
class Event {
    constructor(type, o = {}) { this.type = type; this.bubbles = !!o.bubbles; this.cancelable = !!o.cancelable; this.defaultPrevented = false; }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this._stop = true; }
    stopImmediatePropagation() { this._stop = this._now = true; }
}
class CustomEvent extends Event { constructor(t, o = {}) { super(t, o); this.detail = o.detail === undefined ? null : o.detail; } }

class Node extends EvTarget {
    constructor() { super(); this.parentNode = null; this.childNodes = []; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === W.document; }
    get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
    get ownerDocument() { return W.document; }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get nextSibling() { const s = this.parentNode ? this.parentNode.childNodes : []; return s[s.indexOf(this) + 1] || null; }
    get previousSibling() { const s = this.parentNode ? this.parentNode.childNodes : []; return s[s.indexOf(this) - 1] || null; }
    get children() { return this.childNodes.filter(n => n instanceof Element); }
    get firstElementChild() { return this.children[0] || null; }
    get nextElementSibling() { let n = this.nextSibling; while (n && !(n instanceof Element)) n = n.nextSibling; return n; }
    get previousElementSibling() { let n = this.previousSibling; while (n && !(n instanceof Element)) n = n.previousSibling; return n; }
    _put(n, at) {
        const kids = n instanceof Fragment ? n.childNodes.slice() : [n];
        const ref = this.childNodes[at] || null;
        for (const k of kids) { k.remove(); }
        at = ref && ref.parentNode === this ? this.childNodes.indexOf(ref) : this.childNodes.length;
        this.childNodes.splice(at, 0, ...kids);
        for (const k of kids) k.parentNode = this;
        kids.length && note({ type: "childList", target: this, addedNodes: kids, removedNodes: [], attributeName: null, oldValue: null });
        return n;
    }
    appendChild(n) { n.remove && n.remove(); return this._put(n, this.childNodes.length); }
    append(...ns) { ns.forEach(n => this.appendChild(typeof n === "string" ? new Text(n) : n)); }
    prepend(...ns) { ns.reverse().forEach(n => this._put(typeof n === "string" ? new Text(n) : n, 0)); }
    insertBefore(n, ref) { n.remove(); return this._put(n, ref ? this.childNodes.indexOf(ref) : this.childNodes.length); }
    removeChild(n) { n.remove(); return n; }
    replaceChildren(...ns) { this.childNodes.slice().forEach(n => n.remove()); this.append(...ns); }
    remove() {
        if (!this.parentNode) return;
        const p = this.parentNode;
        p.childNodes.splice(p.childNodes.indexOf(this), 1);
        this.parentNode = null;
        note({ type: "childList", target: p, addedNodes: [], removedNodes: [this], attributeName: null, oldValue: null });
    }
    after(...ns) { for (const n of ns.reverse()) { n.remove(); this.parentNode._put(n, this.parentNode.childNodes.indexOf(this) + 1); } }
    before(...ns) { for (const n of ns) { n.remove(); this.parentNode._put(n, this.parentNode.childNodes.indexOf(this)); } }
    replaceWith(...ns) { this.before(...ns); this.remove(); }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    get textContent() { return this.childNodes.map(n => n.textContent).join(""); }
    set textContent(v) { this.childNodes.slice().forEach(n => n.remove()); if (v !== "" && v !== null && v !== undefined) this.appendChild(new Text(String(v))); }
    querySelectorAll(sel) {
        const out = [], m = matcher(sel);
        const walk = n => { for (const c of n.children) { if (m(c)) out.push(c); walk(c); } };
        walk(this);
        return out;
    }
    querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
    getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
}
// observers of the tree: told in a microtask, as a browser tells them
const observers = new Set();
class MutationObserver {
    constructor(cb) { this._cb = cb; this._q = []; this._t = []; this._win = W; }
    observe(t, o = {}) { this._t = this._t.filter(x => x[0] !== t); this._t.push([t, o]); observers.add(this); }
    disconnect() { this._t = []; this._q = []; observers.delete(this); }
    takeRecords() { const q = this._q; this._q = []; return q; }
}
function note(r) {
    for (const ob of observers) {
        if (ob._win !== W) continue;
        const sees = ob._t.some(([t, o]) => (r.type === "childList" ? o.childList : o.attributes || o.attributeOldValue) && (t === r.target || (o.subtree && t.contains(r.target))));
        if (!sees) continue;
        ob._q.push(r);
        if (ob._due) continue;
        ob._due = true;
        queueMicrotask(() => { ob._due = false; const q = ob.takeRecords(); if (q.length) ob._cb(q, ob); });
    }
}
class Text extends Node {
    constructor(t) { super(); this.data = t; this.nodeType = 3; }
    get textContent() { return this.data; }
    set textContent(v) { this.data = String(v); }
    get nodeValue() { return this.data; }
    set nodeValue(v) { this.data = String(v); }
    cloneNode() { return new Text(this.data); }
}
class Fragment extends Node {
    constructor() { super(); this.nodeType = 11; }
    cloneNode(deep) { const f = new Fragment(); if (deep) this.childNodes.forEach(c => f.appendChild(c.cloneNode(true))); return f; }
}
class ShadowRoot extends Fragment {}
class Style {
    constructor(el) { this._el = el; this._p = {}; }
    setProperty(k, v, imp) { if (v === "" || v === null) delete this._p[k]; else this._p[k] = String(v); this._sync(); }
    getPropertyValue(k) { return this._p[k] || ""; }
    removeProperty(k) { const v = this._p[k] || ""; delete this._p[k]; this._sync(); return v; }
    get length() { return Object.keys(this._p).length; }
    get cssText() { return Object.entries(this._p).map(([k, v]) => `${k}: ${v};`).join(" "); }
    set cssText(t) { this._load(t); this._sync(); }
    get display() { return this._p.display || ""; }
    set display(v) { this.setProperty("display", v); }
    get visibility() { return this._p.visibility || ""; }
    set visibility(v) { this.setProperty("visibility", v); }
    _load(t) { this._p = {}; for (const d of String(t || "").split(";")) { const i = d.indexOf(":"); if (i > 0) this._p[d.slice(0, i).trim()] = d.slice(i + 1).replace(/!important/, "").trim(); } }
    _sync() { const v = this.cssText; if (v) this._el._a.set("style", v); else this._el._a.delete("style"); }
}
class ClassList {
    constructor(el) { this._el = el; }
    get _c() { return (this._el.getAttribute("class") || "").split(/\s+/).filter(Boolean); }
    _set(c) { if (c.length || this._el.hasAttribute("class")) this._el.setAttribute("class", c.join(" ")); }
    contains(c) { return this._c.includes(c); }
    add(...cs) { const c = this._c; cs.forEach(x => c.includes(x) || c.push(x)); this._set(c); }
    remove(...cs) { this._set(this._c.filter(x => !cs.includes(x))); }
    toggle(c, f) { const want = f === undefined ? !this.contains(c) : f; want ? this.add(c) : this.remove(c); return want; }
    [Symbol.iterator]() { return this._c[Symbol.iterator](); }
    forEach(f) { this._c.forEach(f); }
    get length() { return this._c.length; }
}
class Element extends Node {
    constructor(tag) {
        super();
        this.localName = tag; this.tagName = tag.toUpperCase(); this.nodeName = this.tagName; this.nodeType = 1;
        this._a = new Map(); this.style = new Style(this); this.classList = new ClassList(this); this._raw = null;
        if (tag === "template") this.content = new Fragment();
    }
    get attributes() {
        const l = [...this._a].map(([name, value]) => ({ name, value, nodeName: name, specified: true }));
        return l;
    }
    getAttribute(n) { return this._a.has(n.toLowerCase()) ? this._a.get(n.toLowerCase()) : null; }
    hasAttribute(n) { return this._a.has(n.toLowerCase()); }
    setAttribute(n, v) { n = n.toLowerCase(); const old = this.getAttribute(n); this._a.set(n, String(v)); if (n === "style") this.style._load(v); note({ type: "attributes", target: this, attributeName: n, oldValue: old, addedNodes: [], removedNodes: [] }); }
    removeAttribute(n) { n = n.toLowerCase(); const old = this.getAttribute(n); if (old === null) return; this._a.delete(n); if (n === "style") this.style._load(""); note({ type: "attributes", target: this, attributeName: n, oldValue: old, addedNodes: [], removedNodes: [] }); }
    toggleAttribute(n, f) { const w = f === undefined ? !this.hasAttribute(n) : f; w ? this.setAttribute(n, "") : this.removeAttribute(n); return w; }
    getAttributeNames() { return [...this._a.keys()]; }
    get id() { return this.getAttribute("id") || ""; } set id(v) { this.setAttribute("id", v); }
    get className() { return this.getAttribute("class") || ""; } set className(v) { this.setAttribute("class", v); }
    get type() { return this.getAttribute("type") || ""; } set type(v) { this.setAttribute("type", v); }
    get name() { return this.getAttribute("name") || ""; }
    get href() { return this.getAttribute("href") || ""; }
    get dataset() { const o = {}; for (const [k, v] of this._a) if (k.startsWith("data-")) o[k.slice(5)] = v; return o; }
    get value() { return this._value !== undefined ? this._value : (this.getAttribute("value") || ""); }
    set value(v) { this._value = String(v); if (this.localName === "progress") this.setAttribute("value", v); }
    get max() { return this.getAttribute("max"); } set max(v) { this.setAttribute("max", v); }
    get disabled() { return this.hasAttribute("disabled"); } set disabled(v) { this.toggleAttribute("disabled", !!v); }
    get hidden() { return this.hasAttribute("hidden"); } set hidden(v) { this.toggleAttribute("hidden", !!v); }
    get innerHTML() { return this._raw !== null ? this._raw : this.childNodes.map(n => n.textContent).join(""); }
    set innerHTML(v) { this.childNodes.slice().forEach(n => n.remove()); this._raw = String(v); }
    get textContent() { return this._raw !== null ? this._raw : super.textContent; }
    set textContent(v) { this._raw = null; super.textContent = v; }
    get innerText() { return this.textContent; } set innerText(v) { this.textContent = v; }
    matches(sel) { return matcher(sel)(this); }
    closest(sel) { const m = matcher(sel); for (let n = this; n instanceof Element; n = n.parentNode) if (m(n)) return n; return null; }
    getElementsByTagName(t) { return this.querySelectorAll(t); }
    cloneNode(deep) {
        const e = new Element(this.localName);
        for (const [k, v] of this._a) e.setAttribute(k, v);
        if (this.content) e.content = this.content.cloneNode(true);
        if (deep) { e._raw = this._raw; this.childNodes.forEach(c => e.appendChild(c.cloneNode(true))); }
        return e;
    }
    click() { this.dispatchEvent(new Event("click", { bubbles: true, cancelable: true })); }
    focus() {} blur() {} scrollIntoView() {}
    attachShadow() { return new ShadowRoot(); }
    get offsetWidth() { return 1; } get offsetHeight() { return 1; }
    getBoundingClientRect() { return { x: 0, y: 0, width: 1, height: 1, top: 0, left: 0, right: 1, bottom: 1 }; }
}
class Document extends Node {
    constructor() { super(); this.nodeType = 9; this.readyState = "loading"; this._cookie = ""; }
    get documentElement() { return this.children[0] || null; }
    get body() { return this.querySelector("body"); }
    get head() { return this.querySelector("head"); }
    createElement(t) { return new Element(t.toLowerCase()); }
    createTextNode(t) { return new Text(t); }
    createDocumentFragment() { return new Fragment(); }
    createComment() { return new Text(""); }
    importNode(n, deep) { return n.cloneNode(deep); }
    getElementById(i) { return this.querySelectorAll("[id]").find(e => e.id === i) || null; }
    getElementsByTagName(t) { return this.querySelectorAll(t); }
}

// compound selectors, lists of them, descendant and child combinators
const seen = new Map();
function matcher(sel) {
    if (seen.has(sel)) return seen.get(sel);
    const alts = sel.split(/,(?![^[]*\])/).map(s => {
        const steps = [];
        const rgx = /\s*(>)?\s*((?:[a-zA-Z*][\w-]*|\*)?(?:\[[^\]]*\]|#[\w-]+|\.[\w-]+|:[\w-]+(?:\([^)]*\))?)*)/y;
        s = s.trim();
        while (rgx.lastIndex < s.length) {
            const m = rgx.exec(s);
            if (!m || !m[0]) throw new Error("selector " + sel);
            steps.push([m[1] || " ", compound(m[2])]);
        }
        return steps;
    });
    const m = el => alts.some(steps => {
        const go = (n, i) => {
            if (!(n instanceof Element) || !steps[i][1](n)) return false;
            if (i === 0) return true;
            if (steps[i][0] === ">") return go(n.parentNode, i - 1);
            for (let p = n.parentNode; p; p = p.parentNode) if (go(p, i - 1)) return true;
            return false;
        };
        return go(el, steps.length - 1);
    });
    seen.set(sel, m);
    return m;
}
function compound(s) {
    const tests = [];
    const rgx = /^(?:([a-zA-Z][\w-]*|\*)|#([\w-]+)|\.([\w-]+)|\[([^\]=~^$*|]+?)\s*(?:([~^$*|]?=)\s*["']?(.*?)["']?)?\]|:([\w-]+)(?:\([^)]*\))?)/;
    while (s) {
        const m = rgx.exec(s);
        if (!m) throw new Error("selector " + s);
        s = s.slice(m[0].length);
        if (m[1]) { if (m[1] !== "*") tests.push(e => e.localName === m[1].toLowerCase()); }
        else if (m[2]) tests.push(e => e.id === m[2]);
        else if (m[3]) tests.push(e => e.classList.contains(m[3]));
        else if (m[4]) {
            const n = m[4].replace(/\\/g, "").trim();
            tests.push(e => {
                const v = e.getAttribute(n);
                if (v === null || !m[5]) return v !== null;
                return { "=": v === m[6], "^=": v.startsWith(m[6]), "$=": v.endsWith(m[6]), "*=": v.includes(m[6]), "~=": v.split(/\s+/).includes(m[6]), "|=": v === m[6] || v.startsWith(m[6] + "-") }[m[5]];
            });
        } else throw new Error("selector :" + m[7]);
    }
    return e => tests.every(t => t(e));
}

function build(t) {
    if (typeof t === "string") return new Text(t);
    const e = new Element(t.t);
    for (const [k, v] of t.a) e.setAttribute(k, v);
    const into = e.content || e;
    for (const c of t.c) into.appendChild(build(c));
    return e;
}

class FormData {
    constructor() { this._d = []; }
    append(k, v, n) { this._d.push([k, v]); }
    set(k, v) { this._d = this._d.filter(x => x[0] !== k); this._d.push([k, v]); }
}

function open(req) {
    observers.clear();
    const doc = new Document();
    const errors = [], net = { calls: [], left: null, bad: [] };
    const win = new EvTarget();
    W = win;
    const log = (...a) => {};
    const location = { get href() { return net.left === null ? "http://spex/" : net.left; }, set href(v) { net.left = v === null ? "null" : String(v); net.lefts = (net.lefts || []).concat([net.left]); },
        assign(v) { this.href = v; }, replace(v) { this.href = v; }, reload() { net.reloaded = true; }, toString() { return this.href; }, pathname: "/", search: "", hash: "", origin: "http://spex" };
    Object.assign(win, {
        document: doc, console: { log, info: log, warn: log, debug: log, error: (...a) => errors.push(a.map(x => (x && x.stack) || String(x)).join(" ").slice(0, 300)), group: log, groupEnd: log, trace: log, table: log },
        Node, Element, HTMLElement: Element, Text, Document, DocumentFragment: Fragment, ShadowRoot, Event, CustomEvent, EventTarget: EvTarget, FormData,
        HTMLTemplateElement: Element, HTMLInputElement: Element, HTMLFormElement: Element,
        MutationObserver,
        IntersectionObserver: class { observe() {} disconnect() {} },
        setTimeout, clearTimeout, setInterval, clearInterval, queueMicrotask, requestAnimationFrame: f => setTimeout(() => f(Date.now()), 0), cancelAnimationFrame: clearTimeout,
        getComputedStyle: e => e.style, TextDecoder, TextEncoder, URL, URLSearchParams, AbortController, performance,
        fetch: (url, o) => new Promise((res, rej) => { net.calls.push({ url: String(url), o, res, rej }); }),
        CSS: { escape: s => s }, navigator: { userAgent: "spex" }, alert: log,
    });
    Object.defineProperty(win, "location", { get: () => location, set: v => { location.href = v; } });
    Object.defineProperty(doc, "location", { get: () => location, set: v => { location.href = v; } });
    win.window = win; win.self = win; win.globalThis = win; doc.defaultView = win;
    ["addEventListener", "removeEventListener", "dispatchEvent"].forEach(k => { win[k] = EvTarget.prototype[k].bind(win); });
    const ctx = vm.createContext(win);
    win.__errors = errors; win.__net = net;
    doc.appendChild(build(req.tree));
    for (const s of doc.querySelectorAll("script")) {
        const src = s.getAttribute("src");
        const type = s.getAttribute("type");
        if (type && !/javascript|module/.test(type)) continue;
        const code = src === null ? s.textContent : req.scripts[src];
        if (code === undefined) { errors.push("no script " + src); continue; }
        try { vm.runInContext(code, ctx, { filename: src || "inline" }); } catch (e) { errors.push(String(e.stack).slice(0, 300)); }
    }
    doc.readyState = "interactive";
    doc.dispatchEvent(new Event("DOMContentLoaded", { bubbles: true }));
    doc.readyState = "complete";
    win.dispatchEvent(new Event("load"));
}

// what a reader of the page sees, in order
function visible() {
    const out = [];
    const walk = n => {
        if (n instanceof Text) { const t = n.data.replace(/\s+/g, " ").trim(); if (t) out.push({ s: t }); return; }
        if (n instanceof Element) {
            if (["script", "style", "template", "head", "noscript"].includes(n.localName)) return;
            if (n.style.getPropertyValue("display") === "none" || n.hidden) return;
            if (n.localName === "progress") { out.push({ bar: [n.getAttribute("value"), n.getAttribute("max")] }); return; }
            if (n.localName === "tr") out.push({ row: n.classList.contains("filter_selected") });
            if (n._raw !== null) { out.push({ html: n._raw }); return; }
            if (n.localName === "a" && n.hasAttribute("href")) out.push({ href: n.getAttribute("href"), text: n.textContent.replace(/\s+/g, " ").trim(), download: n.getAttribute("download") });
            if (n.localName === "form") out.push({ form: true });
        }
        n.childNodes.forEach(walk);
        if (n instanceof Element && n.localName === "tr") out.push({ rowEnd: true });
    };
    walk(W.document.body);
    return out;
}
function shown(n) { for (; n instanceof Element; n = n.parentNode) if (n.style.getPropertyValue("display") === "none" || n.hidden) return false; return true; }
const text = n => n.textContent.replace(/\s+/g, " ").trim();
function find(req) {
    const all = W.document.querySelectorAll("*").filter(shown);
    if (req.row !== undefined) return all.filter(e => e.localName === "tr" && e.children.length && text(e.children[0]) === req.row)[0];
    return all.filter(e => text(e) === req.text && ["a", "button", "input", "label", "span", "li"].includes(e.localName)).pop();
}
const settle = () => new Promise(r => setTimeout(() => setImmediate(() => setTimeout(r, 0)), 0));

async function handle(req) {
    const net = W && W.__net;
    let did = true;
    if (req.op === "open") open(req);
    else if (req.op === "click") { const e = find(req); did = !!e; if (e) e.click(); }
    else if (req.op === "submit") {
        const f = W.document.querySelectorAll("form").filter(shown)[0], i = W.document.querySelector("input[type=\"file\"]");
        did = !!f;
        if (f) { i.files = [{ name: req.name || "spec.docx", size: 3 }]; i._value = "C:\\fakepath\\" + (req.name || "spec.docx"); i.dispatchEvent(new Event("change", { bubbles: true })); f.dispatchEvent(new Event("submit", { bubbles: true, cancelable: true })); }
    } else if (req.op === "answer") {
        const c = net.calls[net.calls.length - 1];
        const waiting = [], queue = [];
        net.feed = x => { waiting.length ? waiting.shift()(x) : queue.push(x); };
        const read = () => new Promise((res, rej) => {
            const give = x => x === "break" ? rej(new TypeError("network error")) : res(x);
            queue.length ? give(queue.shift()) : waiting.push(give);
        });
        const body = { getReader: () => ({ read, cancel: async () => {}, releaseLock: () => {}, closed: new Promise(() => {}) }),
            async *[Symbol.asyncIterator]() { for (;;) { const x = await read(); if (x.done) return; yield x.value; } },
            pipeThrough(t) { const w = t.writable.getWriter(); (async () => { try { for (;;) { const x = await read(); if (x.done) { await w.close(); return; } await w.write(x.value); } } catch (e) { w.abort(e).catch(() => {}); } })(); return t.readable; } };
        did = !!c;
        if (c) {
            if (req.status === 0) c.rej(new TypeError("Failed to fetch"));
            else c.res({ ok: req.status >= 200 && req.status < 300, status: req.status, statusText: "", headers: new Map(), url: c.url, body,
                text: async () => "", json: async () => ({}) });
        }
    } else if (req.op === "chunk") { net.feed({ done: false, value: new Uint8Array(Buffer.from(req.data, "base64")) }); }
    else if (req.op === "end") { net.feed({ done: true, value: undefined }); }
    else if (req.op === "break") { net.feed("break"); }
    await settle();
    const n = W.__net;
    return { did, seen: visible(), left: n.left, lefts: n.lefts || [], errors: W.__errors.splice(0),
        calls: n.calls.map(c => [c.url, (c.o || {}).method || "GET", (((c.o || {}).body || {})._d || []).map(x => [x[0], (x[1] || {}).name || null])]) };
}

process.on("unhandledRejection", e => { if (W) W.__errors.push("unhandled: " + String(e && e.stack || e).slice(0, 300)); });
process.on("uncaughtException", e => { if (W) W.__errors.push("uncaught: " + String(e && e.stack || e).slice(0, 300)); });
const rl = readline.createInterface({ input: process.stdin });
let chain = Promise.resolve();
rl.on("line", line => {
    chain = chain.then(async () => {
        let ans;
        try { ans = await handle(JSON.parse(line)); } catch (e) { ans = { failed: String(e && e.stack || e).slice(0, 500) }; }
        process.stdout.write(JSON.stringify(ans) + "\n");
    });
});
rl.on("close", () => chain.then(() => process.exit(0)));
