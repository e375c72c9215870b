// page.js WASM_EXEC MODULE PAGE IN OUT: runs the scripts of the playground page
// with its module, over a small model of a browser. IN holds lines of UTF-16 code
// units, one state of the input each; OUT gets a line with what the page shows
// after each, and what the module says about it.
const fs = require("fs");
const vm = require("vm");
require(process.argv[2]);
const [, , , moduleFile, pageFile, inFile, outFile] = process.argv;

// ---- a document ----
const voids = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const named = { lt: "<", gt: ">", amp: "&", quot: '"', apos: "'", nbsp: "\u00a0" };
function unescapeHTML(s) {
  return s.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z]+);?/gi, (all, e) => {
    if (e[0] === "#") {
      const n = e[1] === "x" || e[1] === "X" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10);
      return n > 0x10ffff ? "\ufffd" : String.fromCodePoint(n);
    }
    return e in named ? named[e] : all;
  });
}
const escapeHTML = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/\u00a0/g, "&nbsp;");

class Text {
  constructor(data) {
    this.data = String(data);
    this.nodeType = 3;
    this.parentNode = null;
  }
  get textContent() { return this.data; }
  set textContent(s) { this.data = String(s); }
  get nodeValue() { return this.data; }
  get outerHTML() { return escapeHTML(this.data); }
  remove() { detach(this); }
}
function detach(n) {
  const p = n.parentNode;
  if (p) p.childNodes.splice(p.childNodes.indexOf(n), 1);
  n.parentNode = null;
}
const toNode = (x) => (x instanceof Text || x instanceof Element ? x : new Text(x));

class Element {
  constructor(tag) {
    this.localName = tag.toLowerCase();
    this.nodeType = 1;
    this.attrs = new Map();
    this.childNodes = [];
    this.parentNode = null;
    this.listeners = {};
    this.style = new Proxy({}, { get: (o, k) => (k === "setProperty" ? (n, v) => (o[n] = v) : k === "removeProperty" ? (n) => delete o[n] : k in o ? o[k] : "") });
    this._value = undefined;
    const self = this;
    this.classList = {
      list: () => self.className.split(/\s+/).filter((x) => x),
      add(...cs) { for (const c of cs) if (!this.contains(c)) self.className = this.list().concat(c).join(" "); },
      remove(...cs) { self.className = this.list().filter((x) => !cs.includes(x)).join(" "); },
      contains(c) { return this.list().includes(c); },
      toggle(c, on) { (on === undefined ? !this.contains(c) : on) ? this.add(c) : this.remove(c); },
    };
    this.dataset = new Proxy({}, {});
  }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get className() { return this.attrs.get("class") || ""; }
  set className(s) { this.attrs.set("class", String(s)); }
  get id() { return this.attrs.get("id") || ""; }
  set id(s) { this.attrs.set("id", String(s)); }
  get hidden() { return this.attrs.has("hidden"); }
  set hidden(v) { v ? this.attrs.set("hidden", "") : this.attrs.delete("hidden"); }
  get title() { return this.attrs.get("title") || ""; }
  set title(s) { this.attrs.set("title", String(s)); }
  get value() { return this._value !== undefined ? this._value : this.textContent; }
  set value(s) { this._value = String(s); }
  get children() { return this.childNodes.filter((n) => n.nodeType === 1); }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { return this.children[this.children.length - 1] || null; }
  get childElementCount() { return this.children.length; }
  hasChildNodes() { return this.childNodes.length > 0; }
  getAttribute(n) { return this.attrs.has(n) ? this.attrs.get(n) : null; }
  hasAttribute(n) { return this.attrs.has(n); }
  setAttribute(n, v) { this.attrs.set(n.toLowerCase(), String(v)); }
  removeAttribute(n) { this.attrs.delete(n); }
  appendChild(n) { detach(n); n.parentNode = this; this.childNodes.push(n); return n; }
  removeChild(n) { detach(n); return n; }
  insertBefore(n, before) {
    detach(n);
    n.parentNode = this;
    this.childNodes.splice(before ? this.childNodes.indexOf(before) : this.childNodes.length, 0, n);
    return n;
  }
  append(...ns) { for (const n of ns) this.appendChild(toNode(n)); }
  prepend(...ns) { for (const n of ns.reverse()) this.insertBefore(toNode(n), this.firstChild); }
  replaceChildren(...ns) { while (this.firstChild) detach(this.firstChild); this.append(...ns); }
  remove() { detach(this); }
  cloneNode(deep) {
    const e = new Element(this.localName);
    for (const [k, v] of this.attrs) e.attrs.set(k, v);
    if (deep) for (const n of this.childNodes) e.appendChild(n.nodeType === 3 ? new Text(n.data) : n.cloneNode(true));
    return e;
  }
  get textContent() { return this.childNodes.map((n) => n.textContent).join(""); }
  set textContent(s) { this.replaceChildren(); if (s !== null && String(s) !== "") this.append(String(s)); }
  get innerText() { return this.textContent; }
  set innerText(s) { this.textContent = s; }
  get innerHTML() { return this.childNodes.map((n) => n.outerHTML).join(""); }
  set innerHTML(s) { this.replaceChildren(...parseHTML(String(s))); }
  get outerHTML() {
    const a = [...this.attrs].map(([k, v]) => ` ${k}="${escapeHTML(v).replace(/"/g, "&quot;")}"`).join("");
    return `<${this.localName}${a}>` + (voids.has(this.localName) ? "" : this.innerHTML + `</${this.localName}>`);
  }
  insertAdjacentHTML(where, s) {
    const ns = parseHTML(String(s));
    if (where === "beforeend") this.append(...ns);
    else if (where === "afterbegin") this.prepend(...ns);
    else throw new Error("not modelled: " + where);
  }
  insertAdjacentText(where, s) { where === "beforeend" ? this.append(String(s)) : this.prepend(String(s)); }
  insertAdjacentElement(where, e) { where === "beforeend" ? this.append(e) : this.prepend(e); return e; }
  addEventListener(type, f) { (this.listeners[type] = this.listeners[type] || []).push(f); }
  removeEventListener(type, f) { this.listeners[type] = (this.listeners[type] || []).filter((g) => g !== f); }
  dispatchEvent(ev) {
    ev.target = ev.target || this;
    for (const f of [...(this.listeners[ev.type] || [])]) f.call(this, ev);
    if (this.parentNode) this.parentNode.dispatchEvent(ev);
    return true;
  }
  all(out = []) { for (const c of this.children) { out.push(c); c.all(out); } return out; }
  matches(sel) { return sel.split(",").some((s) => matchChain(this, s.trim().split(/\s*>\s*|\s+/))); }
  querySelectorAll(sel) { return this.all().filter((e) => e.matches(sel)); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  getElementsByClassName(c) { return this.querySelectorAll("." + c); }
  focus() {}
  blur() {}
}
function matchOne(e, s) {
  const re = /([#.]?)([\w-]+|\*)|\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]/g;
  let m, seen = "";
  while ((m = re.exec(s))) {
    seen += m[0];
    if (m[3] !== undefined) {
      if (!e.hasAttribute(m[3]) || (m[4] !== undefined && e.getAttribute(m[3]) !== m[4])) return false;
    } else if (m[1] === "#") {
      if (e.id !== m[2]) return false;
    } else if (m[1] === ".") {
      if (!e.classList.contains(m[2])) return false;
    } else if (m[2] !== "*" && e.localName !== m[2].toLowerCase()) return false;
  }
  if (seen !== s) throw new Error("not modelled: selector " + s);
  return true;
}
function matchChain(e, parts) {
  if (!matchOne(e, parts[parts.length - 1])) return false;
  if (parts.length === 1) return true;
  for (let p = e.parentNode; p && p.localName !== "#document"; p = p.parentNode) if (matchChain(p, parts.slice(0, -1))) return true;
  return false;
}
function parseHTML(s) {
  const root = new Element("#fragment");
  let cur = root;
  let i = 0;
  while (i < s.length) {
    if (s[i] !== "<" || !/^<(!--|![a-z]|\/?[a-z])/i.test(s.slice(i, i + 4))) {
      let j = s.indexOf("<", i + 1);
      if (j < 0) j = s.length;
      const last = cur.lastChild;
      const text = unescapeHTML(s.slice(i, j));
      if (last && last.nodeType === 3) last.data += text;
      else cur.append(text);
      i = j;
      continue;
    }
    if (s.startsWith("<!--", i)) {
      const j = s.indexOf("-->", i + 4);
      i = j < 0 ? s.length : j + 3;
      continue;
    }
    const m = /^<(!?\/?)([a-z][^\s\/>]*)((?:"[^"]*"|'[^']*'|[^"'>])*)(>|$)/i.exec(s.slice(i));
    if (!m) { // a tag that does not end
      cur.appendChild(new Element("broken"));
      break;
    }
    i += m[0].length;
    const tag = m[2].toLowerCase();
    if (m[1] === "!") continue;
    if (m[1] === "/") {
      let p = cur;
      while (p !== root && p.localName !== tag) p = p.parentNode;
      if (p !== root) cur = p.parentNode;
      continue;
    }
    const e = new Element(tag);
    const re = /([^\s=\/"'>]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g;
    let a;
    while ((a = re.exec(m[3]))) {
      const v = a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] !== undefined ? a[4] : "";
      if (!e.attrs.has(a[1].toLowerCase())) e.attrs.set(a[1].toLowerCase(), unescapeHTML(v));
    }
    cur.appendChild(e);
    if (voids.has(tag)) continue;
    if (tag === "script" || tag === "style" || tag === "textarea" || tag === "title") {
      const end = new RegExp("</" + tag + "\\s*>", "i").exec(s.slice(i));
      const text = end ? s.slice(i, i + end.index) : s.slice(i);
      if (text !== "") e.append(tag === "textarea" || tag === "title" ? unescapeHTML(text) : text);
      i = end ? i + end.index + end[0].length : s.length;
      continue;
    }
    cur = e;
  }
  return [...root.childNodes];
}

const document = new Element("#document");
document.append(...parseHTML(fs.readFileSync(pageFile, "utf8")));
document.createElement = (t) => new Element(t);
document.createTextNode = (s) => new Text(s);
document.createDocumentFragment = () => new Element("#fragment");
document.getElementById = (id) => document.all().find((e) => e.id === id) || null;
document.readyState = "complete";
Object.defineProperty(document, "body", { get: () => document.querySelector("body") });
Object.defineProperty(document, "head", { get: () => document.querySelector("head") });
Object.defineProperty(document, "documentElement", { get: () => document.querySelector("html") });

// ---- the library the page uses ----
class Set$ {
  constructor(list) {
    this.list = list;
    this.length = list.length;
    list.forEach((e, i) => (this[i] = e));
  }
  each(f) { this.list.forEach((e, i) => f.call(e, i, e)); return this; }
  get(i) { return i === undefined ? this.list : this.list[i]; }
  toArray() { return this.list; }
  eq(i) { return new Set$(this.list.slice(i, i + 1 || undefined)); }
  first() { return this.eq(0); }
  last() { return this.eq(-1); }
  find(s) { return new Set$(this.list.flatMap((e) => e.querySelectorAll(s))); }
  filter(s) { return new Set$(this.list.filter((e, i) => (typeof s === "function" ? s.call(e, i, e) : e.matches(s)))); }
  children() { return new Set$(this.list.flatMap((e) => e.children)); }
  parent() { return new Set$(this.list.map((e) => e.parentNode)); }
  is(s) { return this.list.some((e) => (s === ":visible" ? visible(e) : s === ":hidden" ? !visible(e) : e.matches(s))); }
  val(v) { if (v === undefined) return this.length ? this.list[0].value : undefined; return this.each((i, e) => (e.value = v)); }
  text(s) { if (s === undefined) return this.list.map((e) => e.textContent).join(""); return this.each((i, e) => (e.textContent = typeof s === "function" ? s.call(e, i, e.textContent) : s)); }
  html(s) { if (s === undefined) return this.length ? this.list[0].innerHTML : undefined; return this.each((i, e) => { e.replaceChildren(); new Set$([e]).append(s); }); }
  empty() { return this.each((i, e) => e.replaceChildren()); }
  remove() { return this.each((i, e) => e.remove()); }
  hide() { return this.each((i, e) => (e.style.display = "none")); }
  show() { return this.each((i, e) => { e.style.display = ""; e.hidden = false; }); }
  toggle(on) { return this.each((i, e) => { const s = new Set$([e]); (on === undefined ? !visible(e) : on) ? s.show() : s.hide(); }); }
  nodes(xs) { return xs.flat(3).flatMap((x) => (x === null || x === undefined ? [] : x instanceof Set$ ? x.list : x instanceof Text || x instanceof Element ? [x] : parseHTML(String(x)))); }
  append(...xs) { return this.each((i, e) => e.append(...this.nodes(xs).map((n) => (i < this.length - 1 ? n.cloneNode(true) : n)))); }
  prepend(...xs) { return this.each((i, e) => e.prepend(...this.nodes(xs))); }
  appendTo(x) { $(x).append(this); return this; }
  prependTo(x) { $(x).prepend(this); return this; }
  addClass(c) { return this.each((i, e) => e.classList.add(...c.split(/\s+/).filter((x) => x))); }
  removeClass(c) { return this.each((i, e) => (c === undefined ? (e.className = "") : e.classList.remove(...c.split(/\s+/)))); }
  toggleClass(c, on) { return this.each((i, e) => e.classList.toggle(c, on)); }
  hasClass(c) { return this.list.some((e) => e.classList.contains(c)); }
  attr(n, v) {
    if (typeof n === "object") { for (const k in n) this.attr(k, n[k]); return this; }
    if (v === undefined) return this.length ? this.list[0].getAttribute(n) : undefined;
    return this.each((i, e) => e.setAttribute(n, v));
  }
  removeAttr(n) { return this.each((i, e) => e.removeAttribute(n)); }
  prop(n, v) { if (v === undefined) return this.list[0][n]; return this.each((i, e) => (e[n] = v)); }
  css(n, v) {
    if (typeof n === "object") { for (const k in n) this.css(k, n[k]); return this; }
    if (v === undefined) return this.list[0].style[n];
    return this.each((i, e) => (e.style[n] = v));
  }
  data() { return this; }
  clone() { return new Set$(this.list.map((e) => e.cloneNode(true))); }
  on(types, f) { return this.each((i, e) => types.split(/\s+/).forEach((t) => e.addEventListener(t.split(".")[0], f))); }
  off() { return this; }
  trigger(t) { return this.each((i, e) => e.dispatchEvent({ type: t, preventDefault() {}, stopPropagation() {} })); }
  ready(f) { f($); return this; }
  focus() { return this; }
  highlightWithinTextarea(opts) {
    if (opts === "update") { highlighters.forEach((h) => h.update()); return this; }
    return this.each((i, e) => {
      const h = { element: e, ranges: [], update() { this.ranges = getRanges(e.value, typeof opts === "object" && opts !== null && "highlight" in opts && !Array.isArray(opts) ? opts.highlight : opts); } };
      highlighters.push(h);
      e.addEventListener("input", () => h.update());
      h.update();
    });
  }
}
// the ranges to mark, by the rules of highlight-within-textarea
const highlighters = [];
function getRanges(input, hl) {
  if (!hl) return [];
  if (Array.isArray(hl)) {
    if (hl.length === 2 && typeof hl[0] === "number" && typeof hl[1] === "number") return [[hl[0], hl[1]]];
    return hl.flatMap((h) => getRanges(input, h));
  }
  if (typeof hl === "function") return getRanges(input, hl(input));
  if (typeof hl === "object" && !(hl instanceof RegExp) && "highlight" in hl) return getRanges(input, hl.highlight);
  if (hl instanceof RegExp) return [...input.matchAll(hl)].map((m) => [m.index, m.index + m[0].length]);
  if (typeof hl === "string") {
    const out = [];
    for (let i = input.toLowerCase().indexOf(hl.toLowerCase()); i >= 0; i = input.toLowerCase().indexOf(hl.toLowerCase(), i + hl.length)) out.push([i, i + hl.length]);
    return out;
  }
  return [];
}
function $(x) {
  if (typeof x === "function") { x($); return new Set$([document]); }
  if (x instanceof Set$) return x;
  if (x instanceof Element || x instanceof Text) return new Set$([x]);
  if (Array.isArray(x)) return new Set$(x);
  if (x === globalThis) return new Set$([document]);
  if (/^\s*</.test(x)) return new Set$(parseHTML(x));
  return new Set$(document.querySelectorAll(x));
}
$.fn = Set$.prototype;
$.each = (xs, f) => { Array.isArray(xs) ? xs.forEach((x, i) => f.call(x, i, x)) : Object.keys(xs).forEach((k) => f.call(xs[k], k, xs[k])); return xs; };
$.map = (xs, f) => xs.flatMap((x, i) => f(x, i));
$.trim = (s) => String(s).trim();
$.escapeSelector = (s) => s;

function visible(e) {
  for (let p = e; p && p.localName !== "#document"; p = p.parentNode) if (p.style.display === "none" || p.hidden) return false;
  return true;
}

// ---- the page ----
globalThis.window = globalThis;
globalThis.self = globalThis;
globalThis.document = document;
globalThis.$ = globalThis.jQuery = $;
globalThis.Event = class { constructor(type) { this.type = type; } preventDefault() {} stopPropagation() {} };
globalThis.HTMLElement = Element;
globalThis.addEventListener = (type, f) => document.addEventListener(type, f);
globalThis.alert = (s) => { alerts.push(String(s)); };
const alerts = [];
globalThis.requestAnimationFrame = (f) => setTimeout(f, 0);
globalThis.location = { href: "http://localhost:8080/", hash: "", search: "", pathname: "/" };
globalThis.fetch = async (url) => {
  if (!/(^|\/)aqlparse\.wasm$/.test(String(url))) throw new Error("not found: " + url);
  return { ok: true, status: 200, arrayBuffer: async () => new Uint8Array(fs.readFileSync(moduleFile)).buffer };
};
WebAssembly.instantiateStreaming = async (resp, imports) => WebAssembly.instantiate(await (await resp).arrayBuffer(), imports);
const errors = [];
process.on("unhandledRejection", (e) => errors.push(String((e && e.stack) || e)));
process.on("uncaughtException", (e) => errors.push(String((e && e.stack) || e)));

// the structure without texts
function skeleton(n) {
  if (n.nodeType === 3) return "";
  return `<${n.localName}` + [...n.attrs].map(([k, v]) => ` ${k}=${JSON.stringify(v)}`).sort().join("") + ">" + n.childNodes.map(skeleton).join("") + `</${n.localName}>`;
}

function show() {
  const box = document.getElementById("messages");
  const out = document.getElementById("output");
  return {
    output: out.textContent,
    outputPlain: out.children.length === 0,
    outputShown: visible(out),
    messages: box.children.map((e) => ({ text: e.textContent, skeleton: skeleton(e), shown: visible(e) })),
    loose: box.childNodes.filter((n) => n.nodeType === 3 && n.data.trim() !== "").length,
    ranges: highlighters.flatMap((h) => h.ranges),
    highlighters: highlighters.length,
    alerts: alerts.length,
    errors,
  };
}

async function main() {
  const states = fs.readFileSync(inFile, "utf8").split("\n").filter((l) => l !== "").map((l) => JSON.parse(l).map((u) => String.fromCharCode(u)).join(""));
  const input = document.querySelector("textarea");
  input.value = states[0]; // there before the page is ready
  for (const s of document.querySelectorAll("script")) {
    if (s.hasAttribute("src")) continue;
    vm.runInThisContext(s.textContent);
    await new Promise((r) => setTimeout(r, 0));
  }
  for (let i = 0; i < 2000 && highlighters.length === 0 && errors.length === 0; i++) await new Promise((r) => setTimeout(r, 5));
  const outs = [];
  for (let i = 0; i < states.length; i++) {
    if (i > 0) {
      input.value = states[i];
      input.dispatchEvent(new Event("input"));
      await new Promise((r) => setTimeout(r, 0));
    }
    const says = typeof parseAQL === "function" ? parseAQL(states[i]) : null;
    outs.push(JSON.stringify({ says, shows: show() }));
    if (errors.length) break;
  }
  fs.writeFileSync(outFile, outs.join("\n") + "\n");
  process.exit(0);
}
main().catch((e) => { console.error("host: " + ((e && e.stack) || e)); process.exit(3); });
