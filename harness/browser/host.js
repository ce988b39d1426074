// A page for the code under test: evaluates the JavaScript it contains, over a small DOM.
// Requests come as lines of JSON on fd 3, answers go to fd 4; while one is carried out, the
// page may ask for memory or call back.
'use strict';
const fs = require('fs');
let pending = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function receive() {
  for (;;) {
    const i = pending.indexOf(10);
    if (i >= 0) { const line = pending.toString('utf8', 0, i); pending = pending.subarray(i + 1); return JSON.parse(line); }
    let n;
    try { n = fs.readSync(3, chunk, 0, chunk.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; process.exit(0); }
    if (n === 0) process.exit(0);
    pending = Buffer.concat([pending, chunk.subarray(0, n)]);
  }
}
function send(x) { let b = Buffer.from(JSON.stringify(x) + '\n'); while (b.length) { b = b.subarray(fs.writeSync(4, b)); } }
function ask(x) { send(x); return serve(); }
class Foreign extends Error { }

// ---------------------------------------------------------------- memory
function read(ptr, len) { return Buffer.from(ask({ mem: 'read', ptr: Number(ptr), len: len === undefined ? -1 : Number(len) }), 'hex'); }
function write(ptr, bytes) { if (bytes.length) ask({ mem: 'write', ptr: Number(ptr), hex: Buffer.from(bytes).toString('hex') }); }
function UTF8ToString(ptr, max) {
  if (!ptr) return '';
  const b = read(ptr, max); const z = b.indexOf(0);
  return new TextDecoder('utf-8', { ignoreBOM: true }).decode(z < 0 ? b : b.subarray(0, z));
}
function stringToAscii(s, ptr) { s = String(s); const b = []; for (let i = 0; i < s.length; ++i) b.push(s.charCodeAt(i) & 255); b.push(0); write(ptr, b); }
function lengthBytesUTF8(s) { return Buffer.byteLength(String(s).toWellFormed(), 'utf8'); }
function stringToUTF8(s, ptr, max) {
  let b = Buffer.from(String(s).toWellFormed(), 'utf8'); let n = Number(max) - 1;
  if (Number(max) <= 0) return 0;
  if (b.length > n) { while (n > 0 && (b[n] & 0xc0) === 0x80) --n; b = b.subarray(0, n); }
  write(ptr, Buffer.concat([b, Buffer.from([0])])); return b.length;
}
function writeArrayToMemory(a, ptr) { write(ptr, a); }
const MEM = { memory: true, slice: (a, b) => new globalThis.Uint8Array(read(a, Math.max(0, b - a))).buffer };
function bytesOf(x) {
  if (typeof x === 'string') return [...Buffer.from(x)];
  if (x && x.slice_of) return [...read(x.slice_of[0], x.slice_of[1])];
  if (x instanceof ArrayBuffer) return [...new globalThis.Uint8Array(x)];
  return [...x];
}
class Heap {
  constructor(off, len) { this.off = off; this.length = len; this.byteOffset = off; this.byteLength = len; this.buffer = MEM; }
  set(a, at) { const b = bytesOf(a); if ((at || 0) + b.length > this.length) throw new RangeError('offset is out of bounds'); write(this.off + (at || 0), b); }
  subarray(a, b) { return new Heap(this.off + a, Math.max(0, b - a)); }
  slice(a, b) { a = a || 0; return new globalThis.Uint8Array(read(this.off + a, Math.max(0, (b === undefined ? this.length : b) - a))); }
  [Symbol.iterator]() { return this.slice()[Symbol.iterator](); }
}
const HEAPU8 = new Proxy(new Heap(0, 2 ** 52), {
  get(t, k) { return typeof k === 'string' && /^\d+$/.test(k) ? read(Number(k), 1)[0] : t[k]; },
  set(t, k, v) { if (typeof k === 'string' && /^\d+$/.test(k)) { write(Number(k), [v & 255]); return true; } t[k] = v; return true; },
});
const Uint8ArrayX = new Proxy(Uint8Array, {
  construct(t, a) { return a[0] === MEM ? new Heap(a[1] || 0, a[2] === undefined ? 2 ** 52 : a[2]) : Reflect.construct(t, a); },
});

// ---------------------------------------------------------------- the module
const own = { UTF8ToString, stringToAscii, stringToUTF8, lengthBytesUTF8, writeArrayToMemory, HEAPU8,
  AsciiToString: (p) => { let b = read(p); return String.fromCharCode(...b); },
  _malloc: (n) => ask({ mem: 'malloc', len: n }), _free: (p) => { ask({ mem: 'free', ptr: p }); } };
own.Pointer_stringify = UTF8ToString;
own.ccall = (name, r, ts, as) => own_call('_' + name)(...(as || []));
function own_call(name) { return (...args) => ask({ cb: name.slice(1), args: args.map((a) => Math.trunc(Number(a)) || 0) }); }
const Module = new Proxy(own, { get(t, k) { return k in t || typeof k !== 'string' || k[0] !== '_' ? t[k] : own_call(k); } });

// ---------------------------------------------------------------- the document
const errors = [];
function fail(name, message) { const e = new Error(message || name); e.name = name; throw e; }
class EventTarget_ {
  constructor() { this.listeners = []; }
  addEventListener(type, fn, opts) {
    if (fn == null) return;
    if (!this.listeners.some((l) => l.type === String(type) && l.fn === fn)) this.listeners.push({ type: String(type), fn, once: !!(opts && opts.once) });
  }
  removeEventListener(type, fn) { this.listeners = this.listeners.filter((l) => !(l.type === String(type) && l.fn === fn)); }
  fire(ev) {
    ev.currentTarget = this;
    for (const l of [...this.listeners]) {
      if (l.type !== ev.type || !this.listeners.includes(l) || ev.stopped) continue;
      if (l.once) this.removeEventListener(l.type, l.fn);
      try { typeof l.fn === 'function' ? l.fn.call(this, ev) : l.fn.handleEvent(ev); } catch (e) { errors.push(String(e && e.message || e)); }
    }
    const h = this['on' + ev.type];
    if (typeof h === 'function' && !ev.stopped) try { h.call(this, ev); } catch (e) { errors.push(String(e && e.message || e)); }
  }
  dispatchEvent(ev) {
    ev.target = this;
    const path = [this];
    for (let p = this.parentNode; p && ev.bubbles; p = p.parentNode) path.push(p);
    for (const n of path) { if (ev.halted) break; n.fire(ev); }
    return !ev.defaultPrevented;
  }
}
class Event {
  constructor(type, o) { this.type = type; this.bubbles = !!(o && o.bubbles); this.cancelable = !!(o && o.cancelable); this.defaultPrevented = false; Object.assign(this, o && o.extra); }
  initEvent(t, b, c) { this.type = t; this.bubbles = b; this.cancelable = c; }
  preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
  stopPropagation() { this.halted = true; }
  stopImmediatePropagation() { this.halted = this.stopped = true; }
}
class Node extends EventTarget_ {
  constructor(doc) { super(); this.childNodes = []; this.parentNode = null; this.ownerDocument = doc; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === document; }
  sib(d) { if (!this.parentNode) return null; const c = this.parentNode.childNodes; return c[c.indexOf(this) + d] || null; }
  get nextSibling() { return this.sib(1); }
  get previousSibling() { return this.sib(-1); }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  detach_() { if (this.parentNode) { const c = this.parentNode.childNodes; c.splice(c.indexOf(this), 1); this.parentNode = null; } }
  check_(n) {
    if (!(n instanceof Node)) throw new TypeError('parameter is not of type Node');
    if (n.contains(this)) fail('HierarchyRequestError');
    if (!(this instanceof Element || this instanceof Fragment || this === document)) fail('HierarchyRequestError');
  }
  insertBefore(n, ref) {
    this.check_(n);
    if (ref != null && ref.parentNode !== this) fail('NotFoundError', 'the node before which to insert is not a child of this node');
    if (ref === n) ref = n.nextSibling;
    const ns = n instanceof Fragment ? [...n.childNodes] : [n];
    for (const x of ns) {
      x.detach_();
      this.childNodes.splice(ref ? this.childNodes.indexOf(ref) : this.childNodes.length, 0, x); x.parentNode = this;
    }
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  replaceChild(n, old) {
    this.check_(n);
    if (!(old instanceof Node)) throw new TypeError('parameter 2 is not of type Node');
    if (old.parentNode !== this) fail('NotFoundError', 'the node to be replaced is not a child of this node');
    if (n === old) return old;
    let ref = old.nextSibling; if (ref === n) ref = n.nextSibling;
    old.detach_(); this.insertBefore(n, ref);
    return old;
  }
  removeChild(n) { if (!(n instanceof Node)) throw new TypeError('parameter 1 is not of type Node'); if (n.parentNode !== this) fail('NotFoundError', 'the node to be removed is not a child of this node'); n.detach_(); return n; }
  remove() { this.detach_(); }
  list_(a) { const f = new Fragment(document); for (const x of a) f.appendChild(x instanceof Node ? x : document.createTextNode(x)); return f; }
  before(...a) { if (this.parentNode) this.parentNode.insertBefore(this.list_(a), this); }
  after(...a) { if (this.parentNode) { const p = this.parentNode, r = this.nextSibling; p.insertBefore(this.list_(a), r); } }
  replaceWith(...a) { if (this.parentNode) { const p = this.parentNode, r = this.nextSibling; this.detach_(); p.insertBefore(this.list_(a), r); } }
  append(...a) { this.appendChild(this.list_(a)); }
  prepend(...a) { this.insertBefore(this.list_(a), this.firstChild); }
  replaceChildren(...a) { while (this.firstChild) this.firstChild.detach_(); this.append(...a); }
  get textContent() { return this.childNodes.map((c) => c instanceof Comment ? '' : c.textContent).join(''); }
  set textContent(s) { while (this.firstChild) this.firstChild.detach_(); s = s == null ? '' : String(s); if (s !== '') this.appendChild(document.createTextNode(s)); }
  get nodeValue() { return null; }
  set nodeValue(v) { }
  normalize() { }
}
class Text extends Node {
  constructor(doc, s) { super(doc); this.data = s; }
  get nodeType() { return 3; } get nodeName() { return '#text'; }
  get nodeValue() { return this.data; } set nodeValue(s) { this.data = s == null ? '' : String(s); }
  get textContent() { return this.data; } set textContent(s) { this.nodeValue = s; }
  get length() { return this.data.length; }
}
class Comment extends Text { get nodeType() { return 8; } get nodeName() { return '#comment'; } }
class Fragment extends Node { get nodeType() { return 11; } get nodeName() { return '#document-fragment'; } }
class Element extends Node {
  constructor(doc, tag) { super(doc); this.localName = String(tag).toLowerCase(); this.attrs = new Map(); this.style = {}; }
  get nodeType() { return 1; } get tagName() { return this.localName.toUpperCase(); } get nodeName() { return this.tagName; }
  get children() { return this.childNodes.filter((c) => c instanceof Element); }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { return this.children[this.children.length - 1] || null; }
  setAttribute(n, v) { if (!/^[^\s"'<>\/=\0]+$/.test(String(n))) fail('InvalidCharacterError'); this.attrs.set(String(n).toLowerCase(), String(v)); }
  getAttribute(n) { n = String(n).toLowerCase(); return this.attrs.has(n) ? this.attrs.get(n) : null; }
  hasAttribute(n) { return this.attrs.has(String(n).toLowerCase()); }
  removeAttribute(n) { this.attrs.delete(String(n).toLowerCase()); }
  toggleAttribute(n, f) { const has = this.hasAttribute(n); if (f === undefined ? !has : f) { if (!has) this.setAttribute(n, ''); return true; } this.removeAttribute(n); return false; }
  get id() { return this.getAttribute('id') || ''; } set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') || ''; } set className(v) { this.setAttribute('class', v); }
  get classList() {
    const el = this; const get = () => [...new Set(el.className.split(/[ \t\n\f\r]+/).filter((x) => x))];
    const check = (t) => { t = String(t); if (t === '') fail('SyntaxError'); if (/[ \t\n\f\r]/.test(t)) fail('InvalidCharacterError'); return t; };
    const put = (s) => { if (!el.hasAttribute('class') && !s.length) return; el.setAttribute('class', s.join(' ')); };
    return { add: (...ts) => { const s = get(); ts.map(check).forEach((t) => { if (!s.includes(t)) s.push(t); }); put(s); },
      remove: (...ts) => { ts = ts.map(check); put(get().filter((x) => !ts.includes(x))); },
      contains: (t) => get().includes(String(t)), get length() { return get().length; },
      toggle(t, f) { t = check(t); const has = get().includes(t); if (f === undefined ? !has : f) { this.add(t); return true; } this.remove(t); return false; } };
  }
  get innerHTML() { return this.childNodes.map(html).join(''); }
  set innerHTML(s) { while (this.firstChild) this.firstChild.detach_(); parse(this, s === null ? '' : String(s)); }
  get outerHTML() { return html(this); }
  all_(out) { for (const c of this.children) { out.push(c); c.all_(out); } return out; }
  matches(q) { return q[0] === '#' ? this.id === q.slice(1) : q[0] === '.' ? this.classList.contains(q.slice(1)) : this.localName === q.toLowerCase(); }
  querySelectorAll(q) { return this.all_([]).filter((e) => e.matches(q)); }
  querySelector(q) { return this.querySelectorAll(q)[0] || null; }
  getElementsByTagName(t) { return this.all_([]).filter((e) => e.localName === String(t).toLowerCase()); }
  click() { if (this.clicking_) return; this.clicking_ = true; try { this.dispatchEvent(new Event('click', { bubbles: true, cancelable: true })); } finally { delete this.clicking_; } }
  focus() { } blur() { }
}
const entities = { amp: '&', lt: '<', gt: '>', quot: '"', nbsp: '\u00a0' };
function unescape_(s) { return s.replace(/&(#\d+|\w+);/g, (m, e) => e[0] === '#' ? String.fromCodePoint(Number(e.slice(1))) : e in entities ? entities[e] : m); }
function parse(into, s) {
  const stack = [into], re = /<!--[^]*?-->|<(\/?)([a-zA-Z][\w-]*)((?:\s+[^\s"'<>\/=]+(?:=(?:"[^"]*"|'[^']*'|[^\s"'>]+))?)*)\s*(\/?)>|[^<]+|</g;
  for (const m of s.matchAll(re)) {
    const top = stack[stack.length - 1];
    if (m[0].startsWith('<!--')) continue;
    if (!m[2]) { top.appendChild(document.createTextNode(unescape_(m[0]))); continue; }
    const tag = m[2].toLowerCase();
    if (m[1]) { const i = stack.findLastIndex((e, i) => i > 0 && e.localName === tag); if (i > 0) stack.length = i; continue; }
    const el = document.createElement(tag);
    for (const a of m[3].matchAll(/([^\s"'<>\/=]+)(?:=(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) el.setAttribute(a[1], unescape_(a[2] ?? a[3] ?? a[4] ?? ''));
    top.appendChild(el);
    if (!/^(br|hr|img|input|link|meta)$/.test(tag)) stack.push(el);
  }
}
function esc(s, attr) { s = s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;'); return attr ? s.replace(/"/g, '&quot;') : s.replace(/</g, '&lt;').replace(/>/g, '&gt;'); }
function html(n) {
  if (n instanceof Comment) return '<!--' + n.data + '-->';
  if (n instanceof Text) return esc(n.data);
  return '<' + n.localName + [...n.attrs].map(([k, v]) => ' ' + k + '="' + esc(v, true) + '"').join('') + '>'
    + (/^(br|hr|img|input|link|meta)$/.test(n.localName) ? '' : n.childNodes.map(html).join('') + '</' + n.localName + '>');
}
class Document extends Element {
  constructor() { super(null, 'html'); }
  createElement(t) { if (!/^[a-zA-Z][^\s"'<>\/=\0]*$/.test(String(t))) fail('InvalidCharacterError'); return new Element(this, t); }
  createElementNS(ns, t) { return this.createElement(t); }
  createTextNode(s) { return new Text(this, String(s)); }
  createComment(s) { return new Comment(this, String(s)); }
  createDocumentFragment() { return new Fragment(this); }
  createEvent() { return new Event(''); }
  getElementById(i) { return this.all_([]).find((e) => e.id === String(i)) || null; }
}
let document, location_, history_;
class Socket extends EventTarget_ {
  constructor(url, ps) { super(); this.url = String(url); this.protocols = ps; this.readyState = 0; this.binaryType = 'blob'; this.sent = []; this.closed = 0; Socket.all.push(this); }
  send(x) {
    if (this.readyState === 0) fail('InvalidStateError');
    if (x === MEM) fail('the whole heap was sent');
    if (!(typeof x === 'string' || x instanceof ArrayBuffer || ArrayBuffer.isView(x) || x instanceof Heap)) x = String(x);
    if (this.readyState === 1) this.sent.push(typeof x === 'string' ? { text: x } : { bytes: bytesOf(ArrayBuffer.isView(x) ? new globalThis.Uint8Array(x.buffer, x.byteOffset, x.byteLength) : x) });
  }
  close(code) { if (this.readyState < 2) { this.failing_ = this.readyState === 0; this.readyState = 2; this.closed++; } }
  // what its peer and the network do
  opened_() { if (this.readyState !== 0) return; this.readyState = 1; this.fire(new Event('open')); }
  told_(text, hex) {
    if (this.readyState !== 1) return;
    const b = Buffer.from(hex, 'hex'), ev = new Event('message');
    ev.data = text ? b.toString('utf8') : this.binaryType === 'arraybuffer' ? new globalThis.Uint8Array(b).buffer : new Blob([b]);
    this.fire(ev);
  }
  gone_(code) { if (this.readyState === 3) return; const bad = this.readyState === 0 || this.failing_; this.readyState = 3; if (bad) this.fire(new Event('error')); const ev = new Event('close'); ev.code = code; this.fire(ev); }
}
Socket.all = []; Socket.CONNECTING = 0; Socket.OPEN = 1; Socket.CLOSING = 2; Socket.CLOSED = 3;
const window = globalThis;
function page(body) {
  document = globalThis.document = new Document();
  document.documentElement = document;
  document.head = document.appendChild(document.createElement('head'));
  document.body = document.appendChild(document.createElement('body'));
  if (body) document.body.innerHTML = body;
  const entries = [''], at = { i: 0 };
  location_ = { get pathname() { return entries[at.i].split(/[?#]/)[0] || '/'; }, get href() { return 'http://foo.com' + (entries[at.i] || '/'); }, get search() { return ''; }, get hash() { return ''; } };
  const to = (u) => { u = String(u); if (/^[a-z]+:\/\/|^\/\//.test(u) && !u.startsWith('http://foo.com/')) fail('SecurityError'); u = u.replace(/^http:\/\/foo\.com/, ''); return new URL(u, 'http://foo.com' + (entries[at.i] || '/')).pathname; };
  history_ = { pushState(a, b, u) { entries.splice(at.i + 1); if (u != null) entries.push(to(u)); else entries.push(entries[at.i]); at.i++; },
    replaceState(a, b, u) { if (u != null) entries[at.i] = to(u); }, get length() { return entries.length; },
    go(n) { const i = at.i + n; if (n && i >= 0 && i < entries.length) { at.i = i; fireWindow('popstate'); } },
    back() { this.go(-1); }, forward() { this.go(1); } };
  const define = (k, v) => Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true });
  define('location', location_); define('history', history_); define('window', globalThis);
  globalThis.onpopstate = null; Socket.all.length = 0; windowTarget.listeners = [];
}
const windowTarget = new EventTarget_();
globalThis.addEventListener = (...a) => windowTarget.addEventListener(...a);
globalThis.removeEventListener = (...a) => windowTarget.removeEventListener(...a);
function fireWindow(type) { const ev = new Event(type); ev.target = globalThis; windowTarget.fire(ev); const h = globalThis['on' + type]; if (typeof h === 'function') try { h.call(globalThis, ev); } catch (e) { errors.push(String(e && e.message || e)); } }
Object.assign(globalThis, { WebSocket: Socket, Event, Node, Element, Text, fireWindow, page, pageErrors: () => errors.splice(0) });
for (const k of ['UTF8ToString', 'stringToAscii', 'stringToUTF8', 'lengthBytesUTF8', 'writeArrayToMemory', 'HEAPU8']) globalThis[k] = own[k];
globalThis.Module = Module;
const logged = [];
globalThis.console = { log: (...a) => logged.push(a.join(' ')), error: (...a) => logged.push(a.join(' ')), warn() { }, info() { } };
globalThis.pageLogged = () => logged.splice(0);
// what is to be seen: texts side by side are one text, an empty text or class is none
const plain = { tag: '', text: '', attrs: [], cls: [], kids: [], hidden: false, id: 0 };
const inner = ['listeners', 'childNodes', 'parentNode', 'ownerDocument', 'localName', 'attrs', 'style'];
globalThis.seen = function (n) {
  if (n instanceof Text) return { ...plain, text: n.data };
  const kids = [];
  for (const c of n.childNodes) {
    if (c instanceof Comment) continue;
    const x = globalThis.seen(c);
    if (x.tag === '') { if (x.text === '') continue; const l = kids[kids.length - 1]; if (l && l.tag === '') { l.text += x.text; continue; } }
    kids.push(x);
  }
  const attrs = [];
  for (const [k, v] of n.attrs) if (k !== 'class') attrs.push([k, v]);
  for (const k of Object.keys(n)) if (!inner.includes(k) && !k.endsWith('_') && !k.startsWith('on')) attrs.push(['.' + k, String(n[k])]);
  const cls = [...new Set((n.getAttribute('class') || '').split(/[ \t\n\f\r]+/).filter((x) => x))];
  return { tag: n.localName, text: '', attrs, cls, kids, hidden: n.style.display === 'none', id: n.mark_ || (n.mark_ = ++marks) };
};
let marks = 0;
// as on a page just loaded, when nothing of the code's is left
globalThis.forget = () => { for (const k of Object.keys(Module)) if (/nbdl_detail/i.test(k) && !/callback/.test(k)) delete Module[k]; };
globalThis.seenText = (n) => JSON.stringify(globalThis.seen(n).kids);
// the i-th element inside, and where it is: its position among the elements, from the outside in
globalThis.whereIs = (root, i) => { const all = root.all_([]); if (!all.length) return null; const el = all[i % all.length], at = [];
  for (let n = el; n !== root; n = n.parentNode) at.unshift(n.parentNode.children.indexOf(n) + 1);
  return { el, at }; };
globalThis.fireAt = (root, type, i) => { const w = whereIs(root, i); if (!w) return JSON.stringify({ at: [], prevented: false });
  const ev = new Event(type, { bubbles: true, cancelable: true }); w.el.dispatchEvent(ev); return JSON.stringify({ at: w.at, prevented: ev.defaultPrevented }); };
page('');

// ---------------------------------------------------------------- values and code
const values = [undefined], free = [];
function keep(v) { const h = free.length ? free.pop() : values.length; values[h] = v; return h; }
const routines = [];
const ops = {
  code: (r) => { const n = r.n; routines.push(new Function('Module', 'Uint8Array', ...Array.from({ length: n }, (_, i) => '$' + i), r.code)); return routines.length - 1; },
  asm: (r) => { const x = routines[r.id](Module, Uint8ArrayX, ...r.args); return r.want === 'd' ? Number(x) : r.want === 'i' ? (x | 0) : null; },
  text: (r) => keep(r.s), number: (r) => keep(r.v), truth: (r) => keep(r.v), nil: () => keep(null), undef: () => keep(undefined), object: () => keep({}), array: () => keep([]),
  global: (r) => keep(r.s === '' ? globalThis : globalThis[r.s]), module: (r) => keep(Module[r.s]),
  copy: (r) => keep(values[r.h]),
  get: (r) => keep(values[r.h][values[r.k]]), set: (r) => { const h = values[r.h]; h[values[r.k]] = values[r.v]; return null; },
  del: (r) => { delete values[r.h][values[r.k]]; return null; },
  call: (r) => keep(values[r.h][r.s](...r.args.map((a) => values[a]))), invoke: (r) => keep(values[r.h](...r.args.map((a) => values[a]))),
  make: (r) => keep(new values[r.h](...r.args.map((a) => values[a]))),
  asnumber: (r) => Number(values[r.h]), astruth: (r) => !!values[r.h], astext: (r) => { const v = values[r.h]; if (typeof v === 'string') return v.toWellFormed(); if (v instanceof ArrayBuffer || ArrayBuffer.isView(v)) return Buffer.from(v).toString('utf8'); throw new TypeError('Cannot pass non-string to std::string'); },
  typeof: (r) => typeof values[r.h], isnull: (r) => values[r.h] === null, same: (r) => values[r.h] === values[r.k], equals: (r) => values[r.h] == values[r.k],
  isarray: (r) => Array.isArray(values[r.h]), in: (r) => values[r.k] in values[r.h], instanceof: (r) => values[r.h] instanceof values[r.k],
};
function serve() {
  for (;;) {
    const r = receive();
    for (const h of r.rel || []) { values[h] = undefined; free.push(h); }
    if ('answer' in r) { if ('throw' in r) throw new Foreign(r.throw); return r.answer; }
    let a;
    try { a = { ret: ops[r.op](r) }; if (typeof a.ret === 'number' && !Number.isFinite(a.ret)) a.ret = 0; if (a.ret === undefined) a.ret = null; } catch (e) { a = { throw: String(e && e.name ? e.name + ': ' + e.message : e) }; }
    send(a);
  }
}
serve();
