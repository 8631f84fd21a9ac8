// Runs the real page script of the web view on a small DOM built from the served page.
// Reads one JSON request per line from stdin and answers with one JSON line.
//   {op: "load", id, html, scripts: {url: source}}   a browser opens the page
//   {op: "event", id, name, args}                    a socket.io event reaches the page
//   {op: "fresh", id, name, args}                    the same event on a fresh copy of the page
//   {op: "scan", html}                               which scripts the page refers to
'use strict';
const fs = require('fs');
const vm = require('vm');

const VOID = new Set(['link', 'meta', 'br', 'img', 'hr', 'input', 'base']);

class Node_ {
  constructor(doc) { this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(''); }
  set textContent(v) { this.replaceChildren(v === null ? '' : String(v)); }
  appendChild(c) {
    if (c.parentNode) c.parentNode.removeChild(c);
    c.parentNode = this;
    this.childNodes.push(c);
    return c;
  }
  append(...cs) { for (const c of cs) this.appendChild(c instanceof Node_ ? c : new Text(this.ownerDocument, String(c))); }
  removeChild(c) {
    const i = this.childNodes.indexOf(c);
    if (i < 0) throw new Error('NotFoundError');
    this.childNodes.splice(i, 1);
    c.parentNode = null;
    return c;
  }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  insertBefore(c, ref) {
    if (c.parentNode) c.parentNode.removeChild(c);
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    this.childNodes.splice(i, 0, c);
    c.parentNode = this;
    return c;
  }
  replaceChildren(...cs) {
    for (const c of this.childNodes) c.parentNode = null;
    this.childNodes = [];
    this.append(...cs.filter((c) => c !== ''));
  }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(o) { for (let n = o; n; n = n.parentNode) if (n === this) return true; return false; }
  walk(out = []) {
    for (const c of this.childNodes) {
      if (c instanceof Element) { out.push(c); c.walk(out); }
    }
    return out;
  }
  get children() { return list(this.childNodes.filter((c) => c instanceof Element)); }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  get childElementCount() { return this.children.length; }
  getElementsByClassName(names) {
    const want = String(names).split(/\s+/).filter(Boolean);
    return list(this.walk().filter((e) => {
      const c = e.attrs.get('class');
      return c !== undefined && (c === want[0] && want.length === 1 || want.every((n) => e.classList.contains(n)));
    }));
  }
  getElementsByTagName(t) {
    return list(this.walk().filter((e) => t === '*' || e.localName === String(t).toLowerCase()));
  }
  getElementById(id) {
    id = String(id);
    for (const c of this.childNodes) {
      if (!(c instanceof Element)) continue;
      if (c.attrs.get('id') === id) return c;
      const f = c.getElementById(id);
      if (f) return f;
    }
    return null;
  }
  querySelectorAll(sel) {
    const groups = String(sel).split(',').map(parseSelector);
    return list(this.walk().filter((e) => groups.some((g) => matches(e, g))));
  }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
}

function list(a) {
  a.item = (i) => a[i] || null;
  a.namedItem = (n) => a.find((e) => e.id === n) || null;
  return a;
}

class Text extends Node_ {
  constructor(doc, data) { super(doc); this.data = data; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.data = String(v); }
}

class ClassList {
  constructor(e) { this.e = e; }
  _get() { return (this.e.getAttribute('class') || '').split(/\s+/).filter(Boolean); }
  _set(a) { this.e.setAttribute('class', a.join(' ')); }
  contains(n) { return this._get().includes(n); }
  add(...ns) { const a = this._get(); for (const n of ns) if (!a.includes(n)) a.push(n); this._set(a); }
  remove(...ns) { this._set(this._get().filter((n) => !ns.includes(n))); }
  toggle(n, force) {
    const on = force === undefined ? !this.contains(n) : !!force;
    if (on) this.add(n); else this.remove(n);
    return on;
  }
  get length() { return this._get().length; }
  [Symbol.iterator]() { return this._get()[Symbol.iterator](); }
}

function styleOf(e) {
  const read = () => {
    const m = {};
    for (const part of (e.getAttribute('style') || '').split(';')) {
      const i = part.indexOf(':');
      if (i > 0) m[part.slice(0, i).trim()] = part.slice(i + 1).trim();
    }
    return m;
  };
  const write = (m) => e.setAttribute('style', Object.keys(m).map((k) => `${k}: ${m[k]}`).join('; '));
  const kebab = (k) => k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());
  return new Proxy({}, {
    get(_, k) {
      if (typeof k !== 'string') return undefined;
      if (k === 'setProperty') return (n, v) => { const m = read(); m[n] = String(v); write(m); };
      if (k === 'getPropertyValue') return (n) => read()[n] || '';
      if (k === 'removeProperty') return (n) => { const m = read(); delete m[n]; write(m); };
      return read()[kebab(k)] || '';
    },
    set(_, k, v) {
      const m = read();
      if (v === '' || v === null) delete m[kebab(k)]; else m[kebab(k)] = String(v);
      write(m);
      return true;
    },
  });
}

class Element extends Node_ {
  constructor(doc, name) {
    super(doc);
    this.localName = name;
    this.attrs = new Map();
  }
  get classList() { return new ClassList(this); }
  get style() { return styleOf(this); }
  get tagName() { return this.localName; }
  get nodeName() { return this.localName; }
  get nodeType() { return 1; }
  get id() { return this.getAttribute('id') || ''; }
  set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') || ''; }
  getAttribute(n) { n = String(n); return this.attrs.has(n) ? this.attrs.get(n) : null; }
  setAttribute(n, v) { this.attrs.set(String(n), String(v)); }
  setAttributeNS(_, n, v) { this.setAttribute(n, v); }
  getAttributeNS(_, n) { return this.getAttribute(n); }
  hasAttribute(n) { return this.attrs.has(String(n)); }
  removeAttribute(n) { this.attrs.delete(String(n)); }
  toggleAttribute(n, force) {
    const on = force === undefined ? !this.hasAttribute(n) : !!force;
    if (on) this.setAttribute(n, ''); else this.removeAttribute(n);
    return on;
  }
  getAttributeNames() { return [...this.attrs.keys()]; }
  get attributes() { return list([...this.attrs].map(([name, value]) => ({ name, value }))); }
  get dataset() {
    const e = this;
    const key = (k) => 'data-' + k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());
    return new Proxy({}, {
      get(_, k) { const v = e.getAttribute(key(String(k))); return v === null ? undefined : v; },
      set(_, k, v) { e.setAttribute(key(k), v); return true; },
      has(_, k) { return e.hasAttribute(key(String(k))); },
    });
  }
  get innerHTML() { return this.childNodes.map(serialize).join(''); }
  set innerHTML(v) {
    v = v === null ? '' : String(v);
    this.replaceChildren();
    for (const c of parse(v, this.ownerDocument)) this.appendChild(c);
  }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get outerHTML() { return serialize(this); }
  insertAdjacentHTML(where, html) {
    const cs = parse(String(html), this.ownerDocument);
    if (where === 'beforeend') for (const c of cs) this.appendChild(c);
    else if (where === 'afterbegin') for (const c of cs.reverse()) this.insertBefore(c, this.firstChild);
    else throw new Error('insertAdjacentHTML: ' + where);
  }
  insertAdjacentElement(where, e) {
    if (where === 'beforeend') this.appendChild(e);
    else if (where === 'afterbegin') this.insertBefore(e, this.firstChild);
    else throw new Error('insertAdjacentElement: ' + where);
    return e;
  }
  get previousElementSibling() {
    const s = this.parentNode ? this.parentNode.children : [];
    return s[s.indexOf(this) - 1] || null;
  }
  get nextElementSibling() {
    const s = this.parentNode ? this.parentNode.children : [];
    return s[s.indexOf(this) + 1] || null;
  }
  matches(sel) { return String(sel).split(',').map(parseSelector).some((g) => matches(this, g)); }
  closest(sel) { for (let e = this; e instanceof Element; e = e.parentNode) if (e.matches(sel)) return e; return null; }
  cloneNode(deep) {
    const c = new Element(this.ownerDocument, this.localName);
    for (const [k, v] of this.attrs) c.attrs.set(k, v);
    if (deep) for (const k of this.childNodes) c.appendChild(k instanceof Element ? k.cloneNode(true) : new Text(this.ownerDocument, k.data));
    return c;
  }
  addEventListener() {}
  removeEventListener() {}
}
Object.defineProperty(Element.prototype, 'tagName', { get() { return this.localName; } });

function unescape_(s) {
  return s.replace(/&(#x[0-9a-fA-F]+|#\d+|\w+);/g, (all, n) => {
    if (n[0] === '#') return String.fromCodePoint(n[1] === 'x' ? parseInt(n.slice(2), 16) : parseInt(n.slice(1), 10));
    return { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' }[n] || all;
  });
}

function escape_(s) { return s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;'); }

function serialize(n) {
  if (n instanceof Text) return escape_(n.data);
  const a = [...n.attrs].map(([k, v]) => ` ${k}="${escape_(v).replace(/"/g, '&quot;')}"`).join('');
  return `<${n.localName}${a}>${n.childNodes.map(serialize).join('')}</${n.localName}>`;
}

function parse(src, doc) {
  const root = new Node_(doc);
  const stack = [root];
  let i = 0;
  const text = (s) => { if (s) stack[stack.length - 1].appendChild(new Text(doc, unescape_(s))); };
  while (i < src.length) {
    const lt = src.indexOf('<', i);
    if (lt < 0) { text(src.slice(i)); break; }
    text(src.slice(i, lt));
    if (src.startsWith('<!--', lt)) {
      const e = src.indexOf('-->', lt);
      i = e < 0 ? src.length : e + 3;
      continue;
    }
    if (src[lt + 1] === '!' || src[lt + 1] === '?') {
      const e = src.indexOf('>', lt);
      i = e < 0 ? src.length : e + 1;
      continue;
    }
    if (src[lt + 1] === '/') {
      const e = src.indexOf('>', lt);
      const name = src.slice(lt + 2, e).trim().toLowerCase();
      for (let k = stack.length - 1; k > 0; k--) {
        if (stack[k].localName === name) { stack.length = k; break; }
      }
      i = e + 1;
      continue;
    }
    const m = /^<([A-Za-z][^\s/>]*)((?:\s+[^\s=>/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/.exec(src.slice(lt, lt + 5000));
    if (!m) { text('<'); i = lt + 1; continue; }
    const el = new Element(doc, m[1].toLowerCase());
    const re = /([^\s=>/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g;
    let a;
    while ((a = re.exec(m[2])) !== null) {
      el.attrs.set(a[1], unescape_(a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] || ''));
    }
    stack[stack.length - 1].appendChild(el);
    i = lt + m[0].length;
    if (el.localName === 'script' || el.localName === 'style') {
      const e = src.toLowerCase().indexOf('</' + el.localName, i);
      const end = e < 0 ? src.length : e;
      if (end > i) el.appendChild(new Text(doc, src.slice(i, end)));
      i = e < 0 ? src.length : src.indexOf('>', e) + 1;
    } else if (!m[3] && !VOID.has(el.localName)) {
      stack.push(el);
    }
  }
  const out = root.childNodes;
  for (const c of out) c.parentNode = null;
  return out;
}

function parseSelector(sel) {
  // compound selectors joined by descendant or child combinators
  const toks = sel.trim().replace(/\s*>\s*/g, ' > ').split(/\s+/);
  return toks.map((tok) => {
    if (tok === '>') return '>';
    const c = { tag: null, id: null, cls: [], attr: [], nth: null };
    const re = /([.#]?)([\w-]+|\*)|\[([\w-]+)(?:([*^$~|]?)=["']?([^"'\]]*)["']?)?\]|:(first-child|last-child|nth-child\((\d+)\))/g;
    let m;
    let used = 0;
    while ((m = re.exec(tok)) !== null) {
      used += m[0].length;
      if (m[3]) c.attr.push([m[3], m[4], m[5]]);
      else if (m[6]) c.nth = m[6] === 'first-child' ? 1 : m[6] === 'last-child' ? -1 : parseInt(m[7], 10);
      else if (m[1] === '.') c.cls.push(m[2]);
      else if (m[1] === '#') c.id = m[2];
      else c.tag = m[2] === '*' ? null : m[2].toLowerCase();
    }
    if (used !== tok.length) throw new Error('selector not supported by the simulated page: ' + sel);
    return c;
  });
}

function compound(e, c) {
  if (!(e instanceof Element)) return false;
  if (c.tag && e.localName !== c.tag) return false;
  if (c.id && e.id !== c.id) return false;
  for (const k of c.cls) if (!e.classList.contains(k)) return false;
  for (const [n, op, v] of c.attr) {
    const x = e.getAttribute(n);
    if (x === null) return false;
    if (v === undefined) continue;
    if (op === '' ? x !== v : op === '^' ? !x.startsWith(v) : op === '$' ? !x.endsWith(v) : op === '*' ? !x.includes(v) : !x.split(/\s+/).includes(v)) return false;
  }
  if (c.nth !== null) {
    const s = e.parentNode.children;
    if ((c.nth < 0 ? s[s.length - 1] : s[c.nth - 1]) !== e) return false;
  }
  return true;
}

function matches(e, g) {
  const go = (el, k) => {
    if (!compound(el, g[k])) return false;
    if (k === 0) return true;
    if (g[k - 1] === '>') return go(el.parentNode, k - 2);
    for (let p = el.parentNode; p instanceof Element; p = p.parentNode) if (go(p, k - 1)) return true;
    return false;
  };
  return go(e, g.length - 1);
}

class Document extends Node_ {
  constructor() { super(null); this.ownerDocument = this; this.ready = []; this.readyState = 'loading'; }
  createElement(n) { return new Element(this, String(n).toLowerCase()); }
  createElementNS(_, n) { return this.createElement(n); }
  createTextNode(s) { return new Text(this, String(s)); }
  get documentElement() { return this.querySelector('html'); }
  get body() { return this.querySelector('body'); }
  get head() { return this.querySelector('head'); }
  addEventListener(n, f) { if (n === 'DOMContentLoaded' || n === 'load') this.ready.push(f); }
  removeEventListener() {}
}

const parsed = new Map();

function copy(n, doc) {
  if (n instanceof Text) return new Text(doc, n.data);
  const c = new Element(doc, n.localName);
  for (const [k, v] of n.attrs) c.attrs.set(k, v);
  for (const k of n.childNodes) { const x = copy(k, doc); x.parentNode = c; c.childNodes.push(x); }
  return c;
}

class Page {
  constructor(html, scripts) {
    this.html = html;
    this.scripts = scripts;
    this.handlers = {};
    this.timers = [];
    this.error = null;
    const doc = this.doc = new Document();
    if (!parsed.has(html)) {
      if (parsed.size > 20) parsed.clear();
      parsed.set(html, parse(html, doc).map((n) => n));
    }
    for (const n of parsed.get(html)) doc.appendChild(copy(n, doc));
    const page = this;
    const socket = {
      connected: false, id: null,
      on(n, f) { (page.handlers[n] = page.handlers[n] || []).push(f); return socket; },
      once(n, f) { return socket.on(n, f); },
      off(n) { delete page.handlers[n]; return socket; },
      emit() { return socket; }, connect() { return socket; }, open() { return socket; },
      close() { return socket; }, disconnect() { return socket; },
    };
    socket.addEventListener = socket.on;
    const io = () => socket;
    io.connect = io;
    let seq = 0;
    const later = (f, _, ...a) => { page.timers.push([++seq, () => f(...a)]); return seq; };
    const cancel = (id) => { page.timers = page.timers.filter((x) => x[0] !== id); };
    const win = {
      document: doc, io,
      console: { log() {}, warn() {}, error() {}, info() {}, debug() {} },
      setTimeout: later, clearTimeout: cancel, requestAnimationFrame: (f) => later(f, 0, 0),
      cancelAnimationFrame: cancel, queueMicrotask: (f) => later(f, 0),
      setInterval: () => ++seq, clearInterval() {},
      location: { href: 'http://127.0.0.1/', origin: 'http://127.0.0.1', host: '127.0.0.1', hostname: '127.0.0.1', port: '', protocol: 'http:', pathname: '/', search: '', reload() {} },
      navigator: { userAgent: 'simulated' },
      addEventListener(n, f) { doc.addEventListener(n, f); }, removeEventListener() {},
      Element, HTMLElement: Element, SVGElement: Element, Node: Node_,
    };
    win.window = win.self = win.globalThis = win;
    const ctx = vm.createContext(win);
    this.guard(() => {
      for (const s of doc.getElementsByTagName('script')) {
        const src = s.getAttribute('src');
        let code = s.textContent;
        if (src !== null) {
          if (!(src in scripts)) continue;
          code = scripts[src];
        }
        vm.runInContext(code, ctx, { timeout: 2000 });
      }
      doc.readyState = 'complete';
      for (const f of doc.ready) f({ type: 'DOMContentLoaded' });
      if (typeof win.onload === 'function') win.onload({ type: 'load' });
      this.drain();
    });
  }
  guard(f) {
    try { f(); } catch (e) { this.error = String((e && e.message) || e); }
  }
  drain() {
    for (let k = 0; this.timers.length && k < 1000; k++) this.timers.shift()[1]();
  }
  event(name, args) {
    this.guard(() => {
      for (const f of (this.handlers[name] || []).slice()) f(...args);
      this.drain();
    });
  }
  view() {
    const doc = this.doc;
    const first = (e, cls) => e.getElementsByClassName(cls)[0] || null;
    const fill = (e) => {
      if (!e) return null;
      const s = e.attrs.has('style') ? e.style.fill : null;
      return s || e.getAttribute('fill');
    };
    const txt = (e) => (e ? e.textContent.trim() : null);
    const card = (c) => {
      const t = first(c, 'card-text');
      const text = txt(t);
      return [text, fill(first(c, 'card-background')), text ? fill(t) : null];
    };
    const seats = [...doc.getElementsByClassName('player')].map((p) => {
      const chips = first(p, 'chips');
      return {
        stack: chips ? txt(first(chips, 'chips-text')) : null,
        turn: fill(first(p, 'player-background')),
        cards: [...p.getElementsByClassName('card')].map(card),
      };
    });
    const commits = [...doc.getElementsByClassName('button')].map((b) => ({
      commit: txt(first(b.parentNode, 'chips-text')),
      button: fill(first(b, 'button-background')),
    }));
    const com = first(doc, 'community');
    return {
      error: this.error,
      seats, commits,
      community: com ? [...com.getElementsByClassName('card')].map(card) : null,
      pot: com ? txt(first(com, 'chips-text')) : null,
      paints: [...doc.getElementsByTagName('pattern')].map((p) => p.id),
    };
  }
}

function dump(e) {
  // everything visible: elements, attributes and text; the colour of empty text is not
  const out = [];
  const go = (n) => {
    if (n instanceof Text) { const t = n.data.trim(); if (t) out.push(t); return; }
    const empty = n.localName === 'text' && !n.textContent.trim();
    const a = [...n.attrs].filter(([k]) => !(empty && (k === 'fill' || k === 'stroke' || k === 'style')))
      .sort((x, y) => (x[0] < y[0] ? -1 : 1)).map(([k, v]) => `${k}=${v}`).join(' ');
    out.push(`<${n.localName} ${a}`);
    n.childNodes.forEach(go);
    out.push('>');
  };
  go(e instanceof Element ? e : e.getElementsByTagName('svg')[0] || new Element(null, 'none'));
  return out.join('\n');
}

const pages = new Map();

function differ(a, b) {
  const x = a.split('\n');
  const y = b.split('\n');
  for (let i = 0; i < Math.max(x.length, y.length); i++) {
    if (x[i] !== y[i]) return [x[i] || '', y[i] || ''];
  }
  return null;
}

function handle(r) {
  if (r.op === 'scan') {
    const doc = new Document();
    for (const n of parse(r.html, doc)) doc.appendChild(n);
    return { scripts: [...doc.getElementsByTagName('script')].map((s) => s.getAttribute('src')).filter((s) => s) };
  }
  if (r.op === 'clear') { pages.clear(); return {}; }
  if (r.op === 'load') {
    const p = new Page(r.html, r.scripts);
    pages.set(r.id, p);
    return { error: p.error, handlers: Object.keys(p.handlers) };
  }
  const p = pages.get(r.id);
  if (r.op === 'event') {
    p.event(r.name, r.args);
    const v = p.view();
    if (r.compare) {
      const f = new Page(p.html, p.scripts);
      f.event(r.name, r.args);
      v.differs = differ(dump(p.doc), dump(f.doc));
    }
    return v;
  }
  throw new Error('unknown request');
}

let rest = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
for (;;) {
  let nl;
  while ((nl = rest.indexOf(10)) < 0) {
    let n;
    try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) {
      if (e.code === 'EAGAIN') continue;
      if (e.code === 'EOF') process.exit(0);
      throw e;
    }
    if (n === 0) process.exit(0);
    rest = Buffer.concat([rest, chunk.slice(0, n)]);
  }
  const line = rest.slice(0, nl).toString('utf8');
  rest = rest.slice(nl + 1);
  let out;
  try { out = handle(JSON.parse(line)); } catch (e) { out = { harness: String((e && e.stack) || e) }; }
  const data = Buffer.from(JSON.stringify(out) + '\n');
  for (let o = 0; o < data.length;) {
    try { o += fs.writeSync(1, data, o); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}
