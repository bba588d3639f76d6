// Just enough of a browser to run the web page's scripts, with every source of events under
// control: elements, files, drag and drop, object URLs, and a worker.
'use strict';
const fs = require('fs');
const path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');

// --- Events ---

class Ev {
  constructor(type, init = {}) {
    this.defaultPrevented = false;
    this.stopped = this.stoppedNow = false;
    this.target = this.currentTarget = null;
    Object.assign(this, { bubbles: false, cancelable: false, isTrusted: false }, init, { type });
  }
  preventDefault() {
    if (this.cancelable) this.defaultPrevented = true;
  }
  stopPropagation() {
    this.stopped = true;
  }
  stopImmediatePropagation() {
    this.stopped = this.stoppedNow = true;
  }
  composedPath() {
    const p = [];
    for (let n = this.target; n; n = n.parentElement) p.push(n);
    return p;
  }
}

class Target {
  constructor() {
    Object.defineProperty(this, 'listeners', { value: [] });
    this.errors = null;
  }
  addEventListener(type, f, o) {
    const capture = typeof o === 'boolean' ? o : !!o?.capture;
    if (f && !this.listeners.some(l => l.type === type && l.f === f && l.capture === capture)) {
      if (o?.signal?.aborted) return;
      this.listeners.push({ type, f, capture, once: !!o?.once });
      o?.signal?.addEventListener('abort', () => this.removeEventListener(type, f, capture));
    }
  }
  removeEventListener(type, f, o) {
    const capture = typeof o === 'boolean' ? o : !!o?.capture;
    const i = this.listeners.findIndex(l => l.type === type && l.f === f && l.capture === capture);
    if (i >= 0) this.listeners.splice(i, 1);
  }
  fire(ev, phase) {
    ev.currentTarget = this;
    const call = f => {
      try {
        if (typeof f === 'function') f.call(this, ev);
        else f.handleEvent(ev);
      } catch (e) {
        (ev.thrown ??= []).push(e);
      }
    };
    for (const l of [...this.listeners]) {
      if (ev.stoppedNow) break;
      if (l.type !== ev.type || !this.listeners.includes(l)) continue;
      if (phase !== 'target' && l.capture !== (phase === 'capture')) continue;
      if (l.once) this.listeners.splice(this.listeners.indexOf(l), 1);
      call(l.f);
    }
    const on = this['on' + ev.type];
    if (phase !== 'capture' && !ev.stoppedNow && typeof on === 'function') call(on);
  }
  dispatchEvent(ev) {
    ev.target = this;
    const up = [];
    for (let n = this.parentElement; n; n = n.parentElement) up.push(n);
    for (const n of [...up].reverse()) if (!ev.stopped) n.fire(ev, 'capture');
    if (!ev.stopped) this.fire(ev, 'target');
    if (ev.bubbles) for (const n of up) if (!ev.stopped) n.fire(ev, 'bubble');
    return !ev.defaultPrevented;
  }
}

// --- Files ---

class Blob_ {
  constructor(parts = [], o = {}) {
    this.type = o.type ?? '';
    this.bytes = Buffer.concat(parts.map(p => {
      if (p instanceof Blob_) return p.bytes;
      if (typeof p === 'string') return Buffer.from(p);
      return ArrayBuffer.isView(p) ? Buffer.from(p.buffer, p.byteOffset, p.byteLength) : Buffer.from(p);
    }));
  }
  get size() {
    return this.bytes.length;
  }
  read() {
    return Uint8Array.from(this.bytes).buffer;
  }
  async arrayBuffer() {
    return this.read();
  }
  async bytes() {
    return new Uint8Array(this.read());
  }
  async text() {
    return Buffer.from(this.read()).toString();
  }
  slice(a, b, type) {
    const r = new Blob_([], { type });
    r.bytes = this.bytes.subarray(a, b);
    return r;
  }
}
class File_ extends Blob_ {
  constructor(parts, name, o = {}) {
    super(parts, o);
    this.name = name;
  }
  read() {
    if (this.unreadable) throw this.unreadable;
    return super.read();
  }
}
class FileReaderSync_ {
  readAsArrayBuffer(f) {
    return f.read();
  }
}
class FileReader_ extends Target {
  readAsArrayBuffer(f) {
    this.later(() => {
      let type = 'load';
      try {
        this.result = f.read();
      } catch (e) {
        [this.result, this.error, type] = [null, e, 'error'];
      }
      this.dispatchEvent(new Ev(type));
      this.dispatchEvent(new Ev('loadend'));
    });
  }
}
/** Elements of some kind, for instanceof */
const kind = (...tags) => ({ [Symbol.hasInstance]: e => e instanceof Element_ && (!tags.length || tags.includes(e.tagName)) });
const fileList = a => Object.assign([...a], { item: i => a[i] ?? null });

class DataTransfer_ {
  constructor() {
    this.dropEffect = 'none';
    this.effectAllowed = 'all';
    // Files can't be looked at while they are dragged
    this.secret = false;
    this.list = [];
    const dt = this;
    this.items = new Proxy([], {
      get(_, k) {
        if (k === 'length') return dt.list.length;
        if (k === 'add') return f => dt.list.push(f);
        if (k === 'clear') return () => (dt.list = []);
        const all = dt.list.map(f => ({ kind: 'file', type: f.type, getAsFile: () => (dt.secret ? null : f) }));
        if (k === Symbol.iterator) return () => all[Symbol.iterator]();
        if (/^\d+$/.test(String(k))) return all[k];
        const v = all[k];
        return typeof v === 'function' ? v.bind(all) : v;
      },
    });
  }
  get files() {
    return fileList(this.secret ? [] : this.list);
  }
  get types() {
    return this.list.length ? ['Files'] : [];
  }
}

// --- Elements ---

class ClassList {
  check(c) {
    if (c.some(x => !/^\S+$/.test(x))) throw new Error('SyntaxError: not a class name');
  }
  constructor(a) {
    this.set = new Set(a);
  }
  add(...c) {
    this.check(c);
    c.forEach(x => this.set.add(x));
  }
  remove(...c) {
    this.check(c);
    c.forEach(x => this.set.delete(x));
  }
  contains(c) {
    return this.set.has(c);
  }
  toggle(c, force = !this.set.has(c)) {
    this[force ? 'add' : 'remove'](c);
    return force;
  }
  replace(a, b) {
    if (!this.set.delete(a)) return false;
    this.set.add(b);
    return true;
  }
  get length() {
    return this.set.size;
  }
  get value() {
    return [...this.set].join(' ');
  }
  forEach(f) {
    this.set.forEach(c => f(c));
  }
  item(i) {
    return [...this.set][i] ?? null;
  }
  [Symbol.iterator]() {
    return this.set[Symbol.iterator]();
  }
}

/** Selectors of one element, and lists of them */
const matches = s => {
  const one = s.split(',').map(x => {
    const m = /^\s*([\w-]*|\*)((?:#[\w-]+|\.[\w-]+|\[[\w-]+(?:=["']?[^"'\]]*["']?)?\])*)\s*$/.exec(x);
    if (!m) throw new Error(`selector ${x}`);
    const parts = [...m[2].matchAll(/#([\w-]+)|\.([\w-]+)|\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]/g)];
    return e => (!m[1] || m[1] === '*' || e.tagName === m[1].toUpperCase()) && parts.every(p => {
      if (p[1]) return e.id === p[1];
      if (p[2]) return e.classList.contains(p[2]);
      return e.hasAttribute(p[3]) && (p[4] === undefined || e.getAttribute(p[3]) === p[4]);
    });
  });
  return e => one.some(f => f(e));
};

class Element_ extends Target {
  constructor(page, tag, attrs) {
    super();
    this.tagName = tag.toUpperCase();
    this.attrs = { ...attrs };
    this.classList = new ClassList((attrs.class ?? '').split(/\s+/).filter(Boolean));
    this.style = {
      setProperty(k, v) {
        this[k] = v;
      },
      removeProperty(k) {
        delete this[k];
      },
    };
    this.dataset = {};
    this.parentElement = null;
    this.children = [];
    this.text = '';
    this.disabled = 'disabled' in attrs;
    Object.defineProperty(this, 'page', { value: page });
    if (tag === 'audio') {
      this.paused = true;
      this.autoplay = false;
      this.currentTime = 0;
    }
    if (tag === 'input') this.list = fileList([]);
  }
  get id() {
    return this.attrs.id ?? '';
  }
  set id(v) {
    this.attrs.id = v;
  }
  get className() {
    return [...this.classList].join(' ');
  }
  set className(v) {
    this.classList.set = new Set(v.split(/\s+/).filter(Boolean));
  }
  get hidden() {
    return 'hidden' in this.attrs;
  }
  set hidden(v) {
    this.toggleAttribute('hidden', !!v);
  }
  get src() {
    return this.attrs.src ?? '';
  }
  set src(v) {
    this.attrs.src = String(v);
    // Another resource is not played until asked for
    if (this.tagName === 'AUDIO') this.paused = true;
  }
  get href() {
    return this.attrs.href ?? '';
  }
  set href(v) {
    this.attrs.href = String(v);
  }
  get download() {
    return this.attrs.download ?? '';
  }
  set download(v) {
    this.attrs.download = String(v);
  }
  get innerText() {
    return this.text;
  }
  set innerText(v) {
    this.text = String(v);
  }
  get textContent() {
    return this.text;
  }
  set textContent(v) {
    this.text = String(v);
  }
  get files() {
    return this.list ?? null;
  }
  set files(v) {
    if (v !== null) this.list = fileList([...v]);
  }
  get value() {
    return this.list?.length ? 'C:\\fakepath\\' + this.list[0].name : '';
  }
  set value(v) {
    if (v === '' && this.list) this.list = fileList([]);
  }
  getAttribute(k) {
    return this.attrs[k] ?? null;
  }
  setAttribute(k, v) {
    if (k === 'class') this.className = String(v);
    else this.attrs[k] = String(v);
  }
  hasAttribute(k) {
    return k in this.attrs;
  }
  removeAttribute(k) {
    delete this.attrs[k];
  }
  toggleAttribute(k, force = !(k in this.attrs)) {
    if (force) this.attrs[k] ??= '';
    else delete this.attrs[k];
    return force;
  }
  prepend(...c) {
    const l = this.children.splice(0);
    this.append(...c, ...l);
  }
  removeChild(c) {
    c.remove();
    return c;
  }
  hasChildNodes() {
    return this.children.length > 0;
  }
  appendChild(c) {
    c.parentElement = this;
    this.children.push(c);
    return c;
  }
  append(...c) {
    c.forEach(x => this.appendChild(x));
  }
  remove() {
    const l = this.parentElement?.children;
    if (l) l.splice(l.indexOf(this), 1);
    this.parentElement = null;
  }
  get parentNode() {
    return this.parentElement;
  }
  get childNodes() {
    return this.children;
  }
  get firstElementChild() {
    return this.children[0] ?? null;
  }
  get lastElementChild() {
    return this.children.at(-1) ?? null;
  }
  get isConnected() {
    return this.page.document.documentElement.contains(this);
  }
  get ownerDocument() {
    return this.page.document;
  }
  get type() {
    return this.attrs.type ?? '';
  }
  set type(v) {
    this.attrs.type = String(v);
  }
  matches(s) {
    return matches(s)(this);
  }
  closest(s) {
    let n = this;
    while (n instanceof Element_ && !n.matches(s)) n = n.parentElement;
    return n instanceof Element_ ? n : null;
  }
  querySelectorAll(s) {
    return this.children.flatMap(c => [...(c.matches(s) ? [c] : []), ...c.querySelectorAll(s)]);
  }
  querySelector(s) {
    return this.querySelectorAll(s)[0] ?? null;
  }
  replaceChildren(...c) {
    [...this.children].forEach(x => x.remove());
    this.text = '';
    c.forEach(x => (typeof x === 'string' ? (this.text += x) : this.appendChild(x)));
  }
  contains(n) {
    for (; n; n = n.parentElement) if (n === this) return true;
    return false;
  }
  focus() {}
  blur() {}
  load() {
    this.paused = true;
  }
  pause() {
    this.paused = true;
  }
  async play() {
    this.paused = false;
  }
  click() {
    const ev = new Ev('click', { bubbles: true, cancelable: true });
    if (this.disabled) return;
    this.dispatchEvent(ev);
    this.page.thrown(ev);
    if (ev.defaultPrevented) return;
    if (this.tagName === 'A' && this.attrs.download !== undefined) this.page.downloads.push({ href: this.href, name: this.download });
    if (this.tagName === 'INPUT' && this.attrs.type === 'file') this.page.dialog = true;
  }
  get visible() {
    for (let n = this; n; n = n.parentElement) {
      if (n.classList.contains('hidden') || n.hidden || n.style.display === 'none' || n.style.visibility === 'hidden') return false;
    }
    return true;
  }
}

function parse(html) {
  const root = { tag: 'html', attrs: {}, children: [] };
  const stack = [root];
  const empty = new Set(['meta', 'link', 'img', 'input', 'br', 'hr', 'path', 'source']);
  const clean = html.replace(/<!--[\s\S]*?-->/g, '').replace(/<%[\s\S]*?%>/g, '').replace(/<!DOCTYPE[^>]*>/i, '');
  for (const m of clean.matchAll(/<(\/?)([a-zA-Z][\w-]*)((?:\s+[\w:@.-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'>]+))?)*)\s*(\/?)>/g)) {
    const tag = m[2].toLowerCase();
    if (m[1]) {
      const i = stack.map(s => s.tag).lastIndexOf(tag);
      if (i > 0) stack.length = i;
      continue;
    }
    const attrs = {};
    for (const a of m[3].matchAll(/([\w:@.-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) attrs[a[1].toLowerCase()] = a[2] ?? a[3] ?? a[4] ?? '';
    if (tag === 'html') {
      Object.assign(root.attrs, attrs);
      continue;
    }
    const n = { tag, attrs, children: [] };
    stack[stack.length - 1].children.push(n);
    if (!m[4] && !empty.has(tag)) stack.push(n);
  }
  return root;
}

// --- Scripts ---

const compiled = new Map();
function compile(file) {
  if (!compiled.has(file)) {
    const o = ts.transpileModule(fs.readFileSync(file, 'utf8'), {
      fileName: file,
      compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true },
    });
    const js = o.outputText.replace(/\bimport\.meta\.url\b/g, JSON.stringify('file://' + file));
    compiled.set(file, new Function('sandbox', 'module', 'exports', 'require', `with (sandbox) { return (function () {\n${js}\n})(); }`));
  }
  return compiled.get(file);
}

/** Runs a module, and those that it imports, with `sandbox` as the global object */
function load(sandbox, file, provided, loaded = new Map()) {
  if (loaded.has(file)) return loaded.get(file).exports;
  const module = { exports: {} };
  loaded.set(file, module);
  const require_ = name => {
    if (name in provided) return provided[name];
    if (/\.css$/.test(name) || !name.startsWith('.')) return {};
    const at = path.resolve(path.dirname(file), name);
    const found = ['', '.ts', '.mts', '.js', '/index.ts', '/index.js'].map(e => at + e).find(f => fs.existsSync(f) && fs.statSync(f).isFile());
    if (!found) throw new Error(`no module ${name} for ${file}`);
    return load(sandbox, found, provided, loaded);
  };
  compile(file)(sandbox, module, module.exports, require_);
  return module.exports;
}

class Page {
  /** `optimize` does what remux() of the WebAssembly interface does */
  constructor(web, optimize) {
    this.downloads = [];
    this.dialog = false;
    this.urls = new Map();
    this.revoked = [];
    this.nextUrl = 0;
    this.problems = [];
    this.workers = [];
    this.timers = [];
    this.web = web;
    this.optimize = optimize;
    const page = this;
    const all = [];
    const make = n => {
      const e = new Element_(page, n.tag, n.attrs);
      all.push(e);
      n.children.forEach(c => e.appendChild(make(c)));
      return e;
    };
    Page.html ??= parse(fs.readFileSync(path.join(web, 'src/index.html'), 'utf8'));
    const root = make(Page.html);
    const find = s => all.filter(matches(s));
    const document = new Target();
    root.parentElement = document;
    document.classList = new ClassList([]);
    document.style = {};
    Object.assign(document, {
      documentElement: root,
      body: all.find(e => e.tagName === 'BODY'),
      readyState: 'loading',
      getElementById: id => (id && all.find(e => e.id === id)) || null,
      querySelector: s => find(s)[0] ?? null,
      querySelectorAll: s => find(s),
      getElementsByTagName: t => find(t),
      getElementsByClassName: c => find('.' + c),
      createElement: t => new Element_(page, t, {}),
    });
    const window = new Target();
    document.parentElement = window;
    window.classList = new ClassList([]);
    window.style = {};
    this.document = document;
    const sandbox = window;
    this.common(sandbox);
    Object.assign(sandbox, {
      window,
      document,
      DataTransfer: DataTransfer_,
      HTMLElement: kind(),
      HTMLMediaElement: kind('AUDIO', 'VIDEO'),
      HTMLParagraphElement: kind('P'),
      HTMLSpanElement: kind('SPAN'),
      Node: Element_,
      SVGElement: kind('SVG', 'PATH'),
      HTMLInputElement: kind('INPUT'),
      HTMLAudioElement: kind('AUDIO'),
      HTMLButtonElement: kind('BUTTON'),
      HTMLAnchorElement: kind('A'),
      HTMLLabelElement: kind('LABEL'),
      HTMLImageElement: kind('IMG'),
      HTMLDivElement: kind('DIV'),
      Element: Element_,
      EventTarget: Target,
      Worker: class extends Target {
        constructor(url) {
          super();
          this.inbox = [];
          this.outbox = [];
          page.workers.push(this);
          const file = String(url).replace(/^file:\/\//, '');
          const self = new Target();
          page.common(self);
          self.self = self;
          self.FileReaderSync = FileReaderSync_;
          self.postMessage = data => void this.outbox.push(data);
          self.close = () => {};
          this.self = self;
          const OggToOgg = class {
            remux(data) {
              if (this.freed) throw new TypeError('null pointer passed to rust');
              return page.optimize(data);
            }
            free() {
              this.freed = true;
            }
            static new_with_defaults() {
              return new this();
            }
          };
          load(self, file, { optivorbis: { OggToOgg, default: { OggToOgg } } });
        }
        postMessage(data) {
          this.inbox.push(data);
        }
        terminate() {
          this.inbox = [];
          this.outbox = [];
          this.dead = true;
        }
      },
    });
    this.window = window;
    load(sandbox, path.join(web, 'src/ts/main.ts'), {});
    document.readyState = 'interactive';
    this.emit(document, new Ev('DOMContentLoaded', { bubbles: true }));
    document.readyState = 'complete';
    this.emit(window, new Ev('load'));
  }
  common(sandbox) {
    const page = this;
    const URL_ = class extends URL {
      static createObjectURL(b) {
        const u = `blob:page/${page.nextUrl++}`;
        page.urls.set(u, b);
        return u;
      }
      static revokeObjectURL(u) {
        page.urls.delete(String(u));
      }
    };
    Object.assign(sandbox, {
      globalThis: sandbox,
      URL: URL_,
      Blob: Blob_,
      File: File_,
      Event: Ev,
      CustomEvent: Ev,
      DragEvent: Ev,
      MouseEvent: Ev,
      MessageEvent: Ev,
      ErrorEvent: Ev,
      FileReader: class extends FileReader_ {
        later(f) {
          page.timers.push(f);
        }
      },
      DOMException,
      structuredClone,
      performance,
      AbortController,
      onmessage: null,
      onerror: null,
      onload: null,
      ondrop: null,
      ondragover: null,
      console: { log() {}, info() {}, warn() {}, error() {}, debug() {} },
      setTimeout: (f, _, ...a) => page.timers.push(() => f(...a)),
      clearTimeout: n => void (page.timers[n - 1] = null),
      queueMicrotask: f => page.timers.push(() => f()),
      requestAnimationFrame: f => page.timers.push(() => f(0)),
    });
  }
  thrown(ev) {
    for (const e of ev.thrown ?? []) this.problems.push(`a handler of ${ev.type} throws ${e}`);
    ev.thrown = [];
  }
  emit(target, ev) {
    target.dispatchEvent(ev);
    this.thrown(ev);
    return ev;
  }
  /** Whatever was put off happens before the next event */
  async settle() {
    await new Promise(r => setImmediate(r));
    for (let n = 0; this.timers.length && n < 100; n += 1) {
      const t = this.timers;
      this.timers = [];
      for (const f of t) f?.();
      await new Promise(r => setImmediate(r));
    }
  }
  el(id) {
    const e = this.document.getElementById(id);
    if (!e) throw new Error(`no element ${id}`);
    return e;
  }
}

module.exports = { Page, Ev, File_, Blob_, DataTransfer_, fileList };
