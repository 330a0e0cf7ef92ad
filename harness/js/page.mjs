// node page.mjs: loads the served page in a small stand-in for a browser's DOM
// and enters strings in it, as a visitor would.
//
// {"url": ..., "strings": [...], "delay": ms, "fault": "" | "missing" | "cut"}
import vm from 'node:vm';
import { isDeepStrictEqual } from 'node:util';
import { serve, within } from './common.mjs';

const VOID = new Set(['meta', 'link', 'input', 'br', 'hr', 'img']);
const decode = s => s.replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&quot;/g, '"').replace(/&#39;/g, "'").replace(/&amp;/g, '&');

class Text {
  constructor(s) { this.data = String(s); this.parentNode = null; this.nodeType = 3; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); }
  get visibleText() { return this.data; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
}

class El {
  constructor(doc, tag) {
    this.ownerDocument = doc;
    this.tagName = tag.toUpperCase();
    this.nodeType = 1;
    this.attrs = new Map();
    this.childNodes = [];
    this.parentNode = null;
    this.style = new Proxy({}, {
      get: (t, k) => k === 'setProperty' ? (n, v) => { t[n] = v; } : k === 'removeProperty' ? n => { delete t[n]; } : t[k] ?? '',
    });
    this.listeners = {};
    const set = () => new Set((this.attrs.get('class') || '').split(/\s+/).filter(Boolean));
    const put = s => this.attrs.set('class', [...s].join(' '));
    this.classList = {
      add: (...c) => { const s = set(); c.forEach(x => s.add(x)); put(s); },
      remove: (...c) => { const s = set(); c.forEach(x => s.delete(x)); put(s); },
      contains: c => set().has(c),
      toggle: c => { const s = set(); s.has(c) ? s.delete(c) : s.add(c); put(s); },
    };
    this.dataset = {};
    this._value = null;
  }
  getAttribute(k) { return this.attrs.has(k) ? this.attrs.get(k) : null; }
  setAttribute(k, v) { this.attrs.set(k, String(v)); }
  removeAttribute(k) { this.attrs.delete(k); }
  hasAttribute(k) { return this.attrs.has(k); }
  toggleAttribute(k, f) { const on = f === undefined ? !this.attrs.has(k) : f; if (on) this.attrs.set(k, ''); else this.attrs.delete(k); return on; }
  get id() { return this.getAttribute('id') || ''; }
  set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') || ''; }
  set className(v) { this.setAttribute('class', v); }
  get disabled() { return this.attrs.has('disabled'); }
  set disabled(v) { this.toggleAttribute('disabled', !!v); }
  get hidden() { return this.attrs.has('hidden'); }
  set hidden(v) { this.toggleAttribute('hidden', !!v); }
  get value() { return this._value === null ? this.getAttribute('value') || '' : this._value; }
  set value(v) { this._value = String(v); }
  get children() { return this.childNodes.filter(c => c instanceof El); }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.children[0] || null; }
  get parentElement() { return this.parentNode; }
  get isConnected() { return true; }
  node(n) { return typeof n === 'object' && n !== null ? n : new Text(n); }
  appendChild(n) { n.remove(); n.parentNode = this; this.childNodes.push(n); return n; }
  append(...ns) { ns.forEach(n => this.appendChild(this.node(n))); }
  prepend(...ns) { ns.reverse().forEach(n => this.insertBefore(this.node(n), this.firstChild)); }
  insertBefore(n, ref) {
    if (!ref) return this.appendChild(n);
    n.remove();
    n.parentNode = this;
    this.childNodes.splice(this.childNodes.indexOf(ref), 0, n);
    return n;
  }
  removeChild(n) {
    const i = this.childNodes.indexOf(n);
    if (i < 0) throw new Error('NotFoundError: not a child');
    this.childNodes.splice(i, 1);
    n.parentNode = null;
    return n;
  }
  replaceChild(n, old) { this.insertBefore(n, old); this.removeChild(old); return old; }
  replaceChildren(...ns) { [...this.childNodes].forEach(c => this.removeChild(c)); this.append(...ns); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  hasChildNodes() { return this.childNodes.length > 0; }
  get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
  set textContent(v) { this.replaceChildren(); if (String(v) !== '') this.appendChild(new Text(v)); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return this.textContent.replace(/&/g, '&amp;').replace(/</g, '&lt;'); }
  set innerHTML(v) { this.replaceChildren(); parseInto(this.ownerDocument, this, String(v)); }
  insertAdjacentText(w, v) { this.append(String(v)); }
  insertAdjacentHTML(w, v) { parseInto(this.ownerDocument, this, String(v)); }
  insertAdjacentElement(w, e) { return this.appendChild(e); }
  get shown() {
    for (let e = this; e; e = e.parentNode) {
      if (e.style && (e.style.display === 'none' || e.style.visibility === 'hidden') || e.attrs && e.attrs.has('hidden')) return false;
    }
    return true;
  }
  get visibleText() { return this.shown ? this.childNodes.map(c => c.visibleText).join('') : ''; }
  walk(f) { for (const c of this.children) { f(c); c.walk(f); } }
  querySelectorAll(sel) {
    const out = [];
    const m = sel.split(',').map(s => s.trim().split(/\s+/).pop()).map(s => /^([a-z0-9*]*)((?:[#.][\w-]+)*)((?:\[[^\]]*\])*)$/i.exec(s));
    this.walk(e => {
      if (m.some(x => x && (!x[1] || x[1] === '*' || e.tagName === x[1].toUpperCase()) &&
        (x[2].match(/[#.][\w-]+/g) || []).every(p => p[0] === '#' ? e.id === p.slice(1) : e.classList.contains(p.slice(1))) &&
        (x[3].match(/\[[^\]]*\]/g) || []).every(p => { const a = /\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]/.exec(p); return a && e.hasAttribute(a[1]) && (a[2] === undefined || e.getAttribute(a[1]) === a[2]); }))) out.push(e);
    });
    return out;
  }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  addEventListener(t, f) { (this.listeners[t] ||= []).push(f); }
  removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(x => x !== f); }
  dispatchEvent(ev) { return fire(this, ev.type, ev); }
  focus() {}
  blur() {}
  click() { return press(this); }
}

function parseInto(doc, root, html) {
  let at = root, m;
  const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<(\/?)([a-zA-Z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*\/?>|([^<]+|<)/gi;
  while ((m = re.exec(html))) {
    if (m[4] !== undefined) {
      at.appendChild(new Text(decode(m[4])));
    } else if (m[2]) {
      const tag = m[2].toLowerCase();
      if (m[1]) {
        let e = at;
        while (e !== root && e.tagName !== tag.toUpperCase()) e = e.parentNode;
        if (e !== root) at = e.parentNode;
        continue;
      }
      const e = new El(doc, tag);
      for (const a of m[3].matchAll(/([^\s=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) {
        e.attrs.set(a[1].toLowerCase(), decode(a[2] ?? a[3] ?? a[4] ?? ''));
      }
      at.appendChild(e);
      if (tag === 'script') {
        const end = html.toLowerCase().indexOf('</script>', re.lastIndex);
        e.appendChild(new Text(html.slice(re.lastIndex, end < 0 ? html.length : end)));
        re.lastIndex = end < 0 ? html.length : end + 9;
      } else if (!VOID.has(tag)) at = e;
    }
  }
}

let current; // the context the inline handlers run in

function fire(target, type, ev) {
  const e = Object.assign({ type, target, currentTarget: target, defaultPrevented: false, preventDefault() { this.defaultPrevented = true; }, stopPropagation() {}, stopImmediatePropagation() {} }, ev && typeof ev === 'object' ? ev : {});
  const inline = target.getAttribute && target.getAttribute('on' + type);
  if (inline) {
    const f = vm.runInContext('(function(event){' + inline + '\n})', current);
    if (f.call(target, e) === false) e.defaultPrevented = true;
  }
  if (typeof target['on' + type] === 'function' && target['on' + type].call(target, e) === false) e.defaultPrevented = true;
  for (const f of [...(target.listeners[type] || [])]) {
    const g = typeof f === 'function' ? f : f.handleEvent.bind(f);
    g.call(target, e);
  }
  return e;
}

// press is a click of the visitor: the form is submitted unless a handler forbids it.
function press(button) {
  if (button.disabled) return false;
  const e = fire(button, 'click');
  if (e.defaultPrevented || (button.getAttribute('type') || 'submit') !== 'submit') return true;
  for (let f = button.parentNode; f; f = f.parentNode) {
    if (f.tagName === 'FORM') {
      const s = fire(f, 'submit');
      if (!s.defaultPrevented) current.navigated = true;
      break;
    }
  }
  return true;
}

async function load(url, { delay = 0, fault = '' }) {
  const log = [], fetched = [];
  const rsp = await fetch(url);
  if (rsp.status !== 200) throw new Error('the page has status ' + rsp.status);
  const html = await rsp.text();
  const doc = new El(null, '#document');
  doc.ownerDocument = doc;
  parseInto(doc, doc, html);
  const win = new El(null, '#window');
  const sandbox = {
    console: { log: (...a) => log.push(a.map(String).join(' ')), debug() {}, info() {}, warn: (...a) => log.push(a.map(String).join(' ')), error: (...a) => log.push(a.map(String).join(' ')) },
    setTimeout, clearTimeout, setInterval, clearInterval, queueMicrotask, TextEncoder, TextDecoder, URL, Headers, Request, Response, AbortController,
    performance, crypto: globalThis.crypto, WebAssembly, Uint8Array, ArrayBuffer, Event: class { constructor(t) { this.type = t; } },
    alert: m => log.push('alert ' + m),
  };
  sandbox.fetch = async (u, o) => {
    const abs = new URL(typeof u === 'string' ? u : u.url || String(u), url).href;
    fetched.push(abs);
    if (/\.wasm($|\?)/.test(abs)) {
      if (delay) await new Promise(r => setTimeout(r, delay));
      if (fault === 'missing') return new Response('404 page not found', { status: 404, headers: { 'content-type': 'text/plain' } });
      if (fault === 'refused') throw new TypeError('fetch failed');
      const real = await fetch(abs, o);
      if (fault === 'cut') return new Response((await real.arrayBuffer()).slice(0, 100000), { status: 200, headers: { 'content-type': 'application/wasm' } });
      return real;
    }
    return fetch(abs, o);
  };
  const ctx = vm.createContext(sandbox);
  for (const k of ['addEventListener', 'removeEventListener', 'dispatchEvent']) sandbox[k] = win[k].bind(win);
  sandbox.window = sandbox.self = sandbox.globalThis = vm.runInContext('globalThis', ctx);
  sandbox.document = new Proxy(doc, {
    get(t, k) {
      switch (k) {
        case 'getElementById': return id => t.querySelector('#' + id);
        case 'createElement': return tag => new El(t, tag);
        case 'createTextNode': return s => new Text(s);
        case 'createDocumentFragment': return () => new El(t, 'fragment');
        case 'body': return t.querySelector('body');
        case 'documentElement': return t.querySelector('html');
        case 'readyState': return sandbox.__ready ? 'complete' : 'loading';
        case 'URL': return url;
        case 'addEventListener': return (ty, f) => t.addEventListener(ty, f);
      }
      const v = t[k];
      return typeof v === 'function' ? v.bind(t) : v;
    },
  });
  sandbox.location = new URL(url);
  sandbox.navigator = { userAgent: 'stand-in' };
  current = ctx;
  const scripts = [];
  doc.walk(e => { if (e.tagName === 'SCRIPT') scripts.push(e); });
  for (const s of scripts) {
    const src = s.getAttribute('src');
    if (src !== null) {
      const abs = new URL(src, url).href;
      fetched.push(abs);
      const r = await fetch(abs);
      if (r.status !== 200) { log.push(abs + ' has status ' + r.status); continue; }
      if (!/javascript/.test(r.headers.get('content-type') || '')) log.push(abs + ' has type ' + r.headers.get('content-type'));
      vm.runInContext(await r.text(), ctx, { filename: abs });
    } else {
      vm.runInContext(s.textContent, ctx);
    }
  }
  sandbox.__ready = true;
  const sheets = doc.querySelectorAll('link').filter(l => l.getAttribute('rel') === 'stylesheet').map(l => new URL(l.getAttribute('href'), url).href);
  for (const s of sheets) {
    const r = await fetch(s);
    if (r.status !== 200 || !/text\/css/.test(r.headers.get('content-type') || '')) log.push(s + ' has status ' + r.status + ' and type ' + r.headers.get('content-type'));
    await r.arrayBuffer();
  }
  fire(doc, 'DOMContentLoaded');
  const before = doc.querySelector('#button').disabled;
  fire(win, 'load');
  if (typeof sandbox.onload === 'function') sandbox.onload({ type: 'load' });
  return { doc, ctx, log, fetched, sheets, before };
}

// fits: is this the JSON, or a message with the error?
function fits(shown, want) {
  if (want.err) return shown.includes(want.err);
  try {
    return isDeepStrictEqual(JSON.parse(shown), JSON.parse(want.json));
  } catch (e) {
    return false;
  }
}

const pages = new Map();
process.on('unhandledRejection', e => unhandled.push(String(e)));
process.on('uncaughtException', e => unhandled.push(String(e)));
const unhandled = [];
const tick = () => new Promise(r => setImmediate(r));

await serve(async req => {
  if (req.load) {
    unhandled.length = 0;
    const p = await within(load(req.url, req), 60000, 'loading the page');
    pages.set(req.page, p);
    const button = p.doc.querySelector('#button');
    const waits = [];
    const t0 = Date.now();
    let enabledAt = -1;
    while (Date.now() - t0 < (req.fault ? 600 : 60000)) {
      if (!button.disabled) { enabledAt = Date.now() - t0; break; }
      await new Promise(r => setTimeout(r, 2));
    }
    return { initially: p.before, enabled: !button.disabled, enabledAt, label: button.textContent, log: p.log, fetched: p.fetched, sheets: p.sheets, unhandled: [...unhandled] };
  }
  if (req.drop) { pages.delete(req.page); return {}; }
  const p = pages.get(req.page);
  current = p.ctx;
  const results = [];
  for (let i = 0; i < req.strings.length; i++) {
    p.doc.querySelector('#raw').value = req.strings[i];
    unhandled.length = 0;
    const pressed = press(p.doc.querySelector('#button'));
    const out = p.doc.querySelector('#result');
    const want = req.want[i];
    // what should be shown is the monitor's to say; here it is only waited for
    const t0 = Date.now();
    let same = 0, before;
    while (Date.now() - t0 < 4000) {
      await tick();
      const now = out.visibleText;
      same = now === before && fits(now, want) ? same + 1 : 0;
      before = now;
      if (same >= 3) break;
    }
    results.push({ pressed, shown: out.visibleText, navigated: !!p.ctx.navigated, unhandled: [...unhandled] });
    if (same < 3) break;
  }
  return { results };
});
