// A small document model: enough of the DOM for the scripts of the page.
'use strict';

const VOID = new Set('area base br col embed hr img input link meta param source track wbr'.split(' '));
const RAW = new Set(['script', 'style', 'textarea', 'title']);
const FORM = new Set(['input', 'select', 'textarea', 'button', 'form', 'a', 'iframe', 'meta', 'map', 'object', 'output', 'fieldset', 'slot', 'img', 'embed']);
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };
const decode = (s) => s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (m, e) =>
    e[0] === '#' ? String.fromCodePoint(e[1].toLowerCase() === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1))) : (e in ENT ? ENT[e] : m));
const escText = (s) => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/\u00a0/g, '&nbsp;');
const escAttr = (s) => s.replace(/&/g, '&amp;').replace(/"/g, '&quot;').replace(/\u00a0/g, '&nbsp;');

function live(compute) {
    return new Proxy({}, {
        get(_, k) {
            const a = compute();
            if (k === 'length') return a.length;
            if (k === Symbol.iterator) return function* () { for (let i = 0; i < compute().length; i++) yield compute()[i]; };
            if (k === 'item') return (i) => a[i] ?? null;
            if (k === 'namedItem') return (n) => a.find((e) => e.id === n || e.getAttribute('name') === n) ?? null;
            if (typeof k === 'string' && /^\d+$/.test(k)) return a[Number(k)];
            return undefined;
        },
        has(_, k) { return typeof k === 'string' && /^\d+$/.test(k) && Number(k) < compute().length; },
        ownKeys() { return compute().map((_, i) => String(i)); },
        getOwnPropertyDescriptor(_, k) { return { value: compute()[k], enumerable: true, configurable: true }; },
    });
}

class Target {
    constructor() { this._listeners = {}; }
    addEventListener(type, fn, opts) {
        const l = (this._listeners[type] = this._listeners[type] || []);
        if (!l.some((e) => e.fn === fn)) l.push({ fn, once: !!(opts && opts.once), capture: opts === true || !!(opts && opts.capture) });
    }
    removeEventListener(type, fn) { this._listeners[type] = (this._listeners[type] || []).filter((e) => e.fn !== fn); }
    _fire(ev) {
        ev.currentTarget = this;
        for (const e of [...(this._listeners[ev.type] || [])]) {
            if (e.once) this.removeEventListener(ev.type, e.fn);
            (typeof e.fn === 'function' ? e.fn : e.fn.handleEvent).call(this, ev);
            if (ev._stopNow) return;
        }
        const h = this['on' + ev.type];
        if (typeof h === 'function' && h.call(this, ev) === false) ev.preventDefault();
    }
    dispatchEvent(ev) {
        ev.target = this;
        let path = [], n = this;
        while (n) { path.push(n); n = n._up ? n._up() : null; }
        for (const t of ev.bubbles ? path : [this]) {
            t._fire(ev);
            if (ev._stop) break;
        }
        return !ev.defaultPrevented;
    }
}

class Ev {
    constructor(type, init = {}) { this.type = type; this.bubbles = !!init.bubbles; this.cancelable = true; this.defaultPrevented = false; this.detail = init.detail; }
    preventDefault() { this.defaultPrevented = true; }
    composedPath() { const p = []; let n = this.target; while (n) { p.push(n); n = n._up ? n._up() : null; } return p; }
    stopPropagation() { this._stop = true; }
    stopImmediatePropagation() { this._stop = this._stopNow = true; }
}

class Text {
    constructor(t) { this.data = t; this.nodeType = 3; this.parentNode = null; }
    get nextSibling() { return sibling(this, 1); }
    get previousSibling() { return sibling(this, -1); }
    get nodeName() { return '#text'; }
    get textContent() { return this.data; }
    set textContent(v) { this.data = String(v); }
    get nodeValue() { return this.data; }
    get parentElement() { return this.parentNode; }
    cloneNode() { return new Text(this.data); }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    get outerHTML() { return escText(this.data); }
}

class El extends Target {
    constructor(tag, doc) {
        super();
        this.localName = tag.toLowerCase();
        this.nodeType = 1;
        this.attrs = new Map();
        this.childNodes = [];
        this.parentNode = null;
        this.ownerDocument = doc;
        this._style = {};
        if (FORM.has(this.localName)) {
            Object.defineProperty(this, 'name', {
                get() { return this.attrs.get('name') ?? ''; }, set(v) { this.attrs.set('name', String(v)); }, enumerable: true, configurable: true,
            });
        }
        if (['input', 'textarea', 'button', 'select', 'option', 'param', 'progress', 'li', 'data', 'meter', 'output'].includes(this.localName)) {
            Object.defineProperty(this, 'value', {
                get() {
                    if (this.localName === 'select') {
                        const os = this.querySelectorAll('option');
                        const o = os.find((x) => x._selected) ?? os.find((x) => x.attrs.has('selected')) ?? os[0];
                        return o ? o.value : '';
                    }
                    if (this.localName === 'option') return this.attrs.get('value') ?? this.textContent;
                    if (this._value !== undefined) return this._value;
                    if (this.localName === 'textarea') return this.textContent;
                    return this.attrs.get('value') ?? (['checkbox', 'radio'].includes(this.type) ? 'on' : '');
                },
                set(v) {
                    if (this.localName === 'select') { for (const o of this.querySelectorAll('option')) o._selected = o.value === String(v); return; }
                    if (this.localName === 'option' || ['hidden', 'submit', 'button', 'checkbox', 'radio'].includes(this.attrs.get('type'))) this.attrs.set('value', String(v));
                    else this._value = String(v);
                }, enumerable: true, configurable: true,
            });
            Object.defineProperty(this, 'defaultValue', { get() { return this.attrs.get('value') ?? ''; }, set(v) { this.attrs.set('value', String(v)); }, configurable: true });
        }
    }
    get tagName() { return this.localName.toUpperCase(); }
    get nodeName() { return this.tagName; }
    get id() { return this.attrs.get('id') ?? ''; }
    set id(v) { this.attrs.set('id', String(v)); }
    get type() { return this.attrs.get('type') ?? (this.localName === 'input' ? 'text' : this.localName === 'button' ? 'submit' : undefined); }
    set type(v) { this.attrs.set('type', String(v)); }
    get className() { return this.attrs.get('class') ?? ''; }
    set className(v) { this.attrs.set('class', String(v)); }
    get checked() { return this._checked ?? this.attrs.has('checked'); }
    set checked(v) { this._checked = !!v; }
    get disabled() { return this.attrs.has('disabled'); }
    set disabled(v) { if (v) this.attrs.set('disabled', ''); else this.attrs.delete('disabled'); }
    get hidden() { return this.attrs.has('hidden'); }
    set hidden(v) { if (v) this.attrs.set('hidden', ''); else this.attrs.delete('hidden'); }
    get href() { return this.attrs.get('href') ?? ''; }
    set href(v) { this.attrs.set('href', String(v)); }
    get style() {
        const el = this;
        return new Proxy(this._style, {
            get(o, k) {
                const camel = (n) => n.replace(/-(\w)/g, (_, c) => c.toUpperCase());
                if (k === 'setProperty') return (n, v) => { o[camel(n)] = String(v); };
                if (k === 'removeProperty') return (n) => { const old = o[camel(n)] ?? ''; delete o[camel(n)]; return old; };
                if (k === 'getPropertyValue') return (n) => o[camel(n)] ?? '';
                if (k === 'cssText') return Object.entries(o).map(([a, b]) => `${a}:${b}`).join(';');
                return o[k] ?? '';
            },
            set(o, k, v) { if (k === 'cssText') el.style = v; else o[k] = String(v); return true; },
        });
    }
    set style(v) {
        this._style = {};
        for (const part of String(v).split(';')) {
            const i = part.indexOf(':');
            if (i > 0) this._style[part.slice(0, i).trim().replace(/-(\w)/g, (_, c) => c.toUpperCase())] = part.slice(i + 1).trim();
        }
    }
    get dataset() {
        const el = this;
        const key = (k) => 'data-' + k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());
        return new Proxy({}, { get: (_, k) => el.attrs.get(key(k)), set: (_, k, v) => { el.attrs.set(key(k), String(v)); return true; } });
    }
    get classList() {
        const el = this;
        const get = () => el.className.split(/\s+/).filter(Boolean);
        return {
            contains: (c) => get().includes(c),
            add: (...cs) => { el.className = [...new Set([...get(), ...cs])].join(' '); },
            remove: (...cs) => { el.className = get().filter((c) => !cs.includes(c)).join(' '); },
            toggle: (c, f) => { const on = f === undefined ? !get().includes(c) : f; el.className = (on ? [...new Set([...get(), c])] : get().filter((x) => x !== c)).join(' '); return on; },
            get length() { return get().length; },
            [Symbol.iterator]: () => get()[Symbol.iterator](),
        };
    }
    _up() { return this.parentNode || (this === this.ownerDocument.documentElement ? this.ownerDocument : null); }
    getAttribute(k) { return this.attrs.get(k.toLowerCase()) ?? null; }
    setAttribute(k, v) { this.attrs.set(k.toLowerCase(), String(v)); }
    removeAttribute(k) { this.attrs.delete(k.toLowerCase()); }
    hasAttribute(k) { return this.attrs.has(k.toLowerCase()); }
    toggleAttribute(k, f) { const on = f === undefined ? !this.attrs.has(k) : f; if (on) this.attrs.set(k, ''); else this.attrs.delete(k); return on; }
    get _kids() { return this.childNodes.filter((n) => n.nodeType === 1); }
    get children() { return live(() => this._kids); }
    get childElementCount() { return this._kids.length; }
    get firstElementChild() { return this._kids[0] ?? null; }
    get lastElementChild() { return this._kids[this._kids.length - 1] ?? null; }
    get firstChild() { return this.childNodes[0] ?? null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
    get parentElement() { return this.parentNode; }
    _sib(d) { const k = this.parentNode ? this.parentNode._kids : []; return k[k.indexOf(this) + d] ?? null; }
    get nextElementSibling() { return this._sib(1); }
    get previousElementSibling() { return this._sib(-1); }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(n) { while (n) { if (n === this) return true; n = n.parentNode; } return false; }
    get isConnected() { return this.ownerDocument.documentElement.contains(this); }
    insertBefore(n, ref) {
        if (ref && ref.parentNode !== this) throw new Error('NotFoundError: insertBefore');
        if (n.isFragment) { for (const c of [...n.childNodes]) this.insertBefore(c, ref); return n; }
        if (n.parentNode) n.parentNode.removeChild(n);
        const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
        this.childNodes.splice(i, 0, n);
        n.parentNode = this;
        return n;
    }
    appendChild(n) { return this.insertBefore(n, null); }
    append(...ns) { for (const n of ns) this.appendChild(typeof n === 'string' ? new Text(n) : n); }
    prepend(...ns) { for (const n of ns.reverse()) this.insertBefore(typeof n === 'string' ? new Text(n) : n, this.firstChild); }
    before(...ns) { for (const n of ns) this.parentNode.insertBefore(typeof n === 'string' ? new Text(n) : n, this); }
    after(...ns) { const next = this.parentNode.childNodes[this.parentNode.childNodes.indexOf(this) + 1] ?? null; for (const n of ns) this.parentNode.insertBefore(typeof n === 'string' ? new Text(n) : n, next); }
    removeChild(n) {
        const i = this.childNodes.indexOf(n);
        if (i < 0) throw new Error('NotFoundError: removeChild');
        this.childNodes.splice(i, 1);
        n.parentNode = null;
        return n;
    }
    replaceChild(n, old) { this.insertBefore(n, old); this.removeChild(old); return old; }
    replaceChildren(...ns) { for (const c of [...this.childNodes]) this.removeChild(c); this.append(...ns); }
    replaceWith(...ns) { this.before(...ns); this.remove(); }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    insertAdjacentElement(where, n) {
        if (where === 'beforebegin') this.before(n); else if (where === 'afterend') this.after(n);
        else if (where === 'afterbegin') this.prepend(n); else this.append(n);
        return n;
    }
    insertAdjacentHTML(where, html) {
        const t = new El(this.localName, this.ownerDocument);
        t.innerHTML = html;
        const ns = [...t.childNodes];
        if (where === 'beforebegin') this.before(...ns); else if (where === 'afterend') this.after(...ns);
        else if (where === 'afterbegin') this.prepend(...ns); else this.append(...ns);
    }
    cloneNode(deep) {
        const c = new El(this.localName, this.ownerDocument);
        c.attrs = new Map(this.attrs);
        c._style = { ...this._style };
        if (this._value !== undefined) c._value = this._value;
        if (this._checked !== undefined) c._checked = this._checked;
        if (this._selected !== undefined && this.localName !== 'option') c._selected = this._selected;
        if (deep) for (const n of this.childNodes) c.appendChild(n.cloneNode(true));
        return c;
    }
    get textContent() { return this.childNodes.map((n) => n.textContent).join(''); }
    set textContent(v) { this.replaceChildren(new Text(String(v))); }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get innerHTML() { return RAW.has(this.localName) && this.localName === 'script' ? this.textContent : this.childNodes.map((n) => n.outerHTML).join(''); }
    set innerHTML(html) { this.replaceChildren(); parseInto(this, String(html), this.ownerDocument); }
    get outerHTML() {
        const a = [...this.attrs].map(([k, v]) => ` ${k}="${escAttr(v)}"`).join('');
        return VOID.has(this.localName) ? `<${this.localName}${a}>` : `<${this.localName}${a}>${this.innerHTML}</${this.localName}>`;
    }
    *_walk() { for (const c of this._kids) { yield c; yield* c._walk(); } }
    getElementsByClassName(c) { const cs = c.split(/\s+/).filter(Boolean); return live(() => [...this._walk()].filter((e) => cs.every((x) => e.classList.contains(x)))); }
    getElementsByTagName(t) { return live(() => [...this._walk()].filter((e) => t === '*' || e.localName === t.toLowerCase())); }
    querySelectorAll(sel) { const m = compile(sel); return [...this._walk()].filter((e) => m(e)); }
    querySelector(sel) { const m = compile(sel); for (const e of this._walk()) if (m(e)) return e; return null; }
    matches(sel) { return compile(sel)(this); }
    closest(sel) { const m = compile(sel); let n = this; while (n && n.nodeType === 1) { if (m(n)) return n; n = n.parentNode; } return null; }
    click() {
        if (this.disabled) return;
        if (this.type === 'checkbox') { this.checked = !this.checked; }
        const go = this.dispatchEvent(new Ev('click', { bubbles: true }));
        if (!go && this.type === 'checkbox') { this.checked = !this.checked; return; }
        const submits = (this.localName === 'button' && !['button', 'reset'].includes(this.getAttribute('type'))) || (this.localName === 'input' && this.type === 'submit');
        const form = submits && go && this.closest('form');
        if (form && form.dispatchEvent(new Ev('submit', { bubbles: true }))) this.ownerDocument._submits = (this.ownerDocument._submits || 0) + 1;
        if (this.type === 'checkbox') { this.dispatchEvent(new Ev('input', { bubbles: true })); this.dispatchEvent(new Ev('change', { bubbles: true })); }
    }
    focus() {}
    blur() {}
    get rows() { return live(() => [...this._walk()].filter((e) => e.localName === 'tr')); }
    get cells() { return live(() => this._kids.filter((e) => e.localName === 'td' || e.localName === 'th')); }
    get elements() { return live(() => [...this._walk()].filter((e) => ['input', 'select', 'textarea', 'button'].includes(e.localName))); }
    get form() { return this.closest('form'); }
    get options() { return live(() => this.querySelectorAll('option')); }
    get selectedIndex() { const os = this.querySelectorAll('option'); return os.findIndex((o) => o.value === this.value); }
    set selectedIndex(i) { this.querySelectorAll('option').forEach((o, k) => { o._selected = k === Number(i); }); }
    get selectedOptions() { return live(() => this.querySelectorAll('option').filter((o) => o.value === this.value).slice(0, 1)); }
    get selected() { const s = this.closest('select'); return s ? s.value === this.value : !!this._selected; }
    get valueAsNumber() { return this.value === '' ? NaN : Number(this.value); }
    set valueAsNumber(v) { this.value = String(v); }
    get defaultChecked() { return this.attrs.has('checked'); }
    get attributes() { return [...this.attrs].map(([name, value]) => ({ name, value, nodeName: name, nodeValue: value })); }
    getAttributeNames() { return [...this.attrs.keys()]; }
    get nextSibling() { return sibling(this, 1); }
    get previousSibling() { return sibling(this, -1); }
    insertRow(i = -1) {
        const body = this.localName === 'table' ? this._kids.find((e) => e.localName === 'tbody') ?? this.appendChild(new El('tbody', this.ownerDocument)) : this;
        const tr = new El('tr', this.ownerDocument);
        body.insertBefore(tr, i < 0 ? null : body._kids[i] ?? null);
        return tr;
    }
    deleteRow(i) { const rs = [...this.rows]; rs[i < 0 ? rs.length - 1 : i].remove(); }
    insertCell(i = -1) { const td = new El('td', this.ownerDocument); this.insertBefore(td, i < 0 ? null : this._kids[i] ?? null); return td; }
    get content() { return this; }
    getBoundingClientRect() { return { x: 0, y: 0, left: 0, top: 0, right: 100, bottom: 20, width: 100, height: 20 }; }
    get offsetWidth() { return 100; }
    get offsetHeight() { return 20; }
    get clientWidth() { return 100; }
    get clientHeight() { return 20; }
    scrollIntoView() {}
    isSameNode(n) { return this === n; }
    getRootNode() { return this.ownerDocument; }
    get tBodies() { return live(() => this._kids.filter((e) => e.localName === 'tbody')); }
}

function sibling(n, d) {
    const k = n.parentNode ? n.parentNode.childNodes : [];
    return k[k.indexOf(n) + d] ?? null;
}
for (const k of ['min', 'max', 'step', 'title', 'placeholder', 'rel', 'target', 'src', 'lang', 'dir', 'pattern', 'accept', 'alt', 'role']) {
    Object.defineProperty(El.prototype, k, { get() { return this.attrs.get(k) ?? ''; }, set(v) { this.attrs.set(k, String(v)); }, configurable: true });
}
for (const [k, a] of [['htmlFor', 'for'], ['colSpan', 'colspan'], ['tabIndex', 'tabindex'], ['bgColor', 'bgcolor']]) {
    Object.defineProperty(El.prototype, k, { get() { return this.attrs.get(a) ?? ''; }, set(v) { this.attrs.set(a, String(v)); }, configurable: true });
}
for (const [k, a] of [['readOnly', 'readonly'], ['required', 'required'], ['multiple', 'multiple'], ['autofocus', 'autofocus'], ['inert', 'inert']]) {
    Object.defineProperty(El.prototype, k, { get() { return this.attrs.has(a); }, set(v) { if (v) this.attrs.set(a, ''); else this.attrs.delete(a); }, configurable: true });
}

// --- selectors -------------------------------------------------------------------
function compileOne(s) {
    const tests = [];
    const re = /^(?:([\w*-]+)|#([\w-]+)|\.([\w-]+)|\[\s*([\w-]+)\s*(?:([~^$*|]?=)\s*(?:"([^"]*)"|'([^']*)'|([^\]\s]+))\s*)?\]|:([\w-]+)(?:\(([^()]*(?:\([^()]*\))?[^()]*)\))?)/;
    let rest = s;
    while (rest) {
        const m = re.exec(rest);
        if (!m) throw new Error('selector ' + s);
        rest = rest.slice(m[0].length);
        const [, tag, id, cls, attr, op, v1, v2, v3, pseudo, arg] = m;
        if (tag) tests.push((e) => tag === '*' || e.localName === tag.toLowerCase());
        else if (id) tests.push((e) => e.id === id);
        else if (cls) tests.push((e) => e.classList.contains(cls));
        else if (attr) {
            const want = v1 ?? v2 ?? v3;
            tests.push((e) => {
                const v = e.getAttribute(attr);
                if (v === null) return false;
                return !op || (op === '=' ? v === want : op === '^=' ? v.startsWith(want) : op === '$=' ? v.endsWith(want) : op === '*=' ? v.includes(want) : v.split(/\s+/).includes(want));
            });
        } else if (pseudo === 'first-child') tests.push((e) => !e.previousElementSibling);
        else if (pseudo === 'last-child') tests.push((e) => !e.nextElementSibling);
        else if (pseudo === 'nth-child') tests.push((e) => e.parentNode && e.parentNode._kids.indexOf(e) + 1 === Number(arg));
        else if (pseudo === 'checked') tests.push((e) => e.checked);
        else if (pseudo === 'disabled') tests.push((e) => e.disabled);
        else if (pseudo === 'not') { const m2 = compile(arg); tests.push((e) => !m2(e)); }
        else if (pseudo === 'enabled') tests.push((e) => !e.disabled);
        else if (pseudo === 'empty') tests.push((e) => !e.childNodes.length);
        else if (pseudo === 'is' || pseudo === 'where') { const m2 = compile(arg); tests.push((e) => m2(e)); }
        else if (pseudo === 'has') tests.push((e) => !!e.querySelector(arg));
        else if (/^(first|last|nth)-of-type$/.test(pseudo)) tests.push((e) => {
            const same = e.parentNode ? e.parentNode._kids.filter((k) => k.localName === e.localName) : [e];
            return same.indexOf(e) === (pseudo[0] === 'f' ? 0 : pseudo[0] === 'l' ? same.length - 1 : Number(arg) - 1);
        });
        else if (pseudo === 'scope') tests.push(() => true);
        else throw new Error('selector ' + s);
    }
    return (e) => tests.every((t) => t(e));
}
const cache = new Map();
function compile(sel) {
    if (cache.has(sel)) return cache.get(sel);
    const alts = sel.split(/,(?![^[(]*[\])])/).map((alt) => {
        const parts = alt.trim().replace(/\s*([>+~])\s*(?![^[]*\])/g, ' $1 ').split(/\s+(?![^[]*\])/);
        const steps = [];
        let comb = ' ';
        for (const p of parts) {
            if ('>+~'.includes(p)) { comb = p; continue; }
            steps.push({ comb, test: compileOne(p) });
            comb = ' ';
        }
        const match = (e, i) => {
            if (!steps[i].test(e)) return false;
            if (i === 0) return true;
            const c = steps[i].comb;
            if (c === '>') return !!e.parentNode && e.parentNode.nodeType === 1 && match(e.parentNode, i - 1);
            if (c === '+') return !!e.previousElementSibling && match(e.previousElementSibling, i - 1);
            let n = c === '~' ? e.previousElementSibling : e.parentNode;
            while (n && n.nodeType === 1) { if (match(n, i - 1)) return true; n = c === '~' ? n.previousElementSibling : n.parentNode; }
            return false;
        };
        return (e) => match(e, steps.length - 1);
    });
    const f = (e) => alts.some((a) => a(e));
    cache.set(sel, f);
    return f;
}

// --- parsing -----------------------------------------------------------------------
const IN_TABLE = new Set(['thead', 'tbody', 'tfoot', 'tr', 'caption', 'colgroup', 'col', 'script', 'style', 'template']);
const IN_BODY = new Set(['tr', 'script', 'template']);
const IN_ROW = new Set(['td', 'th', 'script', 'template']);

function parseInto(root, html, doc) {
    const stack = [root];
    const top = () => stack[stack.length - 1];
    const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<\/([a-z][\w-]*)\s*>|<([a-z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?|\s*\/(?!>))*)\s*\/?>/gi;
    let pos = 0, m;
    const text = (t) => {
        if (!t) return;
        const p = top().localName;
        if (['table', 'tbody', 'thead', 'tr'].includes(p) && !t.trim()) { top().appendChild(new Text(t)); return; }
        top().appendChild(new Text(decode(t)));
    };
    while ((m = re.exec(html))) {
        text(html.slice(pos, m.index));
        pos = re.lastIndex;
        if (m[1]) {
            const tag = m[1].toLowerCase();
            for (let i = stack.length - 1; i > 0; i--) if (stack[i].localName === tag) { stack.length = i; break; }
        } else if (m[2]) {
            const tag = m[2].toLowerCase();
            const el = new El(tag, doc);
            const are = /([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g;
            let a;
            while ((a = are.exec(m[3] || ''))) {
                const k = a[1].toLowerCase();
                // the first of repeated attributes counts
                if (!el.attrs.has(k)) el.attrs.set(k, decode(a[2] ?? a[3] ?? a[4] ?? ''));
            }
            if (el.attrs.has('style')) el.style = el.attrs.get('style');
            let parent = top(), before = null;
            if (tag === 'tr' && parent.localName === 'table') {
                // a body is implied, and shared by the rows that follow each other
                let body = parent.lastElementChild;
                if (!body || body.localName !== 'tbody') body = parent.appendChild(new El('tbody', doc));
                parent = body;
            } else if ((tag === 'tr' && parent.localName === 'tr') || (IN_ROW.has(tag) && (parent.localName === 'td' || parent.localName === 'th') && tag[0] === 't' && tag.length === 2)) {
                while (stack.length > 1 && top().localName !== (tag === 'tr' ? 'tr' : 'td') && top().localName !== 'th') stack.pop();
                stack.pop();
                parent = top();
            } else if (
                (parent.localName === 'table' && !IN_TABLE.has(tag)) || (['tbody', 'thead'].includes(parent.localName) && !IN_BODY.has(tag)) || (parent.localName === 'tr' && parent !== root && !IN_ROW.has(tag))
            ) {
                // what may not stand in a table goes in front of it
                const table = parent.closest('table');
                if (table && table.parentNode) { before = table; parent = table.parentNode; }
            }
            parent.insertBefore(el, before);
            if (!VOID.has(tag) && !/\/>$/.test(m[0])) {
                if (RAW.has(tag)) {
                    const end = new RegExp(`</${tag}\\s*>`, 'ig');
                    end.lastIndex = pos;
                    const e = end.exec(html);
                    const raw = html.slice(pos, e ? e.index : html.length);
                    if (raw) el.childNodes.push(Object.assign(new Text(tag === 'script' || tag === 'style' ? raw : decode(raw)), { parentNode: el }));
                    pos = re.lastIndex = e ? end.lastIndex : html.length;
                } else stack.push(el);
            }
        }
    }
    text(html.slice(pos));
}

class Doc extends Target {
    constructor(html, win) {
        super();
        this.nodeType = 9;
        this._win = win;
        this.documentElement = new El('html', this);
        this.head = this.documentElement.appendChild(new El('head', this));
        this.body = this.documentElement.appendChild(new El('body', this));
        parseInto(this.body, html.replace(/<\/?(html|head|body)\b[^>]*>/gi, ''), this);
        this.readyState = 'loading';
    }
    _up() { return this._win; }
    getElementById(id) { for (const e of this.documentElement._walk()) if (e.id === id) return e; return null; }
    querySelector(s) { return this.documentElement.querySelector(s); }
    querySelectorAll(s) { return this.documentElement.querySelectorAll(s); }
    getElementsByClassName(c) { return this.documentElement.getElementsByClassName(c); }
    getElementsByTagName(t) { return this.documentElement.getElementsByTagName(t); }
    getElementsByName(n) { return this.documentElement.querySelectorAll(`[name="${n}"]`); }
    createElement(t) { return new El(t, this); }
    createTextNode(t) { return new Text(t); }
    createDocumentFragment() { const f = new El('fragment', this); f.isFragment = true; return f; }
    createElementNS(_, t) { return new El(t, this); }
    importNode(n, deep) { return n.cloneNode(deep); }
    adoptNode(n) { n.remove(); return n; }
    get forms() { return this.documentElement.getElementsByTagName('form'); }
    get scripts() { return this.documentElement.getElementsByTagName('script'); }
    get defaultView() { return this._win; }
    get activeElement() { return this.body; }
    get location() { return this._win.location; }
    get hidden() { return false; }
    get visibilityState() { return 'visible'; }
    createEvent() { return new Ev('', {}); }
}

module.exports = { Doc, El, Ev, Text, Target };
