// Runs the scripts of one rendered page and answers requests, one JSON line each.
'use strict';
const vm = require('vm');
const fs = require('fs');
const path = require('path');
const { Doc, El, Ev, Target } = require('./dom.js');

const repo = process.argv[2];
let win, doc, ctx, gd, calls, timers;

function plotly() {
    const get = (g) => {
        const el = typeof g === 'string' ? doc.getElementById(g) : g;
        if (!el) throw new Error('No DOM element with id ' + g + ' exists on the page.');
        return el;
    };
    const clone = (x) => (x === undefined ? undefined : structuredCloneLike(x));
    const structuredCloneLike = (x) => JSON.parse(JSON.stringify(x));
    const plain = (x) => Object.prototype.toString.call(x) === '[object Object]';
    const P = {
        newPlot(g, data, layout) {
            const el = get(g);
            if (data && !Array.isArray(data) && data.data) { layout = data.layout; data = data.data; }
            el.data = [...(data || [])]; el.layout = layout || {};
            calls.push('newPlot');
            return Promise.resolve(el);
        },
        addTraces(g, traces, at) {
            const el = get(g);
            if (!Array.isArray(el.data)) throw new Error('gd.data must be an array.');
            if (traces === undefined) throw new Error('traces must be defined.');
            traces = Array.isArray(traces) ? [...traces] : [traces];
            if (at === undefined) el.data.push(...traces);
            else { at = Array.isArray(at) ? at : [at]; traces.forEach((t, i) => el.data.splice(at[i] < 0 ? el.data.length + 1 + at[i] : at[i], 0, t)); }
            calls.push('addTraces');
            return Promise.resolve(el);
        },
        deleteTraces(g, idx) {
            const el = get(g);
            if (!Array.isArray(el.data)) throw new Error('gd.data must be an array.');
            idx = (Array.isArray(idx) ? idx : [idx]).map((i) => (i < 0 ? el.data.length + i : i));
            for (const i of idx) if (!(i in el.data)) throw new Error('indices must be valid indices for gd.data.');
            el.data = el.data.filter((_, i) => !idx.includes(i));
            return Promise.resolve(el);
        },
        // like the library: an array is no update of traces, and there has to be a plot already
        update(g, traces, layout, which) {
            const el = get(g);
            const idx = which === undefined ? el.data.map((_, i) => i) : Array.isArray(which) ? which : [which];
            if (plain(traces)) for (const i of idx) for (const [k, v] of Object.entries(traces)) setPath(el.data[i], k, Array.isArray(v) ? v[idx.indexOf(i) % v.length] : v);
            if (plain(layout)) for (const [k, v] of Object.entries(layout)) setPath(el.layout, k, v);
            return Promise.resolve(el);
        },
        restyle(g, a, b, c) { return typeof a === 'string' ? P.update(g, { [a]: b }, {}, c) : P.update(g, a, {}, b); },
        relayout(g, a, b) { return P.update(g, {}, typeof a === 'string' ? { [a]: b } : a); },
        redraw(g) { return Promise.resolve(get(g)); },
        purge(g) { const el = get(g); delete el.data; delete el.layout; return el; },
        moveTraces(g, from, to) {
            const el = get(g);
            from = (Array.isArray(from) ? from : [from]).map((i) => (i < 0 ? el.data.length + i : i));
            const moved = from.map((i) => el.data[i]);
            const rest = el.data.filter((_, i) => !from.includes(i));
            if (to === undefined) el.data = [...rest, ...moved];
            else { to = Array.isArray(to) ? to : [to]; to.forEach((t, i) => rest.splice(t, 0, moved[i])); el.data = rest; }
            return Promise.resolve(el);
        },
        Plots: { resize: () => Promise.resolve() },
    };
    P.react = P.newPlot;
    P.plot = P.newPlot;
    void clone;
    return P;
}
function setPath(o, k, v) {
    const ks = k.split('.');
    for (const p of ks.slice(0, -1)) o = o[p] = o[p] || {};
    o[ks[ks.length - 1]] = v;
}

async function settle() {
    for (let i = 0; i < 5; i++) await new Promise((r) => setImmediate(r));
    for (let n = 0; n < 5 && timers.length; n++) {
        const due = timers.filter((t) => t.ms <= 1000 && !t.every);
        timers = timers.filter((t) => !due.includes(t));
        for (const t of due) t.fn(...t.args);
        for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r));
    }
}

async function load(req) {
    calls = [];
    timers = [];
    win = new Target();
    win.innerWidth = req.width || 1200;
    win.innerHeight = 800;
    doc = new Doc(req.html, win);
    for (const [id, t] of Object.entries(req.texts || {})) {
        const el = doc.getElementById(id);
        if (!el) throw new Error('the page has no element ' + id);
        el.textContent = t;
    }
    for (const [id, v] of Object.entries(req.values || {})) doc.getElementById(id).value = v;
    let n = 0;
    const out = {
        document: doc, Plotly: plotly(), console: { log() {}, warn() {}, error() {}, info() {} }, Event: Ev, CustomEvent: Ev,
        setTimeout: (fn, ms = 0, ...args) => { timers.push({ id: ++n, fn, ms, args }); return n; },
        clearTimeout: (id) => { timers = timers.filter((t) => t.id !== id); },
        setInterval: (fn, ms) => { timers.push({ id: ++n, fn, ms, every: true, args: [] }); return n; },
        clearInterval: (id) => { timers = timers.filter((t) => t.id !== id); },
        requestAnimationFrame: (fn) => { timers.push({ id: ++n, fn, ms: 0, args: [0] }); return n; },
        getComputedStyle: (e) => e.style, location: { href: 'http://127.0.0.1/', pathname: '/', search: '' }, navigator: { userAgent: 'check' },
        addEventListener: win.addEventListener.bind(win), removeEventListener: win.removeEventListener.bind(win), dispatchEvent: win.dispatchEvent.bind(win),
        queueMicrotask, structuredClone, HTMLElement: El, Element: El, Node: El, NodeList: Array, MouseEvent: Ev, InputEvent: Ev, KeyboardEvent: Ev, URL, URLSearchParams, performance, localStorage: { getItem: () => null, setItem() {}, removeItem() {} }, sessionStorage: { getItem: () => null, setItem() {}, removeItem() {} }, matchMedia: (q) => { const m = /\(\s*(max|min)-width:\s*([\d.]+)px\s*\)/.exec(q); return { matches: !!m && (m[1] === 'max' ? win.innerWidth <= Number(m[2]) : win.innerWidth >= Number(m[2])), addEventListener() {}, removeEventListener() {}, addListener() {} }; }, DOMParser: undefined, alert() {},
    };
    for (const [k, v] of Object.entries(out)) win[k] = v;
    ctx = vm.createContext(win);
    win.window = win.self = win.globalThis = ctx;
    doc._win = win;
    for (const s of doc.querySelectorAll('script')) {
        const src = s.getAttribute('src');
        if (src === null) {
            const type = s.getAttribute('type');
            if (!type || /javascript|module/.test(type)) vm.runInContext(s.textContent, ctx);
        } else if (!/^https?:/.test(src)) {
            const file = path.join(repo, 'static', decodeURIComponent(src.replace(/^.*?static\//, '').replace(/\?.*$/, '')));
            vm.runInContext(fs.readFileSync(file, 'utf8'), ctx, { filename: file });
        }
    }
    doc.readyState = 'interactive';
    doc.dispatchEvent(new Ev('DOMContentLoaded', { bubbles: true }));
    doc.readyState = 'complete';
    win.dispatchEvent(new Ev('load'));
    await settle();
}

function find(sel, i = 0) {
    const el = doc.querySelectorAll(sel)[i];
    if (!el) throw new Error('the page has no ' + sel);
    return el;
}

// what a browser would submit
function formData(form) {
    const out = [];
    for (const e of form._walk()) {
        if (!['input', 'select', 'textarea'].includes(e.localName) || !e.name || e.disabled) continue;
        if (e.type === 'checkbox' || e.type === 'radio') { if (e.checked) out.push([e.name, e.value]); continue; }
        if (['submit', 'button', 'image', 'reset'].includes(e.type) && e.localName === 'input') continue;
        out.push([e.name, e.value]);
    }
    return out;
}

function table(rowClass) {
    return doc.querySelectorAll('.' + rowClass).map((row) => {
        const fields = [];
        for (const e of row._walk()) {
            if (!['input', 'select', 'textarea'].includes(e.localName)) continue;
            fields.push({ name: e.name, id: e.id, value: e.type === 'checkbox' ? e.checked : e.value, type: e.type ?? null });
        }
        return fields;
    });
}

function shown(el) {
    for (let n = el; n && n.nodeType === 1; n = n.parentNode) if ((n._style.display || '') === 'none' || n.hidden) return false;
    return true;
}

const actions = {
    async load(r) { await load(r); },
    async change(r) {
        const el = find(r.sel, r.i);
        if (el.type === 'checkbox') { if (el.checked !== !!r.value) el.click(); } else {
            el.value = r.value;
            el.dispatchEvent(new Ev('input', { bubbles: true }));
            el.dispatchEvent(new Ev('change', { bubbles: true }));
        }
        await settle();
    },
    async drag(r) { const el = find(r.sel, r.i); el.value = r.value; el.dispatchEvent(new Ev('input', { bubbles: true })); await settle(); },
    async type(r) {
        // typing into an input of one row; the change event comes when the field is left
        const row = doc.querySelectorAll('.' + r.row)[r.i];
        const els = [...row._walk()].filter((e) => ['input', 'select', 'textarea'].includes(e.localName) && e.type !== 'hidden');
        const el = els[r.field % els.length];
        if (el.type === 'checkbox') el.click(); else {
            el.value = r.value;
            el.dispatchEvent(new Ev('input', { bubbles: true }));
            el.dispatchEvent(new Ev('change', { bubbles: true }));
        }
        await settle();
        return { id: el.id, name: el.name };
    },
    // gives a control another value, as a user would
    async edit(r) {
        const el = r.row ? find('.' + r.row + ' [name$="-' + r.field + '"]', r.i) : find(r.sel, r.i);
        if (el.type === 'checkbox') el.click(); else {
            if (el.localName === 'select') {
                const os = el.querySelectorAll('option');
                el.value = os[(os.findIndex((o) => o.value === el.value) + 1) % os.length].value;
            } else {
                const v = r.values.find((x) => Number(x) !== Number(el.value));
                el.value = v;
            }
            el.dispatchEvent(new Ev('input', { bubbles: true }));
            el.dispatchEvent(new Ev('change', { bubbles: true }));
        }
        await settle();
    },
    async sliders() {
        return doc.querySelectorAll('input').filter((e) => e.type === 'range').map((e) => {
            const p = e.parentNode;
            return { id: e.id, value: e.value, texts: p._kids.filter((k) => k !== e).map((k) => k.textContent), n: p._kids.length };
        });
    },
    async typeName(r) {
        const row = doc.querySelectorAll('.' + r.row)[r.i];
        const el = [...row._walk()].find((e) => ['input', 'select', 'textarea'].includes(e.localName) && (e.name || '').endsWith('-' + r.field));
        if (!el) throw new Error('row ' + r.i + ' has no ' + r.field);
        if (el.type === 'checkbox') el.click(); else {
            el.value = r.value;
            el.dispatchEvent(new Ev('input', { bubbles: true }));
            el.dispatchEvent(new Ev('change', { bubbles: true }));
        }
        await settle();
    },
    async click(r) {
        let el = find(r.sel, r.i);
        el.click();
        await settle();
    },
    async deleteRow(r) {
        const row = doc.querySelectorAll('.' + r.row)[r.i];
        const b = row.querySelector('button');
        b.click();
        await settle();
    },
    async resize(r) { win.innerWidth = r.width; win.dispatchEvent(new Ev('resize')); await settle(); },
    async plot() {
        gd = doc.getElementById('plotly_js');
        return { data: gd.data ?? null, layout: gd.layout ?? null };
    },
    async tables(r) {
        const out = {};
        for (const [k, cls, total] of r.tables) out[k] = { rows: table(cls), total: find(total).value };
        return out;
    },
    async submit(r) { return formData(find(r.sel)); },
    async submits() { return doc._submits || 0; },
    async cells(r) { return find(r.sel)._kids.map((tr) => tr._kids.map((td) => [td.textContent, td._style.backgroundColor ?? td._style.background ?? ''])); },
    async cells1(r) { return [find(r.sel)._kids.map((td) => [td.textContent, td._style.backgroundColor ?? td._style.background ?? ''])]; },
    async texts(r) { return doc.querySelectorAll(r.sel).map((e) => e.textContent); },
    async state(r) {
        const out = {};
        for (const [k, sel, i] of r.of) {
            const el = doc.querySelectorAll(sel)[i || 0];
            out[k] = el ? { shown: shown(el), disabled: el.disabled || el.classList.contains('disabled'), href: el.getAttribute('href'), value: el.value ?? null, text: el.textContent } : null;
        }
        return out;
    },
};

async function main() {
    const rl = require('readline').createInterface({ input: process.stdin });
    for await (const line of rl) {
        let out;
        try {
            const reqs = JSON.parse(line);
            out = [];
            for (const r of reqs) {
                try { out.push({ ok: (await actions[r.do](r)) ?? null }); } catch (e) {
                    out.push({ error: `${e && e.name}: ${e && e.message}`, stack: String(e && e.stack).split('\n').slice(0, 4).join(' | ') });
                    break;
                }
            }
        } catch (e) { out = [{ harness: String(e.stack) }]; }
        process.stdout.write(JSON.stringify(out) + '\n');
    }
}
process.stdout.on('error', () => process.exit(0));
process.on('unhandledRejection', () => {});
main();
