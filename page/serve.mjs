// Runs the web page of the repository in a small document model, one user session per input line,
// and answers with what was seen: {"ok":true,"seen":[...]} or {"fail":signature,"message":...}
// or {"unclear":reason} when the page asks for something the document model lacks.
//
// usage: node --experimental-vm-modules serve.mjs DOCS_DIRECTORY

import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import readline from 'node:readline';
import { Document, Element, Event, Fragment, MutationObserver, Node, Text, missed, resetWatchers } from './dom.mjs';

const DOCS = process.argv[2];
const HTML = fs.readFileSync(path.join(DOCS, 'index.html'), 'utf8');
const ORIGIN = 'https://meters.example';
const PAGE = '/m-bus-parser/';
const FORMATS = {
    json: ['json', 'application/json'],
    yaml: ['yaml', 'application/yaml'],
    csv: ['csv', 'text/csv'],
    mermaid: ['mmd', 'text/plain'],
    xml: ['xml', 'application/xml'],
    hexview: ['json', 'application/json'],
    table: ['txt', 'text/plain'],
};

class Unclear extends Error {}
class Wrong extends Error {
    constructor(sig, message) {
        super(message);
        this.sig = sig;
    }
}

const short = (v, n = 300) => {
    const t = typeof v === 'string' ? v : JSON.stringify(v) ?? String(v);
    return t.length > n ? t.slice(0, n) + '…' : t;
};

const rejections = [];
process.on('unhandledRejection', (e) => rejections.push(String(e?.stack ?? e)));

// Waits until every promise that can settle has settled.
async function settle() {
    for (let i = 0; i < 4; i += 1) await new Promise((r) => setImmediate(r));
}

function exported() {
    const names = new Set(['m_bus_render', 'm_bus_highlight', 'version', 'm_bus_decode', 'm_bus_parse', 'm_bus_parse_with_key', 'initSync']);
    try {
        const glue = fs.readFileSync(path.join(DOCS, 'm_bus_parser_wasm_pack.js'), 'utf8');
        for (const m of glue.matchAll(/export (?:async )?(?:function|const|class) (\w+)/g)) names.add(m[1]);
    } catch {
        // the names above are enough
    }
    return [...names];
}
const NAMES = exported();

const escape = (t) => t.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/"/g, '&quot;').replace(/'/g, '&#39;');

class Page {
    constructor(world, search) {
        this.world = world;
        this.calls = [];
        this.errors = [];
        this.runs = [];
        this.clipboard = null;
        this.blobs = new Map();
        this.timers = new Map();
        this.resizers = [];
        this.dark = false;
        this.search = search;
        resetWatchers();
        this.doc = new Document(HTML);
        this.doc.widths.set('output-container', world.width);
        this.doc.widths.set('output', world.width);
        this.doc.characterWidth = world.character;
        this.doc.copied = (t) => {
            this.clipboard = t;
            return true;
        };
    }

    async open() {
        const page = this;
        const doc = this.doc;
        const global = {
            document: doc,
            console: { log() {}, warn() {}, error() {}, info() {}, debug() {} },
            Document,
            Element,
            HTMLElement: Element,
            Event,
            MouseEvent: Event,
            CustomEvent: Event,
            Node,
            Text,
            DocumentFragment: Fragment,
            MutationObserver,
            URLSearchParams,
            TextEncoder,
            TextDecoder,
            structuredClone,
            queueMicrotask,
            performance,
            ResizeObserver: class {
                constructor(f) {
                    this.f = f;
                    this.on = [];
                    page.resizers.push(this);
                }
                observe(e) {
                    this.on.push(e);
                }
                unobserve(e) {
                    this.on = this.on.filter((x) => x !== e);
                }
                disconnect() {
                    this.on = [];
                }
            },
            Blob: class {
                constructor(parts = [], options = {}) {
                    this.text = () => Promise.resolve(this.content);
                    this.content = [...parts].map(String).join('');
                    this.type = options.type || '';
                    this.size = this.content.length;
                }
            },
            URL: Object.assign(
                class extends URL {},
                {
                    createObjectURL: (b) => {
                        const name = `blob:${ORIGIN}/${page.blobs.size}`;
                        page.blobs.set(name, b);
                        return name;
                    },
                    revokeObjectURL: (name) => page.blobs.has(name) && page.blobs.set(name, null),
                },
            ),
            location: {
                origin: ORIGIN,
                pathname: PAGE,
                protocol: 'https:',
                host: 'meters.example',
                hash: '',
                get search() {
                    return page.search;
                },
                get href() {
                    return ORIGIN + PAGE + page.search;
                },
            },
            history: {
                state: null,
                replaceState: (_, __, url) => page.go(url),
                pushState: (_, __, url) => page.go(url),
            },
            navigator: page.world.clipboard
                ? {
                      clipboard: {
                          writeText: (t) => {
                              page.clipboard = String(t);
                              return Promise.resolve();
                          },
                      },
                  }
                : {},
            localStorage: {
                getItem: (k) => page.world.stored[k] ?? null,
                setItem: (k, v) => void (page.world.stored[k] = String(v)),
                removeItem: (k) => void delete page.world.stored[k],
            },
            matchMedia: (q) => ({ matches: page.world.dark && /dark/.test(q), media: q, addEventListener() {}, addListener() {} }),
            setTimeout: (f, ms = 0) => {
                const id = page.timers.size + 1;
                page.timers.set(id, { f, ms });
                return id;
            },
            clearTimeout: (id) => page.timers.has(id) && page.timers.set(id, null),
            requestAnimationFrame: (f) => global.setTimeout(() => f(0), 16),
            cancelAnimationFrame: (id) => global.clearTimeout(id),
            setInterval: () => 0,
            clearInterval: () => {},
            getComputedStyle: () => ({ getPropertyValue: () => '' }),
            open: () => null,
            addEventListener: (t, f) => doc.addEventListener(t, f),
            removeEventListener: (t, f) => doc.removeEventListener(t, f),
            innerWidth: 1200,
            innerHeight: 800,
            scrollX: 0,
            scrollY: 0,
            devicePixelRatio: 1,
            mermaid: {
                initialize(options) {
                    page.strict = options?.securityLevel === undefined || ['strict', 'sandbox', 'antiscript'].includes(options.securityLevel);
                    page.started = options?.startOnLoad === false;
                },
                run: ({ nodes } = {}) =>
                    new Promise((resolve, reject) => page.runs.push({ nodes: [...(nodes ?? [])], text: [...(nodes ?? [])].map((n) => n.textContent), resolve, reject })),
                render: (id, text) => new Promise((resolve, reject) => page.runs.push({ nodes: [], text: [text], resolve, reject, render: true })),
            },
        };
        const context = vm.createContext(global);
        this.context = context;
        const inside = vm.runInContext('globalThis', context);
        for (const name of ['window', 'self', 'top', 'parent']) inside[name] = inside;
        doc.defaultView = inside;
        const Bad = vm.runInContext('Error', context);
        const refuse = (code, message) => {
            const e = new Bad(message);
            e.name = 'MbusParserError';
            e.code = code;
            return e;
        };
        const table = this.world.results;
        const pack = {
            default: async () => ({}),
            version: () => '9.8.7',
            m_bus_render: (data, format, key, width, enrichment) => {
                const call = { data, format, key: key ?? null, width: width ?? null, enrichment };
                page.calls.push(call);
                const k = JSON.stringify([data, format, call.key]);
                const r = table.get(k);
                if (!r) throw refuse('unexpected.call', `the bindings were asked for ${short(k)}`);
                if (r.code !== undefined) throw refuse(r.code, r.message);
                return r.ok;
            },
            m_bus_highlight: (source, language) => {
                page.highlighted = language;
                if (page.world.plain) throw refuse('highlight', 'no highlighter');
                return String(source).replace(/[^\s]+|\s+/g, (w) => (/\s/.test(w) ? w : `<span class="syn-text syn-x">${escape(w)}</span>`));
            },
        };
        const link = async (name) => {
            const bare = name.split('?')[0];
            if (/m_bus_parser_wasm_pack(_bg)?\.js$/.test(bare)) {
                const names = ['default', ...NAMES];
                const m = new vm.SyntheticModule(
                    names,
                    function () {
                        for (const n of names) {
                            this.setExport(
                                n,
                                pack[n] ??
                                    (() => {
                                        missed.add('binding ' + n);
                                        throw refuse('unexpected.call', n);
                                    }),
                            );
                        }
                    },
                    { context },
                );
                return m;
            }
            const file = path.join(DOCS, path.normalize('/' + bare));
            if (!fs.existsSync(file)) throw new Unclear(`the page imports ${name}`);
            return new vm.SourceTextModule(fs.readFileSync(file, 'utf8'), { context, identifier: bare, initializeImportMeta: meta });
        };
        const meta = (m) => {
            m.url = ORIGIN + PAGE + 'index.html';
        };
        for (const s of this.doc.querySelectorAll('script')) {
            const src = s.getAttribute('src');
            if (src && /^[a-z]+:|^\/\//i.test(src)) continue;
            const text = src ? fs.readFileSync(path.join(DOCS, path.normalize('/' + src.split('?')[0])), 'utf8') : s.textContent;
            if (s.getAttribute('type') === 'module') {
                const m = new vm.SourceTextModule(text, { context, identifier: 'page', initializeImportMeta: meta, importModuleDynamically: link });
                await m.link(link);
                await m.evaluate();
            } else {
                vm.runInContext(text, context);
            }
        }
        await settle();
        this.doc.dispatchEvent(new Event('DOMContentLoaded'));
        await settle();
        this.complain();
    }

    go(url) {
        const u = new URL(String(url), ORIGIN + PAGE + this.search);
        if (u.origin !== ORIGIN || u.pathname !== PAGE) throw new Wrong('page-url', `the page moves to ${short(u.href)}`);
        this.search = u.search;
    }

    // Errors nobody handles.
    complain() {
        const e = this.errors[0] ?? rejections[0];
        this.errors.length = 0;
        rejections.length = 0;
        if (!e) return;
        const name = /ReferenceError: (\w+) is not defined/.exec(e);
        if (name) throw new Unclear(`the page uses ${name[1]}`);
        throw new Wrong('page-exception', short(e, 600));
    }

    fire(el, type, init = {}) {
        const run = (f) => {
            try {
                f();
            } catch (e) {
                if (e instanceof Wrong || e instanceof Unclear) this.held ??= e;
                else this.errors.push(String(e?.stack ?? e));
            }
        };
        el.dispatchEvent(new Event(type, { bubbles: true, run, ...init }));
    }

    get(id) {
        const e = this.doc.getElementById(id);
        if (!e) throw new Unclear(`the page has no element ${id}`);
        return e;
    }

    tick() {
        const due = [...this.timers].filter(([, t]) => t).sort((a, b) => a[1].ms - b[1].ms);
        for (const [id] of due) {
            const t = this.timers.get(id);
            if (!t) continue;
            this.timers.set(id, null);
            try {
                t.f();
            } catch (e) {
                this.errors.push(String(e?.stack ?? e));
            }
        }
    }
}

// ------------------------------------------------------------------ what must be seen

const DIGITS = /^[0-9A-Fa-f]{32}$/;

// Runs of fields of one record; checksums between its bytes part a record in two.
function blocks(segments) {
    const list = [];
    const of = [];
    let now = null;
    for (const s of segments) {
        if (s.layer !== 'record_field') {
            now = null;
            of.push(null);
        } else if (s.group === null) of.push(null);
        else {
            if (s.group !== now) list.push(s.group);
            now = s.group;
            of.push(list.length - 1);
        }
    }
    return { list, of };
}

class Session {
    constructor(query) {
        this.query = query;
        this.seen = new Set();
        this.world = {
            width: query.width,
            character: query.character,
            clipboard: query.clipboard,
            plain: query.plain,
            dark: query.dark,
            stored: {},
            results: new Map(query.results.map((r) => [JSON.stringify([r.data, r.format, r.key]), r])),
        };
        this.bytesOf = new Map(query.bytes.map(([t, b]) => [t, b]));
    }

    async run() {
        await this.load('');
        for (const a of this.query.actions) {
            this.step = a;
            this.page.calls.length = 0;
            this.page.clipboard = null;
            const keep = this.model;
            await this[a.do](a);
            await settle();
            if (this.page.held) throw this.page.held;
            this.page.complain();
            this.judge(keep);
            this.seen.add(`${a.do} ${a.format ?? ''} ${this.model.shown?.kind ?? 'nothing'}`);
        }
    }

    wrong(sig, message) {
        throw new Wrong(sig, `${short(this.step ?? 'load')}: ${message}`);
    }

    async load(search) {
        this.page = new Page(this.world, search);
        this.model = { format: null, shown: null, width: null, selected: null, open: null, link: search };
        const params = new URLSearchParams(search);
        const data = params.get('data');
        await this.page.open();
        if (this.page.held) throw this.page.held;
        if (this.page.strict === false) this.wrong('page-markup', 'diagrams are drawn without the restrictions for untrusted text');
        this.input = this.page.get('inputstring');
        this.key = this.page.get('aeskey');
        if (this.key.getAttribute('type') !== 'password') this.wrong('page-key', 'the key is readable when the page opens');
        if (data) {
            if (this.input.value !== data) this.wrong('page-load', `the link says ${short(data)}, the input ${short(this.input.value)}`);
            this.expect(params.get('format') === 'table_format' ? 'table' : params.get('format') || 'mermaid', true);
        } else if (this.page.calls.length) this.wrong('page-load', 'the page parses before it is asked to');
    }

    // The state after a request for one format with the present input and key.
    expect(format, linked) {
        const key = this.key.value.trim();
        const m = { ...this.model, format, selected: null, open: null, pending: null };
        if (linked) {
            const p = new URLSearchParams(this.page.search);
            const [d, f] = [p.get('data'), p.get('format')];
            const same = f === format || (f === 'table_format' && format === 'table');
            if (d !== this.input.value || !same) this.wrong('page-url', `the address says ${short(this.page.search)}`);
            m.link = this.page.search;
        }
        if (this.refused()) {
            if (this.page.calls.some((c) => c.key === null)) this.wrong('page-call', 'a malformed key is dropped');
            m.shown = { kind: 'error', code: 'option.invalid', format };
            this.model = m;
            return;
        }
        const calls = this.page.calls;
        const want = { data: this.input.value, format, key: key || null };
        if (calls.length !== 1) this.wrong('page-call', `${calls.length} calls for ${short(want)}`);
        const c = calls[0];
        if (c.data !== want.data || c.format !== want.format || c.key !== want.key || c.enrichment === false) {
            this.wrong('page-call', `called with ${short(c)} for ${short(want)}`);
        }
        if (format === 'table') {
            const w = c.width;
            const fits = w * this.world.character <= this.world.width || w === 32;
            if (!Number.isInteger(w) || w < 32 || w > 120 || !fits) {
                this.wrong('page-width', `width ${w} for ${this.world.width} pixels of ${this.world.character}`);
            }
            m.width = w;
        }
        const r = this.world.results.get(JSON.stringify([want.data, format, want.key]));
        if (!r) throw new Unclear(`no result prepared for ${short(want)}`);
        if (r.code !== undefined) m.shown = { kind: 'error', code: r.code, message: r.message, format };
        else if (format === 'mermaid') {
            m.shown = { kind: 'diagram', text: r.ok, format };
            const run = this.page.runs.at(-1);
            if (!run || run.text.length !== 1 || run.text[0] !== r.ok) this.wrong('page-diagram', `the diagram is drawn from ${short(run?.text)}`);
            run.mine = m.pending = run;
        } else if (format === 'hexview') {
            const parsed = JSON.parse(r.ok);
            const segments = Array.isArray(parsed) ? parsed : parsed.segments;
            const bytes = !Array.isArray(parsed) && Array.isArray(parsed.bytes) ? parsed.bytes : this.bytesOf.get(want.data);
            if (!Array.isArray(segments) || segments.length === 0 || !bytes?.length) m.shown = { kind: 'alert', text: r.ok, format };
            else {
                m.shown = { kind: 'hex', text: r.ok, format, segments, bytes };
                m.shown.blocks = blocks(segments);
                m.open = new Set(m.shown.blocks.list.keys());
            }
        } else m.shown = { kind: 'text', text: r.ok, format };
        this.model = m;
    }

    // -------------------------------------------------------------- actions

    async reload(a) {
        await this.load(a.search);
    }
    async type(a) {
        this.input.value = a.text;
        this.page.fire(this.input, 'input');
        this.page.fire(this.input, 'change');
    }
    async setkey(a) {
        this.key.value = a.text;
        this.page.fire(this.key, 'input');
        this.page.fire(this.key, 'change');
    }
    async press(a) {
        this.page.fire(this.page.get('parse_' + a.format), 'click');
        this.check = () => this.expect(a.format, true);
    }
    async draw(a) {
        const run = this.page.runs.find((r) => !r.done);
        if (!run) return;
        run.done = true;
        if (a.ok) {
            for (const n of run.nodes) n.innerHTML = '<svg id="drawn"></svg>';
            run.resolve(run.render ? { svg: '<svg id="drawn"></svg>' } : undefined);
        } else run.reject(Object.assign(new (vm.runInContext('Error', this.page.context))('no diagram'), {}));
        if (this.model.pending === run) {
            this.model = { ...this.model, pending: null };
            if (!a.ok) this.model.shown = { kind: 'error', code: 'render.failed', message: 'no diagram', format: 'mermaid' };
            else this.model.shown = { ...this.model.shown, drawn: true };
        }
    }
    async copy() {
        this.page.fire(this.page.get('copy_output'), 'click');
        this.check = () => {
            const s = this.model.shown;
            if (s?.kind === 'diagram' && !s.drawn) return;
            const want = s && s.kind !== 'error' ? s.text : '';
            if (this.page.clipboard !== want) this.wrong('page-copy', `copied ${short(this.page.clipboard)}, shown is ${short(want)}`);
        };
    }
    async share(a) {
        this.page.fire(this.page.get('share_button'), 'click');
        await settle();
        if (this.page.held) throw this.page.held;
        this.page.complain();
        const text = this.page.clipboard;
        let u;
        try {
            u = new URL(text);
        } catch {
            this.wrong('page-share', `the link is ${short(text)}`);
        }
        const p = u.searchParams;
        const format = p.get('format');
        const right = this.model.format === null ? format in FORMATS : format === this.model.format;
        if (u.origin !== ORIGIN || u.pathname !== PAGE || p.get('data') !== this.input.value || !right) {
            this.wrong('page-share', `the link is ${short(text)} for ${short(this.input.value)} as ${this.model.format}`);
        }
        this.secret(text);
        if (a.open && this.model.format !== null) await this.load(u.search);
    }
    async reveal() {
        const before = this.key.getAttribute('type');
        this.page.fire(this.page.get('key-toggle'), 'click');
        if (this.page.held) throw this.page.held;
        const after = this.key.getAttribute('type');
        if (before === after || !['text', 'password'].includes(after)) this.wrong('page-key', `the key field goes from ${before} to ${after}`);
    }
    async resize(a) {
        this.world.width = a.width;
        this.resized = true;
        this.page.doc.widths.set('output-container', a.width);
        this.page.doc.widths.set('output', a.width);
        for (const r of this.page.resizers) if (r.on.length) r.f(r.on.map((target) => ({ target, contentRect: { width: a.width } })), r);
        await settle();
        this.redrawn();
    }
    async wait() {
        this.page.tick();
        await settle();
        this.redrawn(true);
    }
    // The table may be drawn again for another width, nothing else may happen by itself.
    redrawn(last) {
        const m = this.model;
        if (this.page.calls.length) {
            if (m.format !== 'table') this.wrong('page-redraw', `${short(this.page.calls[0])} replaces ${m.format}`);
            this.expect('table', false);
            this.seen.add('table drawn again');
        } else if (this.resized && m.format === 'table' && this.refused() && this.output().querySelector('[role="alert"]')?.textContent.startsWith('[option.invalid]')) {
            // drawn again with the key that is in the field by now
            this.expect('table', false);
        } else if (last && m.format === 'table' && m.width !== null && m.shown.kind === 'text') {
            const fits = m.width * this.world.character <= this.world.width || m.width === 32;
            if (!fits) this.wrong('page-redraw', `a table of ${m.width} characters stays in ${this.world.width} pixels`);
        }
        if (last) this.resized = false;
        this.page.calls.length = 0;
    }
    refused() {
        const key = this.key.value.trim();
        return key !== '' && !DIGITS.test(key);
    }
    cells(i) {
        return this.output().querySelectorAll('[data-byte-idx]').filter((e) => e.getAttribute('data-byte-idx') === String(i));
    }
    owner(i) {
        let at = null;
        this.model.shown.segments.forEach((s, k) => {
            if (i >= s.start && i < s.end) at = k;
        });
        return at;
    }
    choose(k) {
        const m = { ...this.model, selected: k === null || this.model.selected === k ? null : k };
        if (m.selected !== null) {
            const b = m.shown.blocks.of[k];
            if (b !== null) m.open = new Set([...m.open, b]);
        }
        this.model = m;
    }
    async cell(a) {
        if (this.model.shown?.kind !== 'hex') return;
        const i = a.at % this.model.shown.bytes.length;
        this.page.fire(this.cells(i)[a.which], 'click');
        this.choose(this.owner(i));
        this.seen.add(`cell of ${this.model.shown.segments[this.owner(i)]?.kind}`);
    }
    async hover(a) {
        if (this.model.shown?.kind !== 'hex') return;
        const i = a.at % this.model.shown.bytes.length;
        const c = this.cells(i)[a.which];
        const k = this.owner(i);
        this.page.fire(c, 'mouseover');
        this.page.fire(c, 'mousemove', { clientX: 5, clientY: 40 });
        const shown = () => this.page.doc.querySelectorAll('.hex-tooltip').filter((t) => t.style.display && t.style.display !== 'none');
        if (k !== null) {
            const tips = shown();
            const detail = this.model.shown.segments[k].detail ?? '';
            if (tips.length !== 1 || !tips[0].textContent.includes(detail)) this.wrong('page-tooltip', `${short(tips.map((t) => t.textContent))} for ${short(detail)}`);
        }
        this.page.fire(c, 'mouseout');
        if (shown().length) this.wrong('page-tooltip', 'stays when the pointer leaves');
    }
    item(a) {
        const m = this.model;
        if (m.shown?.kind !== 'hex') return null;
        const k = a.at % m.shown.segments.length;
        return [k, this.items()[k]];
    }
    items() {
        return this.output().querySelectorAll('[data-seg-idx]').filter((e) => !e.hasAttribute('data-byte-idx'));
    }
    async field(a) {
        const i = this.item(a);
        if (!i) return;
        this.page.fire(i[1], 'click');
        this.choose(i[0]);
    }
    async point(a) {
        const i = this.item(a);
        if (!i) return;
        this.page.fire(i[1], 'mouseover');
        if (this.model.selected === null) this.marked(this.model.shown.segments[i[0]]);
        this.page.fire(i[1], 'mouseout');
    }
    async copyfield(a) {
        const i = this.item(a);
        if (!i) return;
        const b = i[1].querySelector('button');
        if (!b) throw new Unclear('no button to copy a field');
        this.page.fire(b, 'click');
        await settle();
        const s = this.model.shown.segments[i[0]];
        const want = this.model.shown.bytes.slice(s.start, s.end);
        const got = (this.page.clipboard ?? '').trim().split(/\s+/).filter(Boolean).map((x) => parseInt(x, 16));
        if (JSON.stringify(want) !== JSON.stringify(got)) this.wrong('page-copy', `field ${short(s)} copied as ${short(this.page.clipboard)}`);
    }
    async group(a) {
        if (this.model.shown?.kind !== 'hex' || !this.model.open) return;
        const heads = this.output().querySelectorAll('.hex-tree-group-header');
        if (!heads.length) return;
        const k = a.at % heads.length;
        this.page.fire(heads[k], 'click');
        const open = new Set(this.model.open);
        if (!open.delete(k)) open.add(k);
        this.model = { ...this.model, open };
    }
    // -------------------------------------------------------------- views

    output() {
        return this.page.get('output');
    }

    secret(text) {
        const key = this.key.value.trim();
        if (key.length >= 8 && !this.input.value.includes(key) && String(text).toLowerCase().includes(key.toLowerCase())) {
            this.wrong('page-key', `the key is part of ${short(text)}`);
        }
    }

    judge(before) {
        const check = this.check;
        this.check = null;
        if (check) check();
        else if (this.page.calls.length && this.step.do !== 'reload' && this.step.do !== 'share') this.wrong('page-call', `${short(this.page.calls[0])} without being asked`);
        const m = this.model;
        if (this.page.search !== m.link) this.wrong('page-url', `the address changes to ${short(this.page.search)}`);
        this.secret(this.page.search);
        this.harmless();
        const out = this.output();
        const s = m.shown;
        const tips = this.page.doc.querySelectorAll('.hex-tooltip').length;
        if (tips > (s?.kind === 'hex' ? 1 : 0)) this.wrong('page-tooltip', `${tips} of them with ${s?.kind}`);
        if (!s) {
            if (out.textContent.trim()) this.wrong('page-output', `shows ${short(out.textContent)} before anything is asked for`);
            return;
        }
        if (s.kind === 'error' || s.kind === 'alert') {
            const alerts = out.querySelectorAll('[role="alert"]');
            const text = out.textContent;
            if (alerts.length !== 1 || alerts[0].textContent !== text) this.wrong('page-error', `shown as ${short(out.innerHTML)}`);
            if (s.kind === 'error') {
                const right = s.message === undefined ? text.startsWith(`[${s.code}] `) : text === `[${s.code}] ${s.message}`;
                if (!right) this.wrong('page-error', `[${s.code}] ${short(s.message)} is shown as ${short(text)}`);
            }
        } else if (out.querySelector('[role="alert"]')) this.wrong('page-error', `${short(out.textContent)} in place of ${s.format}`);
        if (s.kind === 'text') this.plain(out, s);
        if (s.kind === 'hex') this.viewer(out, s);
        if (s.kind === 'diagram') {
            if (s.drawn) {
                if (!out.querySelector('svg')) this.wrong('page-diagram', `shown as ${short(out.innerHTML)}`);
            } else if (out.textContent !== s.text) this.wrong('page-diagram', `shows ${short(out.textContent)}`);
        }
        if (s.kind !== 'diagram' || s.drawn) this.file(s);
    }

    file(s) {
        const a = this.page.get('download_output');
        const href = a.getAttribute('href');
        const want = s.kind === 'error' ? '' : s.text;
        if (want === '' && (!href || href === '#')) return;
        const blob = this.page.blobs.get(href);
        if (!blob) this.wrong('page-download', `the link ${short(href)} leads nowhere`);
        if (blob.content !== want) this.wrong('page-download', `contains ${short(blob.content)}, shown is ${short(want)}`);
        const [ext, type] = FORMATS[s.format] ?? ['', ''];
        if (want && (!a.getAttribute('download').endsWith('.' + ext) || blob.type.split(';')[0] !== type)) {
            this.wrong('page-download', `${a.getAttribute('download')} of type ${blob.type} for ${s.format}`);
        }
    }

    // Text from a telegram never becomes markup.
    harmless() {
        const bad = new Set(['script', 'img', 'iframe', 'object', 'embed', 'a', 'style', 'link', 'base', 'form', 'input', 'video', 'audio', 'meta']);
        const extra = this.page.doc.querySelectorAll('.hex-tooltip').flatMap((t) => t.querySelectorAll('*'));
        for (const e of [...this.output().querySelectorAll('*'), ...extra]) {
            const odd = e.getAttributeNames().find((n) => n.startsWith('on') || n === 'href' || n === 'src' || n === 'style');
            if (bad.has(e.localName) || odd) this.wrong('page-markup', `${short(e.outerHTML)} in the output`);
        }
    }

    plain(out, s) {
        const side = out.querySelectorAll('[aria-hidden="true"]');
        let aside = 0;
        for (const g of side) {
            const numbers = g.children.map((c) => c.textContent);
            const lines = s.text.split('\n').length;
            if (numbers.length && (numbers.length !== lines || numbers.some((n, i) => n !== String(i + 1)))) {
                this.wrong('page-lines', `${numbers.length} line numbers for ${lines} lines`);
            }
            aside += 1;
        }
        const walk = (n) => {
            if (n instanceof Text) return n.data;
            if (n.getAttribute('aria-hidden') === 'true') return '';
            return n.childNodes.map(walk).join('');
        };
        const text = walk(out);
        if (text !== s.text) this.wrong('page-output', `shows ${short(text)} for ${short(s.text)}`);
        this.seen.add(`text ${s.format} ${this.world.plain} ${aside}`);
    }

    marked(segment) {
        const s = this.model.shown;
        for (const e of this.output().querySelectorAll('[data-byte-idx]')) {
            const i = Number(e.getAttribute('data-byte-idx'));
            const want = segment !== null && i >= segment.start && i < segment.end;
            if (e.classList.contains('highlight') !== want) this.wrong('page-mark', `byte ${i} is ${want ? 'not ' : ''}marked for ${short(segment)} of ${s.segments.length}`);
        }
    }

    viewer(out, s) {
        const cells = out.querySelectorAll('[data-byte-idx]');
        if (!cells.length) {
            if (out.children.length) throw new Unclear('hex viewer of another build');
            this.wrong('page-hex', 'nothing is shown');
        }
        const n = s.bytes.length;
        if (cells.length !== 2 * n) this.wrong('page-hex', `${cells.length} cells for ${n} bytes`);
        const by = [[], []];
        for (const c of cells) by[c.textContent.length === 2 ? 0 : 1].push(c);
        by.forEach((list, which) => {
            if (list.length !== n) this.wrong('page-hex', `${list.length} cells for ${n} bytes`);
            list.forEach((c, i) => {
                const b = s.bytes[i];
                const hex = b.toString(16).toUpperCase().padStart(2, '0');
                const ch = b > 0x20 && b < 0x7f ? [String.fromCharCode(b)] : ['·', '.', ' '];
                const good = which === 0 ? c.textContent.toUpperCase() === hex : ch.includes(c.textContent);
                const owner = this.owner(i);
                const at = c.getAttribute('data-seg-idx');
                if (c.getAttribute('data-byte-idx') !== String(i) || !good || at !== (owner === null ? null : String(owner))) {
                    this.wrong('page-hex', `byte ${i} (${hex}) of field ${owner} is ${short(c.outerHTML)}`);
                }
                this.paint(c, owner === null ? null : s.segments[owner]);
            });
        });
        // sixteen bytes per row, each row with its offset
        const rows = out.querySelectorAll('.hex-row');
        rows.forEach((r, k) => {
            const label = r.querySelector('.hex-offset');
            const mine = r.querySelectorAll('[data-byte-idx]').map((c) => Number(c.getAttribute('data-byte-idx')));
            if (label && (parseInt(label.textContent, 16) !== Math.min(...mine) || mine.length > 32)) {
                this.wrong('page-hex', `row ${k} is labelled ${label.textContent} and starts at byte ${Math.min(...mine)}`);
            }
        });
        const items = this.items();
        if (items.length !== s.segments.length) this.wrong('page-tree', `${items.length} fields for ${s.segments.length}`);
        const bodies = out.querySelectorAll('.hex-tree-group-body');
        const heads = out.querySelectorAll('.hex-tree-group-header');
        const groups = s.blocks.list;
        if (bodies.length !== groups.length || heads.length !== groups.length) this.wrong('page-tree', `${heads.length} records for ${short(groups)}`);
        groups.forEach((g, k) => {
            if (!new RegExp(`(^|\\D)${g}(\\D|$)`).test(heads[k].textContent)) this.wrong('page-tree', `record ${g} is called ${short(heads[k].textContent)}`);
            const hidden = bodies[k].classList.contains('hidden');
            if (hidden === this.model.open.has(k)) this.wrong('page-group', `record ${g} is ${hidden ? 'closed' : 'open'}`);
            if (heads[k].classList.contains('collapsed') !== hidden) this.wrong('page-group', `the heading of record ${g} disagrees with its fields`);
        });
        items.forEach((e, k) => {
            const seg = s.segments[k];
            if (e.getAttribute('data-seg-idx') !== String(k)) this.wrong('page-tree', `field ${k} is ${short(e.outerHTML)}`);
            const text = e.textContent;
            if (!text.includes(seg.kind) || !text.includes(String(seg.detail ?? ''))) this.wrong('page-tree', `field ${short(seg)} is shown as ${short(text)}`);
            const range = /\[([0-9A-F]+)(?:(\.\.)([0-9A-F]+))?\]\s*$/i.exec(text);
            const [a, b] = range ? [parseInt(range[1], 16), range[3] === undefined ? null : parseInt(range[3], 16)] : [null, null];
            if (a !== seg.start || (b === null ? seg.end - seg.start !== 1 : b !== seg.end)) this.wrong('page-tree', `field ${short(seg)} is shown as ${short(text)}`);
            const body = e.closest('.hex-tree-group-body');
            const block = s.blocks.of[k];
            if ((body === null) !== (block === null) || (block !== null && bodies.indexOf(body) !== block)) this.wrong('page-tree', `field ${short(seg)} is under ${short(body?.previousElementSibling?.textContent)}`);
            if (e.classList.contains('active') !== (this.model.selected === k)) this.wrong('page-mark', `field ${k} is marked as ${e.className}, chosen is ${this.model.selected}`);
        });
        this.marked(this.model.selected === null ? null : s.segments[this.model.selected]);
        this.seen.add(`hex rows ${rows.length} records ${groups.length}`);
    }

    // Colours tell the layers apart, whatever they are called.
    paint(c, seg) {
        const name = c.className.split(/\s+/).filter((x) => x && x !== 'highlight' && !/^hex-(byte|ascii)$/.test(x)).sort().join(' ');
        const kind = seg === null ? 'none' : seg.layer;
        this.colours ??= new Map();
        if (seg === null && name) this.wrong('page-hex', `byte outside every field is drawn as ${name}`);
        for (const part of name.split(' ').filter((x) => /layer/.test(x))) {
            const was = this.colours.get(part);
            if (was !== undefined && was !== kind) this.wrong('page-hex', `${part} stands for ${was} and ${kind}`);
            this.colours.set(part, kind);
        }
    }
}

// ------------------------------------------------------------------ lines in, lines out

const input = readline.createInterface({ input: process.stdin });
for await (const line of input) {
    let answer;
    missed.clear();
    rejections.length = 0;
    const session = new Session(JSON.parse(line));
    try {
        await session.run();
        answer = { ok: true };
    } catch (e) {
        if (e instanceof Unclear) answer = { unclear: e.message };
        else if (e instanceof Wrong && !missed.size) answer = { fail: e.sig, message: e.message };
        else if (e instanceof Wrong) answer = { unclear: `${e.sig}: ${e.message}; not modelled: ${[...missed].join(', ')}` };
        else answer = { unclear: String(e?.stack ?? e) };
    }
    answer.seen = [...session.seen];
    process.stdout.write(JSON.stringify(answer) + '\n');
}
