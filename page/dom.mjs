// A document object model small enough to read, wide enough for a page without frameworks.
// Members it does not know are noted in `missed` when they are read.

export const missed = new Set();
const guard = new Proxy(
    {},
    {
        get(_, name) {
            if (typeof name === 'string' && name !== 'then' && name !== 'toJSON') missed.add(name);
            return undefined;
        },
        has: () => false,
        set(_, name, value, receiver) {
            Object.defineProperty(receiver, name, { value, writable: true, enumerable: true, configurable: true });
            return true;
        },
    },
);

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr']);
const NAMED = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: ' ', bull: '•', copy: '©', middot: '·', times: '×', hellip: '…', rarr: '→' };

export function unescape(text) {
    return text.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z0-9]+);?/gi, (all, name) => {
        if (name[0] === '#') {
            const n = name[1] === 'x' || name[1] === 'X' ? parseInt(name.slice(2), 16) : parseInt(name.slice(1), 10);
            return n > 0 && n <= 0x10ffff ? String.fromCodePoint(n) : '�';
        }
        return name in NAMED ? NAMED[name] : all;
    });
}

const escape = (text) => text.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/ /g, '&nbsp;');

class Target {
    constructor() {
        Object.defineProperty(this, 'listeners', { value: new Map(), enumerable: false });
    }
    addEventListener(type, f, options) {
        if (!this.listeners.has(type)) this.listeners.set(type, []);
        const list = this.listeners.get(type);
        const once = typeof options === 'object' && options !== null && options.once === true;
        if (f && !list.some((x) => x.f === f)) list.push({ f, once });
    }
    removeEventListener(type, f) {
        const list = this.listeners.get(type) || [];
        const at = list.findIndex((x) => x.f === f);
        if (at >= 0) list.splice(at, 1);
    }
    deliver(event) {
        event.currentTarget = this;
        for (const entry of [...(this.listeners.get(event.type) || [])]) {
            if (entry.once) this.removeEventListener(event.type, entry.f);
            event.run(() => (typeof entry.f === 'function' ? entry.f.call(this, event) : entry.f.handleEvent(event)));
            if (event.halted) return;
        }
        const own = Object.hasOwn(this, 'on' + event.type) ? this['on' + event.type] : null;
        if (typeof own === 'function') event.run(() => own.call(this, event));
    }
    dispatchEvent(event) {
        event.target = this;
        let at = this;
        while (at) {
            at.deliver(event);
            if (event.stopped || !event.bubbles) break;
            at = at.parentNode || (at === at.ownerDocument?.documentElement ? at.ownerDocument : null);
        }
        return !event.defaultPrevented;
    }
}
Object.setPrototypeOf(Target.prototype, guard);

export class Event {
    constructor(type, init = {}) {
        Object.assign(this, { bubbles: false, cancelable: true, clientX: 0, clientY: 0, detail: null }, init);
        this.type = type;
        this.target = null;
        this.currentTarget = null;
        this.defaultPrevented = false;
        this.stopped = false;
        this.halted = false;
        this.run ??= (f) => f();
    }
    stopPropagation() {
        this.stopped = true;
    }
    stopImmediatePropagation() {
        this.stopped = true;
        this.halted = true;
    }
    preventDefault() {
        this.defaultPrevented = true;
    }
}

export class Node extends Target {
    constructor(doc) {
        super();
        this.ownerDocument = doc;
        this.parentNode = null;
        this.childNodes = [];
    }
    get parentElement() {
        return this.parentNode instanceof Element ? this.parentNode : null;
    }
    get firstChild() {
        return this.childNodes[0] || null;
    }
    get lastChild() {
        return this.childNodes[this.childNodes.length - 1] || null;
    }
    get nextSibling() {
        const c = this.parentNode?.childNodes;
        return c ? c[c.indexOf(this) + 1] || null : null;
    }
    get previousSibling() {
        const c = this.parentNode?.childNodes;
        return c ? c[c.indexOf(this) - 1] || null : null;
    }
    get isConnected() {
        let n = this;
        while (n.parentNode) n = n.parentNode;
        return n === this.ownerDocument || n === this.ownerDocument?.documentElement;
    }
    hasChildNodes() {
        return this.childNodes.length > 0;
    }
    contains(node) {
        for (let n = node; n; n = n.parentNode) if (n === this) return true;
        return false;
    }
    insertBefore(node, before) {
        if (node instanceof Fragment) {
            for (const c of [...node.childNodes]) this.insertBefore(c, before);
            return node;
        }
        if (!(node instanceof Node)) throw new TypeError('not a node');
        if (node.contains(this)) throw new TypeError('a node cannot contain itself');
        node.parentNode?.removeChild(node);
        const at = before ? this.childNodes.indexOf(before) : this.childNodes.length;
        if (at < 0) throw new TypeError('not a child');
        this.childNodes.splice(at, 0, node);
        node.parentNode = this;
        changed(this);
        return node;
    }
    appendChild(node) {
        return this.insertBefore(node, null);
    }
    removeChild(node) {
        const at = this.childNodes.indexOf(node);
        if (at < 0) throw new TypeError('not a child');
        this.childNodes.splice(at, 1);
        node.parentNode = null;
        changed(this);
        return node;
    }
    replaceChild(node, old) {
        this.insertBefore(node, old);
        return this.removeChild(old);
    }
    remove() {
        this.parentNode?.removeChild(this);
    }
    get textContent() {
        return this.childNodes.map((c) => c.textContent).join('');
    }
    set textContent(value) {
        for (const c of [...this.childNodes]) this.removeChild(c);
        const text = value === null || value === undefined ? '' : String(value);
        if (text) this.appendChild(new Text(this.ownerDocument, text));
    }
    cloneNode(deep) {
        const copy = this.copy();
        if (deep) for (const c of this.childNodes) copy.appendChild(c.cloneNode(true));
        return copy;
    }
    normalize() {}
}

export class Text extends Node {
    constructor(doc, data) {
        super(doc);
        this.data = String(data);
    }
    get nodeType() {
        return 3;
    }
    get nodeName() {
        return '#text';
    }
    get nodeValue() {
        return this.data;
    }
    get textContent() {
        return this.data;
    }
    set textContent(v) {
        this.data = String(v ?? '');
    }
    copy() {
        return new Text(this.ownerDocument, this.data);
    }
}

class ClassList {
    constructor(el) {
        this.el = el;
    }
    get list() {
        return [...new Set((this.el.getAttribute('class') || '').split(/\s+/).filter(Boolean))];
    }
    put(list) {
        this.el.setAttribute('class', list.join(' '));
    }
    contains(c) {
        return this.list.includes(c);
    }
    add(...cs) {
        this.put([...new Set([...this.list, ...cs])]);
    }
    remove(...cs) {
        this.put(this.list.filter((c) => !cs.includes(c)));
    }
    toggle(c, force) {
        const on = force === undefined ? !this.contains(c) : Boolean(force);
        if (on) this.add(c);
        else this.remove(c);
        return on;
    }
    replace(a, b) {
        if (!this.contains(a)) return false;
        this.remove(a);
        this.add(b);
        return true;
    }
    get length() {
        return this.list.length;
    }
    get value() {
        return this.list.join(' ');
    }
    toString() {
        return this.value;
    }
    item(i) {
        return this.list[i] ?? null;
    }
    forEach(f) {
        this.list.forEach(f);
    }
    [Symbol.iterator]() {
        return this.list[Symbol.iterator]();
    }
}

const dashed = (name) => 'data-' + name.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());

function mixin(proto) {
    const members = {
        get children() {
            return this.childNodes.filter((c) => c instanceof Element);
        },
        get firstElementChild() {
            return this.children[0] || null;
        },
        get lastElementChild() {
            return this.children[this.children.length - 1] || null;
        },
        get childElementCount() {
            return this.children.length;
        },
        append(...items) {
            for (const i of items) this.appendChild(i instanceof Node ? i : new Text(this.ownerDocument, i));
        },
        prepend(...items) {
            const first = this.firstChild;
            for (const i of items) this.insertBefore(i instanceof Node ? i : new Text(this.ownerDocument, i), first);
        },
        replaceChildren(...items) {
            for (const c of [...this.childNodes]) this.removeChild(c);
            this.append(...items);
        },
        querySelectorAll(selector) {
            const out = [];
            const walk = (n) => {
                for (const c of n.childNodes) {
                    if (c instanceof Element) {
                        if (matches(c, selector)) out.push(c);
                        walk(c);
                    }
                }
            };
            walk(this);
            return out;
        },
        querySelector(selector) {
            return this.querySelectorAll(selector)[0] || null;
        },
        getElementsByClassName(name) {
            return this.querySelectorAll('.' + name);
        },
        getElementsByTagName(name) {
            return this.querySelectorAll(name);
        },
    };
    Object.defineProperties(proto, Object.getOwnPropertyDescriptors(members));
}

export class Element extends Node {
    constructor(doc, tag) {
        super(doc);
        this.localName = String(tag).toLowerCase();
        Object.defineProperty(this, 'attrs', { value: new Map(), enumerable: false });
        Object.defineProperty(this, 'state', { value: { style: null }, enumerable: false });
    }
    get nodeType() {
        return 1;
    }
    get tagName() {
        return this.localName.toUpperCase();
    }
    get nodeName() {
        return this.tagName;
    }
    copy() {
        const e = new Element(this.ownerDocument, this.localName);
        for (const [k, v] of this.attrs) e.attrs.set(k, v);
        return e;
    }
    getAttribute(name) {
        const v = this.attrs.get(String(name).toLowerCase());
        return v === undefined ? null : v;
    }
    setAttribute(name, value) {
        this.attrs.set(String(name).toLowerCase(), String(value));
    }
    removeAttribute(name) {
        this.attrs.delete(String(name).toLowerCase());
    }
    hasAttribute(name) {
        return this.attrs.has(String(name).toLowerCase());
    }
    toggleAttribute(name, force) {
        const on = force === undefined ? !this.hasAttribute(name) : Boolean(force);
        if (on) this.setAttribute(name, '');
        else this.removeAttribute(name);
        return on;
    }
    getAttributeNames() {
        return [...this.attrs.keys()];
    }
    get classList() {
        return new ClassList(this);
    }
    get className() {
        return this.getAttribute('class') || '';
    }
    set className(v) {
        this.setAttribute('class', v);
    }
    get dataset() {
        const el = this;
        return new Proxy(
            {},
            {
                get: (_, n) => (typeof n === 'string' ? el.getAttribute(dashed(n)) ?? undefined : undefined),
                set: (_, n, v) => (el.setAttribute(dashed(n), v), true),
                has: (_, n) => el.hasAttribute(dashed(String(n))),
                deleteProperty: (_, n) => (el.removeAttribute(dashed(String(n))), true),
            },
        );
    }
    get style() {
        this.state.style ??= new Proxy(
            { props: {} },
            {
                get: (t, n) => {
                    if (n === 'setProperty') return (k, v) => void (t.props[k] = String(v));
                    if (n === 'removeProperty') return (k) => void delete t.props[k];
                    if (n === 'getPropertyValue') return (k) => t.props[k] ?? '';
                    return t.props[n] ?? '';
                },
                set: (t, n, v) => ((t.props[n] = String(v)), true),
            },
        );
        return this.state.style;
    }
    get innerHTML() {
        return this.childNodes.map(markup).join('');
    }
    set innerHTML(text) {
        this.textContent = '';
        for (const n of fragment(this.ownerDocument, String(text ?? ''))) this.appendChild(n);
    }
    get outerHTML() {
        return markup(this);
    }
    get innerText() {
        return this.textContent;
    }
    set innerText(v) {
        this.textContent = v;
    }
    insertAdjacentHTML(where, text) {
        for (const n of fragment(this.ownerDocument, String(text))) this.insertAdjacentNode(where, n);
    }
    insertAdjacentElement(where, el) {
        this.insertAdjacentNode(where, el);
        return el;
    }
    insertAdjacentText(where, text) {
        this.insertAdjacentNode(where, new Text(this.ownerDocument, text));
    }
    insertAdjacentNode(where, n) {
        if (where === 'beforebegin') this.parentNode.insertBefore(n, this);
        else if (where === 'afterend') this.parentNode.insertBefore(n, this.nextSibling);
        else if (where === 'afterbegin') this.insertBefore(n, this.firstChild);
        else this.appendChild(n);
    }
    before(...items) {
        for (const i of items) this.parentNode.insertBefore(i instanceof Node ? i : new Text(this.ownerDocument, i), this);
    }
    after(...items) {
        const next = this.nextSibling;
        for (const i of items) this.parentNode.insertBefore(i instanceof Node ? i : new Text(this.ownerDocument, i), next);
    }
    replaceWith(...items) {
        this.before(...items);
        this.remove();
    }
    get previousElementSibling() {
        const c = this.parentNode ? this.parentNode.childNodes.filter((n) => n instanceof Element) : [];
        return c[c.indexOf(this) - 1] || null;
    }
    get nextElementSibling() {
        const c = this.parentNode ? this.parentNode.childNodes.filter((n) => n instanceof Element) : [];
        return c[c.indexOf(this) + 1] || null;
    }
    matches(selector) {
        return matches(this, selector);
    }
    closest(selector) {
        for (let n = this; n instanceof Element; n = n.parentNode) if (matches(n, selector)) return n;
        return null;
    }
    scrollIntoView() {}
    scrollTo() {}
    focus() {}
    blur() {}
    select() {
        this.ownerDocument.selected = this.value;
    }
    setSelectionRange() {
        this.ownerDocument.selected = this.value;
    }
    click() {
        this.dispatchEvent(new Event('click', { bubbles: true }));
    }
    getBoundingClientRect() {
        const w = this.clientWidth;
        return { x: 0, y: 0, left: 0, top: 0, width: w, height: 20, right: w, bottom: 20 };
    }
    get clientWidth() {
        return this.ownerDocument.widths.get(this.getAttribute('id')) ?? 0;
    }
    get offsetWidth() {
        return this.clientWidth;
    }
    get clientHeight() {
        return 100;
    }
    get offsetHeight() {
        return 100;
    }
    get scrollTop() {
        return 0;
    }
    set scrollTop(_) {}
    get value() {
        if (this.state.value !== undefined) return this.state.value;
        return this.localName === 'textarea' ? this.textContent : this.getAttribute('value') || '';
    }
    set value(v) {
        this.state.value = String(v);
    }
    get checked() {
        return this.state.checked ?? this.hasAttribute('checked');
    }
    set checked(v) {
        this.state.checked = Boolean(v);
    }
    getContext() {
        return { font: '', measureText: (t) => ({ width: this.ownerDocument.characterWidth * String(t).length }) };
    }
}
for (const name of ['id', 'title', 'href', 'type', 'download', 'role', 'name', 'placeholder', 'lang', 'alt', 'src', 'target', 'rel']) {
    Object.defineProperty(Element.prototype, name, {
        get() {
            return this.getAttribute(name) || '';
        },
        set(v) {
            this.setAttribute(name, v);
        },
        configurable: true,
    });
}
for (const name of ['hidden', 'disabled', 'readOnly', 'draggable']) {
    Object.defineProperty(Element.prototype, name, {
        get() {
            return this.hasAttribute(name);
        },
        set(v) {
            this.toggleAttribute(name, Boolean(v));
        },
    });
}
Object.defineProperty(Element.prototype, 'tabIndex', {
    get() {
        return Number(this.getAttribute('tabindex') ?? -1);
    },
    set(v) {
        this.setAttribute('tabindex', v);
    },
});
for (const name of ['onclick', 'onmouseover', 'onmouseout', 'onmousemove', 'oninput', 'onchange', 'onkeydown', 'onsubmit']) {
    Object.defineProperty(Target.prototype, name, { value: null, writable: true });
}

export class Fragment extends Node {
    get nodeType() {
        return 11;
    }
    copy() {
        return new Fragment(this.ownerDocument);
    }
}

mixin(Element.prototype);
mixin(Fragment.prototype);

// ------------------------------------------------------------------ selectors

const known = new Map();

// One compound selector as a list of tests.
function compound(text) {
    const tests = [];
    let rest = text;
    while (rest) {
        let m;
        if ((m = /^\*/.exec(rest))) {
        } else if ((m = /^[a-z][a-z0-9-]*/i.exec(rest))) {
            const name = m[0].toLowerCase();
            tests.push((e) => e.localName === name);
        } else if ((m = /^#([\w-]+)/.exec(rest))) {
            const id = m[1];
            tests.push((e) => e.attrs.get('id') === id);
        } else if ((m = /^\.([\w-]+)/.exec(rest))) {
            const name = m[1];
            tests.push((e) => {
                const c = e.attrs.get('class');
                return c !== undefined && c.includes(name) && c.split(/\s+/).includes(name);
            });
        } else if ((m = /^\[([\w-]+)\]/.exec(rest))) {
            const name = m[1].toLowerCase();
            tests.push((e) => e.attrs.has(name));
        } else if ((m = /^\[([\w-]+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([\w-]+))\]/.exec(rest))) {
            const [name, value] = [m[1].toLowerCase(), m[2] ?? m[3] ?? m[4]];
            tests.push((e) => e.attrs.get(name) === value);
        } else if ((m = /^:not\(([^)]*)\)/.exec(rest))) {
            const inner = compound(m[1]);
            tests.push((e) => !inner.every((t) => t(e)));
        } else {
            missed.add('selector ' + text);
            return [() => false];
        }
        rest = rest.slice(m[0].length);
    }
    return tests;
}

function compile(selector) {
    return selector.split(',').map((one) => {
        const parts = one.trim().replace(/\s*>\s*/g, ' > ').replace(/^:scope\s*>?\s*/, '').split(/\s+/);
        return parts.map((p) => (p === '>' ? '>' : compound(p)));
    });
}

function matches(el, selector) {
    let lists = known.get(selector);
    if (!lists) {
        lists = compile(selector);
        if (known.size < 500 && !missed.size) known.set(selector, lists);
    }
    return lists.some((parts) => {
        const go = (el, at) => {
            if (!parts[at].every((t) => t(el))) return false;
            if (at === 0) return true;
            if (parts[at - 1] === '>') return el.parentNode instanceof Element && go(el.parentNode, at - 2);
            for (let n = el.parentNode; n instanceof Element; n = n.parentNode) if (go(n, at - 1)) return true;
            return false;
        };
        return go(el, parts.length - 1);
    });
}

// ------------------------------------------------------------------ markup

const RAW = new Set(['script', 'style']);

/// Reads one opening tag in a single pass.
function openTag(text, lt) {
    const read = (re, i) => {
        re.lastIndex = i;
        return re.exec(text);
    };
    const name = read(/<([a-z][^\s>/]*)/iy, lt);
    if (!name) return null;
    const attrs = [];
    let i = lt + name[0].length;
    for (;;) {
        i += read(/[\s/]*/y, i)[0].length;
        if (i >= text.length) return null;
        if (text[i] === '>') return { name: name[1], attrs, end: i + 1, closed: text[i - 1] === '/' };
        const a = read(/([^\s>/][^\s>/=]*)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/y, i);
        if (!a) return null;
        attrs.push([a[1], a[2] ?? a[3] ?? a[4] ?? '']);
        i += a[0].length;
    }
}

export function fragment(doc, text) {
    const root = new Fragment(doc);
    let at = root;
    let i = 0;
    const put = (t) => t && at.appendChild(new Text(doc, t));
    while (i < text.length) {
        const lt = text.indexOf('<', i);
        if (lt < 0) {
            put(unescape(text.slice(i)));
            break;
        }
        put(unescape(text.slice(i, lt)));
        if (text.startsWith('<!--', lt)) {
            const end = text.indexOf('-->', lt + 4);
            i = end < 0 ? text.length : end + 3;
            continue;
        }
        if (text[lt + 1] === '!' || text[lt + 1] === '?') {
            const end = text.indexOf('>', lt);
            i = end < 0 ? text.length : end + 1;
            continue;
        }
        const close = /^<\/([a-z][^\s>/]*)[^>]*>/i.exec(text.slice(lt, lt + 4000));
        if (close) {
            const name = close[1].toLowerCase();
            for (let n = at; n !== root; n = n.parentNode) {
                if (n.localName === name) {
                    at = n.parentNode;
                    break;
                }
            }
            i = lt + close[0].length;
            continue;
        }
        const open = openTag(text, lt);
        if (!open) {
            put('<');
            i = lt + 1;
            continue;
        }
        const el = new Element(doc, open.name);
        for (const [k, v] of open.attrs) el.setAttribute(k, unescape(v));
        at.appendChild(el);
        i = open.end;
        if (RAW.has(el.localName)) {
            const end = text.toLowerCase().indexOf('</' + el.localName, i);
            const stop = end < 0 ? text.length : end;
            if (stop > i) el.appendChild(new Text(doc, text.slice(i, stop)));
            i = end < 0 ? text.length : text.indexOf('>', end) + 1 || text.length;
        } else if (!VOID.has(el.localName) && !open.closed) {
            at = el;
        }
    }
    return [...root.childNodes];
}

function markup(n) {
    if (n instanceof Text) return escape(n.data);
    const attrs = [...n.attrs].map(([k, v]) => ` ${k}="${escape(v).replace(/"/g, '&quot;')}"`).join('');
    if (VOID.has(n.localName)) return `<${n.localName}${attrs}>`;
    return `<${n.localName}${attrs}>${n.childNodes.map(markup).join('')}</${n.localName}>`;
}

// ------------------------------------------------------------------ document

let watchers = [];
export function resetWatchers() {
    watchers = [];
}

function changed(node) {
    for (const w of watchers) {
        for (const [target, options] of w.targets) {
            if (target === node || (options?.subtree && target.contains(node))) {
                w.records.push({ type: 'childList', target: node });
                if (!w.queued) {
                    w.queued = true;
                    queueMicrotask(() => {
                        w.queued = false;
                        const r = w.records;
                        w.records = [];
                        if (w.targets.length) w.f(r, w);
                    });
                }
                break;
            }
        }
    }
}

export class MutationObserver {
    constructor(f) {
        this.f = f;
        this.targets = [];
        this.records = [];
    }
    observe(target, options) {
        this.targets.push([target, options]);
        if (!watchers.includes(this)) watchers.push(this);
    }
    disconnect() {
        this.targets = [];
        this.records = [];
        watchers = watchers.filter((w) => w !== this);
    }
    takeRecords() {
        const r = this.records;
        this.records = [];
        return r;
    }
}

export class Document extends Node {
    constructor(text) {
        super(null);
        this.ownerDocument = this;
        this.widths = new Map();
        this.characterWidth = 8;
        this.selected = null;
        this.copied = () => true;
        this.readyState = 'complete';
        this.title = '';
        this.cookie = '';
        this.hidden = false;
        this.visibilityState = 'visible';
        for (const n of fragment(this, text)) this.childNodes.push(n), (n.parentNode = this);
        this.documentElement = this.querySelector('html');
        this.head = this.querySelector('head');
        this.body = this.querySelector('body');
        this.activeElement = this.body;
        this.defaultView = null;
    }
    get nodeType() {
        return 9;
    }
    getElementById(id) {
        return this.querySelectorAll('[id]').find((e) => e.getAttribute('id') === String(id)) || null;
    }
    createElement(tag) {
        return new Element(this, tag);
    }
    createElementNS(_, tag) {
        return new Element(this, tag);
    }
    createTextNode(t) {
        return new Text(this, t);
    }
    createDocumentFragment() {
        return new Fragment(this);
    }
    execCommand(name) {
        if (name === 'copy') return this.copied(this.selected);
        missed.add('execCommand ' + name);
        return false;
    }
}
mixin(Document.prototype);
