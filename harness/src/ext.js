// Runs the script the execution server offers to the editor in a stand-in for the editor: one JSON case per line in,
// one JSON report per line out. See p_ext.rs.
'use strict';
const vm = require('vm');

// Anything of the editor that does not matter here: can be called, constructed, read and written, and does nothing.
function blackhole() {
    const f = function () {};
    return new Proxy(f, {
        get: (t, k) => {
            if (k === Symbol.toPrimitive) return () => 0;
            if (k === Symbol.iterator) return function* () {};
            if (typeof k === 'symbol' || k === 'then' || k === 'toJSON') return undefined;
            if (!Object.prototype.hasOwnProperty.call(t, k) || k === 'prototype' || k === 'name' || k === 'length') return k in own(t) ? own(t)[k] : (own(t)[k] = blackhole());
            return t[k];
        },
        set: (t, k, v) => { own(t)[k] = v; return true; },
        apply: () => blackhole(),
        construct: () => blackhole(),
    });
}
const owns = new WeakMap();
function own(t) { if (!owns.has(t)) owns.set(t, Object.create(null)); return owns.get(t); }

// A class of the editor of which only the given parts matter
function stub(init, methods) {
    const c = function (...args) { if (init) init.apply(this, args); };
    c.prototype = Object.create(new Proxy({}, {
        get: (_, k) => typeof k === 'symbol' || k === 'then' || k === 'toJSON' ? undefined : (k === 'labelString' || k === 'comment' || k === 'block' || k === 'id') ? undefined : blackhole(),
        set: (_, k, v, r) => { Object.defineProperty(r, k, { value: v, writable: true, configurable: true, enumerable: true }); return true; },
        has: () => false,
    }));
    Object.assign(c.prototype, methods || {});
    c.prototype.constructor = c;
    return c;
}

// ---------------------------------------------------------------- documents
class Node {
    constructor(name, attrs) { this.nodeName = this.tagName = this.localName = name; this.attrs = attrs; this.childNodes = []; this.parentNode = null; this.text = null; }
    get children() { return this.childNodes.filter(x => x.text === null); }
    get parentElement() { return this.parentNode; }
    get firstChild() { return this.childNodes[0] || null; }
    get nodeType() { return this.text === null ? 1 : 3; }
    remove() { const p = this.parentNode; if (p) { p.childNodes.splice(p.childNodes.indexOf(this), 1); this.parentNode = null; } }
    removeChild(x) { if (x.parentNode !== this) throw Error('NotFoundError'); x.remove(); return x; }
    appendChild(x) { x.remove(); x.parentNode = this; this.childNodes.push(x); return x; }
    below(f, out = []) { for (const x of this.childNodes) if (x.text === null) { if (f(x)) out.push(x); x.below(f, out); } return out; }
    getElementsByTagName(t) { return live(() => this.below(x => t === '*' || x.nodeName === t)); }
    querySelectorAll(s) { const ts = s.split(',').map(x => x.trim()); return this.below(x => ts.includes(x.nodeName) || ts.includes('*')); }
    querySelector(s) { return this.querySelectorAll(s)[0] || null; }
    get outerHTML() { return write(this); }
}
// what changes while one walks it, as in a browser
function live(f) {
    return new Proxy({}, { get: (_, k) => {
        if (k === 'length') return f().length;
        if (k === Symbol.iterator) return function* () { for (let i = 0; i < f().length; i++) yield f()[i]; };
        if (k === 'item') return i => f()[i] || null;
        if (typeof k === 'string' && /^\d+$/.test(k)) return f()[k];
        return undefined;
    }, has: (_, k) => typeof k === 'string' && /^\d+$/.test(k) && +k < f().length });
}
function parse(xml) {
    const root = new Node('#document', ''), re = /<(\/?)([^\s\/>]+)((?:\s+[^\s=]+="[^"]*")*)\s*(\/?)>|([^<]+)/g;
    let at = root, m, end = 0;
    while ((m = re.exec(xml))) {
        if (m.index !== end) throw Error('stand-in cannot read the document at ' + end);
        end = re.lastIndex;
        if (m[5] !== undefined) { const t = new Node('#text', ''); t.text = m[5]; at.appendChild(t); }
        else if (m[1]) { if (at.nodeName !== m[2]) throw Error('unbalanced'); at = at.parentNode; }
        else { const e = new Node(m[2], m[3]); at.appendChild(e); if (!m[4]) at = e; }
    }
    if (end !== xml.length || at !== root) throw Error('stand-in cannot read the document');
    Object.defineProperty(root, 'documentElement', { get: () => root.children[0] || null });
    return root;
}
function write(n) {
    if (n.text !== null) return n.text;
    const inner = n.childNodes.map(write).join('');
    if (n.nodeName === '#document') return inner;
    return inner ? `<${n.nodeName}${n.attrs}>${inner}</${n.nodeName}>` : `<${n.nodeName}${n.attrs}/>`;
}

// ---------------------------------------------------------------- one case
function run(c) {
    const out = { requests: [], alerts: [], opened: [], dropped: [], texts: [], running: [], comments: [], uploads: [], trouble: [] };
    let now = 0, seq = 0, timers = [];
    const answers = [];
    const buttons = [], contents = [];
    const setTimeout_ = (f, ms, ...args) => { seq += 1; timers.push({ at: now + Math.max(0, +ms || 0), seq, f: () => f(...args) }); return seq; };
    const clear_ = id => { timers = timers.filter(t => t.seq !== id); };
    const advance = ms => {
        const end = now + ms;
        for (let n = 0; n < 10000; n++) {
            const next = timers.filter(t => t.at <= end).sort((a, b) => a.at - b.at || a.seq - b.seq)[0];
            if (!next) { now = end; return; }
            timers = timers.filter(t => t !== next);
            now = next.at;
            try { next.f(); } catch (e) { out.trouble.push('timer: ' + (e && e.stack || e)); }
        }
        out.trouble.push('no end of timers');
    };
    function answer(method, url, body) {
        if (url === c.server + '/pull' && method === 'POST') return answers.shift() || [200, JSON.stringify({ running: true, output: '', errors: [] })];
        if (url === c.server + '/project' && method === 'GET') return [200, c.project];
        return c.refuse ? [500, 'refused'] : [200, ''];
    }
    class XMLHttpRequest {
        constructor() { this.readyState = 0; this.status = 0; this.responseText = ''; this.listeners = {}; }
        addEventListener(k, f) { (this.listeners[k] || (this.listeners[k] = [])).push(f); }
        setRequestHeader() {}
        open(method, url) { this.method = method; this.url = String(url); this.readyState = 1; this.fire(); }
        fire() {
            const ev = [['readystatechange']];
            if (this.readyState === 4) ev.push(['load'], ['loadend']);
            for (const [k] of ev) {
                if (this['on' + k]) this['on' + k].call(this, {});
                for (const f of this.listeners[k] || []) f.call(this, {});
            }
        }
        send(body) {
            out.requests.push([this.method, this.url, body === undefined || body === null ? null : String(body)]);
            const [status, text] = answer(this.method, this.url, body);
            setTimeout_(() => {
                this.readyState = 2; this.status = status; this.fire();
                this.readyState = 4; this.responseText = this.response = text; this.fire();
            }, 0);
        }
    }
    Object.assign(XMLHttpRequest, { UNSENT: 0, OPENED: 1, HEADERS_RECEIVED: 2, LOADING: 3, DONE: 4 });

    const Morph = stub();
    const PushButtonMorph = stub(function (target, action, label) { this.target = target; this.action = action; this.labelString = label; this.first = label; buttons.push(this); });
    const SymbolMorph = stub(function (name, size) { this.symbolName = name; });
    const TextMorph = stub(function (text) { this.text = text; contents.push(this); });
    const CommentMorph = stub(function (text) { this.said = text; }, { destroy() { this.gone = true; if (this.block) this.block.comment = null; } });
    const InputSlotMorph = stub(function (text, numeric, choices, readonly) { this.choices = choices; this.readonly = readonly; });
    class Extension { constructor(name) { this.name = name; } }
    const plain = () => class { constructor(...args) { this.args = args; } };
    Extension.Category = plain(); Extension.PaletteCategory = plain(); Extension.Block = plain(); Extension.LabelPart = plain(); Extension.Palette = { Block: plain() };

    const all = [];
    const build = b => {
        const r = { id: b.id === null ? undefined : b.id, children: [], comment: null, fixLayout() {}, rerender() {}, changed() {} };
        all.push([b.key, r]);
        r.children = b.children.map(build);
        return r;
    };
    const custom = d => ({ body: d === null ? null : { expression: build(d) } });
    const world = build(c.world);
    const ide = {
        getSerializedRole: () => c.role, droppedText: x => out.dropped.push(x),
        stage: { globalBlocks: c.globals.map(custom), customBlocks: c.stage.map(custom) },
        sprites: { contents: c.sprites.map(s => ({ customBlocks: s.map(custom) })) },
    };
    let made = null;
    const env = {
        XMLHttpRequest, setTimeout: setTimeout_, clearTimeout: clear_, JSON, console: { warn() {}, error() {}, log() {}, info() {}, debug() {} },
        alert: (...x) => out.alerts.push(x.map(String)), DOMParser: class { parseFromString(x) { return parse(x); } }, XMLSerializer: class { serializeToString(x) { return write(x); } },
        DialogBoxMorph: stub(), HandleMorph: stub(), ScrollFrameMorph: stub(), AlignmentMorph: stub(), Morph, PushButtonMorph, SymbolMorph, TextMorph, CommentMorph, InputSlotMorph,
        Color: stub(function (...a) { this.rgb = a; }), Point: stub(function (x, y) { this.x = x; this.y = y; }), SpriteMorph: 'SpriteMorph', StageMorph: 'StageMorph', Extension, world,
        NetsBloxExtensions: { register: x => { if (made) out.trouble.push('registered twice'); made = x; } },
    };
    env.window = { open: (...x) => out.opened.push(x[0]), alert: env.alert, setTimeout: setTimeout_ };
    env.globalThis = env.self = undefined;
    delete env.globalThis; delete env.self;
    const context = vm.createContext(env);
    vm.runInContext(c.code, context, { timeout: 5000 });
    if (!made) throw Error('no extension registered');
    const ext = new made(ide);
    advance(600);

    // what it adds to the editor
    const entries = x => x && typeof x === 'object' ? Object.keys(x).map(k => [k, entries(x[k])]) : x;
    const parts = ext.getLabelParts();
    const slot = parts.map(p => p.args).filter(a => a[0] === 'syscall').map(a => a[1]())[0];
    out.menu = slot ? entries(slot.choices) : null;
    out.blocks = ext.getBlocks().map(b => b.args.slice(0, 4));
    out.palette = ext.getPalette().map(p => [p.args[0], p.args[1].map(b => b.args[0]), p.args[2]]);
    out.categories = ext.getCategories().map(x => x.args[0]);

    let last = 0;
    const term = () => { const f = ext.getMenu()['Open Terminal']; if (!f) throw Error('no terminal'); f(); };
    const press = n => {
        const b = buttons.find(b => b.first === n || b.first && b.first.symbolName === n);
        if (!b) throw Error('no button ' + n);
        b.action.call(b.target || b);
    };
    const pause = () => { const b = buttons.find(b => b.first === '$'); return b ? b.labelString && b.labelString.symbolName || String(b.labelString) : null; };
    for (const s of c.steps) {
        const from = out.requests.length;
        const [what, arg] = s;
        if (what === 'open') term();
        else if (what === 'press') press(arg);
        else if (what === 'pause') { const b = buttons.find(b => b.first === '$'); b.action.call(b.target || b); }
        else if (what === 'pull') { answers.push(arg); }
        else if (what === 'wait') advance(arg);
        else throw Error('no step ' + what);
        const text = contents.length ? contents[0].text : null;
        out.texts.push(text === last ? 0 : text);
        last = text;
        out.running.push(pause());
        out.uploads.push(out.requests.slice(from));
        out.comments.push(all.filter(x => x[1].comment).map(x => [x[0], String(x[1].comment.said)]));
    }
    out.left = answers.length;
    return out;
}

require('readline').createInterface({ input: process.stdin }).on('line', line => {
    let r;
    try { r = run(JSON.parse(line)); } catch (e) { r = { fault: String(e && e.stack || e).slice(0, 2000) }; }
    process.stdout.write(JSON.stringify(r) + '\n');
});
