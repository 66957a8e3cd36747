// C32 what a terminal shows: styles, messages, cursor and erase sequences, progress bar
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
import { PassThrough } from 'node:stream';
import { runs, plain, copy, sgr, Screen, tokens } from '../lib/ansi.mjs';
let sink = null;
const T = load('term', {}, { process: new Proxy(process, { get: (t, k) => k === 'stdout' ? { write: x => { if (sink === null) throw new Error('written at rest'); sink += x; return true; } } : t[k] }) });
const NAMES = ['bold', 'dim', 'italic', 'underlined', 'blink', 'rapidBlink', 'reverse', 'hidden', 'crossedOut'];
const HUES = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white'], COLORS = [...HUES, ...HUES.map(x => 'light' + x)];
const str = t => String.fromCharCode(...t);
const opts = (w, v) => { const e = [...w.on.map((x, i) => [NAMES[i], x === 'y' ? true : x === 'f' ? false : undefined]).filter(([, x]) => x !== undefined || v % 2), ...(w.fg ? [['foreground', COLORS[w.fg - 1]]] : []), ...(w.bg ? [['background', COLORS[w.bg - 1]]] : [])]; return Object.fromEntries(v % 3 ? e : e.reverse()); };
const shown = (out, s) => { const left = copy(s); return { runs: runs(out, left), left }; };
const refuse = f => { try { return f(); } catch (e) { if (e instanceof TypeError) return null; throw e; } };
const color = r => { if (!r) return ['refused']; const s = plain(); sgr(s, r.foreground); const fg = s.fg; if (JSON.stringify(s.bg) !== '[-1]') return 'background touched'; sgr(s, r.background); return JSON.stringify(s.fg) !== JSON.stringify(fg) ? 'foreground touched' : [fg, s.bg]; };
const val = v => v.k === 't' ? str(v.t) : v.n;
// where the time and the stack stand, the model has a D and an S
function blank(rs, date) {
    return rs.map((r, i) => {
        const fg = r.style.fg.join(), t = str(r.text);
        if (date && fg === '5') return { ...r, text: [isNaN(Date.parse(t)) || Math.abs(Date.parse(t) - Date.now()) > 5000 ? 63 : 68] };
        if (fg === '1' && /^\n\s+at .*:\d+/.test(t)) return { ...r, text: [83] };
        return r;
    });
}
function one(c, v) {
    switch (c.f) {
        case 'style': { const o = opts(c.w, v), was = JSON.stringify(o); const r = T.fontColor(str(c.t), o); if (JSON.stringify(o) !== was) return 'options changed'; return shown(r, c.s); }
        case 'bare': return shown(T.fontColor(str(c.t)), c.s);
        case 'nest': return shown(T.fontColor(str(c.ts[0]) + T.fontColor(str(c.ts[1]), opts(c.i, v)) + str(c.ts[2]), opts(c.o, v)), c.s);
        case 'name': { const n = c.n ? COLORS[c.n - 1] : ['', 'Red', 'lightlight', 'pink', 'light', 'toString'][v % 6]; return color(refuse(() => c.bits === 3 ? T.colorNameCode3bit(n) : c.bits === 8 ? T.colorNameCode8bit(n) : c.term === 'Ubuntu' && v % 2 ? T.colorNameCode24bit(n) : T.colorNameCode24bit(n, c.term))); }
        case 'code': return color(refuse(() => c.v.length === 1 ? T.colorCode8bit(c.v[0]) : T.colorCode24bit(c.v)));
        case 'message': {
            const info = Object.fromEntries([...(v % 2 ? [['type', c.type], ['title', str(c.title)]] : []), ...c.sections.map(s => [s.k, val(s.v)]), ...(v % 2 ? [] : [['type', c.type], ['title', str(c.title)]]), ['date', c.date], ['stack', c.stack]]);
            return blank(runs(T.format(info, { display: { title: c.showTitle, dividers: c.rules } })), c.date);
        }
        case 'print': {
            const was = console.log, said = []; console.log = (...a) => { said.push(a); };
            try { const a = c.ts.map(str).map(x => v % 2 && /^(0|7|false|NaN)$/.test(x) ? { 0: 0, 7: 7, false: false, NaN: NaN }[x] : x); c.type === 'error' ? T.printError(...a) : c.type === 'warn' ? T.printWarn(...a) : T.printInfo(...a); } finally { console.log = was; }
            return said.length === 1 && said[0].length === 1 ? runs(said[0][0]) : { said };
        }
    }
}
const KEYCH = { n: '\n', r: '\r\n', B: ' ', T: '\t', Z: '中' }, CHKEY = { ' ': 'B', '\t': 'T', 中: 'Z' };
async function ask(c, v) {
    const input = new PassThrough(), said = []; let answer;
    const out = { write: (t, ...a) => { said.push(String(t)); a.findLast(x => typeof x === 'function')?.(); return true; }, on() { return out; }, once() { return out; }, emit() {}, removeListener() { return out; }, off() { return out; }, end() {}, columns: 80 };
    const L = load('term', { process: new Proxy(process, { get: (t, k) => k === 'stdin' ? input : k === 'stdout' ? out : t[k] }) });
    const question = ['name? ', '', '问：'][v % 3], p = L.readByQuestion(question).then(a => { answer = a; });
    await new Promise(r => setImmediate(r));
    const first = c.k.findIndex(k => k === 'n' || k === 'r'), bytes = Buffer.from(c.k.map(k => KEYCH[k] ?? k).join('')), end = Buffer.from(c.k.slice(0, first).map(k => KEYCH[k] ?? k).join('')).length;
    // in one piece, byte by byte, or with the end of the line on its own
    const parts = c.cut === 1 ? [bytes] : c.cut === 2 ? [...bytes].map(b => Buffer.from([b])) : [bytes.subarray(0, end), bytes.subarray(end)];
    let early = answer !== undefined, at = 0;
    for (const b of parts) { if (at < end + 1 && answer !== undefined) early = true; input.write(b); at += b.length; await new Promise(r => setImmediate(r)); }
    for (let i = 0; i < 5 && answer === undefined; i++) await new Promise(r => setImmediate(r));
    if (answer !== undefined) await p;
    return { shown: said.filter(t => t === question).length || Number(question === '' && said.every(t => t === '')), answer: answer === undefined ? 'none' : [...answer].map(x => CHKEY[x] ?? x), early, held: !input.isPaused() };
}
const omit = (f, n, d, v) => n === d && v % 2 ? f() : f(n);
function seq(o, v) {
    switch (o.op) {
        case 'place': return o.n === 1 && o.m === 1 && v % 2 ? T.cursorPosition() : o.m === 1 && v % 2 ? T.cursorPosition(o.n) : T.cursorPosition(o.n, o.m);
        case 'scrollPlace': return o.n === 1 && o.m === 1 && v % 2 ? T.scrollPosition() : T.scrollPosition(o.n, o.m);
        case 'save': return T.cursorSave; case 'restore': return T.cursorRestore; case 'saveAll': return T.SaveCursorAndAttr; case 'restoreAll': return T.restoreCursorAndAttr;
        case 'lineStart': return T.cursorOnLineBegin; case 'hide': return T.cursorHidden; case 'show': return T.cursorShow; case 'reset': return T.ResetDevice + T.lineWrapClose;
        case 'eraseLine': return omit(T.eraseLine, o.n, 0, v); case 'eraseScreen': return omit(T.eraseScreen, o.n, 0, v);
        case 'scrollUp': return omit(T.scrollUp, o.n, 1, v); case 'scrollDown': return omit(T.scrollDown, o.n, 1, v);
        case 'put': return String.fromCharCode(o.n);
        default: return o.n === 1 && v % 2 ? T.cursorMove(o.op) : T.cursorMove(o.op, o.n);
    }
}
function screen(c, v) {
    const s = new Screen(3, 4); s.cells = s.cells.map((r, i) => r.map((_, j) => 65 + i * 4 + j)); s.at(c.r - 1, c.c - 1); s.write(T.lineWrapClose);
    s.write(c.ops.map((o, i) => seq(o, v + i)).join(''));
    return { r: s.r + 1, c: s.c + 1, sr: s.saved[0] + 1, sc: s.saved[1] + 1, hidden: s.hidden, cells: s.cells };
}
function bar(c, v) {
    // on a screen with a line above and, sometimes, nothing above
    const s = new Screen(3, 60), top = v % 3; s.at(top, v % 2 ? 7 : 0);
    const o = c.dflt ? (c.total ? { total: c.total } : v % 2 ? undefined : {}) : { total: c.total || (v % 2 ? NaN : undefined), picture: c.picture, percentage: c.percentage, count: c.count, hiddenCursor: c.hide };
    sink = null; const b = new T.ProgressBar(o), res = [];
    const line = t => { for (let i = 0; i < s.rows; i++) if (i !== top && s.cells[i].some(x => x !== 32)) return 'outside its line'; const q = s.cells[top].map(x => x); while (q.length && q[q.length - 1] === 32) q.pop(); return q; };
    for (const x of c.ops) {
        sink = ''; let shown = [];
        const text = x.text.length || v % 2 ? [str(x.text)] : [];
        // the line shown is the one seen behind its last character
        const done = x.op === 'end' ? b.end() : x.op === 'push' ? b.pushWrite(...text) : b.write(...text);
        for (const t of tokens(sink)) { s.write(t.raw); const q = line(); if (typeof q === 'string') return q; if (t.ch !== undefined && t.ch !== '\r') shown = q; }
        sink = null;
        res.push({ shown: x.op === 'end' ? [] : shown, now: line(), hidden: s.hidden, done });
    }
    return res;
}
let nth = 0;
export default async function (rep) {
    await cases(rep, 'Styles', c => one(c, nth++), { spec: 'SSpec', constants: `Deep=${THOROUGH ? 'TRUE' : 'FALSE'}`, times: 2 });
    const R = rng(SEED * 37 + 32);
    const wish = () => ({ fg: R.bool(0.4) ? R.int(1, 16) : 0, bg: R.bool(0.4) ? R.int(1, 16) : 0, on: NAMES.map(() => R.pick(['n', 'n', 'n', 'y', 'y', 'f'])) });
    const word = n => Array.from({ length: R.int(0, n) }, () => R.pick([97, 37, 115, 100, 20013, 32, 48, 92, 55357]));
    await recorded(rep, 'Styles', (c, i) => one(c, i), { constants: 'Deep=FALSE', runs: THOROUGH ? 40000 : 4000, gen: i => {
        const s = plain(); if (R.bool(0.3)) s.on = s.on.map(() => R.bool(0.4)); if (R.bool(0.3)) s.fg = [R.int(0, 255)];
        if (i % 4 === 0) return { f: 'nest', s, o: wish(), i: wish(), ts: [word(3), word(3), word(3)] };
        if (i % 4 === 1) return { f: 'message', type: R.pick(['error', 'warn', 'info']), title: word(4), sections: R.shuffle(['name', 'code', 'message', 'data']).slice(R.int(0, 4)).map(k => ({ k, v: R.bool(0.3) && (k === 'code' || k === 'data') ? { k: 'n', n: R.int(0, 5000) } : { k: 't', t: word(4) } })), date: R.bool(0.5), stack: R.bool(0.3), showTitle: R.bool(0.8), rules: R.bool(0.6) };
        if (i % 8 === 2) return { f: 'print', type: R.pick(['error', 'warn', 'info']), ts: Array.from({ length: R.int(1, i % 101 < 8 ? 40 : 4) }, () => word(i % 101 < 8 ? 60 : 5)) };
        return { f: 'style', s, t: word(i % 101 < 4 ? 200 : 8), w: wish() };
    } });
    await cases(rep, 'Screen', c => screen(c, nth++), { spec: 'NSpec', constants: `MaxOps=${THOROUGH ? 3 : 2}`, mem: '12g' });
    const OPS = ['up', 'down', 'forward', 'back', 'next', 'previous', 'absolute', 'place', 'scrollPlace', 'save', 'saveAll', 'restore', 'restoreAll', 'lineStart', 'hide', 'show', 'eraseLine', 'eraseScreen', 'scrollUp', 'scrollDown', 'put', 'put', 'put'];
    await recorded(rep, 'Screen', (c, i) => screen(c, i), { constants: 'MaxOps=0', runs: THOROUGH ? 20000 : 2000, gen: () => ({ f: 'screen', r: R.int(1, 3), c: R.int(1, 4), ops: Array.from({ length: R.bool(0.01) ? R.int(60, 150) : R.int(1, 12) }, () => { const op = R.pick(OPS); return { op, n: op === 'put' ? R.int(97, 122) : op === 'eraseLine' ? R.int(0, 2) : op === 'eraseScreen' ? R.int(0, 3) : R.int(1, 5), m: R.int(1, 5) }; }) }) });
    await cases(rep, 'Dialogue', c => ask(c, nth++), { spec: 'DSpec', constants: `MaxKeys=${THOROUGH ? 5 : 4}`, parallel: 16 });
    await cases(rep, 'Progress', c => bar(c, nth++), { spec: 'GSpec', constants: THOROUGH ? 'MaxTotal=4 MaxOps=6' : 'MaxTotal=3 MaxOps=4' });
    await recorded(rep, 'Progress', (c, i) => bar(c, i), { constants: 'MaxTotal=0 MaxOps=0', runs: THOROUGH ? 3000 : 300, gen: () => {
        const total = R.bool(0.2) ? 0 : R.int(1, 400), n = R.int(1, total || 30), d = R.bool(0.4), pick = () => d || R.bool(0.7);
        const ops = Array.from({ length: n }, () => [...(R.bool(0.2) ? [{ op: 'write', text: word(4).map(() => 120) }] : []), { op: 'push', text: word(4).map(() => 121) }]).flat();
        return { f: 'bar', total, picture: pick(), percentage: pick(), count: pick(), hide: pick(), dflt: d, ops: R.bool(0.5) ? [...ops, { op: 'end', text: [] }] : ops };
    } });
}
