// C26 conversion to JSON and from JSON
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const { stringify } = load('object'), { parseJson } = load('string');
class Kind {}
const NUMS = [7, 0, -1.5, 1e21, 5e-324], TEXTS = ['text', '', '"\\\n\u2028é😀', '\u0000', '[Circular *]x'], DATES = [new Date(5), new Date(0)], BOX = ['boxed text', 'b'];
const LEAF = (v, s, g) => [NUMS[v % 5], undefined, null, [() => 1, function () {}, class {}][v % 3], [NaN, Infinity, -Infinity][v % 3], DATES[v % 2], 10n, v % 2 || !g ? { toJSON() { throw new Error('cause 1'); } } : { get x() { throw new Error('cause 1'); } }, new String(BOX[v % 2]), { toJSON: () => undefined }, Symbol('s'), TEXTS[v % 5]][s];
function build(c, v) { const h = c.h;
    const nodes = h.map((n, i) => n.t === 'obj' ? {} : n.t === 'arr' ? Array(n.len) : [new Kind(), Object.create(null)][(v + i) % 2]);
    h.forEach((n, i) => { for (const [k, s] of n.f) Object.defineProperty(nodes[i], k, { value: s > 0 ? nodes[s - 1] : LEAF(v, -s, c.how === 'no' || c.how === 'id'), enumerable: true, writable: v % 4 !== 3, configurable: true }); if (n.t !== 'arr' && v % 5 === 3) Object.defineProperty(nodes[i], 'hidden', { value: 10n, configurable: true }); if (n.t !== 'arr' && v % 5 === 2) nodes[i][Symbol.iterator] = 5; if (v % 6 === 5) Object.freeze(nodes[i]); });
    return nodes;
}
/** the JSON document as the specification writes it */
function encode(x, v) {
    if (Array.isArray(x)) return { j: 'arr', v: x.map(y => encode(y, v)) };
    if (x && typeof x === 'object') return { j: 'obj', v: Object.keys(x).map(k => [k, encode(x[k], v)]) };
    if (x === null) return { j: 'leaf', v: 'null' };
    if (typeof x === 'string') { const m = /^\[Circular \*(.*)\]$/.exec(x); if (m) return { j: 'mark', v: m[1] === '' ? [] : m[1].split('.') }; }
    const leaf = x === NUMS[v % 5] ? 'number' : x === DATES[v % 2].toISOString() ? 'date' : x === BOX[v % 2] ? 'boxed' : x === TEXTS[v % 5] ? 'text' : x === 'seven' ? 'seven' : 'other ' + String(x);
    return { j: 'leaf', v: leaf };
}
const shape = nodes => JSON.stringify(nodes.map(x => Reflect.ownKeys(x).map(k => { const d = Object.getOwnPropertyDescriptor(x, k); return [String(k), nodes.indexOf(d.value), typeof d.value, d.writable, d.enumerable]; })));
/** settles exactly once, later than the call, never by a throw of the call itself */
async function settled(go) {
    let p; try { p = go(); } catch (e) { return { sync: String(e).slice(0, 100) }; }
    if (!(p instanceof Promise)) return { sync: 'no promise' };
    let sync = true, early = false; const r = p.then(v => { early = sync; return { v }; }, e => { early = sync; return { e }; }); sync = false; const x = await r; return early ? { sync: 'early' } : x;
}
async function write(c, v) {
    const nodes = build(c, v), before = shape(nodes), opt = {}, seen = [];
    if (!c.cycles) opt.cycles = false; else if (v % 3 === 1) opt.cycles = true; else if (v % 3 === 2) opt.cycles = undefined;
    if (c.rev) opt.compare = (a, b) => { if (!('key' in a && 'value' in b)) throw new Error('compare arguments'); return a.key < b.key ? 1 : -1; };
    const space = [undefined, 0, 2, '\t', ' \t', 20][v % 6]; if (space !== undefined) opt.space = space;
    const R = { list: v % 2 ? ['a', 0] : ['a', '0'], id: (k, x) => x, drop: (k, x) => k === 'b' ? undefined : x, num: (k, x) => x === NUMS[v % 5] ? 'seven' : x, throw: (k, x) => { if (k === 'b') throw new Error('cause 2'); return x; } }[c.how];
    if (c.how !== 'no') opt.replacer = c.how === 'list' ? R : function (k, x) { seen.push(k); if (typeof this !== 'object' || !Array.isArray(this) && !(k in this) || k !== '' && Array.isArray(this) && !/^\d+$/.test(k)) throw new Error('not called with its holder'); return R(k, x); }; else if (v % 7 === 3) opt.replacer = null;
    const r = await settled(() => Object.keys(opt).length || v % 2 ? stringify(nodes[0], opt) : stringify(nodes[0]));
    if (r.sync) return r.sync; if (shape(nodes) !== before) return 'the value changed';
    if ('e' in r) { // the reason carries the cause
        const text = r.e instanceof Error ? r.e.stack + String(r.e.cause) : String(r.e); const known = ['BigInt', 'cause 1', 'cause 2', '循环引用', 'circular structure'].some(x => text.includes(x)); return known ? { j: 'error', v: '' } : 'reason without a cause: ' + text.slice(0, 300); }
    if (opt.replacer && c.how !== 'list' && seen[0] !== '') return 'replacer not called for the root';
    if (r.v === undefined) return { j: 'none', v: '' };
    if (typeof r.v !== 'string') return 'not a text';
    const data = JSON.parse(r.v); if (JSON.stringify(data, null, space) !== r.v) return 'other spacing: ' + r.v;
    const out = encode(data, v); if (c.how === 'list') listOrder(out, c); return out;
}
/** a list of keys does not say in which order they come */
function listOrder(x) { if (x.j === 'arr') x.v.forEach(listOrder); else if (x.j === 'obj') { x.v.sort((a, b) => (a[0] < b[0] ? -1 : 1)); x.v.forEach(p => listOrder(p[1])); } }
const TOK = { a: '"a"', b: '"b"', _: ' ' }, BAD = ['!', '\u00a0', '\f', '\ufeff', '\v', '\u2028', 'undefined', "'a'", 'NaN', '+1', '//'];
const plain = x => Array.isArray(x) ? { j: 'arr', v: x.map(plain) } : x && typeof x === 'object' ? { j: 'obj', v: Object.keys(x).map(k => [k, plain(x[k])]) } : { j: 'leaf', v: x === null ? 'null' : String(x) };
async function parse(c, v) {
    const text = c.t.map(t => t === 'x' ? BAD[(v >> 2) % BAD.length] : t === '_' ? [' ', '\n', '\t', '\r'][v % 4] : TOK[t] ?? t).join(''); const calls = [];
    const rv = { num: (k, x) => x === 1 ? 'seven' : x, drop: (k, x) => k === 'a' ? undefined : x, throw: (k, x) => { if (k === 'b') throw new Error('cause 3'); return x; } }[c.how];
    const r = await settled(() => rv ? parseJson(text, function (k, x) { calls.push(k); if (!Object.is(this[k], x)) throw new Error('not called with its holder'); return rv(k, x); }) : v % 2 ? parseJson(text) : parseJson(text, undefined));
    if (r.sync) return r.sync;
    if ('e' in r) { const t = r.e instanceof Error ? r.e.stack + String(r.e.cause) : String(r.e); return /JSON|cause 3/.test(t) ? { j: 'error', v: '' } : 'reason without a cause ' + t.slice(0, 200); }
    return plain(r.v);
}
const data = (x, v) => x.j === 'arr' ? x.v.map(y => data(y, v)) : x.j === 'obj' ? Object.defineProperties({}, Object.fromEntries([]) && x.v.reduce((m, [k, y]) => (Object.defineProperty(m, k, { value: { value: data(y, v), enumerable: true, writable: true, configurable: true }, enumerable: true, configurable: true, writable: true }), m), {})) : x.v === 'null' ? null : JSON.parse(x.v);
export default async function (rep) {
    let n = 0;
    const one = (c, v) => c.f === 'write' ? write(c, v) : c.f === 'parse' ? parse(c, v) : null;
    await cases(rep, 'JsonText', c => { const x = one(c, n++); return x; }, { constants: `Len1=${THOROUGH ? 6 : 5} Big=${THOROUGH ? 'TRUE' : 'FALSE'}`, spec: 'JSpec', times: THOROUGH ? 3 : 1 });
    const R = rng(SEED * 43 + 26), KEYS = ['a', 'b', 'c', '0', '1', '__proto__'];
    const leaf = () => R.pick([0, 0, -1, -2, -3, -4, -5, -8, -9, -10, -11, -11, R.bool(0.1) ? -6 : 0, R.bool(0.1) ? -7 : 0]);
    const acyclic = h => { const go = (i, on) => !on.has(i) && h[i - 1].f.every(([, s]) => s <= 0 || go(s, new Set([...on, i]))); return go(1, new Set()); };
    const tree = d => { const k = d ? R.int(0, 5) : R.int(0, 3); return k < 4 ? { j: 'leaf', v: JSON.stringify(R.pick([null, true, false, 0, 1.25, -1e300, 'x', '', '"\\\u2028😀é\n\u0000', '[Circular *]'])) } : k === 4 ? { j: 'arr', v: R.list(0, 4, () => tree(d - 1)) } : { j: 'obj', v: R.shuffle(['0', '1', ...R.shuffle(['a', 'b', '', '__proto__', 'toJSON', 'constructor', 'é'])]).slice(0, R.int(0, 4)).sort((x, y) => /\d/.test(y) - /\d/.test(x) || (/\d/.test(x) ? x - y : 0)).map(k => [k, tree(d - 1)]) }; };
    await recorded(rep, 'JsonText', async (c, i) => c.f === 'round' ? recode(await parseJson(await stringify(data(c.data, i)))) : one(c, i), { constants: 'Len1=0 Big=FALSE', runs: THOROUGH ? 40000 : 6000,
        gen: i => {
            if (i % 303 === 3) { let t = tree(1); for (let k = R.int(10, 60); k--;) t = R.bool() ? { j: 'arr', v: [tree(0), t] } : { j: 'obj', v: [['a', t], ['b', tree(0)]] }; return { f: 'round', data: R.bool() ? t : { j: 'arr', v: R.list(40, 150, () => tree(1)) } }; }
            if (i % 3 === 0) { const t = tree(4); return { f: 'round', data: t }; }
            if (i % 3 === 1) { const toks = []; const val = d => { if (R.bool(0.04)) toks.push(R.pick(['x', ',', ':', '}', ']'])); if (R.bool(0.1)) toks.push('_'); const k = d ? R.int(0, 4) : R.int(0, 2); if (k < 3) toks.push(['a', '1', 'null'][k]); else if (k === 3) { toks.push('['); const m = R.int(0, 3); for (let j = 0; j < m; j++) { if (j) toks.push(','); val(d - 1); } toks.push(']'); } else { toks.push('{'); const m = R.int(0, 3); for (let j = 0; j < m; j++) { if (j) toks.push(','); toks.push(R.pick(['a', 'b']), ':'); val(d - 1); } toks.push('}'); } if (R.bool(0.05)) toks.push('_'); }; val(4); return { f: 'parse', t: toks, how: R.pick(['no', 'num', 'drop', 'throw']) }; }
            const N = R.int(1, 5), slot = () => R.bool(0.55) ? R.int(1, N) : leaf();
            let h; const how = R.pick(['no', 'no', 'list', 'id', 'drop', 'num', 'throw']); do h = Array.from({ length: N }, (_, j) => { const t = R.pick(['obj', 'obj', 'arr', 'raw']); if (t === 'arr') { const f = ['0', '1'].filter(() => R.bool(0.7)).map(k => [k, slot()]); return { t, f, len: (f.length ? Number(f.at(-1)[0]) + 1 : 0) + R.int(0, 1) }; } const f = KEYS.filter(k => /\d/.test(k) && R.bool(0.2)).concat(R.shuffle(KEYS.filter(k => !/\d/.test(k))).slice(0, R.int(0, 3))).map(k => [k, slot()]); return { t, f, len: 0 }; }); while (how === 'list' && !acyclic(h));
            if (how === 'list') for (const x of h) x.f.sort((a, b) => (a[0] < b[0] ? -1 : 1));
            const cycles = how === 'no' ? R.bool(0.8) : true;
            return { f: 'write', h, how, list: ['a', '0'], cycles, rev: how === 'no' && R.bool() };
        } });
}
const recode = x => Array.isArray(x) ? { j: 'arr', v: x.map(recode) } : x && typeof x === 'object' ? { j: 'obj', v: Object.keys(x).map(k => [k, recode(x[k])]) } : { j: 'leaf', v: x === null ? 'null' : JSON.stringify(x) };
