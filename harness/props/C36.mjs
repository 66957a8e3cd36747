// C36 values written as source text
import { isDeepStrictEqual } from 'node:util';
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const { stringify, asyncStringify, toStringMethod, asyncToStringMethod } = load('util/stringify');
const src = t => new Function('return ' + t)();
const full = n => Array.from({ length: n }, (_, i) => i), hole = (n, o) => Object.assign(Array(n), o);
const TEXT = 'q"\\\n\r\t\u2028\u2029\ud800`${x}\u0000漢😀\'*/';
const LEAF = [() => 7, () => -0, () => NaN, () => Infinity, () => -Infinity, () => -1.5e300, () => 5e-324, () => 'text', () => '', () => TEXT, () => true, () => false, () => undefined, () => null, () => 10n, () => -5n,
    () => Symbol.for('k"' + TEXT), () => Symbol.iterator, () => Symbol.asyncIterator, () => Symbol('d"\n'), () => Symbol(), () => Symbol(''), () => Symbol('Symbol.iterator'), () => Symbol('Symbol.prototype'), () => Symbol.for('Symbol.iterator'), () => new Number(-0), () => new Number(NaN), () => new String(TEXT), () => new Boolean(false), () => new Boolean(true), () => Object(7n),
    () => new Date(0), () => new Date(NaN), () => new Date(1e12 + 1), () => new Date(-8.64e15), () => new Date(8.64e15), () => /a\/[/]b+/gi, () => new RegExp(''), () => new RegExp('\n"'), () => /x/dgimsuy, () => Buffer.from([1, 255]), () => Buffer.from([]), () => new Uint8Array([1, 2, 255]), () => new Float64Array([-0, NaN, 1.5, -Infinity]), () => new Float32Array([0.1]),
    () => new BigInt64Array([-1n, 2n ** 63n - 1n]), () => new BigUint64Array([2n ** 64n - 1n]), () => new Uint8ClampedArray([300]), () => new Int8Array(0), () => new Uint16Array([65535]), () => new Int16Array([-1, 7]), () => new Uint32Array([4294967295]), () => hole(60, { 10: 1 }), () => hole(50, { 49: 1 }), () => hole(51, { 49: 0 }),  () => new Int32Array([-1]), () => new URL('http://h/p"?q=1#\''), () => new URLSearchParams('a=1&b=%20"&a=2'), () => new Error('m"' + TEXT), () => new TypeError(''), () => new RangeError('r'), () => new URIError('u'), () => new AggregateError([new Error('a'), 5], 'b'), () => new AggregateError([]),
    () => new DOMException('dm"'), () => Array.prototype, () => Object.prototype, () => Map.prototype, () => src('() => 5'), () => src('class A { x = 1 }'), () => src('async function* g(a) { yield a; }'), () => new Map(), () => new Set(), () => ({}), () => Object.create(null), () => [], () => Array(3), () => Array(60), () => full(60), () => hole(60, { 10: 1, 59: -0 }), () => hole(60, { 0: undefined, 3: 'x' }), () => [undefined], () => [, undefined, , ], () => Object.fromEntries([['', 1]])];
const alike = (x, y) => typeof x !== typeof y ? false : typeof x === 'symbol' ? x === y || (Symbol.keyFor(x) === undefined && !Object.values(Object.getOwnPropertyDescriptors(Symbol)).some(d => d.value === x || d.value === y) && Symbol.keyFor(y) === undefined && x.description === y.description) : typeof x === 'function' ? x.toString() === y.toString() :
    x instanceof Date ? y instanceof Date && Object.is(x.getTime(), y.getTime()) : x instanceof DOMException ? y instanceof DOMException && x.message === y.message : x instanceof AggregateError ? y instanceof AggregateError && x.message === y.message && x.errors.length === y.errors.length && x.errors.every((e, i) => alike(e, y.errors[i])) : x instanceof Error ? Object.getPrototypeOf(x) === Object.getPrototypeOf(y) && x.message === y.message && y.constructor === x.constructor :
    x instanceof URL || x instanceof URLSearchParams ? Object.getPrototypeOf(x) === Object.getPrototypeOf(y) && String(x) === String(y) : isDeepStrictEqual(x, y) && (typeof x !== 'object' || x === null || Object.getPrototypeOf(x) === Object.getPrototypeOf(y)) && (![Array.prototype, Object.prototype, Map.prototype].includes(x) || x === y);
const key = (k, j, x) => x === 0 && (k === 'set' || k === 'map' && j === 0) ? 0 : x;
class Plain {}
const KEYS = [['a', 'b'], ['b', 'a'], ['2', '10'], ['__proto__', 'constructor'], [Symbol.for('s"'), Symbol.iterator], ['x y"\n', ''], ['z', Symbol.asyncIterator], ['toString', 'valueOf'], ['\u2028', '-1']];
const CIRC = { circular: true }, OWN = class { };
function build(h, v) {
    const keys = i => KEYS[(v + i) % KEYS.length], settle = [];
    const leafAt = (i, j) => LEAF[(v * 11 + i * 29 + j * 17 + 3) % LEAF.length], at = new Map();
    const o = h.map(({ k }, i) => {
        switch (k) {
            case 'null': return Object.create(null); case 'class': return new Plain(); case 'arr': case 'sparse': return []; case 'map': return new Map(); case 'set': return new Set(); case 'boxed': return {};
            case 'fulfilled': case 'rejected': case 'pending': { const p = new Promise((res, rej) => { settle[i] = k === 'fulfilled' ? res : rej; }); p.catch(() => {}); return p; }
            default: return {};
        }
    });
    const val = (s, i, j) => s > 0 ? o[s - 1] : (at.set(i + ',' + j, key(h[i].k, j, leafAt(i, j)())), at.get(i + ',' + j));
    h.forEach(({ k, f }, i) => {
        const x = o[i], [p, q] = keys(i), put = (n, s, j) => Object.defineProperty(x, n, { value: val(s, i, j), enumerable: true, writable: true, configurable: true }), hide = (n, value) => Object.defineProperty(x, n, { value });
        switch (k) {
            case 'obj': case 'null': case 'class': { put(p, f[0], 0); put(q, f[1], 1); // (a function under the name toString is the object's own way of writing itself)
                if (typeof x[p] === 'function' && p === 'toString') { x[p] = 7; at.set(i + ',0', 7); } hide('hidden', 5); break; }
            case 'arr': x.push(val(f[0], i, 0), val(f[1], i, 1)); if ((v + i) % 3 === 2) x.length = 3; break;
            case 'sparse': x[1] = val(f[0], i, 0); x[(v + i) % 2 ? 70 : 3] = val(f[1], i, 1); if ((v + i) % 3 === 1) x.length += 2; break;
            case 'map': x.set(val(f[0], i, 0), val(f[1], i, 1)); break; case 'set': { const a = val(f[0], i, 0); x.add(a); let b = val(f[1], i, 1); if (f[1] <= 0 && x.has(b)) { b = 'another'; at.set(i + ',1', b); } x.add(b); break; }
            case 'fulfilled': case 'rejected': { const a = val(f[0], i, 0); settle[i](a); break; } case 'pending': break;
            case 'text': hide(toStringMethod, () => 'new Own()'); put('extra', f[0], 0); break; case 'fails': hide(toStringMethod, () => { throw new Error('no text'); }); put('extra', f[0], 0); break;
            case 'textLater': hide(asyncToStringMethod, async () => { await null; return 'new Own()'; }); put('extra', f[0], 0); break; case 'failsLater': hide(asyncToStringMethod, () => (v % 2 ? Promise.reject(new Error('no')) : (() => { throw new Error('no'); })())); put('extra', f[0], 0); break;
        }
    });
    return { root: o[0], all: o, at, keys };
}
class Pr { constructor(run) { this.state = /pending/.test(run) ? 'pending' : /unknown/.test(run) ? 'unknown' : 'odd'; } static resolve(v) { return Object.assign(new Pr(''), { state: 'fulfilled', v }); } static reject(v) { return Object.assign(new Pr(''), { state: 'rejected', v }); } }
function read(y, h, n, b) {
    if (Array.isArray(y) && y.length === 1 && y[0] === CIRC) return { k: 'circular', f: [] };
    if (y instanceof OWN) return { k: 'own text', f: [] };
    if (y instanceof Pr && y.state === 'unknown') return { k: 'unknown', f: [] };
    const { k, f } = h[n - 1], x = b.all[n - 1]; const slot = (z, j) => f[j] > 0 ? read(z, h, f[j], b) : alike(b.at.get(n - 1 + ',' + j), z) ? f[j] : 'another leaf ' + j + ' ' + JSON.stringify([typeof z, Object.prototype.toString.call(z), typeof z === 'object' ? JSON.stringify(z, (k, v) => typeof v === 'bigint' ? v + 'n' : v) : String(z)]).slice(0, 200);
    if (y instanceof Pr) return y.state === k ? { k, f: k === 'pending' ? [] : [slot(y.v, 0)] } : { k: y.state, f: [] };
    if (['fulfilled', 'rejected', 'pending'].includes(k) || typeof y !== 'object' || y === null) return { k: 'other ' + typeof y, f: [] };
    if (k !== 'class' && Object.getPrototypeOf(x) !== Object.getPrototypeOf(y)) return { k: 'other prototype', f: [] };
    const ks = z => JSON.stringify(Reflect.ownKeys(z).filter(k => Object.getOwnPropertyDescriptor(z, k).enumerable).map(String));
    if (ks(x) !== ks(y) || x.length !== y.length || x.size !== y.size) return { k: 'other keys', f: [] };
    const [p, q] = b.keys(n - 1);
    const vals = k === 'arr' ? [y[0], y[1]] : k === 'sparse' ? Object.keys(y).map(i => y[i]) : k === 'map' ? [...y].flat() : k === 'set' ? [...y] : k === 'obj' || k === 'null' || k === 'class' ? [y[p], y[q]] : [y.extra];
    return { k, f: vals.map((z, j) => slot(z, j)) };
}
async function one(c, v) {
    const b = build(c.h, v), text = c.how === 'sync' ? stringify(b.root, ...(v % 3 ? [] : [{}])) : await asyncStringify(b.root);
    if (typeof text !== 'string') return 'no text';
    let y; try { y = new Function('Circular', 'Own', 'Promise', 'return (' + text + '\n)')(CIRC, OWN, Pr); } catch (e) { return { text, error: String(e) }; }
    return read(y, c.h, 1, b);
}
const ALL = ['obj', 'null', 'class', 'arr', 'sparse', 'map', 'set', 'fulfilled', 'rejected', 'pending', 'text', 'fails', 'textLater', 'failsLater'], q = l => '{' + l.map(x => JSON.stringify(x)).join(',') + '}';
export default async function (rep) {
    let n = 0;
    // every leaf, alone and inside each other way of writing
    for (const [i, mk] of LEAF.entries()) for (const how of ['sync', 'async']) { const x = mk(); let y, text; try { text = how === 'sync' ? stringify(x) : await asyncStringify(x); y = new Function('return (' + text + '\n)')(); } catch (e) { y = { threw: String(e) }; } rep.trace(1); if (!alike(x, y)) rep.violation('leaf:' + i + ':' + how, { leaf: String(mk), text: String(text).slice(0, 500) }); }
    await cases(rep, 'SourceText', c => one(c, n++ % 997), { constants: `Kinds2=${q(ALL)} Kinds3=${q(THOROUGH ? ['obj', 'arr', 'set', 'fulfilled', 'textLater'] : ['obj', 'rejected', 'fulfilled'])}`, times: THOROUGH ? 6 : 2, spec: 'SSpec', parallel: 400 });
    const R = rng(SEED * 7 + 36), vs = [];
    await recorded(rep, 'SourceText', (c, i) => one(c, vs[i]), { constants: 'Kinds2={} Kinds3={}', runs: THOROUGH ? 15000 : 3000, parallel: 400, gen: i => {
        vs[i] = R.int(0, 99999); const far = i % 101 === 50, N = far ? R.int(20, 45) : R.int(1, 6), forward = far || R.bool();
        let used = 0; const h = Array.from({ length: N }, (_, m) => { const k = R.pick(far ? ALL.filter(q => ['obj', 'null', 'class', 'arr', 'sparse', 'map', 'set', 'fulfilled'].includes(q)) : ALL), w = ['obj', 'null', 'class', 'arr', 'sparse', 'map', 'set'].includes(k) ? 2 : k === 'pending' ? 0 : 1; return { k, f: Array.from({ length: w }, () => { const lo = forward ? m + 2 : 1; return far ? (lo <= N && used < lo && R.bool(0.9) ? (used = lo) : 0) : R.bool(0.55) && lo <= N ? R.int(lo, N) : 0; }) }; });
        h.forEach(x => { if (x.k === 'set' && x.f[0] === x.f[1]) { x.f[0] = 0; if (x.f[1] === 0) x.k = 'arr'; } if (x.k === 'fulfilled' && x.f[0] && ['fulfilled', 'rejected', 'pending'].includes(h[x.f[0] - 1].k)) x.f[0] = 0; });
        return { f: 'write', h, how: R.bool() ? 'sync' : 'async' };
    } });
    // the other options
    const near = stringify([new Date(), new Date(0)], { nearestDate: true }); const t = Date.now(); if (near !== '[new Date(),new Date("1970-01-01T00:00:00.000Z")]' && Date.now() - t < 100 && stringify([new Date(), new Date(0)], { nearestDate: true }) !== '[new Date(),new Date("1970-01-01T00:00:00.000Z")]') rep.violation('nearest', { near });
    const bad = { toString() { throw 9; } }; let thrown; try { stringify([bad]); } catch (e) { thrown = e; } const handled = stringify([bad], { errorHandler: e => 'handled' + e }); rep.trace(3);
    let later; try { await asyncStringify({ a: Promise.resolve(1), b: [bad] }); } catch (e) { later = e; } const handledLater = await asyncStringify([bad, Promise.resolve(bad)], { errorHandler: e => 'handled' + e }); rep.trace(2);
    if (later !== 9 || handledLater !== '[handled9,Promise.resolve(handled9)]') rep.violation('errorsLater', { later: String(later), handledLater });
    for (let k = 1; k < 4; k++) { const d = new Date(Date.now() - k); rep.trace(2); for (const text of [stringify(d), await asyncStringify(d), stringify(d, { nearestDate: false })]) if (new Function('return ' + text)().getTime() !== d.getTime()) rep.violation('exact', { text }); }
    (function () { const t = stringify(arguments); rep.trace(1); if (!isDeepStrictEqual(new Function('return ' + t)(), [1, 'b', -0])) rep.violation('arguments', { t }); })(1, 'b', -0);
    if (thrown !== 9 || handled !== '[handled9]') rep.violation('errors', { thrown, handled });
}
