// C33 what kind of value: predicates and assertions
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
import stream from 'node:stream';
import { readFileSync } from 'node:fs';
const TY = load('types'), AS = load('asserts');
const NAMES = [...readFileSync(new URL('../../spec/Kinds.tla', import.meta.url), 'utf8').match(/NAMES == <<([^>]*)>>/)[1].matchAll(/"(\w+)"/g)].map(m => m[1]);
const str = t => String.fromCharCode(...t);
const SYM = [Symbol('a'), Symbol('b')];
const num = d => d.c === 'nan' ? NaN : d.c === 'inf' ? d.s * Infinity : d.s * (Number(d.m.reduce((a, x) => a * 10000n + BigInt(x), 0n)) + (d.fr ? 0.5 : 0));
// functions of a shape and a number of parameters, written in several ways
const mk = src => (0, eval)('(' + src + ')');
const params = n => ['', 'x', 'x, y'][n];
const SHAPES = {
    plain: n => [`function (${params(n)}) {}`, `function f(${params(n)}) { return 'class {}'; }`, `function /* class */ class_(${params(n)}) { [1]; }`, `Function(${n ? `'${params(n)}',` : ''} 'return 1')`, `function nativeCode(${params(n)}) { '[native code]'; }`],
    arrow: n => [`(${params(n)}) => 1`, `(${params(n)}) => class {}`, `(${params(n)}) => { /* function () { [native code] } */ }`],
    method: n => [`({ m(${params(n)}) {} }).m`, `({ classy(${params(n)}) {} }).classy`, `({ ['class A'](${params(n)}) {} })['class A']`, `({ class(${params(n)}) {} }).class`, `class { static s(${params(n)}) {} }.s`, `({ ['('](${params(n)}) {} })['(']`],
    async: n => [`async function (${params(n)}) {}`, `async function f(${params(n)}) { await 1; }`], asyncArrow: n => [`async (${params(n)}) => 1`], asyncMethod: n => [`({ async m(${params(n)}) {} }).m`, `({ async class(${params(n)}) {} }).class`],
    gen: n => [`function* (${params(n)}) {}`, `function *g(${params(n)}) { yield 1; }`, `({ *m(${params(n)}) {} }).m`], asyncGen: n => [`async function* (${params(n)}) {}`, `({ async *m(${params(n)}) {} }).m`],
    class: n => [`class A { constructor(${params(n)}) {} }`, `class{constructor(${params(n)}){}}`, `class\nA { constructor(${params(n)}) {} }`, `class B extends Array { constructor(${params(n)}) { super(); } }`, `class/**/A{constructor(${params(n)}){}}`, `class C { static x = 1; constructor(${params(n)}) {} m() {} }`],
    bound: n => [`(function f(${params(n)}) {}).bind(1)`, `((${params(n)}) => 1).bind()`, `(class { constructor(${params(n)}) {} }).bind()`, `(function f(z, ${params(n)}) {}).bind(1, 2)`.replace('z, )', 'z)'), `Math.random.bind()`].slice(0, n ? 4 : 5),
    native: n => [['Math.random', 'Date.now', 'Array.prototype.values', 'Function.prototype'.replace('Function.prototype', 'Math.random')], ['Array.isArray', 'Object.keys', 'parseFloat', 'Promise.resolve'], ['Object.is', 'Math.max', 'String.prototype.replace', 'Reflect.has']][n],
    nativeClass: () => ['Map', 'Set', 'WeakSet', 'WeakMap'], nativeOdd: n => n === 1 ? ['RegExp.prototype[Symbol.match]', 'Symbol.prototype[Symbol.toPrimitive]', 'Function.prototype[Symbol.hasInstance]'] : ['RegExp.prototype[Symbol.replace]', 'RegExp.prototype[Symbol.split]'],
    nativeGet: () => [`Object.getOwnPropertyDescriptor(Map.prototype, 'size').get`, `Object.getOwnPropertyDescriptor(RegExp.prototype, 'flags').get`, `Object.getOwnPropertyDescriptor(Map, Symbol.species).get`]
};
const odd = { method: { class: ["({ ['class '](){ } })['class ']", "({ class(){} }).class"], paren: ["({ ['('](){ } })['(']", "({ [')'](){ } })[')']"], bracket: ["({ ['[']() {} })['[']", "({ ['a+']() {} })['a+']"] } };
function fn(d, v) {
    if (d.shape === 'method' && d.odd) { const L = odd.method[d.odd]; return mk(L[v % L.length]); }
    const L = SHAPES[d.shape](d.arity), own = d.odd ? L.filter(s => !/\.\w+$|^Math|^Array/.test(s)) : L; const f = mk(own[v % own.length]);
    const set = (k, value) => Object.defineProperty(f, k, { value, configurable: true });
    if (d.odd === 'name5') set('name', v % 2 ? 5 : undefined);
    if (d.odd === 'nameBad') set('name', v % 2 ? '(' : '[');
    if (d.odd === 'then') set('then', () => 1);
    if (d.odd === 'text') set('toString', () => v % 2 ? 'function () { [native code] }' : 'class A {}'), set('name', 'bound f');
    return f;
}
const ERR = { Error, AggregateError, EvalError, RangeError, ReferenceError, SyntaxError, TypeError, URIError };
function error(d, v) {
    const msg = str(d.msg), C = ERR[d.type];
    if (d.made === 'like') return { name: d.shown, message: msg, stack: 'x' };
    let K = C; if (d.made === 'sub') K = class extends C { }; 
    const e = d.type === 'AggregateError' ? new K([], msg) : new K(msg);
    if (d.made === 'named') e.name = d.shown;
    return e;
}
function strm(d, v) {
    const { Readable, Writable, Duplex, Transform, Stream, PassThrough } = stream, w = { write(c, e, cb) { cb(); } }, r = { read() {} };
    if (d.type === 'Stream') return new Stream();
    const o = d.type === 'Readable' ? new Readable(r) : d.type === 'Writable' ? new Writable(w) : d.type === 'Duplex' ? new Duplex({ ...r, ...w }) : v % 2 ? new PassThrough() : new Transform({ transform(c, e, cb) { cb(); } });
    o.on('error', () => {});
    const canR = d.type !== 'Writable', canW = d.type !== 'Readable';
    if ((!canR || !d.rd) && (!canW || !d.wr)) o.destroy();
    else if (canW && !d.wr) o.end();
    else if (canR && !d.rd && d.type === 'Duplex') { const x = new Duplex({ ...r, ...w, readable: false }); x.on('error', () => {}); return x; }
    else if (canR && !d.rd) { const x = new Transform({ transform(c, e, cb) { cb(); }, readable: false }); x.on('error', () => {}); return x; }
    return o;
}
function own(d, v) {
    switch (d.type) {
        case 'Date': return d.n ? new Date([0, -8.64e15, 8.64e15, Date.UTC(2024, 1, 29)][v % 4]) : new Date(NaN);
        case 'RegExp': return d.n ? /x/g : new RegExp('');
        case 'Promise': return d.n ? Promise.resolve(1) : new (class extends Promise { })(() => {});
        case 'Arguments': return (function () { return arguments; })(...Array(d.n).fill(1));
        case 'Generator': return (function* () { yield 1; })();
        case 'AsyncGenerator': return (async function* () { yield 1; })();
        case 'Map Iterator': return new Map([[1, 2]])[d.n ? 'entries' : 'keys']();
        case 'URL': return new URL('http://a/' + d.n);
        case 'URLSearchParams': return new URLSearchParams(d.n ? 'a=1' : '');
        case 'Blob': return new Blob(['a'.repeat(d.n)]);
        case 'File': return new File(['a'.repeat(d.n)], 'f');
        case 'FormData': { const f = new FormData(); if (d.n) f.append('a', '1'); return f; }
        case 'Event': return new Event('x');
        case 'DOMException': return new DOMException(d.n ? 'm' : '', 'N');
    }
}
function obj(d, v) {
    let o;
    if (d.proto === 'prototype') return d.n === 0 ? (function () { }).prototype : d.n === 1 ? (class { }).prototype : (class { m() { } }).prototype;
    if (d.proto === 'Object') o = {}; else if (d.proto === 'null') o = Object.create(null); else if (d.proto === 'class') o = new (class K { })(); else o = Object.create({ inherited: 1 });
    if (d.has === 'length' || d.has === 'size') o[d.has] = d.n;
    if (d.has === 'badLength') o.length = [-1, 1.5, NaN, '3', 2 ** 53][d.n];
    if (d.has === 'then' || d.has === 'next') o[d.has] = () => 1;
    if (d.has === 'iterator' || d.has === 'asyncIterator') o[Symbol[d.has]] = function* () { };
    if (d.has === 'react') o.$$typeof = Symbol.for('react.element');
    for (let i = 0; i < d.shown; i++) o['p' + i] = i;
    for (let i = 0; i < d.hidden; i++) Object.defineProperty(o, 'h' + i, { value: 1, enumerable: false, configurable: true });
    if (d.tag) o[Symbol.toStringTag] = d.tag; else for (let i = 0; i < d.marks; i++) o[SYM[i]] = 1;
    return o;
}
function build(d, v = 0, id = 1) {
    switch (d.k) {
        case 'prim': return { undefined, null: null, true: true, false: false, symbol: SYM[id - 1] }[d.p];
        case 'num': return num(d);
        case 'big': return d.s === 0 ? 0n : d.s > 0 ? 1n : [-1n, -(10n ** 30n)][v % 2];
        case 'str': return str(d.t);
        case 'box': return Object(build(d.of, v));
        case 'arr': { const a = []; d.items.forEach((x, i) => { if (x.k !== 'hole') a[i] = build(x, v); }); a.length = d.items.length; return a; }
        case 'obj': return obj(d, v);
        case 'fn': return fn(d, v);
        case 'col': { const k = {}; const C = { Map, Set, WeakMap, WeakSet }[d.type]; if (d.type === 'WeakRef') return new WeakRef(SYM); const c = v % 2 ? new (class extends C { })() : new C(); if (d.n) c.set ? c.set(k, 1) : c.add(k); return c; }
        case 'buf': return d.type === 'Buffer' ? Buffer.alloc(d.n) : d.type === 'DataView' ? new DataView(new ArrayBuffer(d.n)) : new globalThis[d.type](d.n);
        case 'err': return error(d, v);
        case 'own': return own(d, v);
        case 'stream': return strm(d, v);
        case 'like': { const o = { length: d.len }; d.keys.forEach(k => o[k] = 1); if (d.extra) o.x = 1; return o; }
        case 'desc': { const o = {}; for (const [n, ok] of d.fields) o[n] = n === 'value' || n === 'x' ? 1 : n === 'get' || n === 'set' ? ok ? () => 1 : 5 : ok ? true : [1, 'yes', null][v % 3]; return o; }
        case 'then': return { then() { } };
    }
}
// a property more, which says nothing about the kind
const laden = (x, d, v) => { if (['arr', 'col', 'buf', 'own'].includes(d.k) && v % 3 === 1) for (let i = 0; i <= v % 2; i++) { try { Object.defineProperty(x, 'extra' + i, { value: 1, enumerable: true, configurable: true }); } catch { } } return x; };
// a predicate's answer, twice, and the assertion that goes with it
function holds(name, value, ...params) {
    const p = TY[name], a = AS[name.replace(/^is|^get|^has/, 'assert').replace('assertTagEqual', 'assertTagEqual').replace(/^typeof/, 'assertTypeof')];
    const r = p(value, ...params); if (typeof r !== 'boolean') throw new Error(`${name} answered ${typeof r}`);
    if (p(value, ...params) !== r) throw new Error(name + ' changed its mind');
    if (!a) { if (name !== 'isAsyncGenerator' || true) throw new Error('no assertion for ' + name); }
    let threw = null;
    try { ['isEqual', 'isNotEqual', 'isEvery', 'isSome'].includes(name) ? a(value, ...params) : a(value, 'x', ...params); } catch (e) { threw = e; }
    if (threw && !(threw instanceof TypeError)) throw new Error(`assertion of ${name} threw ${threw}`);
    if (!!threw === r) throw new Error(`assertion of ${name} ${threw ? 'throws' : 'passes'} where the predicate is ${r}`);
    return r;
}
const shape = v => v !== null && (typeof v === 'object' || typeof v === 'function') && !(v instanceof stream.Stream) ? Reflect.ownKeys(v).map(String).join() : '';
function one(c, v) {
    if (c.f === 'chain') {
        const os = []; c.keys.forEach((ks, k) => { const o = Object.create(k ? os[k - 1] : null); for (const x of ks) Object.defineProperty(o, x === 'symbol' ? SYM[0] : x, { value: undefined, enumerable: x !== 'hidden' }); os.push(o); });
        const key = c.key === 'symbol' ? SYM[0] : c.key, o = os[c.i - 1];
        const hasOwn = (() => { const r = TY.hasOwnProperty(o, key); let t = false; try { AS.assertOwnProperty(o, 'x', key); } catch (e) { t = e instanceof TypeError; } if (t === r) throw new Error('assertOwnProperty'); return r; })();
        return [hasOwn, holds('isProperty', o, key), holds('isPrototypeOf', os[c.j - 1], o)];
    }
    if (c.f === 'all') { const x = laden(build(c.v, v), c.v, v), before = shape(x); const r = NAMES.filter(n => holds(n, x)); if (shape(x) !== before) return 'changed'; if (x instanceof stream.Stream) x.destroy?.(); return r; }
    const x = c.v && build(c.v, v);
    switch (c.p) {
        case 'isArrayLike': if (c.sparse) { const r = holds('isArrayLike', x, c.similar); if (TY.isArrayLike(x, c.similar, true) !== r) throw new Error('default'); return r; } return TY.isArrayLike(x, c.similar, false);
        case 'isNumber': case 'isNumberPrimitive': case 'isNumberObject': case 'isNumberArray': return holds(c.p, x, c.nan);
        case 'isNumberValid': return holds(c.p, x, { implicit: c.o.implicit, allowNaN: c.o.nan, allowInfinity: c.o.inf, allowEmptyString: c.o.empty });
        case 'isFinite': case 'isNaN': return holds(c.p, x, c.implied);
        case 'isDateValid': return holds(c.p, x);
        case 'isObjectFilled': case 'isPlainObjectFilled': return holds(c.p, x, c.level);
        case 'isPropertyDescriptor': return holds(c.p, x, c.extra);
        case 'isStringTrim': return holds(c.p, x, c.n);
        case 'getTagEqual': case 'typeofEqual': return holds(c.p, x, c.t);
        case 'isSameError': return holds(c.p, x, c.t, str(c.m));
        case 'isEqual': case 'isNotEqual': { const made = new Map(), ref = o => { const k = JSON.stringify(o); if (!made.has(k)) made.set(k, build(o.v, 0, o.id)); return made.get(k); }; return holds(c.p, ref(c.first), ...c.others.map(ref)); }
        case 'isEvery': case 'isSome': { const vs = c.vs.map(x => build(x, v)), ps = c.ps.map(p => TY[p]); return c.bare ? holds(c.p, vs[0], ps[0]) : holds(c.p, vs, ps); }
    }
}
let nth = 0;
export default async function (rep) {
    Error.stackTraceLimit = 1;
    const K = THOROUGH ? 'MaxItems=3 Wide=TRUE' : 'MaxItems=2 Wide=FALSE';
    for (const spec of ['ASpec', 'BSpec', 'ESpec', 'DSpec']) await cases(rep, 'Kinds', c => one(c, nth++), { spec, name: 'Kinds-' + spec, constants: K, times: spec === 'ASpec' ? 6 : 1 });
    const R = rng(SEED * 3 + 33), P = p => ({ k: 'prim', p }), S = t => ({ k: 'str', t }), B = of => ({ k: 'box', of });
    const limbs = n => { const q = []; for (let x = BigInt(n); x > 0n; x /= 10000n) q.unshift(Number(x % 10000n)); return q; };
    const N = () => { const r = R.next(); if (r < 0.1) return { k: 'num', c: R.pick(['nan', 'inf']), s: 1, m: [], fr: false }; const e = R.int(0, 31); let m = r < 0.5 ? Math.max(0, 2 ** e + R.int(-3, 3)) : r < 0.8 ? R.int(0, 3000) : R.int(0, 2 ** 32 - 1); return { k: 'num', c: 'fin', s: m && R.bool(0.3) ? -1 : 1, m: limbs(Math.min(m, 2 ** 32)), fr: R.bool(0.1) }; };
    const ch = () => R.pick([32, 9, 10, 13, 160, 12288, 97, 90, 95, 36, 48, 57, 45, 61, 44, 59, 46, 47, 42, 40, 41, 123, 125, 91, 39, 96, 233, 20013]);
    const T = () => S(Array.from({ length: R.int(0, 5) }, ch));
    const simple = () => R.pick([() => P(R.pick(['undefined', 'null', 'true', 'false', 'symbol'])), N, T, () => B(R.pick([P('true'), N(), T(), P('symbol')])), () => ({ k: 'big', s: R.int(-1, 1) })])();
    const alike = () => { const one = R.pick([() => P(R.pick(['true', 'false'])), () => P('null'), () => P(R.pick(['null', 'undefined'])), () => P('symbol'), N, T, () => R.bool() ? N() : B(N()), () => R.bool() ? T() : B(T()), () => ({ k: 'big', s: R.int(-1, 1) }), () => ({ k: 'fn', shape: R.pick(['plain', 'arrow', 'async', 'gen', 'class']), arity: R.int(0, 2), odd: '' }), () => ({ k: 'arr', items: [] }), () => ({ k: 'buf', type: 'Buffer', n: R.int(0, 2) }), () => R.bool() ? { k: 'hole' } : N()]); const q = Array.from({ length: R.int(1, 9) }, one); if (R.bool(0.3)) q[R.int(0, q.length - 1)] = simple(); return { k: 'arr', items: q }; };
    await recorded(rep, 'Kinds', one, { constants: K, runs: THOROUGH ? 40000 : 4000, gen: i => ({ f: 'all', v: [N, alike, T, simple][i % 4]() }) });
}
