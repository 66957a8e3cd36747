// C12 rearranging arrays
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const L = load('array');
// model integers stand for arbitrary values; every few calls for values that are awkward (NaN, undefined, objects)
const ODD = [NaN, undefined, null, 0, '', false, {}, [], -0.5, Infinity, 'x', 7n, Symbol('s')];
const same = (a, b) => a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
function one(c, v) {
    const odd = v % 3 === 1, arrays = !['flat', 'dimensionLevel', 'isMultiDimensional', 'maxRecursionDepth', 'unique'].includes(c.f);
    const pool = arrays ? ODD : ODD.filter(x => !Array.isArray(x));
    const memo = new Map(), back = new Map();
    const val = n => { if (!odd) return n; if (!memo.has(n)) { const x = n <= pool.length ? pool[n - 1] : { n }; memo.set(n, x); back.set(x, n); } return memo.get(n); };
    const id = x => !odd ? x : back.has(x) ? back.get(x) : 'foreign value';
    const str = q => String.fromCharCode(...q), units = s => [...s].map(x => x.charCodeAt(0));
    const nest = q => q.map(t => t.a ? nest(t.k) : val(t.v));
    const snap = JSON.stringify;
    const E = (f, T) => { try { return f(); } catch (e) { return e instanceof (T ?? TypeError) ? 'error' : 'other error: ' + e; } };
    switch (c.f) {
        case 'splitByStep': case 'splitChunk': { const a = c.v.map(val), keep = a.slice(); const r = E(() => c.f === 'splitChunk' ? (c.pad ? L.splitChunk(a, c.k, c.pad) : L.splitChunk(a, c.k)) : L.splitByStep(a, c.k)); if (!same(a, keep)) return 'input changed'; return r === 'error' ? r : r.map(p => p.map(id)); }
        case 'move': { const a = c.v.map(val); const r = E(() => L.move(a, c.from, c.to), RangeError); if (r === 'error') return same(a, c.v.map(val)) ? r : 'changed though refused'; return typeof r === 'string' ? r : r.map(id); }
        case 'range': { const q = [1, 1, 4, 2, 1024][v % 5]; const r = E(() => (c.step === q && v % 2 ? L.range(c.from / q, c.to / q) : L.range(c.from / q, c.to / q, c.step / q))); return typeof r === 'string' ? r : r.map(x => x * q + 0); }
        case 'flat': { const a = nest(c.v); const r = L.flat(a); return r.map(id); }
        case 'dimensionLevel': return L.dimensionLevel(nest(c.v));
        case 'isMultiDimensional': return c.dim ? (c.strict ? L.isMultiDimensional(nest(c.v), c.dim, true) : L.isMultiDimensional(nest(c.v), c.dim)) : L.isMultiDimensional(nest(c.v));
        case 'maxRecursionDepth': if (v % 5 === 4 && c.v.every(x => !x.a) && c.empty) { const q = [...nest(c.v)]; q.length += 1 + v % 3; return L.maxRecursionDepth(q); }
            if (v % 997 === 6 && c.v.length) { const q = nest(c.v), e = q.at(-1); while (q.length < 150000) q.push(e); return L.maxRecursionDepth(q, c.empty); }
            return c.empty && v % 2 ? L.maxRecursionDepth(nest(c.v)) : L.maxRecursionDepth(nest(c.v), c.empty);
        case 'unique': { const a = nest(c.v), copy = a.map(x => Array.isArray(x) ? x.slice() : x); const r = L.uniqueFromPrimitive(...a); if (a.some((x, i) => Array.isArray(x) && !same(x, copy[i]))) return 'input changed'; return r.map(id); }
        case 'isUnique': { const a = c.v.map(val), k = a.slice(); const r = L.isUnique(a); return same(a, k) ? r : 'input changed'; }
        case 'sortByEng': case 'sortWords': case 'sortByEngInitials': return (c.rev ? L[c.f](c.v.map(str), true) : L[c.f](c.v.map(str))).map(units);
        case 'sortToIndexes': { const a = c.v.map(n => v % 3 === 1 ? '\u{1f600}'.repeat(n >> 1) + 'x'.repeat(n % 2) : 'x'.repeat(n)), k = a.slice(); const r = L.sortToIndexes(a); return same(a, k) ? r : 'input changed'; }
        case 'maxLengthIndex': case 'minLengthIndex': return String(L[c.f](c.v.map(n => v % 3 === 1 ? '\u{1f600}'.repeat(n >> 1) + 'x'.repeat(n % 2) : 'x'.repeat(n))));
        case 'fromArrayLike': { const o = { length: c.v.length }; c.v.forEach((x, i) => { o[i] = val(x); }); const r = L.fromArrayLike(v % 2 ? o : (function () { return arguments; })(...c.v.map(val))); return Array.isArray(r) ? r.map(id) : 'no array'; }
        case 'toArray': { const a = c.v.slice(), x = { array: a, null: null, undefined, value: 'value', false: false }[c.kind]; const o = {}; if (c.nul) o.allowNull = true; if (c.und) o.allowUndefined = true; const r = c.nul || c.und ? L.toArray(x, o) : L.toArray(x); return c.kind === 'array' ? r : r.map(String); }
        case 'toObject': { const P = v % 3 === 2 ? { a: '__proto__' } : {}, a = c.v.slice(), r = L.toObject(v % 4 === 3 ? Object.freeze(a) : a, p => P[p[0]] ?? p[0], p => v % 2 ? { n: p[1] } : p[1]); if (Object.getPrototypeOf(r) !== Object.prototype) return 'other prototype'; return Object.keys(r).map(k => [k === '__proto__' ? 'a' : k, v % 2 ? r[k].n : r[k]]); }
        case 'shuffle': return shuffles(c.n);
    }
}
function shuffles(n) { // every order occurs, none much more often than another, and the input is left alone
    const R = rng(SEED + 99); const M = Object.create(Math, Object.getOwnPropertyDescriptors(Math)); Object.defineProperty(M, 'random', { value: () => R.next() });
    const { shuffle } = load('array', { Math: M });
    const a = Array.from({ length: n }, (_, i) => ({ i })), keep = a.slice(), cnt = new Map();
    let perms = 1; for (let i = 2; i <= n; i++) perms *= i;
    for (let k = 0; k < perms * 1500; k++) { const r = shuffle(a); if (!same(a, keep)) return 'input changed'; if (r.length !== n || new Set(r).size !== n || r.some(x => !keep.includes(x))) return 'not a permutation'; const key = r.map(x => x.i).join(); cnt.set(key, (cnt.get(key) || 0) + 1); }
    if (cnt.size !== perms) return `${cnt.size} of ${perms} orders occur`;
    const q = [...cnt.values()]; return Math.max(...q) / Math.min(...q) < 1.4 ? 'every order, equally often' : 'some orders much more often than others';
}
let nth = 0;
export default async function (rep) {
    await cases(rep, 'ArrayOps', c => one(c, nth++), { constants: THOROUGH ? 'MaxN=6 MaxStep=16' : 'MaxN=5 MaxStep=12', times: 3 });
    const R = rng(SEED * 23 + 12);
    const tree = d => d > 0 && R.bool(0.5) ? { a: true, k: R.list(0, 4, () => tree(d - 1)), v: 0 } : { a: false, k: [], v: R.int(1, 9) };
    const word = () => R.list(1, 5, () => R.int(97, 101));
    await recorded(rep, 'ArrayOps', c => one(c, nth++), { constants: 'MaxN=0 MaxStep=0', runs: THOROUGH ? 40000 : 5000,
        gen: i => {
            // now and then far longer than usual
            const far = i % 97 < 12 && i % 12 !== 5 ? 1 : 0, N = n => far ? R.int(n, 700) : n;
            const iota = n => Array.from({ length: n }, (_, k) => k + 1);
            switch (i % 12) {
                case 0: return { f: 'splitByStep', v: iota(R.int(0, N(60))), k: R.int(0, 70) };
                case 1: case 2: return { f: 'splitChunk', v: iota(R.int(0, N(60))), k: R.int(0, 70), pad: R.pick(['', 'start', 'end']) };
                case 3: { const n = R.int(0, N(30)); return { f: 'move', v: iota(n), from: R.int(-n - 1, n), to: R.int(-n - 1, n) }; }
                case 4: return { f: 'range', from: R.int(-50, 50), to: far ? R.int(-900, 900) : R.int(-50, 50), step: R.int(-7, 7) };
                case 5: return { f: R.pick(['flat', 'dimensionLevel']), v: R.list(0, 5, () => tree(4)) };
                case 6: return { f: 'isMultiDimensional', v: R.list(0, far ? 60 : 4, () => tree(3)), dim: R.pick([0, 2, 3, 4]), strict: R.bool() };
                case 7: return { f: 'maxRecursionDepth', v: R.list(0, far ? 60 : 4, () => tree(4)), empty: R.bool() };
                case 8: return { f: 'unique', v: R.list(0, 6, () => R.bool() ? { a: false, k: [], v: R.int(1, 9) } : { a: true, k: R.list(0, far ? 80 : 5, () => ({ a: false, k: [], v: R.int(1, far ? 200 : 9) })), v: 0 }) };
                case 9: return { f: R.pick(['sortByEng', 'sortWords', 'sortByEngInitials']), v: R.list(0, far ? 60 : 20, word), rev: R.bool() };
                case 10: return { f: R.pick(['sortToIndexes', 'maxLengthIndex', 'minLengthIndex']), v: R.list(0, N(25), () => R.int(0, 120)) };
                default: return far && R.bool() ? { f: 'isUnique', v: R.shuffle([...iota(N(200)), ...(R.bool() ? [1] : [])]) } : { f: 'isUnique', v: R.list(0, 10, () => R.int(1, 25)) };
            }
        } });
}
