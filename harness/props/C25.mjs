// C25 utilities on plain objects
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const O = load('object'), { allAttrs, lackAttrs } = load('util');
const SYM = { __proto__: null, s1: Symbol('s1'), s2: Symbol('s1') }, ALIASES = [{}, { a: '__proto__' }, { ab: '__proto__', Ab: '__PROTO__' }, { b: '__proto__' }, { a: '__proto__', A: '__PROTO__' }].map(x => Object.assign(Object.create(null), x));
let alias = ALIASES[0]; // other names for some of the keys
const KEY = k => alias[k] ?? SYM[k] ?? k, BACK = k => Object.keys(alias).find(x => alias[x] === k) ?? BACK1(k), BACK1 = k => typeof k === 'symbol' ? k === SYM.s1 ? 's1' : k === SYM.s2 ? 's2' : 'other symbol' : k;
const shared = { x: 1 };
const VALS = [v => v, v => [undefined, NaN, shared, null, 'a', 0, '', false, Symbol.iterator, 10n][v % 10], v => [0, {}, new Date(1), '1', 1, true, Math, NaN, -1, 'z'][v % 10]].map(f => { const m = new Map(); return v => { if (!m.has(v)) m.set(v, f(v)); return m.get(v); }; });
class Kind { get inherited() { return 1; } }
/** an object with the properties of o; the value numbers stand for values */
function make(o, v, { accessor = false } = {}) {
    const val = VALS[v % 3], x = [{}, new Kind(), Object.create(null), Object.create({ a: 'up', zz: 'up' })][v % 4];
    o.forEach((p, i) => Object.defineProperty(x, KEY(p.k), accessor && (v + i) % 5 === 4 ? { get: () => val(p.v), enumerable: p.e, configurable: p.c } : { value: val(p.v), enumerable: p.e, configurable: p.c, writable: (v + i) % 3 !== 1 }));
    return x;
}
const look = (x, o, v) => Reflect.ownKeys(x).map(k => { const d = Object.getOwnPropertyDescriptor(x, k), n = o.find(p => p.k === BACK(k)), val = VALS[v % 3]; return { k: BACK(k), e: d.enumerable, c: d.configurable, v: n && Object.is(x[k], val(n.v)) ? n.v : 'other value' }; });
const num = (x, o, v) => { const n = o.find(p => Object.is(VALS[v % 3](p.v), x)); return n ? n.v : 'other value'; };
const CH = { dq: '"' }, str = q => q.map(x => CH[x] ?? x).join(''), syms = s => [...s].map(x => x === '"' ? 'dq' : x);
const keyOf = k => k.t === 'index' ? Number(k.s.join('')) : str(k.s), symKey = k => typeof k === 'number' ? { t: 'index', s: [...String(k)] } : { t: 'name', s: syms(k) };
const DEPS = { a: 'bb', b: 0, $: 7 };
const LEAF = [undefined, undefined, null, 5, true, 'ab', 'a', '', 0, false];
function plant(tree, v) {
    const nodes = tree.map((n, i) => Object.create(i % 2 || v % 2 ? {} : null)), own = n => Object.getPrototypeOf(n) ?? n;
    const at = to => to > 0 ? nodes[to - 1] : LEAF[-to];
    nodes.forEach((x, i) => { for (const p of tree[i]) { if (p.own) Object.defineProperty(x, p.k, { value: at(p.to), enumerable: true }); else { let u = Object.getPrototypeOf(x); if (!u) Object.setPrototypeOf(x, u = {}); Object.defineProperty(u, p.k, { value: at(p.to), enumerable: true }); } } });
    return { root: nodes[0], code: x => { const i = nodes.indexOf(x); return i >= 0 ? i + 1 : LEAF.includes(x) ? -LEAF.lastIndexOf(x) : 'other'; } };
}
function sort(c, v) {
    const PR = ['text', null, undefined, 0, Symbol.iterator][v % 5];
    const nodes = c.h.map((n, i) => n.t === 'obj' ? {} : n.t === 'arr' ? [] : [new Kind(), Object.create(null), new Date(5), () => 1][(v + i) % 4]);
    c.h.forEach((n, i) => { for (const [k, s] of n.f) Object.defineProperty(nodes[i], k, { value: s > 0 ? nodes[s - 1] : PR, enumerable: true, writable: (v + i) % 3 !== 2 || n.t === 'arr', configurable: (v + i) % 4 !== 1 || n.t === 'arr' }); if (n.t === 'arr' && n.hole) nodes[i].length += n.hole; if (n.t === 'obj' && v % 6 === 5) Object.defineProperty(nodes[i], 'hid', { value: 1, enumerable: false }); });
    const shape = () => JSON.stringify(nodes.map(x => Object.entries(Object.getOwnPropertyDescriptors(x)).map(([k, d]) => [k, nodes.indexOf(d.value), d.writable, d.configurable])));
    const before = shape(), opt = {}; if (c.deep) opt.deep = true; else if (v % 2) opt.deep = false; if (c.rev) opt.compare = (a, b) => (a < b ? 1 : -1); else if (v % 3 === 2) opt.compare = undefined;
    const r = Object.keys(opt).length || v % 5 ? O.sortKeys(nodes[0], opt) : O.sortKeys(nodes[0]);
    if (shape() !== before) return 'the original changed';
    const out = [], ids = new Map();
    const visit = (x, n) => { // n: the node number it must stand for
        if (typeof x !== 'object' && typeof x !== 'function' || x === null) return Object.is(x, PR) ? 0 : 'other value';
        if (ids.has(x)) return ids.get(x);
        const id = out.length + 1; ids.set(x, id);
        if (!(n > 0)) { out.push('unexpected'); return id; }
        const old = nodes[n - 1], e = { t: c.h[n - 1].t, new: x !== old, f: [] }; out.push(e);
        if (Object.getPrototypeOf(x) !== Object.getPrototypeOf(old)) { e.t = 'other kind'; return id; }
        if (Array.isArray(old) && x.length !== old.length) { e.t = 'other length'; return id; }
        e.f = Object.keys(x).filter(k => k !== 'hid').map(k => { const o2 = c.h[n - 1].f.find(f => f[0] === k), d = Object.getOwnPropertyDescriptor(x, k), od = Object.getOwnPropertyDescriptor(old, k); return [k, o2 === undefined ? 'unexpected' : !Array.isArray(x) && (d.writable !== od.writable || d.configurable !== od.configurable) ? 'other attributes' : visit(x[k], o2[1])]; });
        return id;
    };
    visit(r, 1); return out;
}
const broken = (x, ks) => { for (const k of ks) { if (x === null || x === undefined) return true; x = x[k]; } return false; };
class A {} class B extends A {} const CL = [null, A, B, Object];
function one(c, v) {
    alias = ALIASES[c.f === 'lower' ? [0, 2, 4][(v >> 2) % 3] : ['list', 'all', 'lack', 'hasKeys', 'derive', 'delete'].includes(c.f) ? (v >> 2) % 6 % 4 : 0];
    const val = VALS[v % 3];
    switch (c.f) {
        case 'list': {
            const x = make(c.o, v, { accessor: true }), lv = c.level || v % 2 ? [c.level] : [], before = JSON.stringify(look(x, c.o, v));
            const r = { keys: O.keys(x, ...lv).map(BACK), values: O.values(x, ...lv).map(y => num(y, c.o, v)), pairs: (lv.length ? v % 2 ? O.toArray(x, undefined, ...lv) : O.toArray(x, (k, y) => [k, y], ...lv) : O.toArray(x)).map(([k, y]) => [BACK(k), num(y, c.o, v)]) };
            return JSON.stringify(look(x, c.o, v)) === before ? r : 'changed';
        }
        case 'all': { const x = v % 5 === 4 ? Object.assign(() => 1, {}) : make(c.o, v, { accessor: true }); if (typeof x === 'function') { for (const k of Reflect.ownKeys(x)) delete x[k]; for (const p of c.o) Object.defineProperty(x, KEY(p.k), { value: 1, enumerable: p.e, configurable: p.c }); } return [undefined, null, 5, 'ab', true, Symbol.iterator].some(y => allAttrs(y).length) ? 'keys of a primitive' : allAttrs(x).map(BACK); }
        case 'lack': { const x = make(c.o, v, { accessor: true }), q = c.q.map(k => v % 2 && /^\d+$/.test(k) ? Number(k) : KEY(k)), keep = q.slice(), r = lackAttrs(x, q); if (keep.some((k, i) => k !== q[i]) || q.length !== keep.length) return 'names changed'; if (r === q) return 'itself'; if ([undefined, null].some(y => lackAttrs(y, q).length)) return 'names for nothing'; return r.map(k => q.includes(k) ? BACK(typeof k === 'number' ? String(k) : k) : 'not asked for'); }
        case 'bare': { const val = VALS[v % 3], d = {}; c.o.forEach((p, i) => { d[KEY(p.k)] = v % 2 ? { value: val(p.v), enumerable: p.e, configurable: p.c } : { get: () => val(p.v), enumerable: p.e, configurable: p.c }; }); const x = c.o.length || v % 3 ? O.createWithNull(d) : O.createWithNull(); return Object.getPrototypeOf(x) !== null ? 'a prototype' : look(x, c.o, v); }
        case 'hasKeys': { const x = make(c.o, v & ~3), q = c.q.map(KEY), a = q.length === 1 && v % 2 ? q[0] : q, keep = q.slice(); const r = c.level === 0 && v % 3 === 0 ? O.isKeysIncludes(x, a, c.any) : c.any || v % 2 ? O.isKeysIncludes(x, a, c.level, c.any) : O.isKeysIncludes(x, a, ...(c.level || v % 4 ? [c.level] : [])); return q.length === keep.length ? r : 'keys changed'; }
        case 'hasValues': { const x = make(c.o, v), q = c.q.map(val), a = q.length === 1 && v % 2 ? q[0] : q; return c.any || v % 2 ? O.isValuesIncludes(x, a, c.any) : O.isValuesIncludes(x, a); }
        case 'derive': { const x = make(c.o, v, { accessor: true }), q = c.q.map(KEY), d = Object.getOwnPropertyDescriptors(x), r = c.q.length || v % 2 ? O.derive(x, q) : O.derive(x); if (r === x) return 'itself'; if (Object.getPrototypeOf(r) !== Object.getPrototypeOf(x)) return 'other prototype'; if (q.length !== c.q.length) return 'keys changed';
            for (const k of Reflect.ownKeys(r)) { const a = Object.getOwnPropertyDescriptor(r, k), b = d[k]; if (!b || a.writable !== b.writable || a.get !== b.get) return 'other attributes'; } return { ret: look(r, c.o, v), before: look(x, c.o, v) }; }
        case 'delete': { const x = make(c.o, v, { accessor: true }), q = c.q.map(KEY), d = Object.getOwnPropertyDescriptors(x), proto = Object.getPrototypeOf(x); if (v % 7 === 6 && c.o.every(p => !p.c)) Object.freeze(x); const r = O.deleteAttrs(x, q); if (Object.getPrototypeOf(r) !== proto) return 'other prototype'; if (q.length !== c.q.length) return 'keys changed';
            for (const k of Reflect.ownKeys(r)) { const a = Object.getOwnPropertyDescriptor(r, k), b = d[k]; if (!b || a.get !== b.get) return 'other attributes'; } return { ret: look(r, c.o, v), same: r === x }; }
        case 'lower': { const x = make(c.o, v), r = c.cover && v % 2 ? O.toLowerCaseKey(x) : O.toLowerCaseKey(x, c.cover); return r === x ? 'itself' : look(r, c.o.map(p => ({ ...p, k: p.k.toLowerCase() })), v).map((p, i, all) => { const n = c.o.filter(q => q.k.toLowerCase() === p.k).find(q => Object.is(val(q.v), r[KEY(p.k)])); return { ...p, v: n ? n.v : 'other value' }; }); }
        case 'equal': { const w = v % 2 * 4 + 3, mk = (o, p) => { const x = p === 1 ? [] : {}; for (const q of o) Object.defineProperty(x, KEY(q.k), { value: VAL2[v % VAL2.length][q.v], enumerable: q.e, configurable: true }); return x; }; void w; const a = mk(c.a, 0), b = mk(c.b, 0); const cmp = { is: undefined, loose: () => true, never: () => false }[c.how]; return c.how === 'is' && v % 2 ? O.shallowEqual(a, b) : O.shallowEqual(a, b, cmp ?? ((x, y) => Object.is(x, y))); }
        case 'read': { let r; try { r = O.toCascadeKeys(str(c.t), DEPS); } catch { return ['error']; } return r.map(symKey); }
        case 'get': { const { root, code } = plant(c.tree, v), q = c.q.slice(); const r = q.length === 1 && !c.own && v % 3 ? v % 3 === 1 ? O.getProperty(root, q[0]) : O.getPropertyGetter(q[0])(root) : c.own || v % 2 ? O.getFromPaths(root, q, c.own) : O.getFromPaths(root, q); return q.length === c.q.length ? code(r) : 'path changed'; }
        case 'inherits': return O.isPrototypeProperty(plant(c.tree, v).root, c.k);
        case 'class': { const x = c.i === 0 ? Object.create(null) : c.i === 3 ? {} : new CL[c.i](); const k = O.constructor(x); if (O.constructorName(x) !== (k ? k.name : null)) return 'other name'; return { inst: O.isInstanceOf(x, CL[c.j]), ctor: CL.indexOf(k) }; }
        case 'cascade': {
            const { root, code } = plant(c.tree, v);
            const text = c.q.map((k, i) => k === 'a' ? (i || v % 2 ? '.a' : 'a') : k === '0' ? (v % 3 ? '[0]' : "['0']") : v % 2 ? '["x-y"]' : '[dep]').map((t, i) => v % 5 === 4 && t === '.a' ? "['a']" : t).join('');
            const strict = v % 4 !== 3; let r;
            try { r = strict ? v % 2 ? O.cascade(root, text, { dep: 'x-y' }) : O.cascade(root, text, { dep: 'x-y' }, true) : O.cascade(root, text, { dep: 'x-y' }, false); } catch (e) { return strict && broken(root, c.q) ? 'nothing' : { threw: String(e) }; }
            return r === undefined && broken(root, c.q) ? 'nothing' : code(r);
        }
        case 'sort': return sort(c, v);
    }
}
const VAL2 = [{ 1: 1, 2: '1' }, { 1: 0, 2: -0 }, { 1: NaN, 2: undefined }, { 1: {}, 2: {} }, { 1: null, 2: undefined }];
let nth = 0;
export default async function (rep) {
    await cases(rep, 'Objects', c => one(c, nth++), { constants: `MaxProps=${THOROUGH ? 4 : 3}`, spec: 'OSpec', times: THOROUGH ? 3 : 1 });
    const R = rng(SEED * 41 + 25), want = new Map();
    const NAMES = ['a', 'b', 'A', 'B', 'Ab', 'ab', 'c', '0', '1', '2', '3', '10', 's1', 's2', 'toString', 'length', 'constructor', 'x-y'];
    const MANY = Array.from({ length: 120 }, (_, k) => 'n' + k), obj = (n = 8) => (R.bool(0.01) ? R.shuffle([...NAMES, ...MANY]) : R.shuffle(NAMES).slice(0, R.int(0, n))).map((k, i) => ({ k, e: R.bool(0.8), c: R.bool(0.8), v: i % 8 + 1 }));
    const CHARS = ['a', 'b', '0', '7', '.', '-', ' ', '$', '_', ',', '(', '?', '你', '😀', 'é', ';', '#', '='];
    await recorded(rep, 'Objects', (c, i) => c.f === 'written' ? { keys: want.get(c) } : one(c, i), { constants: 'MaxProps=1', runs: THOROUGH ? 60000 : 8000,
        gen: i => {
            switch (i % 7) {
                case 0: return i % 3 ? { f: 'list', o: obj(), level: R.int(0, 3) } : { f: R.pick(['all', 'bare']), o: obj() };
                case 1: { const o = obj(); return { f: R.pick(['derive', 'delete', 'lack']), o, q: R.list(0, 4, () => R.pick(NAMES)) }; }
                case 2: return { f: 'lower', o: R.shuffle(['a', 'A', 'B', 'b', 'Ab', 'ab', '0', 's1', 'c']).slice(0, R.int(0, 7)).map((k, j) => ({ k, e: R.bool(), c: true, v: j + 1 })), cover: R.bool() };
                case 3: { // a path written by the code, read by the model
                    const keys = R.list(1, R.bool(0.01) ? 60 : 4, () => R.bool(0.3) ? { t: 'index', s: [...String(R.pick([0, 1, 7, 10, 4294967295]))] } : { t: 'name', s: (() => { let q; do q = R.list(1, R.bool(0.01) ? 80 : 4, () => R.pick(CHARS)); while (q[0] === ' ' || q.at(-1) === ' '); return q; })() });
                    const given = keys.map(keyOf), keep = JSON.stringify(given), opt = [undefined, {}, { startDot: true }, { startDot: false, optional: false }][i % 4];
                    const text = opt ? O.fromCascadeKeys(given, opt) : O.fromCascadeKeys(given);
                    const c = { f: 'written', t: JSON.stringify(given) === keep ? syms(text) : ['changed the keys'] }; want.set(c, keys); return c;
                }
                case 4: return { f: 'read', t: R.list(0, R.bool(0.01) ? 150 : 12, () => R.pick(['a', 'b', '$', '0', '1', '7', '.', '[', ']', "'", 'dq', ' ', '😀'])) };
                case 5: { const n = R.int(1, 4), keys = ['a', '0', 'x-y'], node = () => R.shuffle(keys).slice(0, R.int(0, 3)).map(k => ({ k, own: R.bool(0.7), to: R.bool(0.7) ? R.int(1, n) : -R.int(1, 9) })); const tree = Array.from({ length: n }, node), own = R.bool(0.3), q = R.list(0, 6, () => R.pick(keys)); return q.length && R.bool() ? { f: 'cascade', tree, q } : { f: 'get', tree, q, own }; }
                case 6: { const n = R.bool(0.01) ? R.int(20, 60) : R.int(1, 6), slot = () => R.bool(0.7) ? R.int(1, n) : 0;
                    const h = Array.from({ length: n }, (_, j) => { const t = j === 0 ? R.pick(['obj', 'obj', 'arr']) : R.pick(['obj', 'obj', 'arr', 'other']); if (t === 'arr') return { t, f: ['0', '1'].filter(() => R.bool(0.7)).map(k => [k, slot()]), hole: R.int(0, 2) }; const ks = t === 'other' ? ['b', 'a'] : R.shuffle(['a', 'b', 'c', 'A', '_', '0', '1']).slice(0, R.int(0, 5)); ks.sort((x, y) => (/\d/.test(y) - /\d/.test(x)) || (/\d/.test(x) && x < y ? -1 : /\d/.test(x) ? 1 : 0)); return { t, f: ks.map(k => [k, slot()]) }; });
                    return { f: 'sort', h, deep: R.bool(0.7), rev: h[0].t === 'obj' && R.bool() }; }
            }
        } });
}
