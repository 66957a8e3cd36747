// C24 deep copies
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
import { build, read } from '../lib/heap.mjs';
const { copy, copyAttrs } = load('util');
function mutableIn(x, seen = new Set()) {
    if ((typeof x !== 'object' && typeof x !== 'function') || x === null || seen.has(x)) return seen;
    seen.add(x);
    for (const k of Reflect.ownKeys(x)) if (!(typeof k === 'symbol' && (x instanceof Blob || x instanceof FormData))) { const d = Object.getOwnPropertyDescriptor(x, k); if (d && 'value' in d && !(typeof x === 'function' && k === 'prototype')) mutableIn(d.value, seen); }
    if (x instanceof Map) for (const [k, v] of x) { mutableIn(k, seen); mutableIn(v, seen); }
    if (x instanceof Set) for (const v of x) mutableIn(v, seen);
    if (ArrayBuffer.isView(x) && !Buffer.isBuffer(x)) seen.add(x.buffer);
    return seen;
}
const sharesMemory = (a, b) => { for (const x of a) if (Buffer.isBuffer(x) && x.length) for (const y of b) if (Buffer.isBuffer(y) && y.buffer === x.buffer && y.byteOffset === x.byteOffset) return true; return false; };
function one(c, v) {
    const b = build(c.h, v), before = JSON.stringify(read(b.root, c.h, 1, b));
    if (c.f === 'copy') {
        const y = copy(b.root), A = mutableIn(b.root), B = mutableIn(y);
        const fresh = ![...B].some(x => A.has(x)) && !sharesMemory(A, B);
        if (JSON.stringify(read(b.root, c.h, 1, b)) !== before) return 'the original changed';
        const pairs = [], r = { copy: read(y, c.h, 1, b, pairs), fresh }, blobs = pairs.filter(([x]) => x instanceof Blob);
        return !blobs.length ? r : (async () => { for (const [x, y] of blobs) if (!(y instanceof Blob) || !Buffer.from(await x.arrayBuffer()).equals(Buffer.from(await y.arrayBuffer()))) return 'another content'; return r; })();
    }
    const [p, q] = b.names(0), mark = { mark: 1 };
    const dest = c.has ? { [p]: mark } : {}, y = c.lacked ? copyAttrs(b.root, dest, true) : v % 2 ? copyAttrs(b.root, dest) : copyAttrs(b.root, dest, false);
    if (y !== dest) return 'another destination';
    if (Reflect.ownKeys(y).length !== 2) return 'other keys';
    const A = mutableIn(b.root), B = mutableIn(y);
    const slot = (k, s) => y[k] === mark ? 'kept' : read(y[k], c.h, s > 0 ? s : 0, b);
    return { a: slot(p, c.h[0].f[0]), b: slot(q, c.h[0].f[1]), fresh: ![...B].some(x => A.has(x)) };
}
const ALL = ['obj', 'null', 'arr', 'map', 'set', 'err', 'agg', 'blank', 'sparse', 'dom', 'blob', 'file', 'form', 'date', 'reg', 'buf', 'ab', 'view', 'fn', 'num', 'url', 'u8', 'f64', 'i16', 'big', 'clamp', 'i8', 'u16', 'i32', 'u32', 'f32', 'ubig'];
const q = l => '{' + l.map(x => JSON.stringify(x)).join(',') + '}';
export default async function (rep) {
    let n = 0;
    await cases(rep, 'Heap', c => one(c, n++ % 60), { constants: `Kinds2=${q(ALL)} Kinds3=${q(THOROUGH ? ['obj', 'map', 'set', 'date'] : ['obj', 'map', 'date'])}`, times: THOROUGH ? 12 : 3, spec: 'HSpec', keyOf: c => JSON.stringify(c) });
    const R = rng(SEED * 7 + 24); const vs = [];
    await recorded(rep, 'Heap', (c, i) => one(c, vs[i]), { constants: `Kinds2={} Kinds3={}`, runs: THOROUGH ? 40000 : 6000,
        gen: i => {
            vs[i] = R.int(0, 59); const N = i % 120 === 60 ? R.int(40, 120) : R.int(1, 9); // now and then far more, and far deeper
            let at = 0; const slot = () => N > 9 && R.bool(0.5) ? Math.min(N, at + 1) : R.bool(0.6) ? R.int(1, N) : -R.int(0, 8) || 0;
            const h = Array.from({ length: N }, (_, z) => { at = z + 1; const k = R.pick(R.bool(0.7) ? ALL.slice(0, 7) : ALL); const w = ALL.indexOf(k) < 7 ? 2 : k === 'blank' ? 0 : 1; const f = Array.from({ length: w }, slot); if (k === 'set' || k === 'map') for (let j = 0; j < (k === 'map' ? 1 : 2); j++) while (f[j] === -6 || k === 'set' && f[0] === f[1]) f[j] = slot(); return { k, f }; });
            return { f: 'copy', h, lacked: false, has: false };
        } });
}
