// C13 random draws: the source of randomness is replaced by one that the driver sweeps over its interval
import { load } from '../lib/bundle.mjs';
import { cases } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const R = rng(SEED + 1313);
let plain = 0;
const TOP = 1 - 2 ** -53;
let x = 0, wild = false, words = null; // the current value of the source; wild: every draw afresh
const src = () => wild ? Math.min(TOP, R.next() + R.next() * 2 ** -32) : x;
const M = Object.create(Math, Object.getOwnPropertyDescriptors(Math)); Object.defineProperty(M, 'random', { value: () => (plain++, src()) });
const fill = arr => {
    if (arr.byteLength > 65536) throw new Error('QuotaExceededError');
    // a multi-element draw is the binary expansion of the source value, high part first
    if (words) { const b = new Uint8Array(arr.buffer, arr.byteOffset, arr.byteLength), w = new Uint8Array(Uint32Array.from(words).buffer); b.forEach((_, i) => { b[i] = w[i % w.length]; }); return arr; }
    let v = src(); const top = v === TOP;
    for (let i = 0; i < arr.length; i++) { const bits = arr.BYTES_PER_ELEMENT * 8; if (top) { arr[i] = typeof arr[i] === 'bigint' ? -1n : -1; continue; } if (wild) v = src(); const y = v * 2 ** bits, w = Math.floor(y); arr[i] = typeof arr[i] === 'bigint' ? BigInt(w) : w; if (!wild) v = y - w; }
    return arr;
};
const crypto = { getRandomValues: fill, randomUUID: globalThis.crypto.randomUUID, subtle: {} };
const G = { Math: M, crypto };
const N = load('number', G), A = load('array', G), S = load('string', G), T = load('function/timeout', G);
const sweep = (n, f) => { wild = false; const out = []; for (let k = 0; k <= n; k++) { x = k === n ? TOP : k / n; out.push(f()); } return out; };
const ints = q => [...new Set(q.map(v => typeof v === 'number' && Number.isInteger(v) ? v + 0 : 'no integer: ' + v))].sort((a, b) => a - b);
const even = (q, what) => { const n = new Map(); for (const v of q) n.set(v, (n.get(v) || 0) + 1); const k = [...n.values()]; return Math.min(...k) * 1.5 < Math.max(...k) ? 'not equally often' : what(q); };
const BAD = { '2^53': 2 ** 53, '-2^53': -(2 ** 53) };
const p2 = t => Function('"use strict";return ' + t.replace(/(-?)2\^(\d+)/g, (_, s, n) => `${s}(2**${n})`))();
const NEVER = 'never drawn';
// a draw that is asked to be safe takes nothing from the ordinary source
async function one(c) {
    plain = 0; const r = await draw(c);
    return (c.safe === true || c.f.startsWith('rangeSafe') || c.f === 'digits') && plain ? 'drawn from the ordinary source' : r;
}
async function draw(c) {
    switch (c.f) {
        case 'range': case 'rangeSafe': {
            const raw = sweep(64 * (Math.abs(c.b - c.a) + 1), () => N[c.f](c.a, c.b)), q = ints(raw);
            if (c.a <= c.b) return even(raw, ints);
            return q.every(v => Number.isInteger(v) && v >= c.b && v <= c.a) ? 'inside' : q;
        }
        case 'rangeWide': case 'rangeSafeWide': {
            const [a, b] = c.w.split('..').map(p2), f = () => N[c.f.slice(0, -4)](a, b);
            for (const v of sweep(4096, f)) if (!Number.isSafeInteger(v) || v < a || v > b) return 'outside: ' + v;
            x = 0; if (f() !== a) return 'start not reached: ' + f();
            x = TOP; if (f() !== b) return 'end not reached: ' + f();
            // neighbours are reached: among the sources that differ in one binary digit some draw the very next value
            let near = 0; for (let i = 0; i < 60; i++) {
                const base = Array.from({ length: 16 }, () => Math.floor(R.next() * 2 ** 32)), y = Math.floor(R.next() * 2 ** 53) / 2 ** 53;
                words = base; x = y; const v = f();
                for (let k = 0; k < 128; k++) { words = base.slice(); words[k >> 5] = (words[k >> 5] ^ (1 << (k & 31))) >>> 0; x = y; if (k < 53) { const w = 2 ** -(k + 1); x = Math.floor(y / w) % 2 ? y - w : y + w; } const d = Math.abs(f() - v); if (d === 1) { near++; break; } }
                words = null;
            }
            if (near < 10) return 'neighbouring values cannot both be drawn';
            return 'inside, both ends and neighbours of every drawn value reached';
        }
        case 'rangeBad': case 'rangeSafeBad': { const n = t => BAD[t] ?? (t === 'x' ? '5' : Number(t)); x = 0.5; try { return 'drew ' + N[c.f.slice(0, -3)](n(c.a), n(c.b)); } catch (e) { return e instanceof TypeError ? 'TypeError' : String(e); } }
        case 'duration': {
            const q = ints(sweep(64 * (Math.abs(c.b - c.a) + 1), () => T.timeoutMsResolve({ start: c.a, end: c.b })));
            return c.a === c.b ? q : q.filter(v => v !== Math.min(c.a, c.b));
        }
        case 'omitted': {
            const o = c.left === 'start' ? (c.n ? { end: c.n } : {}) : { start: c.n }, d = c.form === 'function' ? () => o : c.form === 'list' ? [o] : o;
            const q = sweep(64 * (c.n + 1), () => T.timeoutMsResolve(d)); return ints(c.n ? q.filter(v => v !== 0) : q);
        }
        case 'choice': {
            const a = Array.from({ length: c.n }, (_, i) => { const m = 10 * (i + 1); return { texts: String(m), points: { start: m, end: m }, nested: [m], thunks: () => m }[c.form] ?? m; }), d = c.form === 'function' ? () => a : a;
            try { return even(sweep(64 * c.n + 1, () => T.timeoutMsResolve(d)), ints); } catch (e) { return e instanceof TypeError ? 'TypeError' : String(e); }
        }
        case 'durationLeast': { // kept apart: known finding
            const q = sweep(64 * (Math.abs(c.b - c.a) + 1), () => T.timeoutMsResolve({ start: c.a, end: c.b }));
            return q.includes(Math.min(c.a, c.b)) ? 'drawn' : NEVER;
        }
        case 'element': { const a = Array.from({ length: c.n }, (_, i) => ({ i })); return even(sweep(64 * c.n, () => a.indexOf(A.random(a)) + 1), ints); }
        case 'lower': case 'upper': { const f = S[c.f === 'lower' ? 'randomLower' : 'randomUpper']; return even(sweep(2048, () => { const s = c.safe ? f(true) : f(); return s.length === 1 ? s.charCodeAt(0) : 'length ' + s.length; }), ints); }
        case 'boolean': return even(sweep(2048, () => c.safe ? S.randomBoolean(true) : S.randomBoolean()), q => [...new Set(q)].sort());
        case 'float': { const q = sweep(4096, () => (c.safe ? N.randomSafe() : N.random())); return q.every(v => typeof v === 'number' && v >= 0 && v < 1) && Math.min(...q) < 1e-6 && Math.max(...q) > 0.9999 ? 'in [0,1), near both ends' : 'range ' + Math.min(...q) + ' to ' + Math.max(...q); }
        case 'hex': {
            const seen = [0, 1, 2, 3, 4, 5].map(() => new Set()); const f = () => c.safe ? S.randomHexColor(true) : S.randomHexColor();
            const add = s => { if (!/^#[0-9A-F]{6}$/.test(s)) throw new Error('bad colour ' + s); for (let i = 0; i < 6; i++) seen[i].add(s.charCodeAt(i + 1)); };
            x = 0; if (f() !== '#000000') return 'no black: ' + f(); x = TOP; if (f() !== '#FFFFFF') return 'no white: ' + f();
            const all = sweep(4095, f); if (new Set(all).size !== all.length) return 'some colours are drawn for more of the source than others'; all.forEach(add);
            wild = true; for (let i = 0; i < 3000; i++) add(f()); wild = false;
            return seen.map(s => [...s].sort((a, b) => a - b));
        }
        case 'digits': {
            const set = new Set(); const lens = new Set(); const go = () => { const s = c.n === 15 ? S.randomNumber() : S.randomNumber(c.n); lens.add(s.length); for (const ch of c.n > 1000 ? s.slice(0, 300) + s.slice(-300) : s) set.add(ch.charCodeAt(0)); if (!/^[0-9]*$/.test(s)) throw new Error('not digits'); };
            x = 0; wild = false; go(); x = TOP; go(); wild = true; for (let i = 0; i < (c.n > 1000 ? 6 : 400); i++) go(); wild = false;
            return { len: lens.size === 1 ? [...lens][0] : [...lens], chars: [...set].sort((a, b) => a - b) };
        }
    }
}
export default async function (rep) {
    await cases(rep, 'Draws', one, { constants: THOROUGH ? 'Lo<-LoT Hi=40 MaxN=40' : 'Lo<-LoQ Hi=12 MaxN=12',
        keyOf: (c, got) => c.f === 'durationLeast' && got === NEVER ? 'a duration range never draws its least value' : JSON.stringify(c) });
}
