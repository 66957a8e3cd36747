// C18 reading text: lines, fragments, comparison; every chunking of the stream, on a boxed real file system
import { boxes } from '../lib/fsops.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
/** a runner that answers single requests through batches sent to all boxes */
export function batched(bs) {
    let queue = [], k = 0, timer = null;
    const flush = () => { timer = null; const parts = bs.map(() => []); for (const e of queue) parts[k++ % bs.length].push(e); queue = [];
        parts.forEach((p, i) => { if (p.length) bs[i].chain = (bs[i].chain ?? Promise.resolve()).then(async () => { const r = await bs[i].run({ texts: p.map(e => [e.c, e.v]) }); p.forEach((e, j) => e.res(r.died ? { died: r.died } : r.res[j])); }); }); };
    return (c, v) => new Promise(res => { queue.push({ c, v, res }); if (!timer) timer = setImmediate(flush); });
}
export default async function (rep) {
    const R = rng(SEED * 47 + 18), bs = await boxes(6);
    try {
        const go = batched(bs);
        await cases(rep, 'TextLines', go, { constants: `Big=${THOROUGH ? 'TRUE' : 'FALSE'}`, parallel: 240 });
        const S = ['a', 'b', 'eacute', 'emoji', 'LS', 'PS', 'NEL', 'CR', 'LF', 'CR', 'LF', 'LF'], W = { a: 1, b: 1, eacute: 2, emoji: 4, LS: 3, PS: 3, NEL: 2, CR: 1, LF: 1, BOM: 3, Z: 1 };
        const textOf = n => Array.from({ length: R.int(0, n) }, () => R.pick(S));
        const gen = i => {
            if (i % 199 === 77) { const text = [R.pick(['X1048576', 'X1100001', 'X2200003']), 'LF', ...textOf(6), 'a', 'LF', 'X1048577', 'emoji']; return R.bool(0.3) ? { f: 'readFile', text, missing: false } : R.bool(0.3) ? { f: 'diffFile', text, other: [...text.slice(0, -1), 'b'], missing: 'no' } : { f: 'readlineStream', text, mode: R.pick(['collect', 'cb2', 'cb3']), cut: R.pick([0, 65535, 100003]), fail: 0, missing: false, slow: false }; } // far longer
            const f = R.pick(['readline', 'readlineFromCode', 'readlineStream', 'readlineStream', 'readlineStream', 'readFragment', 'diffFile']);
            if (f === 'readlineStream') { let text = textOf(14); if (R.bool(0.25)) text = [R.pick(['X65533', 'X65534', 'X65535', 'X65536']), ...text]; if (R.bool(0.2)) text = [...text, R.pick(['X65535', 'X131070', 'X200'])]; if (text.length > 1 && text[0][0] === 'X' && text[1][0] === 'X') text.splice(1, 0, 'LF'); return { f, text, mode: R.pick(['collect', 'cb2', 'cb3']), cut: R.pick([0, 1, 2, 3, 5, 7]) || (text.some(x => x[0] === 'X') ? R.pick([0, 0, 65535, 1021]) : 0), fail: R.bool(0.1) ? R.int(1, 6) : 0, missing: false, slow: false }; }
            if (f === 'readFragment') { const text = textOf(20).concat('a'), pos = [0]; for (const x of text) pos.push(pos.at(-1) + W[x]); const i = R.int(0, text.length - 1), j = R.int(i + 1, text.length); return { f, text, s: pos[i], e: pos[j] - 1, first: R.bool(0.4), cut: R.pick([0, 1, 2, 3]), fail: 0, missing: false }; }
            if (f === 'diffFile') { const mk = () => { const q = []; for (let i = R.int(0, 3); i > 0; i--) { q.push('X' + R.pick([1, 100, 511, 512, 513, 1024, 5000])); q.push(R.pick(['a', 'b', 'Z', 'LF'])); } return q; }; const text = mk(), other = R.bool(0.5) ? text.map(x => R.bool(0.1) ? (x[0] === 'X' ? 'X' + (+x.slice(1) + R.pick([1, 512])) : R.pick(['a', 'b', 'Z'])) : x) : R.bool(0.5) ? text.slice(0, -1) : mk(); return R.bool() ? { f, text, other, missing: 'no' } : { f, text: other, other: text, missing: 'no' }; }
            return { f, text: textOf(24), mode: R.pick(['collect', 'cb2', 'cb3']), form: R.pick(['string', 'utf8', 'utf16le']) };
        };
        await recorded(rep, 'TextLines', go, { constants: 'Big=FALSE', gen, runs: THOROUGH ? 30000 : 4000, parallel: 240 });
    } finally { bs.forEach(b => b.close()); }
}
