// C41 writing a file, making folders and reading a file back, on a boxed real file system
import { boxes } from '../lib/fsops.mjs';
import { batched } from './C18.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const tx = t => ({ k: 'text', t });
export default async function (rep) {
    const R = rng(SEED * 53 + 41), bs = await boxes(8);
    try {
        const go = batched(bs);
        await cases(rep, 'Written', go, { constants: `Big=${THOROUGH ? 'TRUE' : 'FALSE'}`, spec: 'WSpec', parallel: 240, times: THOROUGH ? 6 : 2 });
        const UNIT = [97, 98, 34, 92, 10, 13, 9, 8, 12, 0, 31, 127, 128, 233, 2047, 2048, 8232, 8233, 20013, 65279, 65535, 123, 125, 91, 93, 44, 58, 32];
        const text = n => { const t = []; for (let i = R.int(0, n); i > 0; i--) { if (R.bool(0.12)) t.push(R.pick([55296, 55357, 56319]), R.pick([56320, 56832, 57343])); else if (R.bool(0.04)) t.push(R.pick([55296, 57343]), 97); else t.push(R.pick(UNIT)); } return t; };
        const lit = () => ({ k: 'lit', t: [...R.pick(['0', '7', '-3', '1.5', '1e+21', '1e-7', 'true', 'false', 'null'])].map(x => x.charCodeAt(0)) });
        const value = (d, bad) => { const r = R.next(); if (d > 0 && r < 0.25) return { k: 'arr', a: Array.from({ length: R.int(0, 4) }, () => value(d - 1, bad)) };
            if (d > 0 && r < 0.55) { const seen = new Set(), o = []; for (let i = R.int(0, 4); i > 0; i--) { const n = text(4); const key = n.join(); if (seen.has(key) || (n.length && n.every(u => u >= 48 && u <= 57))) continue; seen.add(key); o.push({ n, v: value(d - 1, bad) }); } return { k: 'obj', o }; }
            if (r < 0.7) return tx(text(12)); if (r < 0.85) return lit(); return { k: R.pick(['nan', 'undef', 'fn', 'sym', ...(bad ? ['big', 'circ', 'throws'] : [])]) }; };
        const old = () => R.pick([{ k: 'none', b: [] }, { k: 'file', b: Array.from({ length: R.int(0, 30) }, () => R.int(0, 255)) }, { k: 'file', b: [] }]);
        const sw = () => R.pick(['default', 'default', 'yes', 'no']);
        const gen = i => {
            const enc = R.pick(['default', 'default', 'utf8', 'utf16le']);
            if (R.bool(0.15)) { const t = []; for (const u of text(60)) if (!(u >= 55296 && u <= 57343)) t.push(u); return { f: 'read', old: { k: 'file' }, t, enc, flag: R.pick(['default', 'r', 'r+']), locked: R.bool(0.1) }; }
            const depth = R.int(0, 3), have = R.bool(0.6) ? depth : R.int(0, depth), block = have < depth && R.bool(0.1);
            if (R.bool(0.08) && depth) return { f: 'mkdir', depth, have, block, rec: sw(), mode: R.pick(['default', 'm777', 'm755']) };
            const long = i % 97 === 5, fmt = sw(), r = R.next();
            let data = long ? tx(Array.from({ length: R.pick([255, 256, 511, 600]) }, (_, j) => (j % 5 ? 97 + (j % 26) : 20013))) : r < 0.3 ? tx(text(40)) : r < 0.4 ? { k: 'bytes', b: Array.from({ length: R.int(0, 40) }, () => R.int(0, 255)) } : R.bool() ? { k: 'obj', o: [{ n: text(3), v: value(3, R.bool(0.2)) }] } : { k: 'arr', a: Array.from({ length: R.int(0, 4) }, () => value(3, R.bool(0.2))) };
            if (fmt === 'no' && data.k === 'arr') data = { k: 'arr', a: data.a.map(() => tx(text(6))) };
            return { f: 'write', depth, have, block, old: have < depth ? { k: 'none', b: [] } : old(), data, enc, flag: R.pick(['default', 'default', 'w', 'w+', 'a', 'a', 'wx', 'ax', 'r+']), mode: R.pick(['default', 'm600', 'm777', 'm666']), mk: sw(), fmt };
        };
        await recorded(rep, 'Written', go, { constants: 'Big=FALSE', gen, runs: THOROUGH ? 30000 : 3000, parallel: 240, chunk: 10000 });
    } finally { bs.forEach(b => b.close()); }
}
