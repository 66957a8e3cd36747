// C27 UTF-8 bytes, characters, cutting by bytes, byte counts in words
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const B = load('string/bytes'), C = load('string/chars'), H = load('string/character');
const str = t => String.fromCharCode(...t), units = s => Array.from({ length: s.length }, (_, i) => s.charCodeAt(i));
const UNITS = { true: ['B', 'KB', 'MB', 'GB', 'TB', 'PB', 'EB', 'ZB', 'YB'], false: ['B', 'KiB', 'MiB', 'GiB', 'TiB', 'PiB', 'EiB', 'ZiB', 'YiB'] };
function one(c, v) {
    switch (c.f) {
        case 'bytes': return { len: B.bytesLength(str(c.t)), bytes: B.bytesArray(str(c.t)) };
        case 'chars': { const cs = C.chars(str(c.t)); return { chars: cs.map(units), joined: units(C.fromChars(cs)) }; }
        case 'at': { const s = str(c.t); return { at: [...c.t, 0].map((_, i) => (i === 0 && v % 2 && s ? H.codePointAt(s) : H.codePointAt(s, v % 3 === 1 ? String(i) : i)) ?? -1) }; }
        case 'split': {
            let r; try { r = c.limit === 4096 ? B.splitByBytes(str(c.t)) : B.splitByBytes(str(c.t), c.limit); } catch (e) { if (c.limit === 0) return []; throw e; }
            return c.limit === 0 ? 'accepted' : Array.from(r, p => typeof p === 'string' ? units(p) : 'hole');
        }
        case 'words': {
            const n = (c.neg ? -1 : 1) * c.m * (c.si ? 1000 : 1024) ** c.k;
            const s = c.si && c.dp === 1 && v % 2 ? v % 4 === 1 ? B.formatBytes(n) : B.formatBytes(n, true) : B.formatBytes(n, c.si, c.dp);
            const m = /^(-?)(\d+)(?:\.(\d+))? (\w+)$/.exec(s); if (!m) return s;
            const u = UNITS[c.si].indexOf(m[4]); if (u && (m[3] ?? '').length !== c.dp) return s;
            if (m[1] ? !(c.neg && c.m) : c.neg && c.m) return 'sign of ' + s;
            return { u, w: Number(m[2] + (m[3] ?? '')) };
        }
    }
}
let nth = 0;
export default async function (rep) {
    await cases(rep, 'Utf8', c => one(c, nth++), { spec: 'USpec', constants: THOROUGH ? 'MaxLen=4 MaxSplit=6 MaxBig=2100' : 'MaxLen=3 MaxSplit=5 MaxBig=260', times: 1 });
    const R = rng(SEED * 31 + 27);
    const pt = () => { const k = R.int(0, 9); return k < 3 ? [R.int(0, 127)] : k < 5 ? [R.int(128, 2047)] : k < 7 ? [R.bool(0.3) ? R.int(57344, 65535) : R.int(2048, 55295)] : k < 9 || R.bool(0.8) ? [R.int(55296, 56319), R.int(56320, 57343)] : [R.int(55296, 57343)]; };
    await recorded(rep, 'Utf8', (c, i) => one(c, i), { constants: 'MaxLen=0 MaxSplit=0 MaxBig=0', runs: THOROUGH ? 60000 : 8000,
        gen: i => { const t = Array.from({ length: i % 500 === 0 ? 3000 : R.int(0, 24) }, pt).flat();
            return i % 500 === 0 ? { f: i % 1000 ? 'bytes' : 'split', t, limit: 4096 } : i % 3 === 0 ? { f: 'bytes', t } : i % 3 === 1 ? { f: 'split', t, limit: R.int(1, R.bool() ? 6 : 30) } : { f: ['chars', 'at'][i % 2], t }; } });
}
