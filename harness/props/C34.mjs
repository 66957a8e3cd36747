// C34 paths
import path from 'node:path';
import os from 'node:os';
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const P = load('path'), str = t => String.fromCharCode(...t), cps = s => typeof s === 'string' ? Array.from({ length: s.length }, (_, i) => s.charCodeAt(i)) : s;
const made = new Map();
function at(home, sys) { const k = sys + str(home); if (!made.has(k)) { const p = path[sys === 'win' ? 'win32' : 'posix']; made.set(k, load('path', {}, { 'node:path': p, path: p, 'node:os': { ...os, homedir: () => str(home) } })); } return made.get(k); }
function one(c) {
    switch (c.f) {
        case 'win': { const r = P.isWindowsPath(str(c.t), c.extend); if (!c.extend && P.isWindowsPath(str(c.t)) !== r) return 'another default'; return r; }
        case 'ext': return P.isWindowsExtendedLengthPath(str(c.t));
        case 'unify': return cps(P.unifiedSeparator(str(c.t)));
        case 'long': return P.isWindowsPath({ drive: 'D:', ext: '\\\\?\\d:', dot: '.' }[c.pre] + c.names.map(n => '\\' + 'n'.repeat(n)).join('') + (c.slash ? '\\' : ''), c.extend);
        case 'normal': return cps(at(c.home, c.sys).normalize(str(c.t)));
    }
}
export default async function (rep) {
    await cases(rep, 'Paths', one, { spec: 'PSpec', constants: THOROUGH ? 'MaxTok=5 MaxNorm=7' : 'MaxTok=4 MaxNorm=5' });
    const R = rng(SEED * 7 + 34), cs = s => cps(s), tok = q => () => cs(R.pick(q));
    const W = tok(['\\', '\\', '\\', '..', '.', 'a', 'bc.txt', 'CON', 'CONx', 'xCON', 'NUL', 'NUL.', 'COM1', 'COM10', 'COM0', 'LPT9', 'AUX', ' ', ' a', 'a ', '<', '/', '漢字', 'PRN', ':', '?', '*', 'name with blanks', '.hidden', '...', '~', '-', 'Ünï']);
    const N = tok(['/', '/', '/', '.', '..', 'a', 'bc', '~', '~u', ' ', '\\', '...', '漢', '.x', '$&', '//']);
    await recorded(rep, 'Paths', one, { constants: 'MaxTok=0 MaxNorm=0', runs: THOROUGH ? 40000 : 8000, gen: i => {
        const far = i % 101 < 4 ? 20 : 1; if (i % 4 < 2) { const n = R.int(0, 6 * far); const body = []; for (let k = 0; k < n; k++) { body.push(...cs('\\')); for (let m = R.int(1, 2); m--;) body.push(...W()); } if (R.bool(0.3)) body.push(92); if (R.bool(0.05)) body.push(...cs('a'.repeat(60) + ' ')); const t = [...cs(R.pick(['c:', 'Z:', '.', '..', '\\\\?\\C:', '\\\\?\\', '', '\\\\.\\c:', '1:', 'cc:'])), ...body]; return i % 8 < 4 ? { f: 'win', t, extend: R.bool() } : { f: R.pick(['ext', 'unify']), t }; }
        const t = []; if (R.bool(0.4)) t.push(...cs(R.pick(['~', '~/', '~\\', './~', '~u/']))); for (let k = R.int(0, 9 * far); k--;) t.push(...N());
        if (i % 4 === 2) return { f: 'normal', t, home: cs(R.pick(['/h/u', '/', '/h$&//x/', '/home/漢'])), sys: 'posix' };
        const sep = c => c === 47 || c === 92; if (t.length > 1 && sep(t[0]) && sep(t[1])) t.shift(), t[0] = 97; if (t.length > 1 && sep(t[0]) && sep(t[1])) t[0] = 97;
        return { f: 'normal', t, home: cs('C:\\U\\u'), sys: 'win' };
    } });
}
