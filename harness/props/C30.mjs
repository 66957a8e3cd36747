// C30 entities, texts as patterns, replacement rules
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const H = load('string/character'), { toRegExp, toRegExpSource } = load('string/regexp'), { multiReplace } = load('string'), { mapReplace } = load('regexp');
const str = t => String.fromCodePoint(...t), pts = s => typeof s === 'string' ? Array.from(s, c => c.codePointAt(0)) : s;
const ENC = { name: H.encodeEntityToName, point: H.encodeEntityToPoint }, DEC = { name: H.decodeEntityByName, point: H.decodeEntityByPoint, both: H.decodeEntity };
const lit = w => new RegExp(w.map(p => `\\u${p.toString(16).padStart(4, '0')}`).join('') || '(?:)', 'g'), lit1 = w => new RegExp(lit(w).source);
function one(c, v) {
    switch (c.f) {
        case 'encode': { const e = ENC[c.by](str(c.t)); if (DEC[v % 2 ? c.by : 'both'](e) !== str(c.t)) return 'not undone: ' + e; return pts(e); }
        case 'decode': return pts(DEC[c.by](str(c.t)));
        case 'whole': {
            // the pattern as written by the library, alone and inside other patterns, with and without the unicode flag
            const s = toRegExpSource(str(c.w)), f = (c.i ? 'i' : '') + (v % 3 === 1 ? 'u' : '') + (v % 5 === 2 ? 'm' : '');
            if (v % 4 === 3) { const m = toRegExp(str(c.w), f).exec(str(c.t)); return !!m && m[0].length === str(c.t).length; }
            // (without anchors a multi-line ^ could match inside)
            return v % 2 ? new RegExp(`^(?:${s})$`, f.replace('m', '')).test(str(c.t)) : new RegExp(`^(?:${s}|${s}${s})$`, f.replace('m', '')).test(str(c.t)) && str(c.t).length === str(c.w).length;
        }
        case 'class': return pts(str(c.t).replace(new RegExp(`[${toRegExpSource(str(c.w))}]`, v % 2 ? 'g' : 'gu'), ''));
        case 'subst': { const re = c.all && !c.i && v % 2 ? toRegExp(str(c.w)) : toRegExp(str(c.w), (c.all ? 'g' : '') + (c.i ? 'i' : '') + (v % 3 ? '' : 'u')); return pts(str(c.t).replace(re, '#')); }
        case 'rules': {
            const made = c.rs.map((r, k) => {
                const m = r.all ? lit(r.w) : (v + k) % 2 && r.w.length ? str(r.w) : lit1(r.w);
                const txt = x => r.r.map(p => p === -1 ? x : String.fromCodePoint(p)).join('');
                return [m, (v + k) % 3 ? txt('$&') : x => txt(x)];
            });
            if (v % 5 === 4 && made.every(([m]) => m instanceof RegExp) && c.rs.length && c.rs.every(r => JSON.stringify(r.r) === JSON.stringify(c.rs[0].r))) return pts(mapReplace(made.map(m => m[0]), str(c.t), made[0][1]));
            return pts(multiReplace(str(c.t), v % 2 ? made : made.map(([match, replacer]) => ({ match, replacer }))));
        }
    }
}
let nth = 0;
export default async function (rep) {
    await cases(rep, 'Replace', c => one(c, nth++), { spec: 'RSpec', constants: THOROUGH ? 'MaxTok=5 MaxPat=3 MaxRule=6' : 'MaxTok=4 MaxPat=2 MaxRule=4', times: 2 });
    const R = rng(SEED * 31 + 30);
    const cs = s => [...s].map(c => c.codePointAt(0));
    const tok = () => R.pick([cs('&'), cs('&amp;'), cs('&#38;'), cs('&lt;'), cs('lt;'), cs('#60;'), cs(';'), cs('a'), cs('<'), [160], [8195], [8801], [0x1f600], cs('&nbsp;'), cs('&thinsp;'), cs('&#8201;'), cs('&copy'), cs('&#169;'), cs('&Eacute;'), cs('&eacute;'), cs('&#65;'), cs('&LT;')]);
    const spec = () => R.pick([...'[](){}^$.?*+|\\/-abAB \n'].map(c => c.charCodeAt(0)));
    const word = n => Array.from({ length: R.int(1, n) }, spec);
    await recorded(rep, 'Replace', (c, i) => one(c, i), { constants: 'MaxTok=1 MaxPat=1 MaxRule=0', runs: THOROUGH ? 60000 : 8000,
        gen: i => {
            const far = i % 101 < 4 ? 20 : 1; // now and then far longer than usual
            const t = Array.from({ length: R.int(0, 10 * far) }, tok).flat();
            if (i % 4 === 0) return { f: 'decode', t, by: R.pick(['name', 'point', 'both']) };
            if (i % 4 === 1) return { f: 'encode', t, by: R.pick(['name', 'point']) };
            if (i % 4 === 2) { const w = word(6 * far), same = R.bool(); return R.bool() ? { f: 'whole', w, t: same ? w : w.map(p => R.bool(0.2) ? spec() : p), i: R.bool() } : { f: 'subst', w, t: [...word(4 * far), ...w, ...word(3), ...w], all: R.bool(), i: R.bool() }; }
            const ab = () => Array.from({ length: R.int(0, 3) }, () => R.pick([97, 98, 99]));
            const r = ab(); return { f: 'rules', t: Array.from({ length: R.int(0, 10 * far) }, () => R.pick([97, 98, 99])), rs: Array.from({ length: R.int(0, 5) }, () => ({ w: ab().slice(0, 2), r: R.bool(0.3) ? r : R.bool(0.2) ? [-1, 100] : ab(), all: R.bool() })) };
        } });
}
