// C28 trimming, classes of blanks, words, looking around positions, prefixes, filled-in blanks
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const T = load('string/trim'), S = load('string/spaces'), W = load('string/words'), F = load('string/find'), P = load('string/starts');
const str = t => String.fromCodePoint(...t), pts = s => typeof s === 'string' ? Array.from(s, c => c.codePointAt(0)) : s;
const trims = { start: T.trimStart, end: T.trimEnd, both: T.trim, all: T.trimAll };
const opts = (c, v) => {
    if (c.sp && c.zw && c.ls && c.ct && v % 2) return v % 3 ? undefined : {};
    const o = {}; for (const [k, n] of [['sp', 'space'], ['zw', 'zeroWidth'], ['ls', 'likeSpace'], ['ct', 'control']]) if (!c[k] || v % 3) o[n] = c[k];
    return o;
};
const extra = (c, v) => { const ex = c.ex.map(p => String.fromCodePoint(p)); return !ex.length ? [undefined, '', []][v % 3] : v % 2 ? ex.join('') : v % 3 ? ex : [ex[0], ex.slice(1).join('')]; };
const pos = (c, v) => { const o = {}; if (c.k > 0 || c.k === 0 && v % 2) o.position = c.k; if (!c.cs || v % 3) o.caseSensitivity = c.cs; return Object.keys(o).length || v % 2 ? o : undefined; };
function one(c, v) {
    const t = c.t && str(c.t);
    switch (c.f) {
        case 'trim': return pts(trims[c.w](t, opts(c, v), extra(c, v)));
        case 'blank': return S.isSpaceString(t, opts(c, v), extra(c, v));
        case 'rm': { const n = c.zw ? 'rmZeroWidth' : c.ls ? 'rmLikeSpace' : 'rmControl'; return pts(S[n + { start: 'Start', end: 'End', all: '' }[c.w]](t)); }
        case 'class': {
            const ch = String.fromCharCode(c.p), none = { space: false, zeroWidth: false, likeSpace: false, control: false }, all = [];
            ['space', 'zeroWidth', 'likeSpace', 'control'].forEach((k, i) => {
                const a = [S.isSpaceString(ch, { ...none, [k]: true }), T.trim(ch + 'x' + ch, { ...none, [k]: true }) === 'x', T.trimAll('x' + ch + 'x', { ...none, [k]: true }) === 'xx'];
                if (i) { const n = ['', 'rmZeroWidth', 'rmLikeSpace', 'rmControl'][i]; a.push(S[n](ch + 'x' + ch) === 'x', S[n + 'Start'](ch + 'x') === 'x', S[n + 'End']('x' + ch) === 'x'); }
                all.push(a.every(x => x) ? true : a.some(x => x) ? 'functions disagree ' + a : false);
            });
            return all;
        }
        case 'lead': return [S.startSpacesLength(t), S.startTabsLength(t)];
        case 'word': {
            const k = c.k === 0 && v % 2 ? [] : [c.k];
            const a = W.wordStart(t, ...k) ?? -1, b = W.wordEnd(t, ...k) ?? -1, w = W.word(t, ...k);
            if ((w === null) !== (a === -1 || b === -1) || w && (w.left !== a || w.right !== b)) return ['word disagrees', a, b, w];
            return [a, b];
        }
        case 'behind': return F.behindOf(t, c.n.map(str), pos(c, v));
        case 'front': return F.frontOf(t, c.n.map(str), c.k === -1 && c.cs && v % 2 ? undefined : c.k === 0 ? { position: 0, caseSensitivity: c.cs } : pos(c, v));
        case 'notStarts': return P.notStarts(t, c.n.map(str), pos(c, v));
        case 'slice': return pts(P.startsSlice(t, str(c.n[0]), { ...pos(c, v), ...(c.keep || v % 2 ? { preserve: c.keep } : {}) }));
        case 'fill': {
            const g = c.all ? 'g' : ''; const re = [new RegExp('\\d+', g), new RegExp('(\\d)(\\d*)', g), new RegExp('(?<n>\\d+)', g), new RegExp('(?<n>\\d)(?<m>x)?\\d*', g)][v % 4];
            if (v % 3) return pts(S.subSpaces(t, re));
            let n = 0; const r = S.subSpaces(t, re, (s, m) => { if (!/^\d+$/.test(s) || m[0] !== s) throw new Error('match'); n++; return `<${s}>`; });
            if ((r.match(/<\d+>/g) ?? []).length !== n || n !== (t.match(/\d+/g) ?? []).slice(0, c.all ? 1e9 : 1).length) return ['not what the handler made of the matches', r];
            return pts(r.replace(/[<>]/g, ''));
        }
    }
}
let nth = 0;
export default async function (rep) {
    await cases(rep, 'Blanks', c => one(c, nth++), { spec: 'BSpec', constants: THOROUGH ? 'MaxTrim=4 MaxFind=5 MaxPoint=13000' : 'MaxTrim=3 MaxFind=4 MaxPoint=300', times: 1 });
    const R = rng(SEED * 31 + 28);
    const CH = [44, 32, 32, 8203, 0xfeff, 0x3000, 0xa0, 0x2028, 9, 10, 0x85, 97, 65, 98, 48, 57, 93, 94, 45, 92, 46, 42, 0x4e2d, 0x1f600];
    const BMP = CH.slice(0, -1), ABC = [97, 65, 98, 66, 46, 42, 92, 32, 36, 94, 40];
    const text = (S, n) => Array.from({ length: R.int(0, n) }, () => R.pick(S));
    await recorded(rep, 'Blanks', (c, i) => one(c, i), { constants: 'MaxTrim=0 MaxFind=0 MaxPoint=0', runs: THOROUGH ? 80000 : 12000,
        gen: i => {
            const far = i % 101 < 4 ? 25 : 1; // now and then far longer than usual
            const sel = { sp: R.bool(0.7), zw: R.bool(), ls: R.bool(), ct: R.bool(), ex: text([93, 94, 45, 92, 97, 122, 46, 36, 0x1f600, 100, 115, 44], R.int(0, 3)) };
            if (i % 4 === 0) return { f: 'trim', t: text(CH, 12 * far), w: R.pick(['start', 'end', 'both', 'all']), ...sel };
            if (i % 4 === 1) { const k = R.int(0, 2); return { f: 'rm', t: text(CH, 10 * far), w: R.pick(['start', 'end', 'all']), sp: false, zw: k === 0, ls: k === 1, ct: k === 2, ex: [] }; }
            if (i % 4 === 2) return R.bool() ? { f: 'word', t: text(BMP, 10 * far), k: R.int(0, 10 * far + 1) } : { f: 'fill', t: text([48, 57, 0x4e2d, 97, 44, 32, 46, 0xff0c, 95, 41, 0x1f600], 14 * far), all: R.bool() };
            const f = R.pick(['behind', 'front', 'notStarts', 'slice']), t = text(ABC, 12 * far), n = Array.from({ length: R.int(1, 3) }, () => { const a = R.int(0, t.length), s = t.slice(a, a + R.int(1, 4)); return s.length && R.bool(0.7) ? s.map(p => R.bool(0.3) && p > 64 && p < 99 ? p ^ (p > 64 && p !== 92 && p !== 94 ? 32 : 0) : p) : text(ABC, 3); });
            return { f, t, n, k: f === 'front' && R.bool(0.2) ? -1 : R.int(0, t.length), cs: R.bool(), keep: f === 'slice' && R.bool() };
        } });
}
