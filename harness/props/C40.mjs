// C40 Chinese text made neat
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const { corrector } = load('string');
const Z = ['中', '我们', '今天天气', 'ぜ', 'ボタン', 'ㄓ', '㈝', '⻁', '⼝', '㗩', '念', '语言', '一'], W = ['x', 'Web', '0', '2.5', 'li_Ming', '100', 'v1.0', 'a-b', 'C3', '1,000', 'M', 'x+y', '©', 'Σ', 'ⅷ', '✓', 'é'],
    P = ['，', '。', '、', '！', '？', '：', '；', '《', '》', '「', '」', '【', '】', '（', '）'], D = ['·', '•', '‧'], OPEN = ['(', '[', '{'], CLOSE = [')', ']', '}'];
const BACK = { '，': 'c,', '。': 'c.', '！': 'c!', '？': 'c?', '：': 'c:', '；': 'c;', '～': 'c~', ' ': 'B', '[': '(', '{': '(', ']': ')', '}': ')' };
const FORMS = { Z, W, P, D };
/** the symbols of an answer, whose words are looked for in the order they were given in */
function read(r, words) {
    const got = []; let at = 0, k = 0;
    while (at < r.length) {
        const w = words[k];
        if (w && r.startsWith(w[1], at)) { got.push(w[0]); at += w[1].length; k++; continue; }
        got.push(BACK[r[at]] ?? r[at]); at++;
    }
    return got;
}
const pick = (x, v, i) => { const L = FORMS[x]; return L[(v * 7 + i * 5 + (v >> 2) * i) % L.length]; };
function words(t, v) {
    return t.map((x, i) => {
        if (x === '(' || x === ')') return (x === '(' ? OPEN : CLOSE)[(v >> 1) % 3];
        if (!FORMS[x]) return x === 'B' ? ' ' : x;
        let s = pick(x, v, i);
        if (x === 'P' && BACK[s]) { let j = i - 1; while (t[j] === 'B') j--; if (MARKS.includes(t[j])) s = '、'; }
        // (symbols that are no letters or digits are separated from Chinese only, and have no place next to operators or marks)
        if (x === 'W' && /[©Σⅷ✓é]/.test(s)) { const near = j => { while (t[j] === 'B') j += j < i ? -1 : 1; return t[j]; }; if (!['Z', undefined].includes(near(i - 1)) || !['Z', undefined].includes(near(i + 1))) s = 'x'; }
        return s;
    });
}
function texts(c, v, basic) {
    const s = words(c.t, v), q = s.join(''), half = v % 5 !== 4;
    const o = basic ? (half ? { enhanceRule: false } : { enhanceRule: false, toHalfWith: false }) : half ? [undefined, {}, { toHalfWith: true }, { enhanceRule: true }][v % 4] : { toHalfWith: false };
    const r = o ? corrector(q, o) : corrector(q);
    // (a full-width tilde is made half-width again)
    if (!r.includes('～') && corrector(r, o) !== r) return { text: q, once: r, twice: corrector(r, o) };
    return read(r, c.t.map((x, i) => x === 'D' ? [x, '・'] : [x, s[i]]).filter(x => FORMS[x[0]]));
}
const flat = s => [...s].map(x => x.codePointAt(0));
function half(c, v) {
    const t = String.fromCodePoint(...c.s), r = corrector(t, { enhanceRule: false, ...(c.on ? v % 2 ? { toHalfWith: true } : {} : { toHalfWith: false }) });
    return flat(r).filter(x => x !== 32);
}
function kept(c, v) {
    const Y = ['中', '我', 'ボ'][v % 3], t = c.t.map(x => ({ Z: Y, P: '、', B: ' ', W: 'x', N: '\n\t'[(v >> 1) % 2] })[x] ?? x).join('');
    return [...corrector(t)].map(x => ({ [Y]: 'Z', '、': 'P', '。': '.', '，': ',', '！': '!', '？': '?', '：': ':', '；': ';', '～': '~', 'x': 'W', ' ': 'B', '\n': 'N', '\t': 'N' })[x] ?? x).filter(x => x !== 'B' && x !== ',');
}
const side = (c, v) => flat(corrector(String.fromCodePoint(c.a, c.b), c.on ? v % 2 ? { enhanceRule: true } : undefined : { enhanceRule: false }));
let nth = 0;
const one = (c, v) => c.f === 'side' ? side(c, v) : c.f === 'neat' ? texts(c, v) : c.f === 'simple' ? texts(c, v, true) : c.f === 'half' ? half(c, v) : kept(c, v);
const MARKS = [',', '.', '!', '?', ':', ';', '~'], OPS = ['+', '-', '=', '^', '&', '|'];
/** a text of the modelled kind */
function neat(R) {
    const t = []; let last = '-', gap = 0, open = false; const n = R.bool(0.02) ? R.int(60, 150) : R.int(3, 30);
    const blank = (lo, hi) => { gap = R.int(lo, hi); for (let i = 0; i < gap; i++) t.push('B'); };
    for (let i = 0; i < n; i++) {
        const mark = MARKS.includes(last), op = OPS.includes(last);
        const set = op ? ['Z', 'W'] : mark ? ['Z', 'W', 'P'] : last === '-' ? ['Z', 'W', 'P'] : last === 'Z' ? ['Z', 'Z', 'W', 'W', 'P', 'D', 'm', 'm', 'o'] : last === 'W' ? ['Z', 'Z', 'W', 'P', 'D', 'm', 'o'] : last === 'D' || last === '(' ? ['Z', 'W', 'P'] : ['Z', 'W', 'P', 'D'];
        if (open && !op && !mark && last !== '(') set.push(')', ')'); else if (!open && !op && !mark && i < n - 2 && last !== 'D') set.push('(');
        let x = R.pick(set); if ((x === 'o' || x === 'D') && i === n - 1) x = 'Z';
        const prev2 = t.filter(y => y !== 'B').slice(-2)[0];
        if (last !== '-') blank(x === 'W' && (last === 'W' || (mark && prev2 === 'W')) ? 1 : 0, x === 'm' && last === 'W' ? 0 : x === 'o' || op ? 1 : R.int(0, 3) ? 1 : 3);
        x = x === 'm' ? R.pick(MARKS) : x === 'o' ? R.pick(OPS) : x; t.push(x); last = x; if (x === '(') open = true; if (x === ')') open = false;
    }
    if (open) { if (MARKS.includes(last) || OPS.includes(last) || last === '(') t.push('Z'); t.push(')'); }
    return t;
}
export default async function (rep) {
    await cases(rep, 'Corrector', c => one(c, nth++), { spec: 'SSpec', constants: THOROUGH ? 'MaxText=4 MaxFew=7 MaxPlain=9' : 'MaxText=4 MaxFew=6 MaxPlain=7', times: 2 });
    const R = rng(SEED * 43 + 40);
    const plain = () => { const t = []; for (let i = R.bool(0.02) ? R.int(100, 250) : R.int(2, 25); i--;) { const x = R.pick(['Z', 'W', 'P', 'B']), l = t.findLast(y => y !== 'B'), b = t.at(-1) === 'B'; if (x === 'Z' && l === 'Z' && b || x === 'W' && l === 'W' && !b) continue; t.push(x); } return t; };
    const B = [[11904, 12255], [12352, 12447], [12448, 12538], [12540, 12591], [12800, 13055], [13312, 19903], [19968, 40959], [63744, 64255]], O = [[48, 57], [65, 90], [97, 122], [161, 182], [184, 255], [880, 1023], [8528, 8591], [9984, 10175]];
    const around = () => { const p = [R.int(...R.pick(B)), R.int(...R.pick(R.bool() ? B : O))], on = R.bool() || p[1] > 122 && p[1] < 11000; if (R.bool()) p.reverse(); return { f: 'side', a: p[0], b: p[1], on }; };
    await recorded(rep, 'Corrector', (c, i) => one(c, i), { constants: 'MaxText=0 MaxFew=0 MaxPlain=0', runs: THOROUGH ? 40000 : 6000,
        gen: i => i % 16 === 5 ? around() : i % 4 < 2 ? { f: 'neat', t: neat(R) } : i % 4 === 2 ? { f: 'simple', t: plain() } : i % 8 === 3 ? { f: 'half', s: [97, ...Array.from({ length: R.bool(0.02) ? R.int(100, 250) : R.int(1, 12) }, () => R.pick([R.int(65281, 65374), R.int(32, 126), 12288, R.int(65375, 65519), 20013])), 98], on: R.bool() } : { f: 'kept', t: Array.from({ length: R.bool(0.02) ? R.int(100, 250) : R.int(1, 25) }, () => R.pick(['Z', 'Z', 'W', 'B', 'B', 'P', ',', '.', '+', "'", '(', ')', '*', '/', '#', '"', '[', ']', '_', '!', '%', '@', 'N'])) } });
}
