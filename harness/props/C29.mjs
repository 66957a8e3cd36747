// C29 inside and outside of quotes and brackets; the quote left open
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const { bindInside, bindOutside } = load('string/inside'), { quotePair, quoteClosed } = load('string/quote');
// (characters beyond ASCII travel as u and their code)
const enc = ch => ch > '\x7f' ? 'u' + ch.charCodeAt(0).toString(16).toUpperCase().padStart(4, '0') : ch, dec = ch => ch.length > 1 ? String.fromCharCode(parseInt(ch.slice(1), 16)) : ch;
const txt = t => t.map(dec).join('');
function parts(c, v, fn, inside) {
    const t = txt(c.t), calls = [];
    const cb = (s, at, whole) => { if (whole !== t) throw new Error('third argument'); calls.push({ s, at }); return v % 3 === 0 ? s : `\u0001${s}\u0002`; };
    const o = { escape: c.esc }; if (c.marks.length) o.marks = Object.fromEntries(c.marks); else if (v % 4 === 1) o.marks = undefined;
    const r = !c.esc && !c.marks.length && v % 2 ? (v % 4 === 1 ? fn(t, cb) : fn(t, undefined, cb)) : fn(t, o, cb);
    const want = v % 3 === 0 ? t : null;
    if (want !== null && r !== want) return { changed: r };
    return { calls, r: v % 3 === 0 ? null : r };
}
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
function one(c, v) {
    const t = txt(c.t);
    if (c.f === 'pair') return quotePair(t);
    if (c.f === 'closed') return quoteClosed(t);
    // the pieces as both functions tell them: the callbacks of one are the texts the other leaves alone
    const i = parts(c, v, bindInside, true), o = parts(c, v, bindOutside, false);
    if (!i.calls || !o.calls) return { i, o };
    const all = [...i.calls.map(x => ({ in: true, ...x })), ...o.calls.map(x => ({ in: false, ...x }))];
    // position of a piece: inside pieces tell their last character, outside pieces the place behind them
    const ps = all.map(x => ({ in: x.in, s: [...x.s].map(enc), at: x.in ? x.at + 1 : x.at })).sort((a, b) => a.at - b.at);
    if (v % 3) {
        const mark = side => ps.map(p => p.in === side ? `\u0001${txt(p.s)}\u0002` : txt(p.s)).join('');
        if (i.r !== mark(true)) return { inside: i.r, pieces: ps }; if (o.r !== mark(false)) return { outside: o.r, pieces: ps };
    }
    return ps;
}
let nth = 0;
export default async function (rep) {
    await cases(rep, 'Quotes', c => one(c, nth++), { spec: 'QSpec', constants: THOROUGH ? 'MaxText=7 MaxQuote=8' : 'MaxText=5 MaxQuote=6', times: 1 });
    const R = rng(SEED * 31 + 29);
    const M = [['(', ')'], ['[', ']'], ['"', '"'], ['`', '`'], ['u300C', 'u300D'], ['<', '>'], ["'", "'"]];
    const flat = n => Array.from({ length: R.int(0, n) }, () => R.pick(['a', 'b', 'z', ' ', '1', '.']));
    const group = d => { const [o, e] = R.pick(M); return [o, ...(d ? Array.from({ length: R.int(0, 2) }, () => R.bool() ? group(d - 1) : flat(3)).flat() : flat(4)), ...(R.bool(0.2) ? ['\\', e] : []), e]; };
    await recorded(rep, 'Quotes', (c, i) => one(c, i), { constants: 'MaxText=0 MaxQuote=1', runs: THOROUGH ? 60000 : 8000,
        gen: i => {
            const far = i % 101 < 8 ? 12 : 1; // now and then far longer than usual
            if (i % 4 === 3) return { f: 'pair', t: Array.from({ length: R.int(4, 30 * far) }, () => R.pick(["'", '"', '`', '\\', '1', ' ', '('])) };
            if (i % 8 === 2) return { f: 'closed', t: Array.from({ length: R.int(4, 30 * far) }, () => R.pick([["'"], ['"'], ['`'], ['\\', "'"], ['\\', '"'], ['1'], ['('], [';'], [' ']])).flat() };
            const t = R.bool(0.7) ? Array.from({ length: R.int(1, 6 * far) }, () => R.bool() ? group(2) : flat(5)).flat() : Array.from({ length: R.int(1, 20 * far) }, () => R.pick(['a', '(', ')', '[', ']', '"', "'", '\\', ' ', 'u300C', 'u300D']));
            return { f: 'parts', t, esc: R.bool(), marks: R.bool(0.2) ? [['$', '$'], ['<', '>'], ['a', 'b']] : [] };
        } });
}
