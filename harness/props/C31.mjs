// C31 enumerating the matches of a pattern, asking several patterns
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const X = load('regexp'), M = load('string/match');
const str = t => String.fromCharCode(...t), units = s => Array.from({ length: s.length }, (_, i) => s.charCodeAt(i)), ch = n => String.fromCharCode(n);
const source = p => p.k === 'lit' ? str(p.w) || '(?:)' : p.k === 'run' ? `${ch(p.c)}{${p.n},}` : p.k === 'end' ? '$' : '(a)(?<n>b)?';
const regs = new Map();
// patterns are kept and used again, as a program with patterns in constants would
let turn = 0;
const make = (p, fresh) => { const s = source(p), f = (p.g ? 'g' : '') + (p.y ? 'y' : '') + (p.u ? turn++ % 2 ? 'u' : 'v' : '') + (turn % 3 ? '' : 'd'), k = s + '/' + f; if (fresh) return new RegExp(s, f); if (!regs.has(k)) regs.set(k, new RegExp(s, f)); return regs.get(k); };
const m = (p, r) => ({ at: r.index, len: r[0].length, groups: r.length > 1 ? [r[1].length, r[2]?.length ?? 0] : [] });
function all(c, v) {
    const t = str(c.t), r = make(c.p, v % 3 === 0); r.lastIndex = c.from;
    const got = X.execAll(r, t);
    if (!got.every(x => x.input === t && X.matchNextIndex(x) === x.index + x[0].length && t.startsWith(x[0], x.index))) return 'broken match';
    if (r.lastIndex !== c.from) return 'position disturbed: ' + r.lastIndex;
    const want = got.map(x => m(c.p, x));
    const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);
    // the other ways to ask for the same matches
    switch (v % 7) {
        case 0: if (!eq(X.execAll(r, t, 0), got.map(x => x[0]))) return 'by 0'; break;
        case 1: if (!eq(X.execAll(r, t, 'index'), got.map(x => x.index))) return 'by index'; break;
        case 2: { const seen = []; const back = X.execAll(r, t, x => { seen.push(m(c.p, x)); return v; }); if (!eq(seen, want) || back.length !== want.length || back.some(x => x !== v)) return 'by callback'; break; }
        case 3: if (c.p.k === 'pair' && (!eq(X.execAll(r, t, 2), got.map(x => x[2])) || !eq(X.execAll(r, t, 'groups').map(x => x.n), got.map(x => x[2])))) return 'by group'; break;
        case 4: { // a callback that gives up: what it left behind must not matter
            let n = 0; try { X.execAll(r, t, x => { if (++n === 2) throw new Error('enough'); return x; }); } catch (e) { if (e.message !== 'enough') throw e; }
            if (r.lastIndex !== c.from || !eq(X.execAll(r, t).map(x => m(c.p, x)), want)) return 'after a throw'; break; }
        case 5: { // a callback that uses the pattern itself
            const seen = []; let n = 0; X.execAll(r, t, x => { if (++n > 50) throw new Error('does not end'); seen.push(m(c.p, x)); r.test(t); if (n % 2) r.lastIndex = 0; }); r.lastIndex = c.from;
            if (!eq(seen, want)) return { 'used in its callback': seen }; break; }
        case 6: if (!eq(X.execAll(r, t, 'length'), got.map(x => x.length)) || !eq(X.execAll(r, t, 'input'), got.map(() => t))) return 'by length'; break;
    }
    return want;
}
function one(c, v) {
    if (c.f === 'all') return all(c, v);
    const t = str(c.t);
    if (c.f === 'split') { const r = make(c.p, v % 2); if (c.p.g) r.lastIndex = v % 4; const s = M.matchSplit(t, r); return s.map(units); }
    // the patterns were used before, on this and on another text
    const ps = c.ps.map((p, i) => { const r = make(p, (v + i) % 3 === 0); if (c.f !== 'order' && v % 2) r.lastIndex = (v + i) % 4; else if (c.f === 'order') r.lastIndex = 0; return r; });
    if (c.f === 'order') {
        const r = M.matchOrder(t, ps); if (!r) return [];
        const k = c.ps.findIndex((p, i) => ps[i].global ? !('index' in r) && t.match(make(p, true))?.join() === r.join() : r.index !== undefined && make(p, true).exec(t)?.[0] === r[0] && make(p, true).exec(t).index === r.index) + 1;
        return (r.index === undefined ? [...r] : [r[0]]).map(x => ({ from: k, len: x.length, at: r.index ?? -1 }));
    }
    const f = c.f === 'every' ? X.testEvery : X.testSome;
    let a, b; try { a = f(ps, t); b = f(ps, t); } catch (e) { if (!c.ps.length && !t && e instanceof TypeError) return 'refused'; throw e; }
    return a === b ? a : 'changes its mind';
}
let nth = 0;
export default async function (rep) {
    await cases(rep, 'Patterns', c => one(c, nth++), { spec: 'PSpec', constants: THOROUGH ? 'MaxText=6 MaxList=2' : 'MaxText=4 MaxList=2', times: THOROUGH ? 7 : 5 });
    const R = rng(SEED * 31 + 31);
    const word = n => Array.from({ length: R.int(0, n) }, () => R.pick([97, 98]));
    const pat = fl => ({ k: R.pick(['lit', 'lit', 'run', 'run', 'end', 'pair']), w: word(3), c: R.pick([97, 98]), n: R.int(0, 2), g: fl && R.bool(0.7), y: fl && R.bool(0.2), u: fl && R.bool(0.3) });
    await recorded(rep, 'Patterns', (c, i) => one(c, i), { constants: 'MaxText=0 MaxList=0', runs: THOROUGH ? 60000 : 6000,
        gen: i => {
            const far = i % 101 < 3 ? 20 : 1; // now and then far longer than usual
            const t = Array.from({ length: R.int(0, 14 * far) }, () => R.pick([[97], [97], [98], [99], [55357, 56832]])).flat();
            if (i % 3 === 0) { const ps = Array.from({ length: R.int(0, 4 * far) }, () => pat(true)); return { f: R.pick(['every', 'some']), t: [99, ...t], ps }; }
            if (i % 3 === 1 && R.bool(0.3)) return { f: 'split', t, p: { ...pat(false), g: R.bool() } };
            let p = pat(true), from = R.bool() ? 0 : R.int(0, t.length + 1); if (p.u && from > 0 && t[from - 1] === 55357) from = 0;
            return { f: 'all', t, p, from };
        } });
}
