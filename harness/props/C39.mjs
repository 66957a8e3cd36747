// C39 texts cut into sentences
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const { toSentences } = load('string');
// several texts for every kind of sentence
const TEXT = { test: ['this is a test', 'We walked home', 'a b d', 'Of 3 items'], good: ['very good', 'Come on'], so: ['is it so', 'Did he win'], first: ['do this first', 'x is y'], ticked: ['he said `a. b` now', 'run `x! y?` twice', 'use `a. b`'], bracketed: ['(x. y) ends here', '[One! two] of them', 'it (so. they) say'],
    quoted: ['they call it "no. yes." today', 'a “b. c” d', 'say "go! now"'], example: ['see e.g. this one', 'it is i.e. that one', 'a vs. b or so', 'about 5 p.m. on Friday'], etc: ['pens and paper etc', 'with page 3 ff', 'See also cf', 'around 6 p.m'], dots: ['wait for it..', 'and so on...'], number: ['read 1.5 and a.b today', 'it costs 3.50 now'], its: ["it's the dog's bone", "they're here"],
    hello: ['你好', '天气很好', '一二三'], go: ['去吧', '好'], really: ['是吗', '真的么'], right: ['对', '是的'], 'he said': ['他说「好。是。」了', '叫『甲！乙？』的'], look: ['看（甲。乙）吧', '见【一。二】'], wait: ['等一下。。', '然后。'], node: ['我用 node 写的', '共 3 个'], mixed: ['这是中', '第 2 章好'], yes: ['Yes', 'Fine', 'OK'], stop: ['Stop', 'Go'], what: ['What', 'Really'] };
const MARK = { good: '!', so: '?', stop: '!', what: '?', first: ';', hello: '。', go: '！', really: '？', right: '；', 'he said': '。', look: '！', wait: '。', node: '。' };
const ZH = new Set(['hello', 'go', 'really', 'right', 'he said', 'look', 'wait', 'node']);
function cut(c, v) {
    const said = c.s.map((s, i) => { const q = TEXT[s]; return q[(v + i) % q.length] + (i < c.s.length - 1 || c.end ? MARK[s] ?? '.' : ''); });
    const sep = i => ' '.repeat(ZH.has(c.s[i]) ? [0, 1, 2][(c.sep + 2 - (c.sep === 1 && v % 4 === 1 ? 1 : 0)) % 3] : c.sep);
    let t = said[0]; const gaps = []; for (let i = 1; i < said.length; i++) t += (gaps[i] = sep(i - 1)) + said[i];
    const o = c.ell ? [undefined, {}, { ellipsis: true }, { escape: v % 2 === 0 }][v % 4] : { ellipsis: false, ...(v % 3 ? {} : { escape: true }) };
    const r = o === undefined ? toSentences(t) : toSentences(t, o);
    const got = []; let k = 0;
    for (const x of r) { const g = []; let acc = ''; while (k < said.length && acc.length < x.length) { acc += (g.length ? gaps[k] : '') + said[k]; g.push(c.s[k]); k++; } if (acc !== x) return { text: t, sentences: r }; got.push(g); }
    return k === said.length ? got : { text: t, sentences: r };
}
const CH = { Z: '中', S: '。' }, BACK = { '中': 'Z', '。': 'S' };
function any(c, v) {
    const t = c.t.map(x => CH[x] ?? x).join(''), r = toSentences(t, { ellipsis: c.ell, escape: v % 3 === 0 });
    let at = 0;
    for (const [i, p] of r.entries()) { if (i) while (t[at] === ' ') at++; if (!t.startsWith(p, at)) return { text: t, altered: r }; at += p.length; }
    if (at !== t.length && t.slice(at).trim()) return { text: t, lost: r };
    return [...r.join('')].filter(x => x !== ' ').map(x => BACK[x] ?? x);
}
let nth = 0;
const one = (c, v) => c.f === 'cut' ? cut(c, v) : any(c, v);
export default async function (rep) {
    await cases(rep, 'Sentences', c => one(c, nth++), { spec: 'SSpec', constants: THOROUGH ? 'MaxSentences=4 MaxText=6' : 'MaxSentences=3 MaxText=5', times: 2 });
    const R = rng(SEED * 41 + 39), K = Object.keys(TEXT);
    await recorded(rep, 'Sentences', (c, i) => one(c, i), { constants: 'MaxSentences=0 MaxText=0', runs: THOROUGH ? 40000 : 5000,
        gen: i => i % 2 ? { f: 'cut', s: Array.from({ length: i % 101 === 1 ? R.int(20, 70) : R.int(3, 9) }, () => R.pick(K)), sep: R.int(1, 3), ell: R.bool(), end: R.bool() } : { f: 'any', t: Array.from({ length: i % 101 === 2 ? R.int(100, 300) : R.int(4, 40) }, () => R.pick(['a', 'b', '.', ' ', ' ', 'Z', 'S', '!', '(', ')', '"', ';', '?', ','])), ell: R.bool() } });
}
