// C14 amounts in words and digit grouping
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const N = load('number'), { amountInWords } = load('number/amount');
const TOK = { 零: '0', 壹: '1', 贰: '2', 叁: '3', 肆: '4', 伍: '5', 陆: '6', 柒: '7', 捌: '8', 玖: '9', 拾: 'S', 佰: 'B', 仟: 'Q', 万: 'W', 亿: 'Y', 兆: 'Z', 元: '.', 角: 'j', 分: 'f', 厘: 'l', 毫: 'h', 整: '!', 负: '-' };
const text = c => (c.neg ? '-' : '') + c.int.join('') + (c.frac.length ? '.' + c.frac.join('') : '');
function one(c, v) {
    const E = f => { try { return f(); } catch (e) { return e instanceof TypeError ? ['TypeError'] : ['other error ' + e]; } };
    // the same amount as text, as a number where the number prints the same, with surrounding blanks, with options
    const t = c.int ? text(c) : ''; const num = Number(t);
    const forms = { 3: x => x.replace(/^-?/, '$&' + '0'.repeat(1 + v % 4)), 5: x => (c.neg ? x : '+' + x), 6: x => (x.includes('.') ? x.replace(/^(-?)0\./, '$1.') : x + '.') };
    const arg = v % 2 && v % 3 && String(num) === t ? num : c.f === 'words' && forms[v % 7] ? forms[v % 7](t) : v % 5 === 2 ? ` ${t} ` : t;
    switch (c.f) {
        case 'words': return E(() => {
            let w, pre = '';
            if (v % 3 === 1) { pre = ['人民币', '$&', '#'][v % 9 / 3 | 0]; w = amountInWords(arg, { prefix: pre }); }
            else if (v % 3 === 2) { w = amountInWords(arg, { negative: '欠' }).replace('欠', '负'); }
            else w = amountInWords(arg);
            if (!w.startsWith(pre)) return ['prefix missing']; w = w.slice(pre.length);
            return [...w].map(ch => TOK[ch] ?? 'foreign ' + ch);
        });
        case 'refused': return E(() => ['accepted', amountInWords(v % 2 && /^1e/.test(c.t) ? Number(c.t) === 1e15 ? 1e15 : Number(c.t) : c.t)]);
        case 'group': return E(() => {
            const d = ['_', "'", ' ', '$', '$$', '·', '$&'][v % 7];
            const a = typeof arg === 'number' ? arg : t;
            const w = c.k === 3 && v % 4 === 0 ? N.withDelimiter(a) : N.withDelimiter(a, v % 2 && c.k === 3 ? { delimiter: d } : d === "'" ? { delimiter: d, capacity: c.k } : { capacity: c.k, delimiter: d });
            const sep = c.k === 3 && v % 4 === 0 ? ',' : d;
            const parts = []; for (let i = 0; i < w.length;) { if (w.startsWith(sep, i)) { parts.push(','); i += sep.length; } else parts.push(w[i++]); }
            return parts;
        });
        case 'inRange': return c.a === 0 && v % 2 ? N.inRange(c.v, c.b) : N.inRange(c.v, c.a, c.b);
        case 'finite': {
            const [x, n] = FINITE[c.k], d = [0, -7, NaN, 1.5][c.d - 1], r = N.toFiniteNumber(x, d);
            return n !== undefined && Object.is(r, n) ? 'the value' : Object.is(r, d) ? 'the default' : String(r);
        }
        case 'text': return [N.stringify(c.neg ? -c.n : c.n)];
        case 'back': {
            const m = [1, 1.5, 0.1, 1 / 3, Math.PI, 9.999999999999999, 1.7976931348623157, 5e-324][c.i % 8], x = (c.i & 1 ? -1 : 1) * (c.i % 97 === 5 ? 0 : c.i % 97 === 6 ? Infinity : c.i % 97 === 7 ? NaN : m * 10 ** (c.i % 8 > 5 ? 0 : (c.i % 61) * 10 - 310)), w = N.stringify(x);
            return typeof w === 'string' && w === (Object.is(x, -0) ? '-0' : '' + x) && Object.is(Number(w), x) ? 'the same number' : `${w} for ${x}`;
        }
        case 'toInt': { const x = c.n / c.d; return N.toInt(v % 2 ? x : ` ${x} `) + 0; }
    }
}
// (what each stands for, and the number it converts to)
const FINITE = { number: [42, 42], negative: [-0.25, -0.25], half: ['0.5', 0.5], text: ['42', 42], 'text with blanks': [' 3.14 ', 3.14], 'big integer': [12n, 12], date: [new Date(99), 99], 'own number': [{ valueOf: () => 8 }, 8], 'boxed number': [Object(6), 6], 'hex text': ['0x1f', 31], 'exponent text': ['-1e3', -1000],
    undefined: [undefined], 'not a number': [NaN], infinity: [Infinity], 'negative infinity': [-Infinity], word: ['foo'], 'text with a tail': ['12px'], 'infinity text': ['-Infinity'], symbol: [Symbol('1')], 'bare object': [Object.create(null)], 'plain object': [{}], 'throwing object': [{ valueOf() { throw new Error('no'); } }], function: [() => 1], 'two items': [[1, 2]], 'huge text': ['1e999'], 'bad date': [new Date(NaN)] };
let nth = 0;
export default async function (rep) {
    await cases(rep, 'Amount', c => one(c, nth++), { constants: THOROUGH ? 'Ones={0,1} MaxAll=14 MaxFrac=9 MaxG=12' : 'Ones={0,1} MaxAll=12 MaxFrac=5 MaxG=8', times: THOROUGH ? 3 : 2 });
    const R = rng(SEED * 31 + 14);
    const digs = n => Array.from({ length: n }, (_, i) => R.bool(0.45) ? 0 : R.int(1, 9));
    await recorded(rep, 'Amount', (c, i) => one(c, i), { constants: 'Ones={} MaxAll=0 MaxFrac=0 MaxG=0', runs: THOROUGH ? 60000 : 8000,
        gen: i => { let int = digs(R.int(1, 14)); if (int[0] === 0) int = int.length === 1 ? int : [R.int(1, 9), ...int.slice(1)];
            return i % 4 === 3 ? { f: 'group', neg: R.bool(), int: int.concat(digs(R.int(0, 6))), frac: digs(R.int(0, 6)), k: R.int(1, 9) } : { f: 'words', neg: R.bool(0.3), int, frac: digs(R.int(0, 4)) }; } });
}
