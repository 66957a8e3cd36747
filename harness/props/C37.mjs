// C37 formats of addresses, mail addresses, links and phone numbers; scripts of texts
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const L = load('regexp'); let R = rng(SEED * 7 + 37);
const H = ['0', 'f', 'AB', '1a2', 'ffff', '0000', 'E0', '12', '9'], V4 = ['1.2.3.4', '255.255.255.255', '0.0.0.0', '192.168.10.249', '99.100.199.200'];
const hex = n => Array.from({ length: n }, () => R.pick([...'0123456789abcdefABCDEF'])).join(''), oct = () => R.pick([0, 1, 5, 9, 10, 19, 20, 99, 100, 109, 199, 200, 209, 240, 249, 250, 255, R.int(0, 255), R.int(0, 255)]), v4 = (n, bad) => { const o = Array.from({ length: n }, oct); if (bad !== undefined) o[R.int(0, n - 1)] = bad; return o.join('.'); };
const ipTok = { ':': () => ':', h: () => R.bool(0.3) ? R.pick(H) : hex(R.int(1, 4)), 4: () => R.bool(0.3) ? R.pick(V4) : v4(4), b: () => R.bool(0.3) ? v4(R.pick([2, 3, 5])) : v4(4, R.pick([256, 259, 260, 266, 299, 300, 333, 999, 1000, 2555, '1a', 'f', '', ' ', '-1'])), g: () => { const t = [...hex(R.int(0, 3))]; t.splice(R.int(0, t.length), 0, R.pick(['g', 'x', 'G', '-', ' ', '\n', '@', '`', '/', '_'])); return t.join(''); }, hh: () => R.pick(['12345', '00000', 'abcdef', hex(5)]), '.': () => '.' };
// (two groups side by side would make another group)
const ipText = t => t.map((x, i) => (i && 'h4hhb'.includes(x) && !':.g'.includes(t[i - 1]) ? 'z' : '') + ipTok[x]()).join('');
const AL = ['a', 'Z', 'q'], NUM = ['9', '0'], mailTok = { a: () => R.pick(AL), 9: () => R.pick(NUM), '.': () => '.', '-': () => '-', '@': () => '@', Q: () => '"', ' ': () => R.pick([' ', ')', 'é', ',']), _: () => '_', '#': () => R.pick(['#', '+', '*', '=', '{', '}', '`', '~', '%', '&', '|', '^', '!', '?', "'", '$']), '/': () => '/', '+': () => '+', I: () => R.pick(['[1.2.3.4]', '[0.0.0.0]', '[255.10.99.1]']) };
const uriTok = { a: () => R.pick(['a', 'Z', '9', '_', '@', '#', '&', '=', '+', '~']), '.': () => R.pick(['.', ',', ';', '!', ':', '-', '(', ')', '*', '$', "'", '?']), '/': () => '/', ' ': () => ' ', q: () => R.pick(['"', '<', '>', '\\', '^', '`', '{', '}', '[', ']']), '%41': () => R.pick(['%41', '%7a', '%5F']), '%20': () => R.pick(['%20', '%22', '%3c']), '%C3%A9': () => '%C3%A9', '%': () => '% ', '%z': () => '%zz', '%C3': () => R.pick(['%C3 ', '%ff', '%E4%B8 ']), nl: () => '\n', c: () => R.pick(['我', 'é', '😀']) };
function one(c) {
    switch (c.f) {
        case 'ip': { const t = ipText(c.t); return L.isIp(c.form === 'plain' ? t : c.form === 'brackets' ? `[${t}]` : c.form === 'port' ? `[${t}]:${c.port}` : c.form === 'half' ? R.pick([`[${t}`, `${t}]`, `[${t}]]`, `[${t}]:`, `[${t}]x`, `x[${t}]`]) : R.pick([`${t}:80808`, `x${t}`, ` ${t}`, `${t} `, `${t}\n`, `${t}/64`, `${t}]:80`])); }
        case 'mail': return L.isEmail(c.t.map(x => mailTok[x]()).join(''));
        case 'mailLong': return L.isEmail((c.quoted ? '"' + 'l@'.repeat(c.local).slice(0, c.local - 2) + '"' : R.bool() || c.local < 3 ? 'l'.repeat(c.local) : 'l.' + 'k'.repeat(c.local - 2)) + '@' + c.labels.map(n => 'd'.repeat(n)).join('.'));
        case 'uri': return L.isURI(`${c.scheme}://` + (c.fill.x[0] === '%41' ? '%41' : c.fill.x[0]).repeat(c.fill.n) + c.t.map(x => uriTok[x]()).join(''));
        case 'phone': { const s = c.pre + c.n + Array.from({ length: c.more }, () => R.int(0, 9)).join(''); if (!c.pre && s[0] !== '0' && L.isChinaPhoneNumber(+s, c.level) !== L.isChinaPhoneNumber(s, c.level)) return 'differs for the number'; if (c.level === 1 && L.isChinaPhoneNumber(s) !== L.isChinaPhoneNumber(s, 1)) return 'another default'; return L.isChinaPhoneNumber(s, c.level); }
        case 'script': { const s = String.fromCodePoint(...c.t); if (L.inChinese(s) !== L.inChinese(s, false)) return 'another default'; return { chinese: L.inChinese(s), only: L.inChinese(s, true), japanese: L.inJapanese(s), punctuation: L.inChkPunctuation(s) }; }
    }
}
export default async function (rep) {
    await cases(rep, 'Formats', one, { spec: 'FSpec', constants: THOROUGH ? 'MaxIp=10 MaxMail=6 MaxUri=5' : 'MaxIp=8 MaxMail=5 MaxUri=4', times: THOROUGH ? 4 : 1 });
    const T = Object.keys(mailTok), mid = () => Array.from({ length: R.int(1, 4) }, () => R.pick(['a', 'a', '9', '-', '#', '_', '/', '+']));
    await recorded(rep, 'Formats', one, { constants: 'MaxIp=0 MaxMail=0 MaxUri=0', runs: THOROUGH ? 90000 : 18000, gen: i => {
        if (i % 6 === 0) {   // an address of one of the valid shapes, at most one part of it spoiled
            const g = n => Array.from({ length: n }, (_, k) => k ? [':', 'h'] : ['h']).flat(), d = R.bool(0.6), q = R.bool(), most = (d ? 7 : 8) - (q ? 2 : 0), a = d ? R.int(0, most) : most, b = d ? R.int(0, most - a) : 0;
            let t = d ? [...g(a), ':', ':', ...g(b)] : g(a); if (q) t = [...t, ...(d && !b ? [] : [':']), '4'];
            if (R.bool(0.6)) { const k = R.pick(t.map((x, j) => x === ':' ? -1 : j).filter(x => x >= 0).concat(-1)); if (k >= 0) t[k] = R.pick(t[k] === '4' ? ['b'] : ['g', 'hh']); }
            return { f: 'ip', t, form: R.pick(['plain', 'plain', 'brackets', 'port']), port: R.int(0, 70000) };
        }
        if (i % 3 === 0) { const a = R.int(0, 8), b = R.int(0, 8 - a) , g = n => Array.from({ length: n }, (_, k) => k ? [':', 'h'] : ['h']).flat(); let t = [...g(a), ...(R.bool(0.8) ? [':', ':'] : []), ...g(b)]; if (R.bool(0.3)) t = [...t, ...(b ? [':'] : []), '4']; if (R.bool(0.2)) t.splice(R.int(0, t.length), R.int(0, 1), R.pick([':', 'h', '4', 'g', '.'])); return { f: 'ip', t, form: R.pick(['plain', 'brackets', 'port']), port: R.int(0, 70000) }; }
        if (i % 3 === 1) { const dots = f => Array.from({ length: R.int(1, 3) }, (_, k) => k ? ['.', ...f()] : f()).flat(); let t = [...(R.bool(0.3) ? ['Q', ...Array.from({ length: R.int(0, 5) }, () => R.pick(T.filter(x => x !== 'I'))), 'Q'] : dots(mid)), '@', ...(R.bool(0.1) ? ['I'] : [...dots(() => Array.from({ length: R.int(1, 4) }, () => R.pick(['a', '9', '-', '_']))), 'a', 'a'])]; if (R.bool(0.3)) t.splice(R.int(0, t.length), R.int(0, 1), R.pick(T.filter(x => x !== 'I'))); return { f: 'mail', t }; }
        return { f: 'uri', scheme: R.pick(['http', 'https', 'ftp', 'file']), t: Array.from({ length: R.int(1, 12) }, () => R.pick(R.bool(0.97) ? ['a', '.', '/', ' ', 'q', '%41', '%20', '%C3%A9'] : Object.keys(uriTok))), fill: { x: ['a'], n: R.bool(0.2) ? R.int(1960, 2000) : 0 } };
    } });
}
