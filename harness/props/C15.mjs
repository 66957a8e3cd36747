// C15 cookies
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const logs = []; const C = load('cookie', { console: { ...console, error: (...a) => logs.push(a) } });
const CH = { q: '"', n: '\n' }, str = q => q.map(x => CH[x] ?? x).join(''), syms = s => [...s].map(x => x === '"' ? 'q' : x === '\n' ? 'n' : x);
const DATE = 'Tue, 07-Jun-22 11:49:38 GMT';
function one(c, v) {
    switch (c.f) {
        case 'parse': {
            const odd = v % 6 > 3, text = odd ? str(c.t).replaceAll('a', '__proto__') : str(c.t), back = x => odd ? x.replaceAll('__proto__', 'a') : x;
            let r; try { r = v % 2 ? C.parseCookie(text, x => '<' + x + '>') : C.parseCookie(text); } catch (e) { return e instanceof TypeError ? 'TypeError' : String(e); }
            return Object.keys(r).map(k => { let x = r[k]; if (v % 2) { if (!/^<.*>$/s.test(x)) return 'not decoded'; x = x.slice(1, -1); } return [syms(back(k)), syms(back(x))]; });
        }
        case 'split': return C.splitSetCookie(str(c.t)).map(p => syms(p.trim()));
        case 'create': {
            const o = {}, P = (k, m) => { if (k in m) return m[k]; };
            if (c.maxAge !== 'no') o.maxAge = Number(c.maxAge); if (c.domain !== 'no') o.domain = { 'x.org': 'x.org', bad: 'a\nb' }[c.domain]; if (c.path !== 'no') o.path = '/a';
            if (c.expires !== 'no') o.expires = { date: new Date('2020-01-01'), text: '2020-01-01' }[c.expires];
            if (c.httpOnly !== 'no') o.httpOnly = P(c.httpOnly, { true: true, 1: 1 }); if (c.secure !== 'no') o.secure = P(c.secure, { true: true, false: false });
            if (c.sameSite !== 'no') o.sameSite = { true: true, false: false, bad: 'sometimes' }[c.sameSite] ?? c.sameSite;
            if (c.nv === 'own') o.encode = x => '<' + x + '>'; if (c.nv === 'bad value') o.encode = x => 'a\nb';
            const name = c.nv === 'bad name' ? 'a\u0000' : 'n', value = c.nv === 'encoded' ? '=; ,你' : 'v', keep = JSON.stringify(o);
            let r; try { r = !Object.keys(o).length && v % 2 ? C.createCookie(name, value) : C.createCookie(name, value, o); } catch (e) { return e instanceof TypeError ? ['TypeError'] : [String(e)]; }
            if (JSON.stringify(o) !== keep) return ['options changed'];
            return r.split('; ');
        }
        case 'parseSet': {
            const cs = s => [s, s.toLowerCase(), s.toUpperCase()][v % 3], eq = ['=', ' = ', '= '][v % 2], sep = ['; ', ';', ' ;  '][v % 4 % 3];
            const a = { flagS: cs('Secure'), flagH: cs('HttpOnly'), flagP: cs('Partitioned'), age: cs('Max-Age') + eq + '3600', exp: cs('Expires') + eq + DATE, same: cs('SameSite') + eq + 'Lax', dom: cs('Domain') + eq + '.x.org', path: cs('Path') + eq + '/p%20q', nm: cs('Name') + eq + 'z', vl: cs('Value') + eq + '5', eq: 'x=a=b=c%3D' };
            const val = { plain: 'v', eq: 'a=b==', enc: '%3D%3B', bad: '%E0%A4%A', empty: '' }[c.val];
            const N = v % 4 === 1 ? '__proto__' : 'n', t = [N + '=' + val, ...c.attrs.map(k => a[k])].join(sep) + (v % 5 === 4 ? ';' : '');
            const opt = c.decode && v % 2 ? undefined : { decode: c.decode }; let r;
            if (v % 3 === 1) { const m = C.parseSetCookie(['o=1', t, 'z=2; Path=/'], { ...opt, map: true }); if (Object.keys(m).join() !== `o,${N},z`) return 'names ' + Object.keys(m); r = m[N]; } else { const q = C.parseSetCookie([t, 'z=9'], opt); if (q.length !== 2 || q[1].name !== 'z' || q[1].value !== '9') return 'second cookie lost'; r = q[0]; }
            const { name, value, ...rest } = r;
            return { name: name === N ? 'n' : 'other', value, attrs: Object.entries(rest).map(([k, x]) => [k, x instanceof Date ? x.toISOString() : typeof x === (k === 'maxAge' ? 'number' : k === 'secure' || k === 'httpOnly' ? 'boolean' : 'string') ? String(x) : 'wrong type']).sort((p, q) => (p[0] < q[0] ? -1 : 1)) };
        }
        case 'setval': {
            const t = String.fromCharCode(...c.q), pad = ['', ' '][v % 2], text = c.at === 'value' ? `n=${t}${pad}; Path=/` : `n=v; ${{ path: 'Path', domain: 'Domain', sameSite: 'SameSite', own: 'Own' }[c.at]}=${t}${pad}; Secure`;
            const r = C.parseSetCookie([text], { decode: c.decode })[0], x = r[c.at];
            if (c.at === 'value' ? r.path !== '/' : r.secure !== true || r.value !== 'v') return 'the rest is lost';
            return typeof x === 'string' ? [...x].map(y => y.charCodeAt(0)) : 'no text';
        }
        case 'age': return C.parseSetCookie([`n=v; Max-Age=${c.n}; Secure`])[0].maxAge;
        case 'join': {
            const list = c.vals.map((value, i) => ({ name: ['n', 'k_1', 'x'][i], value, path: '/p', secure: true })), arg = v % 2 ? list : Object.fromEntries(list.map(x => [x.name, x]));
            return C.joinSetCookie(arg).split('; ').map(s => { const i = s.indexOf('='); return [s.slice(0, i), s.slice(i + 1)]; });
        }
        case 'chars': {
            const t = String.fromCharCode(...c.q); let r;
            try { r = c.at === 'name' ? C.createCookie(t, 'v') : c.at === 'value' ? C.createCookie('n', 'v', { encode: x => t }) : C.createCookie('n', 'v', { [c.at]: t, secure: true }); } catch (e) { return e instanceof TypeError ? 'TypeError' : String(e); }
            const kept = { name: t + '=v', value: 'n=' + t, domain: 'n=v; Domain=' + t + '; Secure', path: 'n=v; Path=' + t + '; Secure' }[c.at];
            return r === kept ? 'kept' : r === 'n=v; Secure' ? 'left out' : r;
        }
        case 'refuse': {
            const Q = { join: [() => C.joinSetCookie([]), () => C.joinSetCookie({}), () => C.joinSetCookie(null), () => C.joinSetCookie('a=b'), () => C.joinSetCookie(undefined), () => C.joinSetCookie(1)],
                firstPart: [() => C.parseSetCookie(['a']), () => C.parseSetCookie(['']), () => C.parseSetCookie([';']), () => C.parseSetCookie(['Secure; a=b']), () => C.parseSetCookie(['n=v', 'b; path=/'], { map: true }), () => C.parseSetCookie([' ; ;'], { decode: false })],
                notText: [() => C.parseCookie(''), () => C.parseCookie(null), () => C.parseCookie(['a=b']), () => C.parseCookie(1), () => C.parseCookie('   '), () => C.createCookie(['n'], 'v')],
                decoder: [() => C.parseCookie('a=b', x => 1), () => C.parseCookie('a=b; c=d', x => null), () => C.parseCookie('a="b"', x => undefined), () => C.parseCookie('a=', x => [x]), () => C.parseCookie('a=b', x => ({})), () => C.parseCookie('a=b;', x => true)],
                encoder: [() => C.createCookie('n', 'v', { encode: () => 'w' }), () => C.createCookie('n', 'v', { encode: 'w' }), () => C.createCookie('n', 'v', { encode: null }), () => C.createCookie('n', 'v', { encode: x => 1 }), () => C.createCookie('n', 'v', { encode: x => ['a'] }), () => C.createCookie('n', 'v', { encode: x => null })],
                null: [() => C.createCookie('n', 'v', null) === 'n=v', () => C.parseSetCookie(['n=%3D'], null)[0].value === '=', () => C.parseCookie('n=v', null).n === 'v', () => C.parseSetCookie([]).length === 0, () => C.splitSetCookie(null).length === 0, () => C.splitSetCookie('').length === 0] };
            try { const r = Q[c.kind][c.nr - 1](); return c.kind === 'null' && r !== true ? 'otherwise' : 'fine'; } catch (e) { return e.name; }
        }
        case 'roundtrip': {
            const list = c.names.map(([n, i]) => C.createCookie(n, c.vals[i - 1], { path: '/', expires: new Date(1e12 + i * 1e9), ...(i % 2 ? { httpOnly: true } : { maxAge: i, sameSite: 'lax' }) }));
            const parts = C.splitSetCookie(list.join([',', ', ', ' , '][v % 3])).map(s => s.trim());
            if (JSON.stringify(parts) !== JSON.stringify(list)) return 'parts differ: ' + JSON.stringify(parts);
            const parsed = C.parseSetCookie(parts); if (parsed.some((p, i) => p.value !== c.vals[i] || +p.expires !== 1e12 + (i + 1) * 1e9 || p.path !== '/')) return 'values differ';
            const back = C.parseCookie(C.joinSetCookie(v % 2 ? C.parseSetCookie(parts, { map: true, decode: false }) : C.parseSetCookie(parts, { decode: false })), decodeURIComponent1);
            return Object.entries(back).map(([n, x]) => [n, c.vals.indexOf(x) + 1]);
        }
    }
}
const decodeURIComponent1 = x => decodeURIComponent(x);
let nth = 0;
export default async function (rep) {
    await cases(rep, 'Cookies', c => one(c, nth++), { constants: (THOROUGH ? 'Len1=8 Len2=7' : 'Len1=6 Len2=6') + ' Alpha1={"a","=",";"," ","q"} Alpha2={"a","=",";","," ," "}' });
    const R = rng(SEED * 37 + 15);
    await recorded(rep, 'Cookies', (c, i) => one(c, i), { constants: 'Len1=0 Len2=0 Alpha1={} Alpha2={}', runs: THOROUGH ? 40000 : 5000,
        gen: i => {
            const far = i % 61 === 30 ? 8 : 1; // now and then far longer than usual
            const al = R.pick([['a', 'b', '=', ';', ' ', 'n', 'q', 'c'], ['a', 'b', '=', ';', ',', ' ']]);
            if (i % 3 === 0) return { f: 'parse', t: R.list(0, 40 * far, () => R.pick(al)) };
            if (i % 3 === 1) return { f: 'split', t: R.list(0, 40 * far, () => R.pick(['a', 'b', '=', ';', ',', ' '])) };
            const n = R.int(1, 5), names = R.shuffle(['a', '__proto__', 'b2', 'sid', 'X-Y', 'k_1', '_ga', 'path2']).slice(0, n);
            return { f: 'roundtrip', names: names.map((x, k) => [x, k + 1]), vals: names.map((_, k) => R.list(0, far > 1 ? 5000 : 8, () => R.pick([...'abc=;,"%+/你 😀'])).join('') + k) };
        } });
}
