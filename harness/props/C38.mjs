// C38 arguments outside a function's stated domain are refused
import path from 'node:path';
import { load } from '../lib/bundle.mjs';
import { cases } from '../lib/funcs.mjs';
import { THOROUGH } from '../lib/report.mjs';
const F = load('function'), A = load('array'), NU = load('number'), S = load('string'), CK = load('cookie'), O = load('object'), RE = load('regexp'), TE = load('term'), FS = load('fs');
class Instance { a = 1; }
function value(d, ran) {
    switch (d.k) {
        case 'int': return d.n; case 'half': return d.n + 0.5; case 'nan': return NaN; case 'inf': return Infinity; case '-inf': return -Infinity; case '-0': return -0;
        case 'big': return 2 ** 53; case '-big': return -(2 ** 53); case 'safe': return Number.MAX_SAFE_INTEGER; case '-safe': return Number.MIN_SAFE_INTEGER; case 'ms': return 2147483647; case 'over': return 2147483648;
        case 'text': return d.t === 'a|line' ? 'a\nb' : d.t === 'wide' ? '中文' : d.t;
        case 'undefined': return undefined; case 'null': return null; case 'true': return true; case 'false': return false; case 'bigint': return 3n; case 'symbol': return Symbol('s');
        case 'object': return {}; case 'bare': return Object.create(null); case 'empty array': return []; case 'array of 1': return [1]; case 'date': return new Date(5); case 'map': return new Map(); case 'instance': return new Instance(); case 'regexp': return /x/;
        case 'fn/0': return function () { ran.n++; return 'v'; }; case 'fn/1': return function (x) { ran.n++; return 'v'; }; case 'async/0': return async function () { ran.n++; }; case 'async/1': return async function (x) { ran.n++; }; case 'async arrow': return async x => { ran.n++; };
        case 'class': return class { constructor() { ran.n++; } }; case 'generator': return function* () { ran.n++; }; case 'async generator': return async function* () { ran.n++; }; case 'bound': return function (a, b) { ran.n++; }.bind(null, 1);
    }
    throw new Error('unknown value ' + JSON.stringify(d));
}
let vary = 0;
async function one(c) {
    const ran = { n: 0 }, a = c.a.map(d => value(d, ran)), v = vary++; let list = null, said = 0;
    const arr = n => list = Array.from({ length: n }, (_, i) => ({ i }));
    const timed = p => Promise.race([p.then(() => 'accepted', e => { throw e; }), new Promise(r => setTimeout(r, 12, 'accepted'))]);
    const call = () => {
        switch (c.f) {
            case 'toInt': return NU.toInt(a[0]); case 'inRange': return NU.inRange(a[0], a[1], ...(a[2] === undefined && v % 2 ? [] : [a[2]])); case 'range': return NU.range(a[0], a[1]); case 'rangeSafe': return NU.rangeSafe(a[0], a[1]);
            case 'withDelimiter value': return NU.withDelimiter(a[0]); case 'withDelimiter capacity': return NU.withDelimiter([1234567, 0, '5'][v % 3], { capacity: a[0] });
            case 'splitByStep': return A.splitByStep(arr(v % 6), a[0]); case 'splitChunk': return A.splitChunk(arr(v % 6), a[0], [undefined, 'start', 'end'][v % 3]);
            case 'splitChunk pad': return A.splitChunk(arr([5, 4, 7, 1, 0][v % 5]), 2, a[0]);
            case 'array range': return A.range(a[0], a[1], a[2]);
            case 'isMultiDimensional': return A.isMultiDimensional([[[1]], [1], [], 'x', [[]]][v % 5], a[0], v % 2 === 1);
            case 'toRegExp': return S.toRegExp('a.b', a[0]);
            case 'notStarts': return S.notStarts('abcd', ['x', 'a'], { position: a[0], caseSensitivity: v % 2 === 0 }); case 'startsSlice': return S.startsSlice('abcd', 'a', { position: a[0], caseSensitivity: v % 2 === 0 });
            case 'word': return S.word(['ab cd', '', '  '][v % 3], a[0]); case 'wordStart': return S.wordStart(['ab cd', '', '  '][v % 3], a[0]); case 'wordEnd': return S.wordEnd(['ab cd', '', '  '][v % 3], a[0]);
            case 'runOnlyNTimes': return F.runOnlyNTimes(a[0], a[1], ...(v % 2 ? [1] : [])); case 'runAfterTimes': return F.runAfterTimes(a[0], a[1], ...(v % 2 ? [1] : []));
            case 'timeoutLog': { const log = console.log; console.log = () => said++; try { return F.timeoutLog(a[0]); } finally { console.log = log; } }
            case 'delay': return timed(Promise.resolve(F.delay(a[0]))); case 'delayRun': return timed(Promise.resolve(F.delayRun(a[0], () => { ran.n++; })));
            case 'timeoutOr': return timed(Promise.resolve(F.timeoutOr(a[0], new Promise(() => { }), () => 1)));
            case 'setTimeout': { const t = F.setTimeout(() => { }, a[0]); clearTimeout(t?.id ?? t); return 0; }
            case 'createCookie name': return CK.createCookie(a[0], 'v', v % 2 ? { path: '/' } : undefined); case 'createCookie value': return CK.createCookie('n', a[0], { encode: x => x });
            case 'createCookie encode': return CK.createCookie('n', 'v', { encode: a[0] });
            case 'parseCookie': return CK.parseCookie(a[0]); case 'parseSetCookie': return CK.parseSetCookie(v % 2 ? ['k=v', a[0]] : [a[0]], { map: v % 3 === 0 });
            case 'sortKeys': return O.sortKeys(a[0], v % 2 ? { deep: true } : undefined); case 'keys': return O.keys({ a: 1 }, a[0]); case 'values': return O.values({ a: 1 }, a[0]);
            case 'execAll': return RE.execAll(v % 2 ? /b/g : /nothing/, 'abc', a[0]);
            case 'collectItems': return F.collectItems({ total: a[0] }); case 'splitByBytes': return S.splitByBytes('abc', a[0]); case 'colorCode8bit': return TE.colorCode8bit(a[0]);
            case 'readline': return FS.readline(a[0]); case 'readlineFromCode': return FS.readlineFromCode(a[0]);
            case 'readFragment': return FS.readFragment('/nonexistent/x', { start: a[0], end: a[1] }); case 'destPath': return FS.destPath(a[0] && a[1] && typeof a[0] === 'string' && typeof a[1] === 'string' ? a[1] + '/' + a[0] : a[0], a[1], a[2]);
        }
        throw new Error('unknown function ' + c.f);
    };
    let r = 'accepted', err;
    try { await call(); } catch (e) { err = e; r = 'refused'; }
    if (r === 'refused') {
        if (err?.message?.startsWith?.('unknown ')) throw err;
        if (!['toRegExp', 'parseSetCookie', 'readFragment', 'destPath', 'splitByBytes'].includes(c.f) && !(err instanceof TypeError)) return `refused with ${err?.name ?? err}`;
        if (!(err instanceof Error) && !['readFragment', 'destPath', 'splitByBytes'].includes(c.f)) return 'refused with something that is no error';
        if (list && (list.some((x, i) => x.i !== i))) return 'refused after the list was changed';
        if (c.f !== 'execAll' && !c.f.startsWith('createCookie') && ran.n) return 'refused after the callback ran';
        if (said) return 'refused after something was printed';
    }
    return r;
}
export default async function (rep) {
    const warn = console.error; console.error = () => { };
    try { await cases(rep, 'Refusals', one, { times: THOROUGH ? 12 : 4, parallel: 16 }); } finally { console.error = warn; }
}
