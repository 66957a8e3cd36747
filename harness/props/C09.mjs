// C09 error-capturing adapters
import { load, drain } from '../lib/bundle.mjs';
import { cases } from '../lib/funcs.mjs';
import { THOROUGH } from '../lib/report.mjs';
const L = load('function');
const ODD = [null, undefined, null, 0, '', false];
async function one(c) {
    const val = c.v ? ODD[c.v] : { val: 1 }, err = c.v ? ODD[(c.v % 5) + 1] : new Error('src'), fbv = { fb: 1 }, fbe = new Error('fb'), args = c.n ? [{ x: 1 }, undefined] : [];
    const ran = [], later = [];
    const rej = e => { const p = Promise.reject(e); p.catch(() => {}); return p; };
    const wait = (v, bad) => { const p = new Promise((r, j) => later.push(() => bad ? j(v) : r(v))); p.catch(() => {}); return p; };
    const chk = (n, a, lead) => { const w = lead.concat(args); ran.push(a.length === w.length && a.every((x, i) => Object.is(x, w[i])) ? n : n + ' with wrong arguments'); };
    const make = (k, n, v, e, lead = []) => ({
        value: () => v, fn: () => (...a) => (chk(n, a, lead), v), 'fn-throws': () => (...a) => { chk(n, a, lead); throw e; },
        async: () => async (...a) => (chk(n, a, lead), v), 'async-throws': () => async (...a) => { chk(n, a, lead); throw e; },
        'fn-promise': () => (...a) => (chk(n, a, lead), Promise.resolve(v)), 'fn-rejects': () => (...a) => (chk(n, a, lead), rej(e)),
        promise: () => Promise.resolve(v), rejects: () => rej(e), later: () => wait(v), 'later-rejects': () => wait(e, true),
        'fn-later': () => (...a) => (chk(n, a, lead), wait(v)), 'fn-later-rejects': () => (...a) => (chk(n, a, lead), wait(e, true)), thenable: () => thenable(v), 'thenable-rejects': () => thenable(e, true), 'fn-thenable': () => (...a) => (chk(n, a, lead), thenable(v)), 'fn-thenable-rejects': () => (...a) => (chk(n, a, lead), thenable(e, true)),
        missing: () => undefined, '-': () => undefined,
    })[k]();
    const thenable = (v, bad) => ({ then: (r, j) => { bad ? j(v) : r(v); } });
    const dress = f => { if (typeof f === 'function' && c.dress) Object.assign(f, c.dress === 1 ? { then: 'no method', catch: 5 } : { then() { ran.push('then of a callable'); }, catch() { return f; }, finally() {} }); return f; };
    const src = dress(make(c.src, 'src', val, err));
    let p;
    try {
        p = c.f === 'toPromise' || c.f === 'executeToPromise' ? (c.n ? L[c.f](src, args) : L[c.f](src)) : c.f === 'ifThrow' ? L.ifThrow(src, dress(make(c.fb, 'fb', fbv, fbe, [err])), ...args) : L[c.f](src, ...args);
    } catch (e) { return { ran, settled: 'threw synchronously', what: String(e) }; }
    if (!(p instanceof Promise)) return { ran, settled: 'no promise', what: '' };
    let out = null;
    p.then(v => { out = ['ok', v]; }, e => { out = ['err', e]; });
    await drain();
    const waiting = later.length > 0 && out; // must not have settled before the source did
    for (let i = 0; i < 4; i++) { while (later.length) later.shift()(); await drain(); }
    if (!out) return { ran, settled: 'never', what: '' };
    if (waiting) return { ran, settled: 'before its source', what: '' };
    const [k, v] = out; let what;
    if (c.f === 'padding') what = Array.isArray(v) && v.length === 2 ? (v[1] === null && Object.is(v[0], val) && !BAD.has(c.src) ? '[val,null]' : v[0] === null && Object.is(v[1], err) ? '[null,err]' : 'other pair') : 'no pair';
    else if (k === 'ok' && BAD.has(c.src) && c.f !== 'ifThrow') what = v === undefined ? 'undefined' : 'other';
    else if (k === 'ok' && BAD.has(c.src)) what = v === fbv ? 'fbval' : v === undefined ? 'undefined' : 'other';
    else if (k === 'ok') what = Object.is(v, val) ? 'val' : 'other';
    else what = v === fbe ? 'fberr' : Object.is(v, err) ? 'err' : 'other';
    return { ran, settled: k, what };
}
const BAD = new Set(['fn-throws', 'async-throws', 'fn-rejects', 'rejects', 'later-rejects', 'fn-later-rejects', 'thenable-rejects', 'fn-thenable-rejects']);
export default async function (rep) { await cases(rep, 'Adapters', one, { times: THOROUGH ? 5 : 1 }); }
