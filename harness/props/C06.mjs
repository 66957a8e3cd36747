// C06 cancellation, timeouts, delays
import { load, virtualTime, drain } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { cases } from '../lib/funcs.mjs';
import { THOROUGH } from '../lib/report.mjs';
const UNIT = 10;
const SPIN = { n: 0 };
const DUR = [d => d, d => String(d), d => () => d, d => [d], d => ({ start: d, end: d }), d => () => ({ start: d, end: d }), d => [{ start: d, end: d }]];
function system(cfg, variant) {
    const vt = virtualTime();
    const L = load('function', vt.globals);
    const args = [{ a: 1 }, 'b', undefined, variant];
    const okv = [{ v: 'ok' }, undefined, 0, null, false][variant % 5], fbv = { v: 'fb' }, err = new Error('src'), fbe = [new Error('fb'), undefined, 0][variant % 3];
    let log = [], src, fb, abort, d, p; const bad = x => log.push(['bad', x]);
    const sameArgs = a => a.length === args.length && a.every((x, i) => Object.is(x, args[i]));
    const asPromise = variant % 3 === 1 && cfg.src === 'later' && ['cancel', 'limit'].includes(cfg.kind);
    const mkDef = () => { const o = {}; o.p = new Promise((r, j) => Object.assign(o, { ok: r, err: j })); o.p.catch(() => {}); return o; };
    const callable = (...a) => { if (!sameArgs(a)) bad('args'); log.push(['ran', 'src']); src = mkDef(); if (cfg.src === 'ok') return variant % 2 ? okv : Promise.resolve(okv); if (cfg.src === 'err') { if (variant % 2) throw err; return Promise.reject(err); } return src.p; };
    const fbFn = (...a) => { if (!sameArgs(a)) bad('fbargs'); log.push(['ran', 'fb']); fb = mkDef(); if (cfg.fb === 'ok') return variant % 2 ? fbv : Promise.resolve(fbv); if (cfg.fb === 'err') { if (variant % 2) throw fbe; return Promise.reject(fbe); } return fb.p; };
    const watch = q => q.then(v => log.push(cfg.kind === 'delay' ? ['ok', v === undefined ? 'delay' : 'value'] : ['ok', v === okv && v !== fbv ? 'src' : v === fbv ? 'fb' : 'other']), e => log.push(['err', e === err ? 'src' : e === fbe ? 'fb' : 'other']));
    const dur = DUR[(variant >> 1) % DUR.length](cfg.dur * UNIT);
    const out = async () => { await drain(); const l = log; log = []; return l; };
    return {
        async start() {
            switch (cfg.kind) {
                case 'cancel': {
                    const source = asPromise ? (src = mkDef()).p : callable; if (asPromise) log.push(['ran', 'src']);
                    [p, abort] = L.cancelExec(source, ...args); watch(p); break;
                }
                case 'limit': {
                    const source = asPromise ? (src = mkDef()).p : callable; if (asPromise) log.push(['ran', 'src']);
                    watch(L.timeoutOr(dur, source, fbFn, ...args)); break;
                }
                case 'delay': watch(L.delay(dur)); break;
                case 'run': watch(L.delayRun(dur, callable, ...args)); break;
                case 'ret': watch(L.delayReturn(dur, callable, ...args)); break;
                case 'timer': L.setTimeout(function (...a) { if (!sameArgs(a)) bad('args'); log.push(['ran', 'cb']); }, dur, ...args); break;
                case 'deferred': d = L.deferred(); watch(d.promise); break;
            }
            const o = await out();
            return o;
        },
        async step(a) {
            switch (a.a) {
                case 'src': if (d) a.m === 'ok' ? d.resolve(okv) : d.reject(err); else a.m === 'ok' ? src.ok(okv) : src.err(err); break;
                case 'fb': a.m === 'ok' ? fb.ok(fbv) : fb.err(fbe); break;
                case 'tick': await vt.advance(UNIT, drain); break;
                case 'abort': {
                    // a payload that is a value or a promise is not "run" but noted the same way
                    if (cfg.fb !== 'later' && variant % 4 === 2 || cfg.fb === 'later' && variant % 4 === 3) {
                        const first = !this.aborted; this.aborted = true; if (first && !this.settled) log.push(['ran', 'fb']);
                        const f = mkDef(); if (!fb) fb = f;
                        abort(cfg.fb === 'ok' ? (variant % 8 === 2 ? fbv : Promise.resolve(fbv)) : cfg.fb === 'err' ? (f.err(fbe), f.p) : f.p);
                    } else { const keep = fb; const before = log.length; abort(fbFn); if (this.aborted || this.settled) { log.splice(before); fb = keep; } this.aborted = true; }
                    break;
                }
            }
            const o = await out();
            return o;
        },
        timers: () => vt.pending().length,
    };
}
let nth = 0;
const adapter = () => {
    let y, v = nth++;
    const wrap = async (f, to) => { const o = await f; if (o.some(e => e[0] === 'ok' || e[0] === 'err')) y.settled = true; return { o, timers: to.s.cfg.kind === 'limit' ? y.timers() : 0 }; };
    return { init: () => ({ o: [], timers: 0 }),
        step: (a, to) => { if (a.a === 'start') { y = system(to.cfg, v); return wrap(y.start(), to); } return wrap(y.step(a), to); },
        expect: (o, to) => ({ o, timers: to.s.cfg.kind === 'limit' && to.s.due ? 1 : 0 }) };
};
const num = w => Number(w);
async function clearAll(c) {
    const vt = virtualTime(), F = load('function', vt.globals), ran = [], later = [], ids = [];
    for (let i = 0; i < c.n; i++) ids.push(vt.globals.setTimeout(() => ran.push(i), 10 * (i + 1)));
    if (c.ran) await vt.advance(10 * c.ran, drain);
    const id = F.clearTimeoutAll(), left = vt.pending().length;
    for (let i = 0; i < c.later; i++) vt.globals.setTimeout(() => later.push(i), 5);
    await vt.advance(1000, drain);
    return { ran: ran.length, left, later: later.length, number: ids.every(x => Number(x) < Number(id)) };
}
function log(c, v) {
    const said = [], F = load('function', { console: { ...console, log: (...a) => said.push(a) } }), ms = (((c.d * 24 + c.h) * 60 + c.m) * 60 + c.s) * 1000 + c.ms;
    try { if (c.many === 1 && v % 2) F.timeoutLog(ms); else F.timeoutLog(ms, Array.from({ length: c.many }, () => '{}').join('|')); } catch (e) { return e instanceof TypeError && !said.length ? 'refused' : String(e); }
    if (said.length !== 1 || said[0].length !== 1) return { said };
    let t = said[0][0]; if (c.many === 1 && v % 2) { if (!t.startsWith('等待 ')) return { said }; t = t.slice(3); }
    return c.many ? t.split('|').map(x => x.replace('天', 'd')) : t === '' ? [] : { said };
}
/** in hosts with fewer and fewer ways of running something next */
const HOSTS = [{}, { process: undefined }, { process: { nextTick: 1 } }, { process: undefined, queueMicrotask: undefined, MutationObserver: undefined, WebKitMutationObserver: undefined }];
async function tick(c) {
    const ran = [], { nextTick } = load('function', HOSTS[c.host]); let at = true, early = false;
    const ask = i => nextTick(() => { if (at) early = true; ran.push(i); for (let j = 1; j <= (c.more[i - 1] ?? 0) && i < 5; j++) ask(i * 10 + j); if (!at) Promise.resolve(); });
    for (let i = 1; i <= c.n; i++) ask(i);
    at = false; for (let k = 0; k < 6; k++) await new Promise(r => setImmediate(r));
    return early ? 'before the code at hand' : ran;
}
let each = 0;
async function duration(c) {
    if (c.f === 'log') return log(c, each++);
    if (c.f === 'tick') return tick(c);
    if (c.f === 'clearAll') return clearAll(c);
    const vt = virtualTime(); const L = load('function/timeout', vt.globals), F = load('function', vt.globals);
    const x = c.kind === 'int' ? c.n : num(c.w);
    const v = { number: x, string: String(x), function: () => x, array: [x], point: { start: x, end: x } }[c.form];
    if (c.form === 'string') { const z = c.kind === 'int' ? String(c.n) : c.w; return run(z); }
    return run(v);
    async function run(v) {
        try {
            let p;
            switch (c.f) {
                case 'resolve': return String(L.timeoutMsResolve(v));
                case 'setTimeout': F.setTimeout(() => {}, v); break;
                case 'delay': p = F.delay(v); break;
                case 'delayRun': p = F.delayRun(v, () => {}); break;
                case 'timeoutOr': p = F.timeoutOr(v, () => new Promise(() => {}), 1); break;
                case 'delayReturn': p = F.delayReturn(v, () => {}); break;
            }
            let done = false, failed = null;
            p?.then(() => { done = true; }, e => { failed = e; });
            await drain();
            if (failed) throw failed;
            const t = vt.pending();
            if (!t.length) return done ? '0' : 'nothing armed';
            return t.length === 1 ? String(t[0].ms === 1 && (x <= 0) ? 0 : t[0].ms) : 'several timers';
        } catch (e) { return e instanceof TypeError ? 'TypeError' : 'other error'; }
    }
}
export default async function (rep) {
    const consts = THOROUGH ? 'Durs={0,1,2,3} MaxT=6' : 'Durs={0,1,3} MaxT=5';
    const m = await mustTlc('Settle', { cfg: `CONSTANTS ${consts}\nSPECIFICATION Spec\nVIEW View\nINVARIANTS LimitHonoured NothingArmed NotEarly EmitInit\nPROPERTIES SettlesOnce\nACTION_CONSTRAINT Emit\n` });
    rep.model(m, 'Settle ' + consts);
    for (let i = 0; i < (THOROUGH ? 40 : 10); i++) await replayGraph(rep, m.edges, adapter, { name: 'settle', walks: THOROUGH ? 1000 : 200, maxLen: 20 });
    await cases(rep, 'Durations', duration);
    // the blocking delay returns, and not before its duration (the clock is stepped by its own polling)
    for (const d of [0, 1, 7, 50]) { const vt = virtualTime(); class D extends Date { static now() { SPIN.n++; vt.jump(1); return vt.now(); } } const t0 = vt.now(); load('function', { ...vt.globals, Date: D }).delaySync(d); if (vt.now() - t0 - 1 < d || vt.now() - t0 > d + 5) rep.violation(`delaySync:${d}`, { waited: vt.now() - t0 }); rep.trace(); }
}
