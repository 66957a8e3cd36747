// C01 bounded parallel runner
import { load, virtualTime, drain } from '../lib/bundle.mjs';
import { mustTlc, checkTrace } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { rng } from '../lib/rng.mjs';
import { beat } from '../lib/beat.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';

const WAIT = 40;
/** One run of the real `parallel` under full control of settlement and time. */
export function system({ variety = null } = {}) {
    const vt = virtualTime();
    const { parallel } = load('function', vt.globals);
    let o, cfg, okv = [], ctl, per, starts, timers, out, err, result, errs, stopNext, maxBusy, extra;
    const take = async () => {
        await drain();
        const pend = vt.pending();
        for (const h of pend) if (!timers.some(t => t.h === h)) timers.push({ h, i: lastErr });
        timers = timers.filter(t => pend.includes(t.h));
        const ob = { out, starts, per, running: Object.keys(ctl).map(Number).sort((a, b) => a - b) };
        if (out === 'resolved' || out === 'rejected') ob.value = valueView();
        if (timers.some(t => t.h.ms < waitLo() || t.h.ms > waitHi())) ob.badWait = timers.map(t => t.h.ms);
        if (extra.length) ob.extra = extra;
        ob.waiting = timers.map(t => t.i).sort((a, b) => a - b);
        per = Array.from({ length: cfg.n }, () => []); starts = []; const was = out; out = ''; ob.out = was;
        return ob;
    };
    let lastErr = 0;
    const waitLo = () => o.retryWait === undefined ? 0 : typeof o.retryWait === 'object' ? o.retryWait.start : o.retryWait;
    const waitHi = () => o.retryWait === undefined ? 0 : typeof o.retryWait === 'object' ? o.retryWait.end : o.retryWait;
    const valueView = () => {
        if (result !== undefined) return Array.isArray(result) ? Array.from({ length: Math.max(result.length, cfg.n) }, (_, i) => result[i] === undefined ? 'undef' : okv[i] && Object.is(result[i], okv[i].v) ? 'v' + (i + 1) : String(result[i])) : 'not an array';
        const i = err && errs.findIndex(l => l.length && l[l.length - 1] === err.errors?.at(-1));
        return { agg: err instanceof AggregateError, n: err?.errors?.length, all: i >= 0 && err.cause?.index === i && err.errors?.length === errs[i].length && err.errors.every((e, k) => e === errs[i][k]) };
    };
    const sys = {
        start(c, R) {
            cfg = c; ctl = {}; per = Array.from({ length: c.n }, () => []); starts = []; timers = []; out = ''; errs = Array.from({ length: c.n }, () => []); stopNext = false; extra = [];
            const note = (i, s) => per[i] ? per[i].push(s) : extra.push(['index', i, s]);
            let tasks = []; okv = Array.from({ length: c.n }, (_, i) => ({ v: R && R.bool() ? R.pick([[], {}, 0, '', false, null, NaN, [undefined], Symbol('v'), () => 1]) : 'v' + (i + 1) }));
            const mk = i => {
                const kind = c.k[i];
                if (kind === 'val') switch (R ? R.int(typeof okv[i].v === 'function' ? 1 : 0, 4) : 0) { case 0: return okv[i].v; case 1: return () => okv[i].v; case 2: return Promise.resolve(okv[i].v); case 3: return async () => okv[i].v; default: return () => Promise.resolve(okv[i].v); }
                if (kind === 'thr') { const sync = R ? R.bool() : true; return () => { const e = errOf(i); if (sync) throw e; return Promise.reject(e); }; }
                return () => new Promise((res, rej) => {
                    if (ctl[i + 1]) extra.push(['overlap', i]);
                    ctl[i + 1] = { ok: () => { delete ctl[i + 1]; res(okv[i].v); }, err: () => { delete ctl[i + 1]; rej(errOf(i)); } };
                });
            };
            const errOf = i => { const e = R && R.bool(0.3) ? { plain: i, k: errs[i].length } : new Error(`t${i}`); errs[i].push(e); return e; };
            tasks = Array.from({ length: c.n }, (_, i) => mk(i));
            o = { concurrency: c.c, maxRetry: c.r }; sys.quiet = !!R && R.bool(0.35);
            if (c.w) o.retryWait = R && R.bool() ? { start: 20, end: 60 } : WAIT;
            if (c.w && R && R.bool(0.3)) o.retryWait = 1;
            if (!sys.quiet) o.onStart = (i, t) => { starts.push(i + 1); if (!Object.is(t, tasks[i])) extra.push(['task', i]); };
            if (!sys.quiet) o.onData = (i, v) => note(i, 'data ' + (v === undefined ? 'undef' : Object.is(v, okv[i]?.v) ? 'ok' : v === 'd' + (i + 1) ? 'dflt' : 'bad'));
            if (c.oe !== 'none') o.onError = (i, e) => { note(i, 'error'); if (errs[i] && e !== errs[i].at(-1)) extra.push(['wrong error', i]); return c.oe === 'val' ? 'd' + (i + 1) : undefined; };
            if (c.rt) o.onRetry = (i, e, a) => { note(i, 'retry ' + a); if (errs[i] && e !== errs[i].at(-1)) extra.push(['wrong error', i]); return stopNext && i + 1 === lastErr ? true : (R ? R.pick([false, undefined]) : undefined); };
            if (R && c.c === c.n && c.n > 0 && R.bool()) delete o.concurrency;
            if (R && c.r === 0 && R.bool()) delete o.maxRetry;
            const p = Object.keys(o).length || !R ? parallel(tasks, o) : parallel(tasks);
            p.then(v => { if (result === undefined && err === undefined) { result = v; out = 'resolved'; } }, e => { err = e ?? 'undef'; out = 'rejected'; });
            return take();
        },
        step(a) {
            if (a.a === 'timer') { const t = timers.find(t => t.i === a.i); if (!t) return { noTimerFor: a.i }; timers = timers.filter(x => x !== t); vt.fire(t.h); return take(); }
            const t = ctl[a.i]; if (!t) return { notRunning: a.i };
            lastErr = a.i; stopNext = !!a.stop; a.a === 'ok' ? t.ok() : t.err();
            return take();
        },
        running: () => Object.keys(ctl).map(Number), waiting: () => timers.map(t => t.i),
    };
    return sys;
}
const expectOf = (obs, s) => {
    if (s.out === 'rejected') return { rejected: true };
    const w = { out: obs.out, starts: obs.starts, per: obs.per, running: s.st.flatMap((x, i) => x === 'run' && s.cfg.k[i] === 'ctl' ? [i + 1] : []), waiting: s.st.flatMap((x, i) => x === 'wait' ? [i + 1] : []) };
    if (s.out === 'resolved') w.value = s.st.map((x, i) => ({ ok: 'v' + (i + 1), dflt: 'd' + (i + 1), undef: 'undef' })[x]);
    return w;
};
const adapter = () => {
    const sys = system();
    const fix = (ob, s) => s.out === 'rejected' && ob.out === 'rejected' && ob.value?.agg && ob.value.all && ob.value.n === s.cfg.r + 1 ? { rejected: true } : ob;
    return { init: async s => fix(await sys.start(s.cfg), s), step: async (a, s) => fix(await sys.step(a), s), expect: expectOf, done: s => s.out !== 'pending' };
};
const cfgText = (n, c, r, kinds, extra) => `CONSTANTS MaxN=${n} MaxC=${c} MaxR=${r} Kinds={${kinds.map(k => `"${k}"`)}}\nSPECIFICATION Spec\n${extra}`;
const INV = 'VIEW View\nINVARIANTS AtMostC InOrder WorkConserving RetryBound ResolvedOk RejectedOk HandlerMeansNoReject EmitInit\nPROPERTIES StartOnce SlotsFrozen\nACTION_CONSTRAINT Emit\n';

export default async function (rep) {
    const sizes = THOROUGH ? [['ctl', 4, 3, 1, ['ctl']], ['deep', 3, 3, 3, ['ctl']], ['mixed', 3, 3, 2, ['ctl', 'val', 'thr']]] : [['ctl', 3, 3, 2, ['ctl']], ['mixed', 3, 2, 1, ['ctl', 'val', 'thr']]];
    for (const [name, n, c, r, kinds] of sizes) {
        const m = await mustTlc('Parallel', { cfg: cfgText(n, c, r, kinds, INV) });
        rep.model(m, `Parallel ${name} N<=${n} C<=${c} R<=${r}`);
        await replayGraph(rep, m.edges, adapter, { name: 'parallel-' + name, limit: THOROUGH ? 60000 : 6000, walks: 300 });
    }
    const live = await mustTlc('Parallel', { cfg: cfgText(2, 2, 1, ['ctl'], 'PROPERTIES Settles StartOnce\n') });
    rep.model(live, 'Parallel liveness N<=2');
    // recorded random executions, larger than anything enumerated
    const R = rng(SEED * 7919 + 1), ev = [];
    const runs = THOROUGH ? 600 : 120;
    const starts = [];
    for (let t = 0; t < runs; t++) {
        const far = t % 30 === 17, n = far ? R.int(70, 200) : R.int(1, 10), w = R.bool(0.3); // now and then far longer than usual
        const cfg = { n, c: far ? R.int(1, 90) : R.int(1, 6), r: R.int(0, 3), w, oe: R.pick(['none', 'undef', 'val']), rt: R.bool(), k: Array.from({ length: n }, () => R.pick(w ? ['ctl', 'ctl', 'val'] : ['ctl', 'ctl', 'ctl', 'val', 'thr'])) };
        if (cfg.oe === 'none' && R.bool(0.7)) cfg.k = cfg.k.map(k => k === 'thr' ? 'ctl' : k);
        const sys = system(); const script = [];
        const push = (a, ob) => { script.push(a); ev.push({ ...a, cfg: a.a === 'init' ? a.cfg : { n: 0 }, out: ob.out ?? 'error', starts: ob.starts ?? [], per: ob.per ?? [], running: ob.running ?? [], run: t, quiet: sys.quiet, ob }); };
        beat('parallel random ' + JSON.stringify(cfg));
        let ob = await sys.start(cfg, R); push({ a: 'init', cfg }, ob);
        const attempts = {}; const pErr = far ? 0.02 : cfg.oe === 'none' ? 0.06 : 0.4;
        for (let k = 0; k < 2000 && !ob.out; k++) {
            const run = sys.running(), wait = sys.waiting();
            if (!run.length && !wait.length) { rep.violation(`parallel-stuck:${JSON.stringify(cfg)}`, { script, why: 'nothing is running and the result is still pending' }); break; }
            const pickW = wait.length && (!run.length || R.bool(0.4));
            const i = R.pick(pickW ? wait : run);
            const a = pickW ? { a: 'timer', i, stop: false } : R.bool(1 - pErr) ? { a: 'ok', i, stop: false } : { a: 'err', i, stop: cfg.rt && (attempts[i] || 0) >= 1 && R.bool(0.3) };
            if (a.a === 'err') attempts[i] = (attempts[i] || 0) + 1;
            beat('parallel random ' + JSON.stringify({ cfg, script, a }));
            ob = await sys.step(a); push(a, ob);
        }
        if (ob.extra) rep.violation(`parallel-args:${t}`, { cfg, script, extra: ob.extra });
        if (ob.out === 'rejected' && !(ob.value?.agg && ob.value.all && ob.value.n === cfg.r + 1)) rep.violation(`parallel-aggregate:${JSON.stringify(cfg)}`, { cfg, script, value: ob.value });
    }
    beat(null);
    const ob = ev.map(e => e.ob); ev.forEach(e => delete e.ob);
    const tr = await checkTrace('ParallelTrace', ev, { cfg: 'CONSTANTS MaxN=1 MaxC=1 MaxR=1 Kinds={"ctl"}\nSPECIFICATION TSpec\nINVARIANT TInv\nPOSTCONDITION TraceConsumed\n' });
    if (!tr.ok) throw new Error('trace validation did not complete:\n' + tr.text.slice(-2000));
    rep.model(tr, 'ParallelTrace'); rep.trace(runs); rep.count('recorded_events', ev.length);
    for (const b of tr.bad.slice(0, 10)) { const e = ev[b.l - 1]; rep.violation(`parallel-trace:${e.run}:${b.l}`, { script: ev.filter(x => x.run === e.run).slice(0, 60), rejected: e, model: b.model }); }
}
