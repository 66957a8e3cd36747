// C02 retry
import { load, virtualTime, drain } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { recordTraces } from '../lib/record.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';

let made = 0;
function system(R) {
    const vt = virtualTime();
    let draw = 0;
    const M = Object.create(Math, { random: { value: () => draw } });
    const { retry } = load('function', { ...vt.globals, Math: M });
    let cfg, obs = [], errs = [], cur = null, tries = 0, out = 'pending', val, stopNext = false, waits = [], seen = new Set(), lo, hi, bad = [];
    const view = async () => {
        await drain();
        for (const h of vt.pending()) if (!seen.has(h.id)) { seen.add(h.id); waits.push([draw, h.ms]); if (h.ms < lo || h.ms > hi) bad.push('wait ' + h.ms); if (cfg.wait === 'range') { const o = waits.find(w => Math.abs(w[0] - draw) > 0.4 && w[1] === h.ms); if (o) bad.push('range value not drawn afresh'); } }
        const pend = vt.pending();
        if (pend.length > 1) bad.push('several timers');
        if (out !== 'pending' && pend.length) bad.push('timer left armed');
        const ph = out !== 'pending' ? 'done' : pend.length ? 'wait' : 'run';
        if (ph === 'run' && cfg.k === 'fn' && !cur) bad.push('nothing running and not settled');
        const r = { obs, ph, tries, out, errs: out === 'rejected' ? val : 0 };
        if (bad.length) r.bad = bad;
        obs = [];
        return r;
    };
    return {
        start(c) {
            cfg = c; lo = hi = [50, 1, 1000, 2][made++ % 4];
            const opt = {};
            if (c.wait === 'fixed') opt.retryWait = lo;
            if (c.wait === 'range') { opt.retryWait = { start: 20, end: 60 }; lo = 20; hi = 60; }
            const last = e => { if (e !== errs.at(-1)) bad.push('wrong error'); };
            if (c.oe !== 'none') opt.onError = (e, ...x) => { last(e); obs.push('error ' + errs.length); return c.oe === 'val' ? 'd' : undefined; };
            if (c.rt) opt.onRetry = (e, a) => { last(e); obs.push('retry ' + a); return stopNext ? true : R ? R.pick([undefined, false, 1, 'yes']) : undefined; };
            let task;
            if (c.k === 'fn') task = () => { tries++; if (cur) bad.push('overlap'); return new Promise((res, rej) => { cur = { res, rej }; }); };
            else { task = new Promise((res, rej) => { cur = { res, rej }; }); task.catch(() => {}); tries = 1; }
            const p = Object.keys(opt).length || !R || R.bool() ? retry(c.r, task, opt) : retry(c.r, task);
            p.then(v => { out = v === 'v' ? 'ok' : v === 'd' ? 'dflt' : v === undefined ? 'undef' : 'bad value'; },
                e => { out = 'rejected'; const want = c.k === 'fn' ? errs : Array(c.r + 1).fill(errs[0]); val = e instanceof AggregateError && e.errors.length === want.length && e.errors.every((x, i) => x === want[i]) && (!('error' in Object(e.cause)) || e.cause.error === want.at(-1)) ? want.length : -1; });
            return view();
        },
        step(a, d) {
            draw = d ?? [0, 0.9999, 0.5][(waits.length) % 3];
            if (a.a === 'timer') { const h = vt.pending()[0]; if (!h) return { bad: 'no timer' }; vt.fire(h); return view(); }
            if (!cur) return { bad: 'nothing running' };
            const c = cur; if (cfg.k === 'fn') cur = null;
            if (a.a === 'ok') c.res('v');
            else { const e = R && R.bool(0.3) ? { n: errs.length } : new Error('e' + errs.length); stopNext = !!a.stop; errs.push(e); if (cfg.k === 'prom') { const push = errs.push; } c.rej(e); }
            return view();
        },
        state: () => ({ out, waiting: vt.pending().length > 0 }),
    };
}
const expectOf = (obs, s) => ({ obs: s.cfg.k === 'prom' ? obs.map(fixProm) : obs, ph: s.ph, tries: s.cfg.k === 'fn' ? s.tries : 1, out: s.out, errs: s.errs });
// with one promise as the task every attempt fails with the same error object, so the handler sees error number 1
const fixProm = o => o.startsWith('error') ? 'error 1' : o;
const adapter = () => { const y = system(); return { init: s => y.start(s.cfg), step: a => y.step(a), expect: expectOf, done: s => s.ph === 'done' }; };

export default async function (rep) {
    const r = THOROUGH ? 6 : 4;
    const m = await mustTlc('Retry', { cfg: `CONSTANTS MaxR=${r}\nSPECIFICATION Spec\nINVARIANTS AttemptBound FailBound Aggregates NoWaitAfterLast PacedOnly Undefined EmitInit\nPROPERTIES DoneFinal Settles\nACTION_CONSTRAINT Emit\n` });
    rep.model(m, `Retry r<=${r}`);
    await replayGraph(rep, m.edges, adapter, { name: 'retry', walks: THOROUGH ? 3000 : 600 });
    const R = rng(SEED * 31 + 5);
    await recordTraces(rep, { name: 'retry', module: 'RetryTrace', constants: 'MaxR=1', invariants: 'TInv', runs: THOROUGH ? 4000 : 600, view: e => JSON.stringify(e.cfg ?? e.a),
        one: async (t, push, at) => {
            const far = t % 40 === 21, cfg = { r: far ? R.int(20, 60) : R.int(0, 9), wait: R.pick(['none', 'fixed', 'range']), oe: R.pick(['none', 'undef', 'val']), rt: R.bool(), k: 'fn' };
            const y = system(R); const script = [cfg];
            at(script);
            const fix = ob => { if (ob.bad) rep.violation('retry:' + JSON.stringify(cfg), { script, bad: ob.bad }); return { obs: ob.obs ?? [], ph: ob.ph ?? 'bad', out: ob.out ?? 'bad', tries: ob.tries ?? 0, errs: ob.errs ?? 0 }; };
            push({ a: 'init', cfg, ...fix(await y.start(cfg)) });
            let fails = 0; const pOk = far ? 0.01 : R.pick([0.1, 0.3]);
            for (let k = 0; k < 200 && y.state().out === 'pending'; k++) {
                const a = y.state().waiting ? { a: 'timer' } : R.bool(pOk) ? { a: 'ok' } : { a: 'err', stop: cfg.rt && fails > 0 && R.bool(far ? 0.01 : 0.15) };
                if (a.a === 'err') fails++;
                script.push(a); at(script);
                push({ ...a, ...fix(await y.step(a, R.next())) });
            }
        } });
}
