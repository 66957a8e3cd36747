// C03 async memoization
import { load, virtualTime, drain } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { recordTraces } from '../lib/record.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
export const UNTIMED = [undefined, 1.5, '5', null, NaN, Infinity];
export const KEYSETS = [n => 'k' + n, n => n, (o => n => o[n] ??= { k: 1 })({}), n => [NaN, undefined, null, 0, '', false][n - 1] ?? 'x' + n, n => n % 2 ? String(n) : n, n => Symbol.for('k' + n)];

function system(variant) {
    const vt = virtualTime();
    const { memoizeWithAsync } = load('function/cache', vt.globals);
    const keyOf = KEYSETS[variant % KEYSETS.length], falsy = variant % 4 === 3;
    let started = [], done = [], flights = {}, comps = 0, calls = 0, mode = 'later', bad = [], vals = new Map(), errs = new Map();
    let memo;
    const value = id => falsy ? [undefined, 0, '', null, false][id % 5] : { id };
    const show = (v, id) => { for (const [k, x] of vals) if (!falsy && x === v) return 'v' + k; return falsy ? 'v' : 'unknown ' + String(v); };
    const view = async () => { await drain(); const r = { started, done: done.slice().sort((a, b) => a[0] - b[0]) }; if (bad.length) r.bad = bad; started = []; done = []; return r; };
    const call = (k) => {
        const c = ++calls;
        let p;
        try { p = memo(k, 'arg', c); } catch (e) { done.push([c, 'sync throw']); return; }
        if (typeof p?.then !== 'function') { bad.push('not a promise'); return; }
        p.then(v => done.push([c, show(v)]), e => { const id = [...errs].find(([, x]) => x === e)?.[0]; done.push([c, 'e' + id]); });
    };
    return { falsy,
        start(cfg) {
            memo = memoizeWithAsync((k, tag, c) => {
                const id = ++comps; started.push([id, k]); if (tag !== 'arg') bad.push('args');
                if (flights[k]) bad.push('two computations of key ' + k);
                const v = value(id), e = id % 3 ? new Error('e' + id) : { e: id }; vals.set(id, v); errs.set(id, e);
                if (mode === 'value') return id % 2 ? v : Promise.resolve(v);
                if (mode === 'throw') { if (id % 2) throw e; return Promise.reject(e); }
                return new Promise((res, rej) => { flights[k] = { ok: () => res(v), err: () => rej(e) }; });
            }, k => keyOf(k), cfg.timed ? cfg.ms * 10 : UNTIMED[variant % UNTIMED.length]);
            return view();
        },
        step(a) {
            const f = flights[a.k];
            switch (a.a) {
                case 'call': mode = a.m; call(a.k); mode = 'later'; break;
                case 'settle': if (!f) return { bad: 'no computation' }; delete flights[a.k]; f[a.m](); break;
                case 'race': if (!f) return { bad: 'no computation' }; f[a.m](); call(a.k); delete flights[a.k]; break;
                case 'tick': vt.jump(a.d ? a.d * 10 : 10); break;
                case 'delete': memo.delete(a.k); break;
                case 'clear': memo.clear(); break;
            }
            return view();
        },
        flights: () => Object.keys(flights).map(Number),
    };
}
let nth = 0;
const adapter = () => {
    const y = system(nth++);
    const blur = o => y.falsy ? { ...o, done: o.done?.map(([c, r]) => [c, String(r)[0]]) } : o;
    return { init: async s => blur(await y.start(s.cfg)), step: async a => blur(await y.step(a)), expect: o => blur({ started: o.started, done: o.done.slice().sort((a, b) => a[0] - b[0]) }) };
};
export default async function (rep) {
    const consts = THOROUGH ? 'Keys={1,2} MaxCalls=5 MaxComps=4 MaxT=3' : 'Keys={1,2} MaxCalls=4 MaxComps=3 MaxT=3';
    const m = await mustTlc('MemoAsync', { cfg: `CONSTANTS ${consts}\nSPECIFICATION Spec\nVIEW View\nINVARIANTS SingleFlight WaitersHaveFlight EmitInit\nPROPERTIES Answered NoRecomputeWhileLive FailureNotCached\nACTION_CONSTRAINT Emit\n`, mem: '8g' });
    rep.model(m, 'MemoAsync ' + consts);
    await replayGraph(rep, m.edges, adapter, { name: 'memo-async', limit: THOROUGH ? 60000 : 8000, walks: 500, maxLen: 40 });
    const live = await mustTlc('MemoAsync', { cfg: 'CONSTANTS Keys={1} MaxCalls=3 MaxComps=2 MaxT=2\nSPECIFICATION FairSpec\nPROPERTIES EveryCallEnds\n' });
    rep.model(live, 'MemoAsync liveness');
    const R = rng(SEED * 101 + 3), ALL = 40;
    await recordTraces(rep, { name: 'memo-async', module: 'MemoAsyncTrace', constants: `Keys={${Array.from({ length: ALL }, (_, i) => i + 1)}} MaxCalls=1 MaxComps=1 MaxT=1`, invariants: 'TInv', runs: THOROUGH ? 1500 : 250, view: (e, sc) => JSON.stringify(sc.map(x => [x.a, x.k, x.m])),
        one: async (t, push, at) => {
            let v = R.int(0, 100); if (v % 4 === 3) v++;
            const y = system(v), cfg = R.bool(0.3) ? { timed: false, ms: 0 } : { timed: true, ms: R.int(-1, 6) }, sc = [cfg];
            const fix = o => ({ started: o.started ?? [[0, 0]], done: o.done ?? [[0, String(o.bad)]] });
            push({ a: 'init', cfg, ...fix(await y.start(cfg)) });
            const NK = t % 25 === 3 ? ALL : 4, far = NK > 4;
            for (let i = 0, n = far ? 300 : R.int(10, 50); i < n; i++) {
                const fl = y.flights(); const r = R.next();
                const a = r < 0.4 ? { a: 'call', k: R.int(1, NK), m: R.pick(['later', 'later', 'later', 'value', 'throw']) } : r < 0.6 && fl.length ? { a: R.bool(0.75) || cfg.timed || true ? 'settle' : 'race', k: R.pick(fl), m: R.pick(['ok', 'ok', 'err']) }
                    : r < (far ? 0.62 : 0.8) ? { a: 'tick', k: 0, m: '', d: R.int(1, 5) } : r < (far ? 0.7 : 0.93) ? { a: 'delete', k: R.int(1, NK), m: '' } : far && r < 0.995 ? { a: 'call', k: R.int(1, NK), m: 'value' } : { a: 'clear', k: 0, m: '' };
                sc.push(a); at(sc);
                const ob = await y.step(a); if (ob.bad) rep.violation('memo-async:' + JSON.stringify(sc), ob);
                push({ ...a, ...fix(ob) });
            }
        } });
}
