// C10 array traversal
import { load, drain } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { recordTraces } from '../lib/record.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const L = load('array');
const MAPS = new Set(['mapRight', 'mapAsync', 'mapRightAsync', 'mapParallel', 'mapRightParallel']);
const SYNC = new Set(['each', 'eachRight', 'mapRight']);
const TRUTHY = [1, 'true', {}, [true], new Boolean(true)], GO = [undefined, false, null, 0, ''];
function system(cfg, variant) {
    const odd = variant % 2; const els = Array.from({ length: cfg.n }, (_, i) => odd ? [undefined, null, 0, NaN, ''][i % 5] : { e: i });
    const arr = els.slice(); let log = [];
    const defs = [], errs = [], vals = [];
    const isMap = MAPS.has(cfg.kind);
    const answer = (i, m) => vals[i] = m === 'stop' ? true : m === 'truthy' ? TRUTHY[(i + variant) % 5] : isMap ? (variant % 3 ? { r: i } : [undefined, null, 0, '', false][i % 5]) : GO[(i + variant) % 5];
    const cb = function (v, ix, a) {
        const i = ix + 1;
        if (a !== arr || !Object.is(v, els[ix]) || arguments.length !== 3) log.push(['wrong arguments', [i]]);
        log.push(['visit', [i]]);
        const p = cfg.plan[ix];
        errs[i] = { err: i };
        if (p === 'throw') throw errs[i];
        if (p === 'later') { const pr = new Promise((r, j) => { defs[i] = { r, j }; }); return pr; }
        const ans = answer(i, p);
        return variant % 4 === 3 && !SYNC.has(cfg.kind) ? Promise.resolve(ans) : ans;
    };
    const result = v => {
        if (!isMap) return log.push(['resolved', v === undefined ? [] : ['a value']]);
        const order = cfg.kind.includes('Right') ? els.map((_, i) => cfg.n - i) : els.map((_, i) => i + 1);
        log.push(['resolved', Array.isArray(v) && v.length === cfg.n && order.every((i, k) => Object.is(v[k], vals[i])) ? order : ['wrong results']]);
    };
    const failed = e => log.push(['failed', [errs.indexOf(e)]]);
    const out = async () => { await drain(); const l = log; log = []; return l; };
    return {
        async start() {
            if (SYNC.has(cfg.kind)) { try { result(L[cfg.kind](arr, cb)); } catch (e) { failed(e); } }
            else { let p; try { p = L[cfg.kind](arr, cb); } catch (e) { log.push(['threw synchronously', []]); } p?.then?.(result, failed); if (!(p instanceof Promise)) log.push(['no promise', []]); }
            return out();
        },
        async settle(i, m) { if (!defs[i]) return [['not started', [i]]]; if (m === 'err') defs[i].j(errs[i]); else defs[i].r(answer(i, m === 'go' ? 'go' : m)); return out(); },
    };
}
let nth = 0;
const adapter = () => { let y; return { init: () => [], step: (a, to) => { if (a.a === 'start') { y = system(to.s.cfg, nth++); return y.start(); } return y.settle(a.i, a.m); }, expect: o => o }; };
export default async function (rep) {
    const consts = `MaxN=${THOROUGH ? 4 : 3}`;
    const m = await mustTlc('Traverse', { cfg: `CONSTANTS ${consts}\nSPECIFICATION Spec\nVIEW View\nINVARIANTS OneAtATime InOrder AllVisited EmitInit\nPROPERTIES NoneAfter\nACTION_CONSTRAINT Emit\n`, mem: '8g' });
    rep.model(m, 'Traverse ' + consts);
    // the wrapper node hides s in a record: give the replay the configuration it expects
    for (const e of m.edges) for (const x of [e[0], e[2]]) if (x && x.s && !x.cfg) x.cfg = x.s.cfg;
    await replayGraph(rep, m.edges, adapter, { name: 'traverse', walks: 2000, maxLen: 12, limit: THOROUGH ? 200000 : 30000 });
    const R = rng(SEED * 17 + 10);
    const KINDS = ['each', 'eachRight', 'mapRight', 'eachAsync', 'eachRightAsync', 'mapAsync', 'mapRightAsync', 'eachParallel', 'eachRightParallel', 'mapParallel', 'mapRightParallel'];
    await recordTraces(rep, { name: 'traverse', module: 'TraverseTrace', constants: 'MaxN=1', runs: THOROUGH ? 4000 : 660, view: (e, sc) => JSON.stringify(sc.map(x => [x.a, x.i, x.m, x.cfg])),
        one: async (t, push, at) => {
            const kind = KINDS[t % KINDS.length], n = t % 23 === 13 ? R.int(60, 260) : R.int(0, 12);
            const plan = Array.from({ length: n }, () => { const r = n > 12 ? R.next() * R.pick([0.89, 0.905, 0.9005]) : R.next(); return r < 0.6 ? (SYNC.has(kind) ? 'go' : 'later') : r < 0.9 ? R.pick(['go', 'go', 'truthy']) : r < 0.95 ? 'stop' : R.pick(['go', 'throw']); });
            const cfg = { kind, n, plan }, y = system(cfg, R.int(0, 59));
            push({ a: 'init', i: 0, m: '', cfg, obs: [] }); at(cfg);
            let obs = await y.start(); push({ a: 'start', i: 0, m: '', obs });
            const open = new Set(); let done = false;
            const upd = () => { for (const [k, v] of obs) { if (k === 'visit' && plan[v[0] - 1] === 'later') open.add(v[0]); if (k === 'resolved' || k === 'failed') done = true; } };
            upd();
            while (open.size && !done) { const i = R.pick([...open]); open.delete(i); const rare = n > 12 ? 0.05 : 1, m = R.bool(0.06 * rare) ? 'err' : R.bool(0.08 * rare) ? 'stop' : 'go'; obs = await y.settle(i, m); push({ a: 'settle', i, m, obs }); upd(); }
        } });
}
