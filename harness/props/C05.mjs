// C05 batch collector
import { load, drain } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { recordTraces } from '../lib/record.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const { collectItems } = load('function');
const VALS = [i => ({ v: i }), i => [undefined, null, 0, '', false][i % 5], i => [i]];
function system(variant) {
    const val = VALS[variant % VALS.length];
    let f, n = 0, calls = 0, acc = 0, log = [], defs = [], vals = [], errs = [], made = [], src = [];
    const OTHERS = [undefined, null, 5, 'text', {}, [1], () => Promise.resolve(1), { then: 1 }];
    const watch = (p, k, last) => p.then(r => {
        if (r?.done === false && r.value === undefined) return log.push({ call: k, kind: 'no', items: [] });
        if (r?.done !== true || !Array.isArray(r.value)) return log.push({ call: k, kind: 'odd', items: [] });
        // which ids the values are: the items are consecutive and end with the promise accepted last
        const first = last - r.value.length + 1;
        const ok = r.value.every((v, j) => Object.is(v, vals[src[first + j]]));
        log.push({ call: k, kind: 'done', items: ok ? r.value.map((_, j) => first + j) : ['values do not match'] });
    }, e => log.push({ call: k, kind: errs.includes(e) ? 'rej' : 'rejected with something else', items: [] }));
    const flush = async () => { await drain(); const l = log; log = []; return l.sort((x, y) => x.call - y.call); };
    return {
        start(cfg) { const o = {}; if (cfg.restart || variant % 2) o.isRestart = cfg.restart; if (cfg.accum || variant % 2) o.isAccumulate = cfg.accum; if (cfg.total) o.total = cfg.total; f = collectItems(!cfg.total && !cfg.restart && !cfg.accum && variant % 2 ? undefined : o); return []; },
        async step(a) {
            if (a.a === 'hand') {
                const k = ++n; vals[k] = val(k); const e = new Error('e' + k); errs.push(e);
                const p = new Promise((res, rej) => { defs[k] = { ok: () => res(vals[k]), err: () => rej(e) }; });
                p.catch(() => {}); made[k] = p; src[++acc] = k; calls++;
                if (a.m !== 'p') defs[k][a.m]();
                watch(a.fin ? f(p, true) : f(p), calls, acc);
            } else if (a.a === 'again') { src[++acc] = a.i; calls++; watch(a.fin ? f(made[a.i], true) : f(made[a.i]), calls, acc); }
            else if (a.a === 'other') { const o = OTHERS[(variant + calls++) % OTHERS.length]; watch(a.fin ? f(o, true) : f(o), calls, acc); }
            else defs[a.i][a.m]();
            return flush();
        },
    };
}
let nth = 0;
const adapter = () => { const y = system(nth++); return { init: s => y.start(s.cfg), step: a => y.step(a), expect: o => o }; };
export default async function (rep) {
    const consts = `MaxItems=${THOROUGH ? 6 : 4}`;
    const m = await mustTlc('Collector', { cfg: `CONSTANTS ${consts}\nSPECIFICATION Spec\nVIEW View\nINVARIANTS AllOk InOrder SizedExact OnceOnly NoneLost Disjoint EmitInit\nACTION_CONSTRAINT Emit\n`, mem: '8g' });
    rep.model(m, 'Collector ' + consts);
    await replayGraph(rep, m.edges, adapter, { name: 'collector', limit: THOROUGH ? 200000 : 60000, walks: 1000, maxLen: 40 });
    const R = rng(SEED * 97 + 5);
    await recordTraces(rep, { name: 'collector', module: 'CollectorTrace', constants: 'MaxItems=1', runs: THOROUGH ? 2000 : 300, view: (e, sc) => JSON.stringify(sc.map(x => [x.a, x.i, x.m])),
        one: async (t, push, at) => {
            const y = system(R.int(0, 9)), cfg = { total: R.int(0, 5), restart: R.bool(0.8), accum: R.bool(0.3) };
            push({ a: 'init', cfg, obs: y.start(cfg) });
            let n = 0; const open = [];
            for (let i = 0, len = R.int(5, 40); i < len; i++) {
                let a;
                if (n && R.bool(0.12)) a = { a: 'again', i: R.int(1, n), m: '', fin: !cfg.total && R.bool(0.3) };
                else if (R.bool(0.12)) a = { a: 'other', i: 0, m: '', fin: !cfg.total && R.bool(0.3) };
                else if (open.length && R.bool(0.45)) { const k = open.splice(R.int(0, open.length - 1), 1)[0]; a = { a: 'settle', i: k, m: R.bool(0.08) ? 'err' : 'ok', fin: false }; }
                else { const m = R.next() < 0.7 ? 'p' : R.bool(0.1) ? 'err' : 'ok'; n++; if (m === 'p') open.push(n); a = { a: 'hand', i: 0, m, fin: !cfg.total && R.bool(0.3) }; }
                at([cfg, a]); push({ ...a, obs: await y.step(a) });
            }
        } });
}
