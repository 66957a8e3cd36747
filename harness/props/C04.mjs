// C04 sync memoization
import { load, virtualTime } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { recordTraces } from '../lib/record.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
import { KEYSETS, UNTIMED } from './C03.mjs';

function system(variant) {
    const vt = virtualTime();
    const { memoizeWith } = load('function/cache', vt.globals);
    const keyOf = KEYSETS[variant % KEYSETS.length], falsy = variant % 4 === 3;
    let comps = 0, throws = false, during = null, inner = [], memo, ran = 0, vals = new Map(), bad = [];
    const inside = w => {
        switch (w.a) {
            case 'tick': vt.jump(w.k * 10); return [];
            case 'delete': memo.delete(w.k, 'arg'); return [];
            case 'clear': memo.clear(); return [];
            case 'call': { ran = 0; const v = memo(w.k, 'arg'); if (ran) return vals.get(ran) === v ? ['run', ran] : ['run but returned something else', ran]; return ['hit', falsy ? 'some' : v?.v ?? -1]; }
        }
        return [];
    };
    return {
        start(cfg) {
            memo = memoizeWith((k, x) => {
                const id = ran = ++comps, fails = throws, w = during; throws = false; during = null; if (x !== 'arg') bad.push('args');
                const v = falsy ? [undefined, 0, '', null, false][id % 5] : { v: id }; vals.set(id, v);
                if (w) { inner = inside(w); ran = id; }
                if (fails) throw { thrown: id };
                return v;
            }, k => keyOf(k), cfg.timed ? cfg.ms * 10 : UNTIMED[variant % UNTIMED.length]);
            return [];
        },
        step(a, s) {
            switch (a.a) {
                case 'call': {
                    ran = 0; throws = a.b; during = a.w; inner = []; let v;
                    try { v = memo(a.k, 'arg'); } catch (e) { return ['throw', e?.thrown ?? -1, ...inner]; }
                    if (bad.length) return bad;
                    if (ran) return vals.get(ran) === v ? ['run', ran, ...inner] : ['run but returned something else', ran];
                    if (falsy) { const id = s?.obsId; return ['hit', vals.has(id) && Object.is(vals.get(id), v) ? id : -1]; }
                    return ['hit', v?.v ?? -1];
                }
                case 'tick': vt.jump(a.d ? a.d * 10 : 10); return [];
                case 'delete': memo.delete(a.k, 'arg'); return [];
                case 'clear': memo.clear(); return [];
            }
        }, falsy,
    };
}
let nth = 0;
const adapter = () => { const y = system(nth++); return { init: s => y.start(s.cfg), step: (a, s) => y.step(a, { obsId: s.val[a.k - 1] }), expect: o => y.falsy && o[2] === 'hit' ? [o[0], o[1], 'hit', 'some'] : o }; };
export default async function (rep) {
    const consts = THOROUGH ? 'Keys={1,2} MaxComps=6 MaxT=5' : 'Keys={1,2} MaxComps=4 MaxT=4';
    const m = await mustTlc('MemoSync', { cfg: `CONSTANTS ${consts}\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Distinct EmitInit\nPROPERTIES OwnValue HitIsLive\nACTION_CONSTRAINT Emit\n`, mem: '8g' });
    rep.model(m, 'MemoSync ' + consts);
    await replayGraph(rep, m.edges, adapter, { name: 'memo-sync', limit: THOROUGH ? 60000 : 20000, walks: 2000, maxLen: 40 });
    const R = rng(SEED * 103 + 3), ALL = 150;
    await recordTraces(rep, { name: 'memo-sync', module: 'MemoSyncTrace', constants: `Keys={${Array.from({ length: ALL }, (_, i) => i + 1)}} MaxComps=1 MaxT=1`, runs: THOROUGH ? 1500 : 250, view: (e, sc) => JSON.stringify(sc.map(x => [x.a, x.k, x.b, x.w])),
        one: async (t, push, at) => {
            const NK = t % 25 === 3 ? ALL : 5, far = NK > 5; let v = R.int(0, 100); if (v % 4 === 3) v++;
            const y = system(v), cfg = R.bool(0.3) ? { timed: false, ms: 0 } : { timed: true, ms: R.int(-1, 8) };
            push({ a: 'init', cfg, obs: y.start(cfg) });
            for (let i = 0, n = far ? 500 : R.int(10, 60); i < n; i++) {
                const r = R.next();
                const a = r < (far ? 0.95 : 0.6) ? { a: 'call', k: R.int(1, NK), b: R.bool(0.15), w: R.bool(0.6) ? { a: 'none', k: 0 } : R.pick([{ a: 'tick', k: far ? 1 : R.int(1, 6) }, { a: 'delete', k: R.int(1, NK) }, far ? { a: 'none', k: 0 } : { a: 'clear', k: 0 }, { a: 'call', k: R.int(1, NK) }, { a: 'call', k: R.int(1, NK) }]) } : r < (far ? 0.96 : 0.85) ? { a: 'tick', k: 0, b: false, d: R.int(1, 5) } : r < (far ? 0.999 : 0.95) ? { a: 'delete', k: R.int(1, NK), b: false } : { a: 'clear', k: 0, b: false };
                at([cfg, a]); push({ ...a, obs: y.step(a) });
            }
        } });
}
