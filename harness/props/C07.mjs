// C07 call-count limits, toggles, selection, singletons
import { load } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { recordTraces } from '../lib/record.mjs';
import { cases } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const L = load('function'), S = load('function/class');
const PAIRS = [[false, true], [0, 1], ['', 'x'], [null, undefined], [1, '1'], [{}, {}], [undefined, 0], [1, NaN], [NaN, 1], [0, -0], [-0, 0], [NaN, undefined]];
function system(variant) {
    let cfg, f, ran, throws, tg, pair, classes, insts, bad, vals, frames, again, inner;
    const preset = variant % 2 ? [{ p: 1 }, 'two'] : [], given = [variant, undefined, { q: 1 }].slice(0, variant % 4);
    const falsy = variant % 3 === 2;
    const call = () => {
        const fr = { runs: 0, k: 0 }; let v; frames.push(fr);
        try { v = f(...given); } catch (e) { return ['throw', e?.thrown ?? -1]; } finally { frames.pop(); }
        if (bad) return ['wrong arguments'];
        if (fr.runs > 1) return ['ran twice'];
        if (fr.runs) return Object.is(v, vals[fr.k]) ? ['ran', fr.k] : ['ran but answered something else'];
        if (cfg.kind === 'once') { for (let i = 1; i < vals.length; i++) if (i in vals) return Object.is(vals[i], v) ? ['same', i] : ['other value']; return v === undefined ? ['undefined', 0] : ['nothing stored']; }
        if (cfg.kind === 'only') return v === undefined ? ['undefined', 0] : ['value'];
        if (typeof v === 'function' && v !== f) f = v; // documented: hands back a function taking the remaining calls
        return typeof v === 'function' ? ['function', 0] : ['value'];
    };
    return {
        start(c) {
            cfg = c; ran = 0; bad = false; vals = []; frames = [];
            const cb = (...a) => {
                const k = ++ran, fails = throws, fr = frames.at(-1); fr.runs++; fr.k = k;
                if (again) { again = false; throws = false; inner = call(); }
                const want = cfg.kind === 'after' ? preset : preset.concat(given);
                if (a.length !== want.length || a.some((x, i) => !Object.is(x, want[i]))) bad = true;
                if (fails) throw { thrown: k };
                return vals[k] = falsy ? [undefined, 0, null, false, ''][k % 5] : { v: k };
            };
            if (cfg.kind === 'once') f = L.once(cb, ...preset);
            if (cfg.kind === 'only') f = L.runOnlyNTimes(cfg.n, cb, ...preset);
            if (cfg.kind === 'after') f = L.runAfterTimes(cfg.n, cb, ...preset);
            if (cfg.kind === 'toggle') { pair = PAIRS[variant % PAIRS.length]; tg = L.toggle(...pair); }
            if (cfg.kind === 'single') {
                classes = []; insts = [];
                const raw = [];
                for (let i = 0; i < 3; i++) {
                    const p = cfg.par[i]; const Base = p ? (cfg.viaWrap ? classes[p - 1] : raw[p - 1]) : null;
                    const R = i;
                    const body = self => { if (self.constructor === raw[R]) { ran++; if (throws) throw { thrown: ran }; self.id = ran; } };
                    raw[i] = Base ? class extends Base { constructor(...a) { super(...a); body(this); this.args ??= a; } get kind() { return R; } } : class { constructor(...a) { body(this); this.args ??= a; } get kind() { return R; } };
                    classes[i] = cfg.wrapped[i] ? S.singletonClass(raw[i]) : raw[i];
                }
                this.raw = raw; this.seen = new Map();
            }
            return [];
        },
        step(a) {
            throws = !!a.b;
            if (['call'].includes(a.a)) {
                again = a.c === 1; inner = [];
                const o = call(); return typeof o[1] === 'number' ? o.concat(inner) : o;
            }
            if (a.a === 'new') {
                const C = classes[a.c - 1], r0 = ran; let o; const args = [ran, {}];
                try { o = new C(...args); } catch (e) { return ['throw', e?.thrown ?? -1]; }
                if (!(o instanceof this.raw[a.c - 1]) || o.kind !== a.c - 1 || !(o instanceof C)) return ['instance of another class'];
                if (ran > r0 + 1) return ['constructed twice'];
                if (ran > r0) { if (o.args[1] !== args[1]) return ['lost arguments']; this.seen.set(o, ran); return ['new', ran]; }
                return ['same', this.seen.get(o) ?? -1];
            }
            let r = a.a === 'toggle' ? tg.toggle() : a.a === 'left' ? (tg.setLeft(), tg.value) : a.a === 'right' ? (tg.setRight(), tg.value) : tg.value;
            if (!Object.is(r, tg.value)) return ['answer and value differ'];
            return Object.is(r, pair[0]) ? ['L'] : Object.is(r, pair[1]) ? ['R'] : ['other'];
        },
    };
}
let nth = 0;
const adapter = () => { const y = system(nth++); return { init: s => y.start(s.cfg), step: a => y.step(a), expect: o => o }; };
async function sel(c) {
    const args = [{ x: 1 }, 2, undefined], ran = []; const E = { cond: new Error('c'), if: new Error('i'), else: new Error('e') }, V = { if: { v: 'if' }, else: { v: 'else' } };
    const chk = (n, a) => { ran.push(a.length === 3 && a.every((x, i) => x === args[i]) ? n : n + ' with wrong arguments'); };
    const br = (b, n) => ({ value: V[n], fn: (...a) => (chk(n, a), V[n]), async: async (...a) => (chk(n, a), V[n]), promise: Promise.resolve(V[n]), 'fn-throws': (...a) => { chk(n, a); throw E[n]; }, get rejects() { const p = Promise.reject(E[n]); p.catch(() => {}); return p; }, missing: undefined })[b];
    const cond = { true: true, false: false, 'fn-true': (...a) => (chk('cond', a), true), 'fn-false': (...a) => (chk('cond', a), false), 'async-true': async (...a) => (chk('cond', a), true), 'async-false': async (...a) => (chk('cond', a), false),
        'promise-true': Promise.resolve(true), 'promise-false': Promise.resolve(false), 'fn-throws': (...a) => { chk('cond', a); throw E.cond; }, get 'promise-rejects'() { const p = Promise.reject(E.cond); p.catch(() => {}); return p; }, truthy: 'yes', falsy: 0 }[c.cond];
    let p; try { p = L.select(cond, br(c.doIf, 'if'), br(c.doElse, 'else'), ...args); } catch { return 'threw synchronously'; }
    return p.then(v => ({ ran, settled: 'ok', by: v === V.if ? 'if' : v === V.else ? 'else' : v === undefined ? 'undefined' : 'other' }), e => ({ ran, settled: 'err', by: e === E.cond ? 'cond' : e === E.if ? 'if' : e === E.else ? 'else' : 'other' }));
}
export default async function (rep) {
    const consts = THOROUGH ? 'MaxN=4 MaxCalls=6' : 'MaxN=3 MaxCalls=4';
    const m = await mustTlc('Limits', { cfg: `CONSTANTS ${consts}\nSPECIFICATION Spec\nVIEW View\nINVARIANTS OnlyBound AfterBound NotShared EmitInit\nPROPERTIES OnceOne OnceStops OnePerClass\nACTION_CONSTRAINT Emit\n` });
    rep.model(m, 'Limits ' + consts);
    for (let i = 0; i < (THOROUGH ? 6 : 2); i++) await replayGraph(rep, m.edges, adapter, { name: 'limits', walks: 3000, maxLen: 30, limit: 40000 });
    await cases(rep, 'Select', sel);
    const R = rng(SEED * 11 + 7);
    await recordTraces(rep, { name: 'limits', module: 'LimitsTrace', constants: 'MaxN=1 MaxCalls=1', runs: THOROUGH ? 2000 : 400, view: (e, sc) => JSON.stringify([sc[0].cfg, sc.map(x => [x.a, x.b, x.c])]),
        one: async (t, push, at) => {
            const kind = ['once', 'only', 'after', 'toggle', 'single'][t % 5];
            const cfg = { kind, n: R.int(0, 12), par: [0, R.int(0, 1), R.int(0, 2)], wrapped: [R.bool(0.8), R.bool(0.8), R.bool(0.8)], viaWrap: R.bool() };
            const y = system(R.int(0, 239)); push({ a: 'init', b: false, c: 0, cfg, obs: y.start(cfg) });
            for (let i = 0, n = R.int(5, 30); i < n; i++) {
                const a = kind === 'toggle' ? { a: R.pick(['toggle', 'toggle', 'left', 'right', 'read']), b: false, c: 0 } : kind === 'single' ? { a: 'new', b: R.bool(0.2), c: R.int(1, 3) } : { a: 'call', b: R.bool(0.3), c: R.int(0, 3) ? 0 : 1 };
                at([cfg, a]); push({ ...a, obs: y.step(a) });
            }
        } });
}
