// C08 composition, hooks, binding, currying
import { load } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { recordTraces } from '../lib/record.mjs';
import { cases } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const L = load('function');
const Q = v => v; // values are either terms or odd values standing for them
function chain(c, round) {
    const calls = []; let fail = c.fail;
    // terms are carried by boxes, or (every third round) by falsy primitives, so that "no value" shortcuts show
    const boxes = new Map(), odd = [undefined, null, 0, '', false];
    let k = 0; const use = round % 3 === 2 ? odd.slice() : [];
    const box = t => round % 3 ? [[t, [t]], () => t, Object.assign(Promise.resolve(t), { t }), [], new Map([[t, t]]), { then: 1, length: 1, 0: t }][k++ % 6] : { t };
    const mk = t => { const b = use.length && t !== 'in1' ? use.shift() : box(t); boxes.set(b, t); return b; };
    const term = v => boxes.has(v) ? boxes.get(v) : 'unknown:' + String(v);
    const stage = (name, ord) => function (...a) { calls.push(`${name}(${a.map(term).join(',')})`); if (fail === ord) throw { stage: name.startsWith('f') ? name : String(ord) }; return mk(`${name}(${a.map(term).join(',')})`); };
    const pre = (p, n) => Array.from({ length: n }, (_, i) => { const b = box(p + (i + 1)); boxes.set(b, p + (i + 1)); return b; });
    let fn;
    if (c.f === 'compose') { const fs = Array.from({ length: c.n }, (_, i) => stage('f' + (i + 1), i + 1)); const p = L.compose(...fs); fn = () => p(mk('in1')); }
    else if (c.f === 'bind') { const ctx = { ctx: 1 }; const inner = stage('method@ctx', 1); const b = L.bind(function (...a) { if (this !== ctx) return 'wrong receiver'; return inner(...a); }, ctx); fn = () => b.call({ other: 1 }, ...pre('t', c.t)); }
    else {
        const first = ['before', 'withBefore', 'applyBefore'].includes(c.f);
        const hook = stage('hook', first ? 1 : 2), target = stage('target', first ? 2 : 1);
        const w = c.f === 'withBefore' || c.f === 'applyBefore' ? L[c.f](hook) : L[c.f](hook, ...pre('h', c.h));
        fn = () => w(target, ...pre('t', c.t));
    }
    const once = () => { calls.length = 0; try { const r = fn(); return { calls: calls.slice(), ok: true, res: term(r) }; } catch (e) { return { calls: calls.slice(), ok: false, res: e?.stage ?? 'other error ' + e }; } };
    const a = once();
    if (!use.length && round % 3 !== 2) { const b = once(); if (JSON.stringify(a) !== JSON.stringify(b)) return { second_use_differs: [a, b] }; } // wrappers can be used again
    return a;
}
function curry(variant) {
    let nodes, got, cfg, next; const vals = i => variant % 3 ? { id: i } : [undefined, null, 0][i % 3] ?? i;
    const all = new Map();
    return {
        start(c) {
            cfg = c; next = 1; got = null;
            const fn = function (...a) { if (got) got = 'ran twice'; else got = a; return { r: a }; };
            Object.defineProperty(fn, 'length', { value: c.depth });
            nodes = [L.currying(fn)]; return [];
        },
        step(a) {
            const ids = Array.from({ length: a.k }, (_, j) => next + j); next += a.k;
            const av = ids.map(i => { if (!all.has(i)) all.set(i, vals(i)); return all.get(i); });
            got = null; let r; try { r = nodes[a.i - 1](...av); } catch (e) { return ['threw ' + e]; }
            if (got === null) { if (typeof r !== 'function') return ['no function']; nodes.push(r); this.args ??= [[]]; this.args.push(this.args[a.i - 1].concat(ids)); return ['more']; }
            if (!Array.isArray(got)) return [got];
            this.args ??= [[]]; const want = this.args[a.i - 1].concat(ids);
            if (r?.r !== got) return ['other result'];
            return ['ran', got.length === want.length && got.every((v, i) => Object.is(v, all.get(want[i]))) ? want : 'wrong arguments (' + got.length + ')'];
        },
    };
}
let nth = 0;
const adapter = () => { const y = curry(nth++); return { init: s => y.start(s.cfg), step: a => y.step(a), expect: o => o }; };
export default async function (rep) {
    await cases(rep, 'Chain', chain, { times: 6 });
    const consts = THOROUGH ? 'MaxDepth=5 MaxNodes=6 MaxArgs=6' : 'MaxDepth=4 MaxNodes=5 MaxArgs=4';
    const m = await mustTlc('Curry', { cfg: `CONSTANTS ${consts}\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Incomplete InOrder EmitInit\nPROPERTIES Kept RunsFull\nACTION_CONSTRAINT Emit\n` });
    rep.model(m, 'Curry ' + consts);
    await replayGraph(rep, m.edges, adapter, { name: 'curry', walks: 2000, maxLen: 30, limit: THOROUGH ? 60000 : 20000 });
    const R = rng(SEED * 13 + 8);
    await recordTraces(rep, { name: 'curry', module: 'CurryTrace', constants: 'MaxDepth=1 MaxNodes=1 MaxArgs=1', runs: THOROUGH ? 2000 : 300, view: (e, sc) => JSON.stringify(sc.map(x => [x.i, x.k])),
        one: async (t, push, at) => {
            const y = curry(R.int(0, 5)), cfg = { depth: R.int(0, 7) }; let nodes = 1;
            push({ a: 'init', i: 0, k: 0, cfg, obs: y.start(cfg) });
            for (let i = 0; i < 25; i++) { const a = { a: 'apply', i: R.int(1, nodes), k: R.int(0, 4) }; at([cfg, a]); const obs = y.step(a); if (obs[0] === 'more') nodes++; push({ ...a, obs }); }
        } });
}
