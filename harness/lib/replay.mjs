// Steps specification behaviours through the real code and compares what is observable after every action.
import { buildGraph, coverPaths, randomWalks } from './graph.mjs';
import { beat } from './beat.mjs';
import { SEED } from './report.mjs';
import { rng } from './rng.mjs';
export const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
export function canon(x) { // object keys in a fixed order
    if (Array.isArray(x)) return x.map(canon);
    if (x && typeof x === 'object') return Object.fromEntries(Object.keys(x).sort().map(k => [k, canon(x[k])]));
    return x;
}
/** adapter: { init(state, act), step(act, state) -> observation, expect(obs, state) -> expected observation, end?() } */
export async function replayPaths(rep, paths, make, { name, stopAfter = 25 } = {}) {
    let n = 0, steps = 0, bad = 0;
    for (const p of paths) {
        const ad = make();
        const script = [];
        let ok = true;
        for (const e of p) {
            const { act, obs } = e.act; script.push(act);
            beat(`${name}: ${JSON.stringify({ cfg: e.to.s.cfg, script })}`);
            let got;
            try { got = act.a === 'init' ? await ad.init(e.to.s, act) : await ad.step(act, e.to.s, e.from.s); }
            catch (err) { got = { threw: String(err?.stack || err).slice(0, 400) }; }
            const want = ad.expect(obs, e.to.s, act);
            steps++;
            if (!same(canon(got), canon(want))) {
                ok = false;
                rep.violation(`${name}:${JSON.stringify(p[0].to.s.cfg ?? null)}:${script.map(a => JSON.stringify(a)).join(' ')}`, { replay: script, cfg: p[0].to.s.cfg, model_expects: want, implementation: got });
                bad++;
                break;
            }
            if (ad.done?.(e.to.s)) break;
        }
        await ad.end?.();
        n++;
        if (n <= 2) rep.sample({ [name]: script, cfg: p[0].to.s.cfg });
        if (bad >= stopAfter) break;
    }
    beat(null);
    rep.trace(n); rep.count('replayed_steps', steps);
    return bad;
}
/** edges -> cover + random walks (bounded) -> replay */
export async function replayGraph(rep, edges, make, { name, limit = Infinity, walks = 200, maxLen = 60, prefer } = {}) {
    const g = buildGraph(edges);
    const { paths, covered } = coverPaths(g, { maxLen });
    const R = rng(SEED + 17);
    let use = paths;
    if (paths.length > limit) use = R.shuffle(paths).slice(0, limit);
    rep.count('model_edges', g.edgeCount); rep.count('model_nodes', g.nodes.size);
    const touched = new Set(); for (const p of use) for (const e of p) touched.add(e.id);
    rep.count('edges_replayed', touched.size);
    const acts = {}; for (const p of use) for (const e of p) acts[e.act.act.a] = (acts[e.act.act.a] || 0) + 1;
    rep.extra[`actions_${name}`] = acts;
    const ws = randomWalks(g, R, walks, maxLen);
    await replayPaths(rep, use, make, { name });
    await replayPaths(rep, ws, make, { name: name });
}
