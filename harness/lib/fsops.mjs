// Runs file-system requests of FsTree on boxed workers, in parallel, with injected faults, and histories of operations.
import { fsbox } from './fsbox.mjs';
import { cases, recorded } from './funcs.mjs';
export async function boxes(n) { return Promise.all(Array.from({ length: n }, fsbox)); }
const strip = r => (r.ok ? { ok: true, root: r.root } : { ok: false });
const worst = r => r.died ? 'worker died: ' + r.died : r.escapes?.length ? 'escape: ' + r.escapes.join('; ') : null;
/** cases on the real code; every failing answer is kept and decided by the relational part of the specification */
export async function fsCases(rep, module, boxList, { constants, name = module, faults = 0, rng, mem, times = 5 }) {
    const failed = []; let k = 0;
    const box = () => boxList[k++ % boxList.length];
    // every request under every scheme of real names
    const one = async (c, t) => {
        const r = await box().run({ tree: c.root, op: c, scheme: t }); const w = worst(r); if (w) return w;
        if (!r.ok) failed.push({ c, after: r.root });
        return strip(r);
    };
    const all = await cases(rep, module, one, { constants, name, mem, times, parallel: boxList.length });
    const recs = failed.map(({ c, after }) => ({ ...c, after }));
    // the same requests with a fault injected at the n-th change or the n-th directory read
    const pick = rng.shuffle(all.map(x => x.c)).slice(0, faults); let injected = 0;
    for (const c of pick) for (const spot of [{ faultAt: rng.int(1, 4) }, { readFaultAt: rng.int(1, 3) }]) {
        const r = await box().run({ tree: c.root, op: c, ...spot }); const w = worst(r);
        if (w) { rep.violation(`${name}:fault:${JSON.stringify({ c, spot })}`, { call: c, fault: spot, implementation: w }); continue; }
        if (!r.faulted) continue; injected++;
        if (r.ok) recs.push({ ...c, okAfter: r.root }); else recs.push({ ...c, after: r.root });
    }
    rep.extra['faults_' + name] = injected;
    const rel = recs.filter(c => c.after), okd = recs.filter(c => c.okAfter);
    if (rel.length) await recorded(rep, module, () => 'allowed', { constants, name: name + ':after', gen: i => rel[i], runs: rel.length });
    if (okd.length) await recorded(rep, module, c => ({ ok: true, root: c.okAfter }), { constants, name: name + ':recovered', gen: i => okd[i], runs: okd.length });
}
/** histories: operations one after another on the same tree, each decided from the tree it started from */
export async function fsHistories(rep, module, boxList, { constants, genTree, genOp, runs, length, name = module + ':history' }) {
    const recs = [];
    await Promise.all(boxList.map(async (b, k) => {
        for (let i = k; i < runs; i += boxList.length) {
            let root = genTree(), first = true;
            for (let s = 0; s < length; s++) {
                const op = genOp(root); if (!op) continue;
                const r = await b.run({ tree: root, op, keep: !first }); first = false; const w = worst(r);
                recs.push(w ? { c: { ...op, root }, o: w } : r.ok ? { c: { ...op, root }, o: strip(r) } : { c: { ...op, root }, o: { ok: false } });
                if (w) break;
                if (!r.ok) recs.push({ c: { ...op, root, after: r.root }, o: 'allowed' });
                root = r.root;
            }
        }
    }));
    await recorded(rep, module, (c, i) => recs[i].o, { constants, name, gen: i => recs[i].c, runs: recs.length });
}
