// Edge lists printed by TLC -> a labelled graph -> a set of paths covering every edge, plus random walks.
export function buildGraph(edges) {
    const nodes = new Map(), inits = [];
    const canon = x => Array.isArray(x) ? x.map(canon) : x && typeof x === 'object' ? Object.fromEntries(Object.keys(x).sort().map(k => [k, canon(x[k])])) : x;
    const node = s => { const k = JSON.stringify(canon(s)); let n = nodes.get(k); if (!n) nodes.set(k, n = { k, s, out: [], id: nodes.size, seen: new Set() }); return n; };
    let count = 0;
    for (const [from, act, to] of edges) {
        const a = node(from), b = node(to), lk = JSON.stringify(canon(act)) + '|' + b.id;
        if (a.seen.has(lk)) continue;
        a.seen.add(lk); a.out.push({ act, from: a, to: b, id: count++ });
    }
    if (nodes.has('"start"')) return { nodes, inits: [nodes.get('"start"')], edgeCount: count };
    const indeg = new Set(); for (const n of nodes.values()) for (const e of n.out) if (e.to !== n) indeg.add(e.to);
    for (const n of nodes.values()) if (!indeg.has(n)) inits.push(n);
    return { nodes, inits, edgeCount: count };
}
/** Paths from initial nodes that together cover every reachable edge. */
export function coverPaths(g, { maxLen = 60, limit = Infinity } = {}) {
    const parent = new Map(); // BFS tree
    const q = []; for (const n of g.inits) { parent.set(n, null); q.push(n); }
    for (let i = 0; i < q.length; i++) for (const e of q[i].out) if (!parent.has(e.to)) { parent.set(e.to, e); q.push(e.to); }
    const covered = new Uint8Array(g.edgeCount); const paths = [];
    const prefix = n => { const p = []; for (let e = parent.get(n); e; e = parent.get(e.from)) p.push(e); return p.reverse(); };
    for (let i = q.length - 1; i >= 0 && paths.length < limit; i--) for (const e0 of q[i].out) {
        if (covered[e0.id]) continue;
        const p = prefix(q[i]); let e = e0;
        for (const x of p) covered[x.id] = 1;
        while (e && p.length < maxLen) { covered[e.id] = 1; p.push(e); e = e.to.out.find(x => !covered[x.id]) ; }
        // run on to a terminal node so that every replay also observes an outcome
        let n = p[p.length - 1].to, guard = 0;
        while (n.out.length && guard++ < maxLen) { const nx = n.out.find(x => x.to !== n) ?? null; if (!nx) break; covered[nx.id] = 1; p.push(nx); n = nx.to; }
        paths.push(p);
        if (paths.length >= limit) break;
    }
    let cov = 0; for (const c of covered) cov += c;
    return { paths, covered: cov };
}
export function randomWalks(g, R, n, maxLen = 60) {
    const out = [];
    if (!g.inits.length) return out;
    for (let i = 0; i < n; i++) { let x = R.pick(g.inits); const p = []; while (x.out.length && p.length < maxLen) { const e = R.pick(x.out); p.push(e); x = e.to; } if (p.length) out.push(p); }
    return out;
}
