// C19 listing and finding, on a boxed real file system
import { boxes } from '../lib/fsops.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
import { shortcuts } from '../lib/shortcuts.mjs';
import { treeGen, somePath, get, file, dir, NONE } from './C16.mjs';
const cmp = (a, b) => { for (let i = 0; ; i++) { if (i >= a.length || i >= b.length) return a.length - b.length; if (a[i] !== b[i]) return a[i] < b[i] ? -1 : 1; } };
const parts = v => (Array.isArray(v) ? v : [v]).map(s => typeof s === 'string' ? s.split('/') : ['not text']);
const viaLink = (root, p) => p.some((_, i) => i < p.length - 1 && get(root, p.slice(0, i + 1)).k === 'link');
export default async function (rep) {
    let nth = 0;
    await cases(rep, 'Shortcuts', c => shortcuts(c, nth++), { spec: 'SSpec', constants: `MaxWays=${THOROUGH ? 3 : 2}` });
    const Q = rng(SEED * 59 + 19), way = () => [Q.int(1, 4), Q.pick([0, 1, 2, 3, 4, 11, 12, 13, 14, 20])];
    await recorded(rep, 'Shortcuts', c => shortcuts(c, nth++), { constants: 'MaxWays=0', runs: THOROUGH ? 20000 : 2000, gen: i => ({ f: i % 3 ? 'list' : 'find', up: [0, 1, Q.int(0, 2), Q.int(0, 3)], ways: Q.list(0, 8, way), file: [1, 2, 3, 4].map(() => Q.bool(0.8)), names: i % 3 ? [] : Q.pick([[], [2], [3], [4], [2, 4], [3, 4]]) }) });
    const R = rng(SEED * 53 + 19), bs = await boxes(6); let k = 0, lastTree = bs.map(() => '');
    const ask = (c, extra = {}, t) => { const i = k++ % bs.length, b = bs[i]; return b.chain = (b.chain ?? Promise.resolve()).then(async () => {
        const tree = JSON.stringify(c.root), keep = t === undefined && lastTree[i] === tree && !extra.readFaultAt; lastTree[i] = tree;
        const r = await b.run({ tree: c.root, op: c, keep, scheme: t, ...extra });
        if (r.died) return 'worker died: ' + r.died; if (r.escapes.length) return 'escape: ' + r.escapes.join('; '); if (extra.readFaultAt && !r.faulted) return 'no fault';
        if (c.f !== 'destPath' && JSON.stringify(r.root) !== JSON.stringify(c.root, null)) { const a = r.root; if (!sameTree(a, c.root)) return 'the tree was changed'; } else if (c.f === 'destPath') lastTree[i] = '';
        if (!r.ok) return { ok: false };
        const v = r.value;
        if (c.f === 'destPath') return { ok: true, value: parts(v), root: r.root };
        if (c.f === 'symbolicLink') return { ok: true, value: v };
        if (Array.isArray(v)) return { ok: true, value: parts(v).sort(cmp) };
        return { ok: true, value: v === true ? 'yes' : v === false ? 'no' : 'answered ' + v };
    }); };
    try {
        const all = await cases(rep, 'FsFind', (c, t) => ask(c, {}, t), { constants: `Big=${THOROUGH ? 'TRUE' : 'FALSE'}`, parallel: 60, times: 5 });
        // a directory that cannot be read: a listing fails instead of leaving entries out
        let injected = 0;
        for (const { c, o } of R.shuffle(all.filter(x => x.c.f === 'fileList' && x.o.ok)).slice(0, THOROUGH ? 3000 : 500)) for (const readFaultAt of [1, 2, 3]) {
            const r = await ask(c, { readFaultAt }); if (r === 'no fault') break; injected++;
            if (r.ok !== false && !(r.ok && JSON.stringify(r.value) === JSON.stringify(o.value))) rep.violation(`FsFind:fault:${JSON.stringify({ c, readFaultAt })}`, { call: c, fault: { readFaultAt }, implementation: r });
        }
        rep.extra.faults_FsFind = injected;
        const base = treeGen(R), gt = () => { const t = base(); const walk = n => n.k === 'dir' ? dir([...n.kids.map(([m, x]) => [m, walk(x)]), ...(n.kids.some(([m]) => m > 'p') || R.bool(0.7) ? [] : [['p.lnk', R.bool() ? file('x') : dir([['n1', dir([])], ['a', file('y')]].reverse())]])]) : n; return dir(t.kids.map(([m, x]) => [m, m === 'out' ? x : walk(x)])); };
        let root, left = 0;
        const gen = () => {
            if (!left--) { root = gt(); left = 12; }
            const from = somePath(R, root, ['s', 's', 't']), f = R.pick(['fileList', 'fileList', 'findDir', 'findDir', 'isFile', 'isDir', 'isSymbolicLink', 'symbolicLink']);
            if (f === 'fileList') return { f, root, from, once: R.pick(['default', 'yes', 'no']) };
            if (f === 'findDir') return { f, root, from, names: R.pick([['n1'], ['a'], ['a', 'b', 'c'], ['n1', 'n2', 'p'], ['p', 'e'], ['c']]), one: R.bool() };
            return { f, root, from };
        };
        await recorded(rep, 'FsFind', c => ask(c), { constants: 'Big=FALSE', gen, runs: THOROUGH ? 20000 : 2500, parallel: 60, times: 5 });
    } finally { bs.forEach(b => b.close()); }
}
const sameTree = (a, b) => a.k === b.k && a.c === b.c && a.kids.length === b.kids.length && a.kids.every(([n, x], i) => b.kids[i][0] === n && sameTree(x, b.kids[i][1]));
