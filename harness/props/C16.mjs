// C16 copying, on a boxed real file system
import { boxes, fsCases, fsHistories } from '../lib/fsops.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
export const NONE = { k: 'none', c: '', kids: [] }, file = c => ({ k: 'file', c, kids: [] }), link = c => ({ k: 'link', c, kids: [] }), dir = kids => ({ k: 'dir', c: '', kids });
export const OUT = dir([['d', dir([['e', file('x')]])], ['f', file('y')]]);
export const get = (t, p) => p.reduce((n, x) => n.kids.find(k => k[0] === x)?.[1] ?? NONE, t);
export function treeGen(R) {
    const node = d => { const r = R.next(); return r < 0.35 ? file(R.pick(['x', 'y', 'z', 'e', 'big', 'bigs', 'k', 'kx', 'k2', 'xs', 'big0'])) : r < 0.5 ? link(R.pick(['of', 'od', 'gone'])) : d > 0 ? dir(['a', 'b', 'c', 'e', 'n1', 'n2', 'p'].filter(() => R.bool(0.35)).map(n => [n, node(d - 1)])) : dir([]); };
    return () => { const kids = [['out', OUT]]; if (R.bool(0.9)) kids.push(['s', R.bool(0.85) ? dir(['a', 'b', 'c'].filter(() => R.bool(0.7)).map(n => [n, node(3)])) : node(2)]); if (R.bool(0.5)) kids.push(['t', node(2)]); return dir(kids); };
}
export const somePath = (R, root, tops) => { let p = [R.pick(tops)]; while (R.bool(0.5)) { const n = get(root, p); const names = n.kids.map(k => k[0]); p.push(names.length && R.bool(0.8) ? R.pick(names) : R.pick(['a', 'b', 'p', 'q', 'n1'])); } return p; };
const viaLink = (root, p) => p.some((_, i) => i < p.length - 1 && get(root, p.slice(0, i + 1)).k === 'link');
const through = (s, d, f) => (s.k === 'file' && d.k === 'link' && (f || d.c !== 'of')) || (s.k === 'dir' && d.k === 'dir' && s.kids.some(([n, x]) => through(x, get(d, [n]), f)));
export default async function (rep) {
    const R = rng(SEED * 41 + 16), bs = await boxes(6);
    try {
        await fsCases(rep, 'FsCopy', bs, { constants: `Big=${THOROUGH ? 'TRUE' : 'FALSE'}`, faults: THOROUGH ? 8000 : 700, rng: R });
        const gt = treeGen(R);
        await fsHistories(rep, 'FsCopy', bs, { constants: 'Big=FALSE', runs: THOROUGH ? 1500 : 200, length: 5, genTree: gt, genOp: root => {
            const from = somePath(R, root, ['s', 's', 't']), to = somePath(R, root, ['t', 't', 's']);
            if (viaLink(root, from) || viaLink(root, to)) return null;
            const f = R.pick(['copy', 'copy', 'copy', 'copyFile', 'copySymbolicLink', 'writeFile']), force = R.pick(['default', 'yes', 'no', 'no']);
            if (f === 'copy') { if (through(get(root, from), get(root, to), force !== 'no')) return null; if (to.length < from.length && to.every((x, i) => from[i] === x)) return null; return { f, from, to, force }; }
            if (f === 'copyFile') { const n = get(root, from); const d = get(root, [...to, ...from.slice(1)]); if (n.k === 'link' || d.k === 'link' || from.length < 2 || viaLink(root, [...to, ...from.slice(1)]) || to[0] === from[0]) return null; return { f, from, base: from.slice(0, 1), to, force }; }
            if (f === 'writeFile') { if (get(root, to).k === 'link') return null; return { f, to, data: R.pick(['x', 'y', 'big', 'e']), mk: R.pick(['default', 'yes', 'no']) }; }
            return { f, from, to };
        } });
    } finally { bs.forEach(b => b.close()); }
}
