// C17 deleting and clearing, on a boxed real file system
import { boxes, fsCases, fsHistories } from '../lib/fsops.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
import { treeGen, somePath, get } from './C16.mjs';
export default async function (rep) {
    const R = rng(SEED * 43 + 17), bs = await boxes(6);
    try {
        await fsCases(rep, 'FsDelete', bs, { constants: `Big=${THOROUGH ? 'TRUE' : 'FALSE'}`, faults: THOROUGH ? 4000 : 500, rng: R });
        const gt = treeGen(R);
        await fsHistories(rep, 'FsDelete', bs, { constants: 'Big=FALSE', runs: THOROUGH ? 2000 : 300, length: 6, genTree: gt, genOp: root => {
            const from = somePath(R, root, ['s', 's', 's', 't']); if (from.some((_, i) => i < from.length - 1 && get(root, from.slice(0, i + 1)).k === 'link')) return null;
            const n = get(root, from), f = R.pick(['deleteOne', 'clearDir']); if (f === 'clearDir' && n.k === 'link' && n.c === 'od') return null;
            return { f, from };
        } });
    } finally { bs.forEach(b => b.close()); }
}
