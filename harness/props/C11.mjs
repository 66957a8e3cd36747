// C11 tree building
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const { toTree } = load('array');
const WEIRD = ['constructor', 'toString', '__proto__', 'hasOwnProperty', 'a.b', ' ', 'children', 'data', 'id', 'valueOf', 'x', 'y', 'z', 'w', 'v', 'u'];
class Rec { get own() { return 1; } }
function one(c, v) {
    const idKind = v % 4, idOf = [n => n, n => String(n), (n, p) => (p ? String(n) : n), n => WEIRD[n % WEIRD.length] + (n > 25 ? "#" + n : "")][idKind];
    const roots = [null, undefined, '', 0, 'ROOT', 'null'], rootKind = c.clash ? 2 + (v >> 2) % 4 : (v >> 2) % 6;
    const nested = (v >> 3) % 4; // 0 plain fields, 1 nested path, 2 literal dotted keys, 3 the parent's path may lead nowhere
    const nobody = ['nobody', 'x9'][(v >> 9) % 2];
    const mode = (v >> 4) % 4; // data, custom data field, merged, assigned
    const kidsF = (v >> 5) % 2 ? 'kids' : 'children';
    const opts = { throwIfOrphans: c.strict };
    if (rootKind >= 4) opts.rootParentIds = { [roots[rootKind]]: true, x9: false };
    if (nested === 3) opts.parentId = 'up.to.pid'; else if (nested) { opts.id = 'a.id'; opts.parentId = 'a.pid'; } if (nested === 2) opts.nestedIds = false;
    if (kidsF !== 'children') opts.childrenField = kidsF;
    if (mode === 1) opts.dataField = 'payload'; if (mode >= 2) opts.dataField = null; if (mode === 3) opts.assign = true;
    const mk = ([id, p]) => {
        const I = c.clash === id ? roots[rootKind] : idOf(id, false), P = p === 0 ? roots[rootKind] : p === 9 ? nobody : idOf(p, true);
        const o = mode === 3 ? new Rec() : {};
        o.tag = { id };
        if (nested === 3) { o.id = I; if (P !== undefined && P !== null) o.up = { to: { pid: P } }; else if ((v >> 10) % 2) o.up = {}; } else if (nested === 1) { o.a = { id: I, pid: P }; if ((v >> 11) % 2) { o['a.id'] = 'wrong'; o['a.pid'] = 'wrong'; } } else if (nested === 2) { o['a.id'] = I; o['a.pid'] = P; o.a = { id: 'wrong', pid: 'wrong' }; } else { o.id = I; o.parentId = P; }
        if (mode >= 2 && (v >> 7) % 3 === 1) o[kidsF] = [{ stale: true }]; // left over from an earlier build
        return o;
    };
    const items = c.items.map(mk), before = items.map(o => JSON.stringify(o)), list = items.slice();
    const build = () => toTree(items, Object.keys(opts).length === 1 && !c.strict ? undefined : opts);
    if ((v >> 7) % 3 === 2) try { build(); } catch {} // building again from the same records gives the same tree
    let t; try { t = build(); } catch (e) { return e instanceof TypeError || !(e instanceof Error) ? 'type error: ' + e?.message : e.message.includes(nobody) && (!c.clash || nobody !== 'x9') ? 'orphans' : c.clash ? 'root id' : 'cycle'; }
    if (items.length !== list.length || items.some((o, i) => o !== list[i])) return 'input list changed';
    if (mode !== 3 && items.some((o, i) => JSON.stringify(o) !== before[i])) return 'input records changed';
    const dataF = mode === 0 ? 'data' : 'payload';
    const seen = new Set();
    const node = n => {
        if (seen.has(n)) return 'node placed twice'; seen.add(n);
        const rec = mode < 2 ? n[dataF] : n; if (!rec?.tag) return 'node without its record';
        const it = items[c.items.findIndex(r => r[0] === rec.tag.id)];
        if (mode < 2 && (rec !== it || Object.keys(n).length !== 2)) return 'not the record';
        if (mode === 2 && (n === it || JSON.stringify({ ...n, [kidsF]: 0 }) !== JSON.stringify({ ...it, [kidsF]: 0 }))) return 'not the merged record';
        if (mode === 3 && n !== it) return 'not the assigned record';
        if (!Array.isArray(n[kidsF])) return 'no children';
        return { id: rec.tag.id, kids: n[kidsF].map(node) };
    };
    return t.map(node);
}
let nth = 0;
export default async function (rep) {
    await cases(rep, 'ToTree', c => one(c, nth++), { constants: `MaxN=${THOROUGH ? 4 : 3}`, times: THOROUGH ? 6 : 25 });
    const R = rng(SEED * 19 + 11); const vs = [];
    await recorded(rep, 'ToTree', (c, i) => one(c, vs[i]), { constants: 'MaxN=0', runs: THOROUGH ? 30000 : 4000, keyOf: c => JSON.stringify(c),
        gen: i => {
            vs[i] = R.int(0, 8191); const n = i % 200 === 7 ? R.int(60, 160) : R.int(0, 12), ids = R.shuffle(Array.from({ length: n + 3 }, (_, k) => k + 10)).slice(0, n);
            // mostly forests, sometimes with orphans and cycles
            const ord = R.shuffle(ids); const items = ids.map(id => { const k = ord.indexOf(id); const r = R.next(); return [id, r < 0.25 || k === 0 ? 0 : r < 0.95 ? ord[R.int(0, k - 1)] : r < 0.98 ? 9 : R.pick(ids)]; });
            return { items, strict: R.bool(0.3), clash: n && R.bool(0.05) ? R.pick(ids) : 0 };
        } });
}
