// Runs the fs package of /repo inside a box: an unprivileged user, a scratch directory, and a guard in front of
// every node fs function that records and refuses any change outside the scratch directory and injects faults.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
import { Readable } from 'node:stream';
import { load } from './bundle.mjs';
const require = createRequire(import.meta.url);
const ROOT = process.argv[2];
const S = { escapes: [], faultAt: 0, mutations: 0, reads: 0, readFaultAt: 0, faulted: false };
const TWO = new Set(['copyFile', 'copyFileSync', 'rename', 'renameSync', 'link', 'linkSync', 'cp', 'cpSync']);
const SECOND = new Set(['symlink', 'symlinkSync']);
const ONE = new Set(['writeFile', 'appendFile', 'mkdir', 'mkdtemp', 'rm', 'rmdir', 'unlink', 'truncate', 'chmod', 'lchmod', 'chown', 'lchown', 'utimes', 'lutimes', 'createWriteStream', 'open'].flatMap(n => [n, n + 'Sync']));
const READS = new Set(['readdir', 'readFile', 'createReadStream', 'opendir', 'read'].flatMap(n => [n, n + 'Sync']));
const inside = p => { let q = path.resolve(String(p instanceof URL ? p.pathname : p)); if (q === ROOT) return false; let dir = path.dirname(q); for (;;) { try { dir = fs.realpathSync(dir); break; } catch { const up = path.dirname(dir); if (up === dir) break; dir = up; } } return dir === ROOT || dir.startsWith(ROOT + '/'); };
const err = (code, name) => Object.assign(new Error(`${code}: injected, ${name}`), { code, syscall: name });
// a read stream of the real file that delivers its bytes in chunks of S.cut bytes (0: as they come), pausing, or failing at chunk S.fail
function chunked(p, o) {
    const enc = typeof o === 'string' ? o : o?.encoding, { start = 0, end = Infinity } = typeof o === 'object' && o ? o : {};
    if (!Number.isInteger(start) || start < 0 || start > end || end < 0) return fs.createReadStream(p, o);
    let at = 0, n = 0, buf = null;
    const r = new Readable({ read() {
        if (buf === null) { try { buf = fs.readFileSync(p).subarray(start, end === Infinity ? undefined : end + 1); } catch (e) { this.destroy(e); return; } }
        const go = () => {
            if (++n === S.fail || (S.fail > 0 && at >= buf.length)) { this.destroy(err('EIO', 'read')); return; }
            if (at >= buf.length) { this.push(null); return; }
            const size = S.cut || 65536; const part = Buffer.from(buf.subarray(at, at + size)); at += size; this.push(part);
        };
        if (S.pause) setTimeout(go, S.pause); else setImmediate(go);
    } });
    if (enc) r.setEncoding(enc);
    r.close = cb => { r.destroy(); cb?.(); }; r.path = p; setImmediate(() => { r.emit('open', 3); r.emit('ready'); });
    return r;
}
function guard(obj, promised) {
    return new Proxy(obj, { get(t, k, r) {
        const v = Reflect.get(t, k);
        if (k === 'promises') return guard(v, true);
        if (typeof v !== 'function' || typeof k !== 'string' || /^[A-Z]/.test(k)) return v;
        if (k === 'createReadStream' && S.cut !== undefined) return chunked;
        const paths = TWO.has(k) ? (k.startsWith('rename') ? [0, 1] : [1]) : SECOND.has(k) ? [1] : ONE.has(k) ? [0] : [];
        const f = function (...a) {
            let mut = paths.length > 0, fail = null;
            if (mut && (k === 'open' || k === 'openSync')) { const fl = a[1]; mut = typeof fl === 'string' ? fl !== 'r' && fl !== 'rs' && fl !== 'r+' : typeof fl === 'number' ? (fl & 3) !== 0 : false; }
            if (mut) {
                for (const i of paths) if (typeof a[i] === 'string' || Buffer.isBuffer(a[i]) || a[i] instanceof URL) if (!inside(a[i]) && !(k.startsWith('mkdir') && fs.existsSync(a[i]))) { S.escapes.push(`${k} ${a[i]}`); fail = err('EPERM', k); }
                if (!fail && ++S.mutations === S.faultAt) { S.faulted = true; fail = err('EIO', k); }
            } else if (READS.has(k) && ++S.reads === S.readFaultAt) { S.faulted = true; fail = err('EIO', k); }
            if (fail) {
                if (promised) return Promise.reject(fail);
                const cb = a[a.length - 1]; if (!k.endsWith('Sync') && typeof cb === 'function') { setImmediate(cb, fail); return; }
                throw fail;
            }
            return Reflect.apply(v, t, a);
        };
        return promised || k.endsWith('Sync') ? f : Object.assign(f, v);
    } });
}
const deny = new Proxy({}, { get: (t, k) => typeof k === 'string' ? (...a) => { S.escapes.push('child_process.' + k); throw err('EPERM', k); } : undefined });
const gfs = guard(fs, false), gp = guard(fs.promises, true);
const quiet = new Proxy(console, { get: () => () => {} });
const L = load('fs', { console: quiet }, { fs: gfs, 'fs/promises': gp, child_process: deny });
process.umask(0o022);
if (process.getuid() === 0) { try { process.setgroups([]); process.setgid(65534); process.setuid(65534); } catch (e) { process.send({ fatal: 'cannot drop privileges: ' + e.message }); } }
process.chdir(ROOT);
// names of the specification stand for real names, by turns plain and unusual ones
const SCHEMES = [{}, { a: ' a', b: 'b ', c: '.hidden', n1: 'n 1', n2: 'u\u0308nï 漢😀', p: '..p', q: 'q.tar.gz', s: 's (1)', t: 't%20', 'p.lnk': ' .p.lnk' },
    { a: '-rf', b: '*', c: '$HOMe\u0301', n1: 'n'.repeat(200), n2: 'x\ny', p: 'lnk', q: '~', s: '~s', t: 't\'"', 'p.lnk': '漢.lnk' },
    { a: 'A', b: 'a', c: 'c.', n1: 'constructor', n2: '__proto__', p: 'node_modules', q: 'x.lnk.txt', s: 's', t: 's2', 'p.lnk': 'A.lnk' }, { a: '0', b: '00', c: '#c', n1: 'null', n2: 'length', p: '{p,q}', s: 't2', t: 't', q: 'x.LNK.d', 'p.lnk': '0.lnk' }];
let scheme = SCHEMES[0], names = new Map(), turn = 0;
const setScheme = k => { scheme = SCHEMES[k % SCHEMES.length]; names = new Map(Object.entries(scheme).map(([m, r]) => [r, m])); };
const real = n => Object.hasOwn(scheme, n) ? scheme[n] : n, model = n => names.get(n) ?? (Object.hasOwn(scheme, n) ? 'stray ' + n : n);
const P = p => path.join(ROOT, ...p.map(real));
// the same place written in different ways: absolute, relative to the working directory, with needless parts, with a slash at the end of a directory
let spelling = 0;
const W = (p, dirLike = false) => {
    const full = P(p), inner = path.relative(ROOT, full); let st = null; try { st = fs.lstatSync(full); } catch {}
    const tail = st ? st.isDirectory() : dirLike;
    switch (spelling++ % 6) { case 1: return inner; case 2: return './' + inner; case 3: return ROOT + '/./out/..//' + inner; case 4: return full + (tail ? '/' : ''); case 5: return inner + (tail ? '//' : ''); default: return full; }
};
// (targets that are not in normal form: a copied link has the very text of the link)
const LINK = { of: ROOT + '/out//f', od: ROOT + '/out/d/', gone: 'no/./such/../place', rel: 'e' };
const unlink_ = t => Object.keys(LINK).find(k => LINK[k] === t) ?? 'other target ' + t;
const TEXT = { x: 'x', y: 'y', z: 'z', e: '', xs: 'x\0', big: 'x'.repeat(1300), bigs: 'x'.repeat(1299) + 'y', big0: 'x'.repeat(1300) + '\0', k: 'x'.repeat(512), kx: 'x'.repeat(513), k2: 'x'.repeat(1024) };
const untext = new Map(Object.entries(TEXT).map(([k, v]) => [v, k]));
function wipe(dir) { for (const e of fs.readdirSync(dir, { withFileTypes: true })) { const p = path.join(dir, e.name); if (e.isDirectory()) { fs.chmodSync(p, 0o755); wipe(p); fs.rmdirSync(p); } else fs.unlinkSync(p); } }
function build(p, n) {
    if (n.k === 'file') fs.writeFileSync(p, TEXT[n.c] ?? n.c); else if (n.k === 'link') fs.symlinkSync(LINK[n.c], p);
    else if (n.k === 'dir') { fs.mkdirSync(p); for (const [name, kid] of n.kids) build(path.join(p, real(name)), kid); }
}
function snap(p) {
    let st; try { st = fs.lstatSync(p); } catch { return { k: 'none', c: '', kids: [] }; }
    if (st.isSymbolicLink()) return { k: 'link', c: unlink_(fs.readlinkSync(p)), kids: [] };
    if (st.isDirectory()) { let q; try { q = fs.readdirSync(p); } catch { return { k: 'dir', c: 'unreadable', kids: [] }; } return { k: 'dir', c: '', kids: q.map(n => [model(n), snap(path.join(p, n))]).sort((x, y) => (x[0] < y[0] ? -1 : 1)) }; }
    if (st.isFile()) { let t; try { t = fs.readFileSync(p, 'latin1'); } catch { t = 'unreadable'; } return { k: 'file', c: untext.get(t) ?? 'other content', kids: [] }; }
    return { k: 'other', c: '', kids: [] };
}
const SYM = { a: 'a', b: 'b', eacute: 'é', emoji: '😀', LS: '\u2028', PS: '\u2029', NEL: '\u0085', BOM: '\ufeff', CR: '\r', LF: '\n', Z: '\0' }, back = new Map(Object.entries(SYM).map(([k, v]) => [v, k]));
const text = q => q.map(x => x[0] === 'X' ? 'x'.repeat(+x.slice(1)) : SYM[x]).join('');
const syms = v => typeof v !== 'string' ? 'not text: ' + typeof v : [...v.matchAll(/x+|[^x]/gsu)].map(m => m[0][0] === 'x' ? 'X' + m[0].length : back.get(m[0]) ?? 'other ' + m[0].codePointAt(0));
async function sample(c, v) { // the file functions on a text
    const p = P(['text']);
    const put = (q, t) => { if (fs.existsSync(q)) fs.unlinkSync(q); if (t !== null) fs.writeFileSync(q, text(t)); };
    const lines = [], done = [], cb = (line, d) => { lines.push(syms(line)); if (d !== undefined) done.push(d); };
    const rejected = async f => { try { return await f(); } catch { return 'rejected'; } };
    switch (c.f) {
        case 'readline': case 'readlineFromCode': {
            const f = L[c.f], enc = c.mode === 'cb2' || c.form === 'string' ? 'utf8' : c.form, x = c.form === 'string' ? text(c.text) : Buffer.from(text(c.text), enc);
            if (c.mode === 'collect') { const q = enc === 'utf8' && v % 2 ? f(x, v % 4 === 1 ? null : undefined) : enc === 'utf8' && v % 4 ? f(x) : f(x, enc); return { lines: q.map(syms), done: [] }; }
            c.mode === 'cb2' ? f(x, cb) : f(x, enc, cb); return { lines, done };
        }
        case 'readlineStream': put(p, c.missing ? null : c.text); Object.assign(S, { cut: c.cut, fail: c.fail, pause: c.slow ? 160 : 0 });
            return rejected(async () => { if (c.mode === 'collect') { const q = await (v % 2 ? L.readlineStream(p) : L.readlineStream(p, 'utf8')); return { lines: q.map(syms), done: [] }; }
                const r = await (c.mode === 'cb2' ? L.readlineStream(p, x => cb(x)) : L.readlineStream(p, 'utf8', x => cb(x))); return r === true ? { lines, done: [] } : 'callback form answered ' + r; });
        case 'readFragment': put(p, c.missing ? null : c.text); Object.assign(S, { cut: c.cut, fail: c.fail, pause: 0 });
            return rejected(async () => { const o = { start: c.s, end: c.e, firstLine: c.first }; if (!c.s && v % 2) delete o.start; if (!c.e && v % 2) delete o.end; if (!c.first && v % 2) delete o.firstLine; const r = await L.readFragment(p, o); return r === undefined ? 'nothing' : { text: syms(r) }; });
        case 'readFile': put(p, c.missing ? null : c.text); return rejected(async () => ({ text: syms(await L.readFile(p)) }));
        case 'stripBOM': return { text: syms(L.stripBOM(text(c.text))) };
        case 'diffFile': { const q = P(['other']); put(p, c.missing === 'first' || c.missing === 'both' ? null : c.text); put(q, c.missing === 'second' || c.missing === 'both' ? null : c.other); const r = await L.diffFile(p, q); return r === true ? 'equal' : r === false ? 'different' : 'answered ' + r; }
    }
}
// writing, making folders, reading back: the place is d1/d2/.../t under the scratch directory
const units = q => String.fromCharCode(...q), MODES = { m600: 0o600, m777: 0o777, m666: 0o666, m755: 0o755 };
function dataOf(v, n, top) {
    switch (v.k) {
        case 'text': return units(v.t);
        case 'bytes': { const b = Buffer.from([9, ...v.b, 9]).subarray(1, 1 + v.b.length); return n % 3 === 1 ? new Uint8Array(b.buffer, b.byteOffset, b.length) : n % 3 === 2 ? new DataView(b.buffer, b.byteOffset, b.length) : b; }
        case 'lit': return JSON.parse(units(v.t));
        case 'nan': return [NaN, Infinity, -Infinity][n % 3];
        case 'undef': return undefined; case 'fn': return () => 1; case 'sym': return Symbol('s'); case 'big': return 7n;
        case 'circ': return top; case 'throws': return { toJSON() { throw new Error('no form'); } };
        case 'date': return new Date(86400000); case 'form': return { toJSON: () => dataOf(v.of, n) };
        case 'arr': { const a = []; for (const x of v.a) a.push(dataOf(x, n, top ?? a)); return a; }
        case 'obj': { const o = n % 3 === 1 ? Object.create(null) : n % 3 === 2 ? new (class Item {})() : {}; for (const p of v.o) Object.defineProperty(o, units(p.n), { value: dataOf(p.v, n, top ?? o), enumerable: true, writable: true, configurable: true }); return o; }
    }
}
async function written(c, v) {
    wipe(ROOT);
    const names = [['d1', 'd2', 'd3'], ['a b', '漢', '..x'], ["it's", '~', 'x'.repeat(120)]][v % 3], dirs = n => path.join(ROOT, ...names.slice(0, n)), opt = {};
    const deep = (o, k, x) => { if (x !== 'default') o[k] = x; else if (v % 4 === 3 && k !== 'flag' && k !== 'enc') o[k] = { mode: 0o755, isMkdir: true, isFormat: true, recursive: true }[k]; };
    const have = () => { let h = 0; while (h < 4) { let st; try { st = fs.lstatSync(dirs(h + 1)); } catch { break; } if (!st.isDirectory() || h + 1 > names.length) break; h++; } return h; };
    const refused = async f => { try { return { value: await f(), ok: true }; } catch (e) { if (e?.message === 'DID NOT SETTLE') throw e; return { ok: false, e }; } };
    if (c.f !== 'read') { for (let i = 1; i <= c.have; i++) fs.mkdirSync(dirs(i)); if (c.block) fs.writeFileSync(dirs(c.have + 1), 'in the way'); }
    const intact = () => !c.block || (fs.lstatSync(dirs(c.have + 1)).isFile() && fs.readFileSync(dirs(c.have + 1), 'utf8') === 'in the way');
    const spell = p => [p, path.relative(ROOT, p), './' + path.relative(ROOT, p)][(v + Math.trunc(v / 3)) % 3];
    if (c.f === 'mkdir') {
        deep(opt, 'recursive', c.rec === 'default' ? 'default' : c.rec === 'yes'); deep(opt, 'mode', c.mode === 'default' ? 'default' : MODES[c.mode]);
        const r = await refused(() => Object.keys(opt).length || v % 2 ? L.mkdir(spell(dirs(c.depth)), opt) : L.mkdir(spell(dirs(c.depth))));
        if (!intact()) return 'the file in the way was changed';
        const h = have(); return { ok: r.ok, have: h, modes: r.ok ? Array.from({ length: h - c.have }, (_, i) => fs.lstatSync(dirs(c.have + i + 1)).mode & 0o7777) : [] };
    }
    if (c.f === 'read') {
        const p = path.join(ROOT, 't'), raw = Buffer.from(units(c.t), c.enc === 'default' ? 'utf8' : c.enc);
        if (c.old.k === 'file') { fs.writeFileSync(p, raw); if (c.locked) fs.chmodSync(p, 0o444); } else if (c.old.k === 'dir') fs.mkdirSync(p);
        if (c.enc !== 'default') opt.encoding = c.enc; if (c.flag !== 'default') opt.flag = c.flag;
        const r = await refused(() => Object.keys(opt).length || v % 2 ? L.readFile(spell(p), opt) : L.readFile(spell(p)));
        if (r.ok && typeof r.value !== 'string') return 'answered ' + typeof r.value;
        return { ok: r.ok, t: r.ok ? [...Array(r.value.length).keys()].map(i => r.value.charCodeAt(i)) : [], same: c.old.k !== 'file' || fs.readFileSync(p).equals(raw) };
    }
    const p = path.join(dirs(c.depth), 't'); if (c.old.k === 'file') { fs.writeFileSync(p, Buffer.from(c.old.b)); fs.chmodSync(p, 0o640); } else if (c.old.k === 'dir') { fs.mkdirSync(p); }
    deep(opt, 'isMkdir', c.mk === 'default' ? 'default' : c.mk === 'yes'); deep(opt, 'isFormat', c.fmt === 'default' ? 'default' : c.fmt === 'yes'); deep(opt, 'mode', c.mode === 'default' ? 'default' : MODES[c.mode]);
    if (c.enc !== 'default') opt.encoding = c.enc; if (c.flag !== 'default') opt.flag = c.flag;
    const data = dataOf(c.data, v), before = JSON.stringify(opt);
    const r = await refused(() => Object.keys(opt).length || v % 2 ? L.writeFile(spell(p), data, opt) : L.writeFile(spell(p), data));
    if (JSON.stringify(opt) !== before) return 'the options were changed';
    if (r.ok && r.value !== undefined) return 'answered ' + typeof r.value;
    if (!intact()) return 'the file in the way was changed';
    let st = null; try { st = fs.lstatSync(p); } catch {}
    const k = !st ? 'none' : st.isDirectory() ? 'dir' : st.isFile() ? 'file' : 'other', loose = !r.ok && !(c.fmt !== 'no' && (c.data.k === 'obj' || c.data.k === 'arr') && unwritable(c.data));
    return { ok: r.ok, have: loose ? -1 : have(), file: { k, b: k === 'file' ? [...fs.readFileSync(p)] : [], mode: k === 'file' ? st.mode & 0o7777 : 0 } };
}
const unwritable = v => ['big', 'circ', 'throws'].includes(v.k) || (v.a ?? []).some(unwritable) || (v.o ?? []).some(x => unwritable(x.v));
const isRealDir = p => { try { return fs.lstatSync(P(p)).isDirectory(); } catch { return false; } };
const OPS = {
    copy: c => L.copy(W(c.from), W(c.to, isRealDir(c.from)), c.force === 'default' ? undefined : { forcibly: c.force === 'yes' }),
    copyFile: c => L.copyFile(P(c.from), P(c.base), P(c.to), c.force === 'default' ? undefined : { forcibly: c.force === 'yes' }),
    copySymbolicLink: c => L.copySymbolicLink(W(c.from), W(c.to)),
    deleteOne: c => L.deleteOne(c.slash ? P(c.from) + '/' : W(c.from)), clearDir: c => L.clearDir(W(c.from)),
    mkdir: c => L.mkdir(W(c.to, true)), writeFile: c => L.writeFile(W(c.to), TEXT[c.data], c.mk === 'default' ? undefined : { isMkdir: c.mk === 'yes' }),
    fileList: c => L.fileList(P(c.from), c.once === 'default' ? undefined : { depthOnce: c.once === 'yes' }),
    findDir: c => L.findDir(P(c.from), c.names.length === 1 && c.one ? real(c.names[0]) : c.names.map(real)),
    isFile: c => L.isFile(P(c.from)), isDir: c => L.isDir(P(c.from)), isSymbolicLink: c => L.isSymbolicLink(P(c.from)), symbolicLink: async c => { const r = await L.symbolicLink(P(c.from)); return r === null ? 'null' : unlink_(r); },
    diffFile: c => L.diffFile(P(c.from), P(c.to)),
    destPath: c => L.destPath(P(c.from), P(c.base), P(c.to), c.mk === 'default' ? undefined : { isMakeDir: c.mk === 'yes' }),
    readFile: c => L.readFile(P(c.from)), readFragment: c => L.readFragment(P(c.from), c.opt), readlineStream: c => c.cb ? (async () => { const q = []; const r = await L.readlineStream(P(c.from), line => { q.push(line); }); return r === true ? q : 'callback form answered ' + r; })() : L.readlineStream(P(c.from)),
};
const rel = v => typeof v === 'string' && v.startsWith(ROOT + '/') ? v.slice(ROOT.length + 1).split('/').map(model).join('/') : typeof v === 'string' && names.has(v) ? model(v) : Array.isArray(v) ? v.map(rel) : v;
const limit = (p, ms) => { let t; return Promise.race([p, new Promise((_, r) => { t = setTimeout(() => r(new Error('DID NOT SETTLE')), ms); })]).finally(() => clearTimeout(t)); };
let built = null;
process.on('uncaughtException', e => { S.escapes.push('uncaught exception ' + (e?.message ?? e)); });
process.on('unhandledRejection', e => { S.escapes.push('unhandled rejection ' + String(e?.message ?? e).slice(0, 200)); });
process.on('message', async m => {
    try {
        if (m.texts) { // many text requests at once
            const res = []; wipe(ROOT);
            for (const [c, v] of m.texts) { Object.assign(S, { escapes: [], faultAt: 0, readFaultAt: 0, mutations: 0, reads: 0, cut: undefined, fail: 0, pause: 0 });
                let o; try { o = await limit((c.f === 'write' || c.f === 'mkdir' || c.f === 'read' ? written : sample)(c, v), 20000); } catch (e) { o = { threw: String(e?.message || e).slice(0, 300) }; }
                if (S.escapes.length) o = { escapes: S.escapes }; res.push(o); S.cut = undefined; }
            process.send({ res }); return;
        }
        const { tree, op, faultAt = 0, readFaultAt = 0, keep = false, raw } = m;
        if (!keep) { wipe(ROOT); setScheme(m.scheme ?? turn++); for (const [name, kid] of tree.kids) build(path.join(ROOT, real(name)), kid); }
        if (raw) for (const [p, b64, mode] of raw) { fs.mkdirSync(path.dirname(P(p)), { recursive: true }); fs.writeFileSync(P(p), Buffer.from(b64, 'base64')); if (mode !== undefined) fs.chmodSync(P(p), mode); }
        Object.assign(S, { escapes: [], faultAt, readFaultAt, mutations: 0, reads: 0, faulted: false });
        let ok = true, value;
        try { value = await limit(OPS[op.f](op), 20000); } catch (e) { ok = false; value = String(e?.message ?? e).slice(0, 300); if (value === 'DID NOT SETTLE') S.escapes.push('the call never settled'); }
        if (readFaultAt || faultAt) await new Promise(r => setTimeout(r, 0));
        process.send({ ok, value: ['fileList', 'findDir', 'destPath'].includes(op.f) ? rel(value) : value, root: snap(ROOT), escapes: S.escapes, faulted: S.faulted, mutations: S.mutations, reads: S.reads });
    } catch (e) { process.send({ fatal: String(e?.stack || e) }); }
});
process.send({ ready: true });
