// fs on a stand-in for a system with shortcuts (C19)
import path from 'node:path';
import { promisify } from 'node:util';
import { load } from './bundle.mjs';
const W = path.win32, FOLDER = ['', 'C:\\top', 'sub one', "D'or & Co", 'deep'], FILE = ['', 'a.txt', 'b.js', 'c d.md', 'e.png'], ELSEWHERE = 'E:\\far\\other.zip';
const NAMES = ['', 'C:\\a.lnk', "C:\\O'Brien\\x.lnk", 'C:\\a b\\c.lnk', 'C:\\a & b\\c.lnk', 'C:\\Program Files (x86)\\y.lnk', 'C:\\100%\\z.lnk', "C:\\''q\\r.lnk", 'C:\\你好\\世.lnk'];
const TARGETS = ['', 'C:\\a.exe', 'D:\\dir', "C:\\it's\\b.exe", 'C:\\a b\\c d.txt', 'C:\\x & y', '\\\\server\\share\\f.doc', 'C:\\你好.txt', 'C:\\(1)\\[2].txt'];
const w = {}; // the world of the running call
/** what PowerShell answers to a question for the target of a shortcut */
function shell(script) {
    const m = /^\s*&?\s*\(New-Object -COM WScript\.Shell\)\.CreateShortcut\('((?:[^']|'')*)'\)\.TargetPath;?\s*$/i.exec(script);
    return m ? w.answer(m[1].replace(/''/g, "'")) : { code: 1, stdout: '', stderr: 'ParserError\r\n' };
}
function system(file, args) {
    if (!/^powershell(\.exe)?$/i.test(file)) return { code: 'ENOENT', stdout: '', stderr: '' };
    const i = args.findIndex(a => /^-(c|command)$/i.test(a)), rest = args.slice(i + 1).join(' '), q = /^"(.*)"$/.exec(rest);
    return i < 0 ? { code: 1, stdout: '', stderr: 'usage\r\n' } : shell(q ? q[1] : rest);
}
/** a command line through cmd.exe: an ampersand (and the like) outside of double quotes ends the command */
function line(cmd) {
    let quoted = false; for (const ch of cmd) { if (ch === '"') quoted = !quoted; else if (!quoted && '&|<>'.includes(ch)) return { code: 1, stdout: '', stderr: 'syntax\r\n' }; }
    const m = /^\s*(\S+)\s+(.*)$/.exec(cmd); return m ? system(m[1], m[2].split(' ')) : { code: 1, stdout: '', stderr: '' };
}
const settle = r => r.code ? Promise.reject(Object.assign(new Error('Command failed'), r)) : Promise.resolve({ stdout: r.stdout, stderr: r.stderr });
const later = (p, cb) => { p.then(o => cb?.(null, o.stdout, o.stderr), e => cb?.(e, e.stdout, e.stderr)); return {}; };
const exec = (cmd, o, cb) => later(settle(line(cmd)), cb ?? o), execFile = (f, a, o, cb) => later(settle(system(f, a)), cb ?? o);
exec[promisify.custom] = cmd => settle(line(cmd)); execFile[promisify.custom] = (f, a) => settle(system(f, a));
const dirent = (name, isDir) => ({ name, isDirectory: () => isDir, isFile: () => !isDir, isSymbolicLink: () => false });
const readdir = async p => { const d = w.dirs.get(W.resolve(p)); if (++w.reads > 200) throw new Error('does not end'); if (!d) throw Object.assign(new Error('ENOENT'), { code: 'ENOENT' }); return d; };
const none = new Proxy({}, { get: (_, k) => (k === 'then' || typeof k === 'symbol' ? undefined : () => { throw new Error('not here: ' + String(k)); }) });
const fs = { promises: Object.assign(Object.create(none), { readdir }), createReadStream() {}, constants: {} };
const libs = {};
const lib = platform => libs[platform] ??= load('fs', {}, { fs: new Proxy(fs, { get: (t, k) => t[k] ?? (typeof k === 'string' ? () => { throw new Error('not here: ' + k); } : undefined), has: () => true }), path: W, child_process: { exec, execFile, spawn() { throw new Error('not here'); } }, process: { ...process, platform, cwd: () => 'C:\\', env: {} } });
const quietly = async (L, f) => { const keep = console.error; try { return await f(L); } finally { console.error = keep; } };
export async function shortcuts(c, v) {
    if (c.f === 'read') {
        const L = lib(c.system === 'windows' ? 'win32' : 'linux'), end = ['\r\n', '\n', ''][v % 3];
        w.answer = p => p !== NAMES[c.path] ? { code: 0, stdout: end, stderr: '' } : c.answer === 'found' ? { code: 0, stdout: TARGETS[c.target] + end, stderr: '' } : c.answer === 'complaint' ? { code: 0, stdout: '', stderr: 'Exception calling\r\n' } : { code: 1, stdout: '', stderr: '' };
        const p = v % 4 === 3 ? NAMES[c.path].replaceAll('\\', '/') : NAMES[c.path];
        try { const r = await L.readLnk(p), i = TARGETS.indexOf(r); return ['ok', i > 0 ? i : r]; } catch { return ['error']; }
    }
    const L = lib('win32'), at = [''], place = i => at[i] ??= i === 1 ? FOLDER[1] : c.up[i - 1] ? W.join(place(c.up[i - 1]), FOLDER[i]) : 'F:\\' + FOLDER[i];
    for (const i of [1, 2, 3, 4]) place(i);
    const goal = t => t === 0 ? '' : t === 20 ? ELSEWHERE : t > 10 ? W.join(at[t - 10], FILE[t - 10]) : at[t], to = new Map();
    w.dirs = new Map([1, 2, 3, 4].map(i => [at[i], [...(c.file[i - 1] ? [dirent(FILE[i], false)] : []), ...[1, 2, 3, 4].filter(j => c.up[j - 1] === i).map(j => dirent(FOLDER[j], true))]])); w.reads = 0;
    c.ways.forEach(([i, t], k) => { const name = `way ${k}.lnk`; to.set(W.join(at[i], name), goal(t)); const d = w.dirs.get(at[i]); d.splice((v + k) % (d.length + 1), 0, dirent(name, false)); });
    w.answer = p => to.get(p) ? { code: 0, stdout: to.get(p) + '\r\n', stderr: '' } : v % 2 ? { code: 1, stdout: '', stderr: 'cannot\r\n' } : { code: 0, stdout: '\r\n', stderr: '' };
    let r; try { r = c.f === 'list' ? await L.fileList(at[1]) : await L.findDir(at[1], c.names.length === 1 && v % 2 ? FOLDER[c.names[0]] : c.names.map(i => FOLDER[i])); } catch (e) { return 'failed: ' + (e?.message ?? e); }
    const all = c.f === 'list' ? [1, 2, 3, 4].map(i => W.join(at[i], FILE[i])).concat(ELSEWHERE) : at.slice(1);
    const other = r.filter(p => !all.includes(p)); if (other.length) return 'also ' + other;
    return [0, 1, 2, 3, 4].map(i => r.filter(p => p === all[i]).length);
}
