// Runs the process package inside a box: an unprivileged user with an empty scratch directory (holding files named a and b).
import fs from 'node:fs';
import path from 'node:path';
import { load } from './bundle.mjs';
const ROOT = process.argv[2];
const L = load('process');
if (process.getuid() === 0) { process.setgroups([]); process.setgid(65534); process.setuid(65534); }
process.chdir(ROOT); process.env.PATH = '/usr/bin:/bin'; process.env.HOME = ROOT; process.umask(0o022);
for (const n of ['a', 'b', 'ab', 'e']) fs.writeFileSync(path.join(ROOT, n), '');
const limit = (p, ms) => { let t; return Promise.race([p, new Promise((_, r) => { t = setTimeout(() => r(new Error('DID NOT SETTLE')), ms); })]).finally(() => clearTimeout(t)); };
const bytes = x => Buffer.isBuffer(x) ? { bytes: x.toString('base64') } : x;
const tidy = r => ({ ...r, stdout: bytes(r.stdout), stderr: bytes(r.stderr), error: r.error ? String(r.error.code ?? r.error.message) : undefined });
const stray = []; process.on('uncaughtException', e => stray.push('uncaught ' + (e?.message ?? e))); process.on('unhandledRejection', () => {});
process.on('message', async m => {
    let r;
    try { r = { ok: true, ...tidy(await limit(Promise.resolve().then(() => m.f === 'exec' ? L.exec(...m.args) : L.spawn(...m.args)), 30000)) }; }
    catch (e) { r = { ok: false, ...(e && typeof e === 'object' && !(e instanceof Error) ? tidy(e) : { error: String(e?.code ?? e?.message ?? e), stdout: bytes(e?.stdout), stderr: bytes(e?.stderr) }) }; }
    await new Promise(r => setTimeout(r, 2));
    process.send({ r, stray: stray.splice(0), files: fs.readdirSync(ROOT).sort().join() });
});
process.send({ ready: true });
