// Client of fsworker.mjs: several boxed workers, each with its own scratch directory and unprivileged user.
import { fork } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
export async function fsbox(worker = './fsworker.mjs') {
    const tmp = os.tmpdir(); if (path.basename(tmp).startsWith('vrun-')) fs.chmodSync(tmp, 0o711);
    const root = fs.realpathSync(fs.mkdtempSync(path.join(tmp, 'fsbox-'))); fs.chmodSync(root, 0o755);
    if (process.getuid() === 0) fs.chownSync(root, 65534, 65534);
    const child = fork(fileURLToPath(new URL(worker, import.meta.url)), [root], { stdio: ['ignore', 'inherit', 'pipe', 'ipc'], serialization: 'advanced', execArgv: ['--no-warnings', '--max-old-space-size=2000'] });
    child.stderr.resume();
    let wait = null, dead = null;
    child.on('message', m => { const w = wait; wait = null; w?.res(m); });
    child.on('exit', (c, s) => { dead = `worker ended (${c ?? s})`; const w = wait; wait = null; w?.res({ died: dead }); });
    const next = () => dead ? Promise.resolve({ died: dead }) : new Promise((res) => { wait = { res }; });
    const first = await next(); if (!first.ready) throw new Error('fs worker: ' + JSON.stringify(first));
    return { root, async run(msg) { const p = next(); if (!dead) child.send(msg); const r = await p; if (r.fatal) throw new Error('fs worker: ' + r.fatal); return r; },
        close() { child.removeAllListeners(); child.kill('SIGKILL'); fs.rmSync(root, { recursive: true, force: true }); } };
}
