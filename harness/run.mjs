// node run.mjs <property id>: runs the property's driver in a child process, watched for non-termination.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { Report } from './lib/report.mjs';
const id = process.argv[2];
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vrun-'));
const marker = path.join(dir, 'hang');
const child = spawn(process.execPath, ['--expose-gc', '--stack-size=2000', '--max-old-space-size=6000', fileURLToPath(new URL('./inner.mjs', import.meta.url)), id, marker],
    { stdio: 'inherit', env: { ...process.env, TZ: 'UTC', LC_ALL: 'C.UTF-8', TMPDIR: dir } });
for (const s of ['SIGTERM', 'SIGINT']) process.on(s, () => { child.kill('SIGKILL'); fs.rmSync(dir, { recursive: true, force: true }); process.exit(2); });
child.on('close', (code, sig) => {
    let rc = code ?? 2;
    if (fs.existsSync(marker)) {
        const rep = new Report(id);
        rep.violation('hang', 'the call does not return: ' + fs.readFileSync(marker, 'utf8'));
        rep.traces = 1; rep.sample('non-terminating call');
        rc = rep.finish();
    }
    fs.rmSync(dir, { recursive: true, force: true });
    process.exit(rc);
});
