// Heartbeat shared with a monitor thread: a call into the code under test that never returns is an answer
// ("does not terminate on this input"), not a check that hangs.
import { Worker, isMainThread, workerData } from 'node:worker_threads';
import fs from 'node:fs';
const N = 65536;
let ctr, buf;
export const HANG_MS = 40_000;
export function startMonitor(markerFile) {
    const sab = new SharedArrayBuffer(8 + N);
    ctr = new Int32Array(sab, 0, 2); buf = new Uint8Array(sab, 8);
    const w = new Worker(new URL(import.meta.url), { workerData: { beat: true, sab, markerFile, pid: process.pid } });
    w.unref();
}
const enc = new TextEncoder();
export function beat(desc) { // desc: what is being executed on the implementation; null: not in the implementation
    if (!ctr) return;
    if (desc === null) { Atomics.store(ctr, 1, 0); Atomics.add(ctr, 0, 1); return; }
    const r = enc.encodeInto(String(desc).slice(0, 16000), buf);
    Atomics.store(ctr, 1, r.written); Atomics.add(ctr, 0, 1);
}
if (!isMainThread && workerData?.beat) {
    const c = new Int32Array(workerData.sab, 0, 2), b = new Uint8Array(workerData.sab, 8);
    let last = -1, since = Date.now();
    setInterval(() => {
        const v = Atomics.load(c, 0), len = Atomics.load(c, 1);
        if (v !== last || len === 0) { last = v; since = Date.now(); return; }
        if (Date.now() - since > HANG_MS) {
            fs.writeFileSync(workerData.markerFile, Buffer.from(b.slice(0, len)));
            process.kill(workerData.pid, 'SIGKILL');
        }
    }, 500);
}
