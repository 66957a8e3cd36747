// Runs TLC on /verif/spec/<module>.tla with a generated configuration; collects the JSON records the
// specification prints ("@E" edges, "@C" cases, "@B" rejected trace events) and the search statistics.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { StringDecoder } from 'node:string_decoder';
import crypto from 'node:crypto';
import { fileURLToPath } from 'node:url';
export const SPEC = fileURLToPath(new URL('../../spec', import.meta.url));
const CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar';

export function unTla(s) { // TLA+ string literal as TLC prints it -> JS string
    return s.replace(/\\(["\\tnfr])/g, (_, c) => ({ t: '\t', n: '\n', f: '\f', r: '\r' }[c] ?? c));
}
// while mutation testing (tools/mutate.mjs), the answers of TLC to the same question are kept; never used by a registered check
const KEEP = process.env.VERIF_TLC_CACHE;
export async function tlc(module, o = {}) {
    if (!KEEP) return tlcRun(module, o);
    const h = crypto.createHash('sha1'); for (const f of fs.readdirSync(SPEC).sort()) h.update(fs.readFileSync(path.join(SPEC, f)));
    h.update(module + o.cfg + (o.extra ?? []).join() + (o.env?.TRACE ? fs.readFileSync(o.env.TRACE) : '')); const file = path.join(KEEP, h.digest('hex') + '.json');
    if (fs.existsSync(file)) return JSON.parse(fs.readFileSync(file, 'utf8'));
    const r = await tlcRun(module, o); if (r.ok) { fs.writeFileSync(file + process.pid, JSON.stringify(r)); fs.renameSync(file + process.pid, file); } return r;
}
async function tlcRun(module, { cfg, env = {}, workers = 8, extra = [], mem = '4g', timeoutS = 800 } = {}) {
    const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vtlc-'));
    try {
        const cfgFile = path.join(dir, module + '.cfg');
        fs.writeFileSync(cfgFile, cfg);
        const args = ['-XX:+UseParallelGC', '-XX:ActiveProcessorCount=8', '-Xss64m', '-Xmx' + mem, '-cp', CP, '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + dir, 'tlc2.TLC',
            '-noGenerateSpecTE', '-deadlock', '-nowarning', '-workers', String(workers), '-metadir', path.join(dir, 'meta'), '-config', cfgFile, ...extra, path.join(SPEC, module + '.tla')];
        const rec = { E: [], C: [], B: [] }, rest = [];
        const out = await new Promise((resolve, reject) => {
            const p = spawn('java', args, { env: { ...process.env, ...env }, cwd: dir, stdio: ['ignore', 'pipe', 'pipe'] });
            let err = '', part = ''; const lines = new StringDecoder('utf8');
            const take = line => { const m = /^"@([ECB])(.*)"$/.exec(line); if (m) rec[m[1]].push(JSON.parse(unTla(m[2]))); else rest.push(line); };
            const t = setTimeout(() => { p.kill('SIGKILL'); }, timeoutS * 1000);
            p.stdout.on('data', d => { const a = (part + lines.write(d)).split('\n'); part = a.pop(); for (const x of a) take(x); }); p.stderr.on('data', d => err += d);
            p.on('error', reject);
            p.on('close', (code, sig) => { clearTimeout(t); take(part + lines.end()); resolve({ code, sig, err }); });
        });
        const text = rest.join('\n');
        const st = /(\d+) states generated, (\d+) distinct states found/.exec(text);
        const depth = /depth of the complete state graph search is (\d+)/.exec(text);
        const finished = /Model checking completed\. No error has been found/.test(text) || /Finished in/.test(text) && out.code === 0;
        return { ok: out.code === 0 && finished, code: out.code, text, err: out.err, edges: rec.E, cases: rec.C, bad: rec.B,
            transitions: st ? Number(st[1]) : 0, states: st ? Number(st[2]) : 0, depth: depth ? Number(depth[1]) : 0 };
    } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
/** Model checking that must pass: throws (a machinery error, not a violation) when the model itself fails. */
export async function mustTlc(module, opts) {
    const r = await tlc(module, opts);
    if (!r.ok) throw new Error(`TLC failed on ${module} (exit ${r.code}):\n` + r.text.slice(-3000) + r.err.slice(-1000));
    return r;
}
/** Writes ndjson events and lets TLC decide them with the given trace configuration. */
export async function checkTrace(module, events, { cfg, env = {}, ...o } = {}) {
    const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vtrace-'));
    const f = path.join(dir, 'trace.ndjson');
    try {
        fs.writeFileSync(f, events.map(e => JSON.stringify(e)).join('\n') + '\n');
        const r = await tlc(module, { cfg, env: { ...env, TRACE: f }, workers: 1, ...o });
        return r;
    } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
