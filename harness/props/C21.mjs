// C21 running commands: quoting for shells, and the outcome of the child process
import { EventEmitter } from 'node:events';
import { load, drain } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { fsbox } from '../lib/fsbox.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const CH = { sp: ' ', tab: '\t', nl: '\n', cr: '\r', sq: "'", dq: '"', bs: '\\', bq: '`' }, BACK = Object.fromEntries(Object.entries(CH).map(([k, v]) => [v, k]));
const str = q => q.map(x => CH[x] ?? x).join(''), syms = s => [...s].map(x => BACK[x] ?? x);
/** the process package on a stand-in for child_process */
function stub({ which = '' } = {}) {
    const y = { calls: [], children: [] };
    const spawn = (cmd, args, opts) => { y.calls.push({ cmd, args, opts }); const io = y.io ?? { stdout: 'pipe', stderr: 'pipe' };
        const c = new EventEmitter(); for (const k of ['stdout', 'stderr']) c[k] = io[k] === 'pipe' ? Object.assign(new EventEmitter(), { setEncoding() {}, resume() {} }) : null; c.stdin = { w: 1 }; c.pid = 7; c.kill = () => true; y.children.push(c); return c; };
    const mods = { spawn, spawnSync: (cmd, args) => ({ status: which ? 0 : 1, stdout: which + '\r\n', stderr: '' }), exec() { throw new Error('not here'); } };
    y.L = load('process', {}, { child_process: mods }); return y;
}
let nth = 0;
const STATUS = [[0, null], [1, null], [null, 'SIGKILL'], [255, null]], PIECES = ['abc', 'é😀', ' x ', '\n', '', 'z\u0000'];
const adapter = () => {
    const v = nth++, y = stub(), R = rng(SEED * 31 + v); let cfg, res = [], child, n = 0, err = new Error('boom'), raw = { stdout: [], stderr: [] }, all = {}, sent = { stdout: Buffer.alloc(0), stderr: Buffer.alloc(0) };
    const seen = x => {
        const one = k => { const want = sent[k], g = x[k]; if (cfg.io[k] !== 'pipe') return g === null || g === undefined ? ['none'] : ['unexpected']; const w = cfg.text === 'bytes' ? want : want.toString('utf8').trim(); const ok = cfg.text === 'bytes' ? Buffer.isBuffer(g) && g.equals(w) : g === w; return ok ? raw[k] : ['other', String(g)]; };
        return { stdout: one('stdout'), stderr: one('stderr') };
    };
    const view = async () => { await drain(); return res.slice(); };
    return {
        init: async s => {
            cfg = s.cfg; y.io = cfg.io;
            const opts = { stdio: cfg.io.stdout === 'pipe' && cfg.io.stderr === 'pipe' ? [undefined, 'pipe', null, ['pipe', 'pipe', 'pipe'], ['inherit', undefined, null]][v % 5] : cfg.io.stdout === 'ignore' && cfg.io.stderr === 'ignore' ? ['ignore', 'inherit'][v % 2] : [null, cfg.io.stdout, cfg.io.stderr] };
            if (opts.stdio === undefined) delete opts.stdio; if (cfg.text !== 'default') opts.isToString = cfg.text === 'text'; else if (v % 7 === 0) opts.isToString = undefined;
            const args = [['a b', '$x'], [], ['-v']][v % 3], keep = JSON.stringify([args, opts]);
            const check = x => x.cmd === 'prog' && JSON.stringify(x.args) === JSON.stringify(args) && JSON.stringify([args, opts]) === keep;
            const p = !args.length && v % 2 && Object.keys(opts).length === 0 ? y.L.spawn('prog') : y.L.spawn('prog', args, opts);
            p.then(x => res.push(!check(x) ? 'wrong command' : { how: ['closed', STATUS.findIndex(([a, b]) => a === x.status && b === x.signal)], ...seen(x) }), x => res.push(!x || !check(x) ? 'wrong command' : { how: [x.error === err ? 'error' : x.error === err.stream ? 'stream error' : 'other error', 0], ...seen(x) }));
            child = y.children[0]; err.stream = new Error('stream');
            const c = y.calls[0]; if (y.calls.length !== 1 || c.cmd !== 'prog' || JSON.stringify(c.args) !== JSON.stringify(args)) return ['spawned ' + JSON.stringify(y.calls.map(c => [c.cmd, c.args]))];
            await new Promise(r => setTimeout(r, v % 50 ? 0 : 2)); if (v % 50 === 0 && (p.stdin !== child.stdin || p.process !== child)) return ['no stdin or process'];
            return view();
        },
        step: async a => {
            const c = child[a.k];
            if (a.a === 'piece') { n++; if (!c) return ['no stream']; let b = Buffer.from(PIECES[(n + v) % PIECES.length]); // a character cut in the middle: its second half travels with the next piece
                const half = all[a.k] ?? Buffer.alloc(0); b = Buffer.concat([half, b]); all[a.k] = Buffer.alloc(0); if (!res.length) { sent[a.k] = Buffer.concat([sent[a.k], b]); raw[a.k] = [...raw[a.k], n]; } const cut = R.int(0, b.length); c.emit('data', b.subarray(0, cut)); c.emit('data', b.subarray(cut)); }
            else if (a.a === 'end') { c?.emit('end'); c?.emit('close'); } else if (a.a === 'exit') child.emit('exit', 0, null);
            else if (a.a === 'close') child.emit('close', ...STATUS[a.st]);
            else if (a.a === 'error') child.emit('error', err); else if (a.a === 'streamError') c.emit('error', err.stream);
            return view();
        },
        expect: o => o,
    };
};
export default async function (rep) {
    const np = THOROUGH ? 4 : 3;
    const m = await mustTlc('SpawnRun', { cfg: `CONSTANTS MaxPieces=${np}\nSPECIFICATION Spec\nINVARIANTS Complete EmitInit\nPROPERTIES Once\nACTION_CONSTRAINT Emit\n` });
    rep.model(m, 'SpawnRun'); const live = await mustTlc('SpawnRun', { cfg: 'CONSTANTS MaxPieces=1\nSPECIFICATION FairSpec\nPROPERTIES EndsOnce\n' }); rep.model(live, 'SpawnRun liveness');
    await replayGraph(rep, m.edges, adapter, { name: 'spawn-run', limit: THOROUGH ? 40000 : 4000, walks: THOROUGH ? 10000 : 1500, maxLen: 20 });
    // command lines built for a shell, read back by the shell models
    const R = rng(SEED * 61 + 21), A = ['a', 'b', 'sp', 'tab', 'nl', 'cr', 'sq', 'dq', 'bs', '$', '*', '?', '[', ']', '~', '{', ',', '}', ';', '#', 'bq', '&', '|', '<', '>', '(', ')', '=', '!', '%', '^', '-'], HOT = ['sq', 'bs', 'dq', 'sp', 'a'];
    const y = stub(), yc = { 'C:\\x\\prog.exe': stub({ which: 'C:\\x\\prog.exe' }), 'C:\\x\\prog.cmd': stub({ which: 'C:\\x\\prog.cmd' }), 'C:\\x\\Prog.BAT': stub({ which: 'C:\\x\\Prog.BAT' }), '': stub() };
    const all = []; const enumerate = (al, n, q = []) => { all.push(q); if (n) for (const x of al) enumerate(al, n - 1, [...q, x]); }; enumerate(HOT, THOROUGH ? 6 : 5); enumerate(A, 2);
    const arg = () => Array.from({ length: R.int(0, 7) }, () => R.pick(R.bool() ? HOT : A));
    let at = 0; const gen = () => { const args = at < all.length ? [all[at++]] : Array.from({ length: R.int(0, 4) }, arg); return args; };
    const want = new Map();
    const shell = (Y, sh, cmd, args) => { Y.calls.length = Y.children.length = 0; Y.L.spawn(cmd, args, { shell: sh }).catch(() => {}); return Y.calls[0]; };
    await recorded(rep, 'ShellWords', c => ({ read: want.get(c) }), { constants: 'Big=FALSE', name: 'ShellWords:sh', runs: all.length + (THOROUGH ? 20000 : 3000), gen: i => { const args = gen(), sh = [true, 'sh', '/bin/bash', 'zsh'][i % 4], cmd = ['prog', '"my prog" -x', './p'][i % 3], k = shell(y, sh, cmd, args.map(str)); let script = ['not a shell call'];
        if (k.cmd === (sh === true ? 'sh' : sh) && k.args.length === 2 && k.args[0] === '-c' && k.args[1].startsWith(cmd) && !k.opts.shell) script = syms(k.args[1].slice(cmd.length)); const c = { f: 'sh', script }; want.set(c, args); return c; } });
    at = 0; const noNl = q => q.map(x => x === 'nl' || x === 'cr' ? 'sp' : x);
    await recorded(rep, 'ShellWords', c => ({ read: want.get(c) }), { constants: 'Big=FALSE', name: 'ShellWords:cmd', runs: all.length + (THOROUGH ? 20000 : 3000), gen: i => { const args = gen().map(noNl), w = Object.keys(yc)[i % 4], k = shell(yc[w], ['cmd', 'cmd.exe', 'C:\\Windows\\CMD.EXE'][i % 3], 'prog', args.map(str)); let script = ['not a shell call'];
        if (k.args.length === 4 && k.args.slice(0, 3).join() === '/d,/s,/c' && k.args[3].startsWith('prog') && k.opts.windowsVerbatimArguments === true && !k.opts.shell) script = syms(k.args[3].slice(4)); const c = { f: 'cmd', twice: /cmd$|bat$/i.test(w), script }; want.set(c, args); return c; } });
    // real shells, in the box, in batches
    const box = await fsbox('./procworker.mjs');
    try {
        const START = 'a,ab,b,e'; let batch = [], timer = null, chain = Promise.resolve();
        const ask = async (how, args) => { const r = await box.run({ f: 'spawn', args: how === 'direct' ? ['printf', ['%s\\0', ...args.map(str)], { isToString: false }] : ["printf '%s\\0'", args.map(str), { shell: how === 'sh' ? true : how, isToString: false }] });
            if (r.died) return 'worker died ' + r.died; if (r.files !== START || r.stray.length) return 'side effect ' + r.files + r.stray; if (!r.r.ok || r.r.status !== 0) return 'failed ' + JSON.stringify(r.r).slice(0, 200); return Buffer.from(r.r.stdout.bytes, 'base64').toString().split('\0').slice(0, -1); };
        const flush = () => { timer = null; const B = batch; batch = []; chain = chain.then(async () => { for (const how of ['sh', 'bash', 'direct']) { const g = B.filter(e => e.c.how === how); if (!g.length) continue; const got = await ask(how, g.map(e => e.c.arg)); const fine = Array.isArray(got) && got.length === g.length && got.every((x, i) => x === str(g[i].c.arg));
            for (const [i, e] of g.entries()) { if (fine) { e.res({ argv: [syms(got[i])] }); continue; } const one = await ask(how, [e.c.arg]); e.res(Array.isArray(one) ? { argv: one.map(syms) } : one); } } }); };
        await cases(rep, 'ShellWords', c => new Promise(res => { batch.push({ c, res }); timer ??= setImmediate(flush); }), { constants: `Big=${THOROUGH ? 'TRUE' : 'FALSE'}`, name: 'ShellWords:real', parallel: 900 });
        // real outcomes
        const probe = async (key, msg, test) => { const r = await box.run(msg); rep.trace(1); if (r.died || r.stray.length || !test(r.r)) rep.violation('spawn-real:' + key, { call: msg, implementation: r }); };
        const big = 'x'.repeat(300000);
        await probe('output', { f: 'spawn', args: ['node', ['-e', `process.stdout.write('x'.repeat(300000)); process.stderr.write('y'); process.exitCode = 3`]] }, r => r.ok && r.status === 3 && r.signal === null && r.stdout === big && r.stderr === 'y');
        await probe('signal', { f: 'spawn', args: ['sh', ['-c', 'echo hi; kill -9 $$']] }, r => r.ok && r.status === null && r.signal === 'SIGKILL' && r.stdout === 'hi');
        await probe('missing', { f: 'spawn', args: ['no-such-program-x', ['a']] }, r => !r.ok && r.error === 'ENOENT' && r.cmd === 'no-such-program-x');
        await probe('invalid', { f: 'spawn', args: ['', []] }, r => !r.ok);
        await probe('missing in shell', { f: 'spawn', args: ['no-such-program-x', ['a b'], { shell: true }] }, r => r.ok && r.status === 127);
        await probe('exec', { f: 'exec', args: ['printf "%s|" a b; printf e >&2'] }, r => r.ok && r.stdout === 'a|b|' && r.stderr === 'e');
        await probe('exec list', { f: 'exec', args: [['printf', '"%s|"', 'a', '"b c"']] }, r => r.ok && r.stdout === 'a|b c|');
        await probe('exec buffer', { f: 'exec', args: ['printf a', { encoding: 'buffer' }] }, r => r.ok && r.stdout.bytes === 'YQ==');
        await probe('exec status', { f: 'exec', args: ['printf a; exit 3'] }, r => !r.ok && r.error === '3' && r.stdout === 'a');
    } finally { box.close(); }
}
