// C20 ending a process tree. Nothing is ever signalled: process.kill and child_process are stand-ins.
import { EventEmitter } from 'node:events';
import cp from 'node:child_process';
import { load, drain } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const PIDS = [i => i, i => 9000 + i * 13, i => 40000 - i, i => [0, 700, 31, 99999, 5, 4194303, 12][i] ?? 60 + i, i => i * 10 + 1];
const SIGNALS = [undefined, 'SIGKILL', 'SIGTERM', 9, 15, 0];
const DENIED = ['EPERM', 'EINVAL', 'ERR_UNKNOWN_SIGNAL', undefined, 'EACCES'];
const BAD = ['abc', -1, 1.5, NaN, Infinity, '12x', {}];
/** the os package on stand-ins; opts.spawnReal: listing commands are really run */
export function killer(platform, { fate = () => 'ok', spawnReal = false, denied = 'EPERM' } = {}) {
    const y = { asked: new Map(), sent: [], bad: [], done: [], commands: [] };
    const kill = (pid, sig) => { if (typeof pid !== 'number') y.bad.push('pid is ' + typeof pid); y.sent.push([pid, sig]); const f = fate(pid); if (f !== 'ok') throw Object.assign(new Error('kill ' + f), f === 'gone' ? { code: 'ESRCH', errno: -3, syscall: 'kill' } : denied ? { code: denied, errno: -1, syscall: 'kill' } : {}); return true; };
    const fake = new Proxy({ platform, kill, pid: 4242, ppid: 1, env: {}, argv: [], version: process.version, versions: process.versions, nextTick: process.nextTick.bind(process), cwd: () => '/', on() { return fake; } }, { get: (t, k) => k in t ? t[k] : undefined });
    const spawn = (cmd, args) => {
        if (!['ps', 'pgrep'].includes(cmd)) throw new Error('refused to run ' + cmd);
        if (spawnReal) return cp.spawn(cmd, args);
        const want = platform === 'linux' ? cmd === 'ps' && args.some(a => String(a).startsWith('--ppid')) : cmd === 'pgrep' && args.includes('-P');
        const nums = args.map(a => /(\d+)$/.exec(String(a))?.[1]).filter(Boolean);
        if (!want || nums.length !== 1) { y.bad.push('listing command ' + [cmd, ...args].join(' ')); }
        const ps = Object.assign(new EventEmitter(), { stdout: new EventEmitter(), stderr: new EventEmitter(), kill() {}, pid: 1 });
        ps.stdout.setEncoding = e => { ps.enc = e; return ps.stdout; }; ps.stderr.setEncoding = () => ps.stderr; ps.stdout.resume = ps.stderr.resume = () => {};
        const pid = Number(nums[0]); if (y.asked.has(pid)) y.bad.push('listed twice ' + pid); y.asked.set(pid, ps); return ps;
    };
    const exec = (command, opt, cb) => { if (typeof opt === 'function') cb = opt; y.commands.push(command); y.execCb = cb; return new EventEmitter(); };
    const mods = new Proxy({ spawn, exec }, { get: (t, k) => k in t ? t[k] : k === '__esModule' ? undefined : () => { throw new Error('refused child_process.' + String(k)); } });
    y.os = load('os', { process: fake }, { child_process: mods, process: fake });
    return y;
}
let nth = 0;
const adapter = () => {
    const v = nth++, name = PIDS[v % PIDS.length], sig = SIGNALS[v % SIGNALS.length], R = rng(SEED * 1000 + v); let y, cfg, back, done = [];
    const view = async () => { await drain(); const r = { asked: [...y.asked.keys()].map(p => back.get(p) ?? 'pid ' + p).sort((a, b) => a - b), sent: y.sent.map(([p]) => back.get(p) ?? 'pid ' + p).sort((a, b) => a - b), done: done.slice() };
        for (const [, s] of y.sent) if (s !== sig) y.bad.push('signal ' + String(s)); if (y.bad.length) r.bad = y.bad;
        if (done[0] === 'error' && new Set(r.sent).size === r.sent.length && r.sent.every(p => typeof p === 'number')) r.sent = 'each at most once'; return r; };
    return {
        init: async s => {
            cfg = s.cfg; const n = cfg.par.length; back = new Map(Array.from({ length: n }, (_, i) => [name(i + 1), i + 1]));
            y = killer(cfg.kind === 'bad' ? ['linux', 'darwin', 'win32'][v % 3] : cfg.kind, { fate: p => cfg.fate[back.get(p) - 1] ?? 'ok', denied: DENIED[v % DENIED.length] });
            const cb = e => done.push(e instanceof Error ? 'error' : e === undefined || e === null ? 'ok' : 'unexpected ' + String(e));
            let pid = cfg.kind === 'bad' ? BAD[v % BAD.length] : v % 2 ? String(name(1)) : name(1);
            if (v % 3 === 0) y.os.asyncKill(pid, sig).then(cb, e => done.push('rejected ' + e)); else if (sig === undefined && v % 2) y.os.kill(pid, cb); else y.os.kill(pid, sig, cb);
            return view();
        },
        step: async a => {
            const p = name(a.p), ps = y.asked.get(p); if (!ps) return { bad: 'no listing pending' }; y.asked.delete(p);
            const kids = R.shuffle(cfg.par.map((q, i) => q === a.p ? name(i + 1) : 0).filter(Boolean));
            let t = kids.map(k => cfg.kind === 'darwin' ? k + '\n' : String(k).padStart(7) + '\n').join(''); const early = R.bool(0.3);
            if (early) ps.emit('exit', kids.length ? 0 : 1, null);
            while (t) { const k = R.pick([1, 2, 3, 5, t.length]); const part = Buffer.from(t.slice(0, k)); ps.stdout.emit('data', ps.enc ? part.toString() : part); t = t.slice(k); }
            ps.stdout.emit('end'); if (!early) ps.emit('exit', kids.length ? 0 : 1, null); ps.emit('close', kids.length ? 0 : 1, null);
            return view();
        },
        expect: o => ({ asked: o.asked, sent: o.done[0] === 'error' && cfg?.kind !== 'bad' ? 'each at most once' : cfg?.kind === 'bad' ? 'each at most once' : o.sent, done: o.done }),
    };
};
const alive = p => { try { process.kill(p, 0); return true; } catch { return false; } };
/** real process trees (sleeping shells), the real listing command, the killing replaced by a recorder */
async function realTree(par, platform) {
    const script = i => { const kids = par.map((q, k) => q === i ? k + 1 : 0).filter(Boolean); return kids.map(k => `( ${script(k)} ) &`).join(' ') + ` echo ${i} $BASHPID; ${kids.length ? 'wait' : 'exec sleep 60'}`; };
    const root = cp.spawn('bash', ['-c', script(1)], { stdio: ['ignore', 'pipe', 'ignore'], detached: true }); let out = ''; root.stdout.on('data', d => out += d);
    try {
        for (let t = 0; t < 200 && out.trim().split('\n').length < par.length; t++) await new Promise(r => setTimeout(r, 25));
        const map = new Map(out.trim().split('\n').map(l => l.split(' ').map(Number)).map(([i, p]) => [p, i])); if (map.size !== par.length) return 'no tree';
        const rootPid = [...map].find(([, i]) => i === 1)[0]; await new Promise(r => setTimeout(r, 60));
        const y = killer(platform, { spawnReal: true }); const r = await Promise.race([y.os.asyncKill(rootPid, 'SIGTERM').then(e => (e ? 'error' : 'ok')), new Promise(r => setTimeout(r, 10000, 'never'))]);
        return { done: r, sent: y.sent.map(([p]) => map.get(p) ?? 'other').sort((a, b) => a - b) };
    } finally { try { process.kill(-root.pid, 'SIGKILL'); } catch {} }
}
export default async function (rep) {
    const n = THOROUGH ? 5 : 4;
    const m = await mustTlc('KillTree', { cfg: `CONSTANTS N=${n}\nSPECIFICATION Spec\nINVARIANTS Everyone NotBefore OnceDone Ends EmitInit\nACTION_CONSTRAINT Emit\n`, mem: '8g' });
    rep.model(m, 'KillTree N=' + n);
    await replayGraph(rep, m.edges, adapter, { name: 'kill-tree', limit: THOROUGH ? 60000 : 12000, walks: THOROUGH ? 20000 : 3000, maxLen: 20 });
    // the command used on Windows, and its outcome
    for (const form of ['async', 'callback']) for (const err of [null, new Error('x')]) { const y = killer('win32'); const done = []; if (form === 'async') y.os.asyncKill(77).then(e => done.push(e)); else y.os.kill('77', e => done.push(e)); await drain(); const before = done.length; y.execCb?.(err); await drain();
        rep.trace(1); if (before || done.length !== 1 || done[0] !== err || y.commands.length !== 1 || !/^taskkill\b(?=.*\/T\b)(?=.*\/F\b).*\/PID 77\b/i.test(y.commands[0]) || y.sent.length) rep.violation(`kill-win:${form}:${!!err}`, { commands: y.commands, done: done.map(String), sent: y.sent }); }
    const R = rng(SEED * 59 + 20), list = []; for (let i = 0; i < (THOROUGH ? 30 : 8); i++) { const k = R.int(1, 7); list.push({ f: 'kill', par: Array.from({ length: k }, (_, j) => (j ? R.int(1, j) : 0)) }); }
    const got = await Promise.all(list.map((c, i) => realTree(c.par, i % 4 === 3 ? 'darwin' : 'linux')));
    const ok = list.map((c, i) => [c, got[i]]).filter(([, g]) => g !== 'no tree'); rep.extra.real_trees = ok.length;
    if (ok.length) await recorded(rep, 'KillReal', (c, i) => ok[i][1], { gen: i => ok[i][0], runs: ok.length });
}
