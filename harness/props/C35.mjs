// C35 Windows helpers, platform questions, opening with the system's program
import path from 'node:path';
import os from 'node:os';
import { EventEmitter } from 'node:events';
import { promisify } from 'node:util';
import { load } from '../lib/bundle.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const str = t => String.fromCharCode(...t), cps = s => Array.from({ length: s.length }, (_, i) => s.charCodeAt(i));
const REL = { wsl: ['4.4.0-19041-Microsoft', '5.15.90.1-microsoft-standard-WSL2'], plain: ['6.1.0-18-amd64'] };
/** the packages on a stand-in for the system: y.exec decides what a command prints, y.ran lists what was started */
const made = new Map(), y = {};
function world(type, release = 'x', platform = 'win32') {
    const key = [type, release, platform].join('|'); y.ran = []; if (made.has(key)) return made.get(key);
    const run = (cmd, opts) => { y.ran.push(cmd); const r = y.exec(cmd, opts ?? {}); const out = { stdout: r.stdout, stderr: r.stderr }; return r.status === 0 ? Promise.resolve(out) : Promise.reject(Object.assign(new Error('Command failed'), { code: r.status }, out)); };
    const exec = (cmd, opts, cb) => { if (typeof opts === 'function') cb = opts; run(cmd, opts).then(o => cb?.(null, o.stdout, o.stderr), e => cb?.(e, e.stdout, e.stderr)); };
    exec[promisify.custom] = run;
    const spawn = (cmd, args, opts) => { y.ran.push({ cmd, args, opts }); const c = new EventEmitter(); c.stdout = c.stderr = c.stdin = null; y.closed = false; setImmediate(() => setImmediate(() => { y.closed = true; c.emit('exit', 0, null); c.emit('close', 0, null); })); return c; };
    const cp = { exec, spawn, execFile() { throw new Error('not here'); }, spawnSync: () => ({ status: 1, stdout: '', stderr: '' }) };
    const o = { ...os, type: () => type, release: () => release, platform: () => platform };
    const fs = { existsSync: p => p === y.path ? y.exists : p === y.dirPath ? y.dir !== 'nothing' : false, lstatSync: p => ({ isDirectory: () => p === y.dirPath && y.dir === 'directory', isFile: () => p === y.dirPath && y.dir === 'file' }) }; fs.statSync = fs.lstatSync;
    const proc = Object.create(process, { platform: { value: platform }, env: { value: platform === 'win32' ? { ComSpec: 'C:\\WINDOWS\\system32\\cmd.exe', PATH: '' } : { PATH: '' } } });
    const P = type === 'Windows_NT' ? path.win32 : path;
    const L = load(['os', 'process'], { process: proc }, { child_process: cp, os: o, fs: { ...fs, promises: {} }, path: P }); made.set(key, L); return L;
}
const task = t => ({ name: cps(t.imageName), pid: cps(t.pid), session: cps(t.session.name), sid: cps(t.session.id), mem: cps(t.memusage) });
let nth = 0;
async function one(c) {
    nth++;
    switch (c.f) {
        case 'list': case 'find': {
            const L = world('Windows_NT'); y.exec = cmd => { if (!/^tasklist\b.*\/nh/i.test(cmd)) throw new Error('another command: ' + cmd); return { status: 0, stdout: nth % 3 ? str(c.text) : Buffer.from(str(c.text)), stderr: '' }; };
            return (c.f === 'list' ? await L.windowsTaskList() : await L.findWindowsTask(str(c.name))).map(task);
        }
        case 'kill': {
            const L = world('Windows_NT'); y.exec = () => ({ status: c.status, stdout: c.status ? '' : 'SUCCESS', stderr: c.complains ? 'ERROR: not found' : '' });
            const r = await L.killWindowsTask('some name.exe'); const w = y.ran[0].split(/ (?=(?:[^"]*"[^"]*")*[^"]*$)/).map(x => x.toLowerCase()); if (y.ran.length !== 1 || w[0] !== 'taskkill' || w[w.indexOf('/im') + 1] !== '"some name.exe"' || !w.includes('/f')) return 'another command: ' + y.ran; return r;
        }
        case 'language': {
            const L = world(c.windows ? 'Windows_NT' : 'Linux'); y.exec = () => ({ status: 0, stdout: str(c.text), stderr: '' });
            const r = await L.windowsLocal(); if (!c.windows && y.ran.length) return 'ran ' + y.ran; return r === null ? ['none'] : ['found', cps(r)];
        }
        case 'shortcut': {
            const L = world(c.windows ? 'Windows_NT' : 'Linux'), opts = {}; for (const k in c.opts) opts[k] = Array.isArray(c.opts[k]) ? str(c.opts[k]) : c.opts[k];
            y.path = str(c.path); y.dirPath = opts.dirPath; y.exists = c.exists; y.dir = c.dir; const keep = JSON.stringify(opts);
            try { await (Object.keys(opts).length || nth % 2 ? L.windowsMakeShortcut(y.path, opts) : L.windowsMakeShortcut(y.path)); } catch (e) { return y.ran.length ? 'ran, then threw' : e instanceof Error ? ['refused'] : 'threw no error'; }
            if (JSON.stringify(opts) !== keep) return 'changed its options'; if (!y.ran.length) return ['nothing']; if (!y.closed) return 'answered while the script still ran';
            const { cmd, args } = y.ran[0]; if (y.ran.length !== 1 || !/^wscript(\.exe)?$/i.test(cmd) || !/[\\/]scripts[\\/]shortcut\.vbs$/.test(args[0]) || args.some(a => typeof a !== 'string')) return 'another command';
            const a = args.slice(1).map(cps); a[7] = +args[8]; return ['made', a];
        }
        case 'platform': { const L = world(c.type, c.release); return { windows: L.isWindows, mac: L.isMacOS, linux: L.isLinux, wsl: L.isWSL, cmd: L.appendCmd('npm') }; }
        case 'open': {
            const L = world('', REL[c.release][nth % REL[c.release].length], c.platform), opts = c.command ? { command: c.command } : {}, arg = c.one ? c.args[0] : c.args.slice(), keep = JSON.stringify([opts, arg]);
            await (Object.keys(opts).length || nth % 2 ? L.open(arg, opts) : L.open(arg)); if (JSON.stringify([opts, arg]) !== keep) return 'changed its arguments';
            const k = y.ran[0]; if (y.ran.length !== 1) return 'ran ' + y.ran.length; if (!y.closed) return 'answered while the program still ran'; const win = /(^|\\)cmd(\.exe)?$/i.test(k.cmd), script = k.args[k.args.length - 1];
            if (k.args[0] !== (win ? '/d' : '-c')) return 'another shell call'; const w = script.split(' '); let program = w.shift(); if (program === 'start' && w.shift() !== '""') return 'no title';
            return { program, shell: win ? 'cmd' : k.cmd, args: w };
        }
    }
}
export default async function (rep) {
    await cases(rep, 'WinTools', one, { spec: 'WSpec', constants: THOROUGH ? 'MaxName=5 MaxList=4' : 'MaxName=3 MaxList=3' });
    const R = rng(SEED * 7 + 35), dig = (a, b) => cps(String(R.int(a, b)));
    const name = () => { for (;;) { const s = Array.from({ length: R.int(1, 25) }, () => R.pick([' ', 'a', 'b', '.', '9', 'K', '(', '漢', ',', '-', ' '])).join(''); if (s.trim() === s) return cps(s); } };
    const padR = (t, n) => [...t, ...Array(Math.max(0, n - t.length)).fill(32)], padL = (t, n) => [...Array(Math.max(0, n - t.length)).fill(32), ...t];
    const line = k => [...padR(k.name, 25), 32, ...padL(k.pid, 8), 32, ...padR(k.session, 16), 32, ...padL(k.sid, 11), 32, ...padL(/\d/.test(str(k.mem)) ? [...cps((+str(k.mem)).toLocaleString('en-US')), 32, 75] : k.mem, 12), 13, 10];
    await recorded(rep, 'WinTools', one, { constants: 'MaxName=0 MaxList=0', runs: THOROUGH ? 20000 : 3000, gen: i => {
        const tasks = Array.from({ length: R.int(0, 8) }, () => ({ name: R.bool(0.2) ? cps('svc host') : name(), pid: dig(0, R.pick([9, 30000, 99999999])), session: cps(R.pick(['Console', 'Services', 'RDP-Tcp#12', ''])), sid: dig(0, R.pick([3, 65536])), mem: R.bool(0.05) ? cps('N/A') : dig(0, R.pick([900, 90000, 9999999])) }));
        const text = [13, 10, ...tasks.flatMap(line)]; return i % 3 ? { f: 'list', tasks, text } : { f: 'find', tasks, text, name: R.bool() || !tasks.length ? cps('svc host') : R.pick(tasks).name };
    } });
}
