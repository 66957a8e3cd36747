// Builds the packages of /repo's working tree at check time (esbuild, in memory) and
// instantiates them with every source of nondeterminism replaceable: timers, clock, randomness,
// console, process and the node core modules can be swapped for doubles per instance.
import { createRequire } from 'node:module';
import path from 'node:path';
const require = createRequire(import.meta.url);
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
export const REPO = process.env.VERIF_REPO || '/repo';
const cache = new Map();

function bundle(entryCode) {
    if (cache.has(entryCode)) return cache.get(entryCode);
    const r = esbuild.buildSync({
        stdin: { contents: entryCode, resolveDir: REPO, sourcefile: 'verif-entry.ts', loader: 'ts' },
        bundle: true, write: false, format: 'cjs', platform: 'node', target: 'esnext',
        logLevel: 'silent', tsconfigRaw: { compilerOptions: { target: 'esnext' } },
        alias: Object.fromEntries(['array','asserts','cookie','fs','function','number','object','os','path','process','regexp','request','string','term','types','util']
            .map(p => ['@curong/' + p, path.join(REPO, 'packages', p, 'src')]))
    });
    const code = r.outputFiles[0].text;
    cache.set(entryCode, code);
    return code;
}
const fns = new Map();
const SHADOW = ['setTimeout','clearTimeout','setInterval','clearInterval','setImmediate','clearImmediate','queueMicrotask',
    'Date','Math','crypto','console','process','globalThis','global','window','performance'];

/** load('function', {setTimeout, Date, ...}, {'node:fs': double}) -> the package's public exports */
export function load(pkgs, globals = {}, modules = {}) {
    const list = Array.isArray(pkgs) ? pkgs : [pkgs];
    const code = bundle(list.map(p => p.includes('/') ? `export * from '${path.join(REPO, 'packages', p.replace('/', '/src/'))}';` : `export * from '@curong/${p}';`).join('\n'));
    return instantiate(code, globals, modules);
}
export function instantiate(code, globals = {}, modules = {}) {
    const real = globalThis;
    const g = {};
    for (const k of SHADOW) {
        if (k === 'globalThis' || k === 'global' || k === 'window') continue;
        g[k] = k in globals ? globals[k] : real[k];
    }
    const gt = new Proxy(real, {
        get: (t, k) => k in g ? g[k] : (k === 'globalThis' || k === 'global') ? gt : Reflect.get(t, k),
    });
    g.__dirname = globals.__dirname ?? '/pkg/src/dir'; g.__filename = g.__dirname + '/file.js';
    g.globalThis = gt; g.global = gt; g.window = 'window' in globals ? globals.window : undefined;
    const req = id => {
        const bare = id.replace(/^node:/, '');
        for (const k of [id, bare, 'node:' + bare]) if (k in modules) return modules[k];
        return require(id);
    };
    const module = { exports: {} };
    const names = Object.keys(g).filter(k => k !== 'window' || g.window !== undefined);
    const fk = names.join() + '\n' + code;
    let fn = fns.get(fk);
    if (!fn) fns.set(fk, fn = new Function('require', 'module', 'exports', ...names, code));
    fn(req, module, module.exports, ...names.map(k => g[k]));
    return module.exports;
}

/** A virtual clock: timers fire only when the driver says so. */
export function virtualTime(start = 1_700_000_000_000) {
    let now = start, seq = 0;
    const timers = new Map();
    const mk = (fn, ms, args, every) => {
        ms = Number(ms); if (!(ms >= 1)) ms = 1; if (ms > 2147483647) ms = 1; ms = Math.trunc(ms);
        const id = ++seq;
        const h = { id, due: now + ms, ms, fn, args, every, ref() { return h; }, unref() { return h; }, hasRef() { return true; }, [Symbol.toPrimitive]() { return id; },
            close() { timers.delete(id); return h; }, refresh() { h.due = now + ms; return h; } };
        timers.set(id, h);
        return h;
    };
    const clear = h => { if (h == null) return; const id = typeof h === 'object' ? h.id : Number(h); timers.delete(id); };
    class VDate extends Date {
        constructor(...a) { if (a.length) super(...a); else super(now); }
        static now() { return now; }
    }
    const vt = {
        globals: {
            setTimeout: (fn, ms, ...args) => mk(fn, ms, args, false), clearTimeout: clear,
            setInterval: (fn, ms, ...args) => mk(fn, ms, args, true), clearInterval: clear, Date: VDate,
            performance: { now: () => now - start },
        },
        now: () => now, pending: () => [...timers.values()].sort((a, b) => a.due - b.due || a.id - b.id),
        fire(h) { if (!timers.has(h.id)) return false; if (h.due > now) now = h.due; if (h.every) h.due = now + h.ms; else timers.delete(h.id); h.fn(...h.args); return true; },
        /** advance the clock, firing everything due, draining microtasks between timers */
        async advance(ms, drain) {
            const target = now + ms;
            for (let n = 0; n < 10000; n++) {
                const next = vt.pending()[0];
                if (!next || next.due > target) break;
                vt.fire(next);
                if (drain) await drain();
            }
            now = target;
            if (drain) await drain();
        },
        jump(ms) { now += ms; },
    };
    return vt;
}
const realImmediate = setImmediate;
export const drain = () => new Promise(r => realImmediate(r));
