// bundles the packages of the current directory (the repository) and loads them
import { createRequire } from 'node:module';
import path from 'node:path';
import fs from 'node:fs';
const require = createRequire(import.meta.url);
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const REPO = process.cwd();
/** load('function', {modules: {'node:fs': double}, globals: {setTimeout}}) */
export function load(pkg, { modules = {}, globals = {} } = {}) {
    const names = fs.readdirSync(path.join(REPO, 'packages'));
    const r = esbuild.buildSync({ stdin: { contents: `export * from '${path.join(REPO, 'packages', pkg.replace(/^([^/]+)/, '$1/src'))}';`, resolveDir: REPO, sourcefile: 'entry.ts', loader: 'ts' },
        bundle: true, write: false, format: 'cjs', platform: 'node', target: 'esnext', logLevel: 'silent', tsconfigRaw: { compilerOptions: { target: 'esnext' } },
        alias: Object.fromEntries(names.map(p => ['@curong/' + p, path.join(REPO, 'packages', p, 'src')])) });
    const module = { exports: {} }, k = Object.keys(globals);
    const req = id => { for (const m of [id, 'node:' + id, id.replace(/^node:/, '')]) if (m in modules) return modules[m]; return require(id); };
    new Function('require', 'module', 'exports', ...k, r.outputFiles[0].text)(req, module, module.exports, ...k.map(n => globals[n]));
    return module.exports;
}
export const sleep = ms => new Promise(r => setTimeout(r, ms));
export function check(ok, what) { if (!ok) { console.log('FAIL ' + what); process.exit(1); } }
setTimeout(() => { console.log('FAIL hangs'); process.exit(1); }, 60000).unref();
