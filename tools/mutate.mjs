// mutate.mjs [--jobs N] [--max N] <property> [file ...]: systematic small changes to the files a property is about, each given to the property's check.
// Prints the changes that go unnoticed although they compile. A development aid: works on clones under /tmp/mu-<property>, from a copy of /verif.
import { createRequire } from 'node:module';
import fs from 'node:fs'; import path from 'node:path'; import { spawn, execSync } from 'node:child_process';
const require = createRequire(import.meta.url); const ts = require('/opt/veriftools/node/node_modules/typescript');
const argv = process.argv.slice(2); let jobs = 6, max = 1e9; for (;;) { if (argv[0] === '--jobs') { jobs = +argv[1]; argv.splice(0, 2); } else if (argv[0] === '--max') { max = +argv[1]; argv.splice(0, 2); } else break; }
const prop = argv.shift(); const MU = '/tmp/mu-' + prop, V = MU + '/verif', REPO = '/repo';
const props = fs.readFileSync('/verif/properties.jsonl', 'utf8').trim().split('\n').map(JSON.parse);
const walk = f => fs.statSync(f).isDirectory() ? fs.readdirSync(f).flatMap(x => walk(path.join(f, x))) : [f];
let files = (argv.length ? argv.map(x => 'packages/' + x) : props.find(p => p.id === prop).anchors.files).flatMap(f => { const p = path.join(REPO, f); return fs.existsSync(p) ? walk(p) : walk(path.dirname(p)).filter(x => x.startsWith(p)); })
    .filter(f => f.endsWith('.ts') && !/__tests__|\.test\.|\.d\.ts|\/types\/[A-Z]/.test(f) && !/\/index\.ts$/.test(f));
files = [...new Set(files)];
function mutants(file) {
    const src = fs.readFileSync(file, 'utf8'), sf = ts.createSourceFile(file, src, ts.ScriptTarget.Latest, true), out = [];
    const put = (n, text, what) => { const a = n.getStart(sf), b = n.end; if (src.slice(a, b) !== text) out.push({ file, a, b, text, what, line: sf.getLineAndCharacterOfPosition(a).line + 1 }); };
    const OPS = { '<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '===': ['!=='], '!==': ['==='], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '%': ['*'], '??': ['||'], '|': ['&'], '&': ['|'], '<<': ['>>'], '>>': ['<<'], '>>>': ['>>'], '+=': ['='], '-=': ['+='], '??=': ['='], '||=': ['='] };
    const CALLS = { startsWith: 'endsWith', endsWith: 'startsWith', push: 'unshift', unshift: 'push', pop: 'shift', shift: 'pop', floor: 'ceil', ceil: 'floor', round: 'floor', min: 'max', max: 'min', every: 'some', some: 'every', toLowerCase: 'toUpperCase', toUpperCase: 'toLowerCase', indexOf: 'lastIndexOf', lastIndexOf: 'indexOf', trimStart: 'trim', trimEnd: 'trim', trim: 'toString', padStart: 'padEnd', padEnd: 'padStart', on: 'once', codePointAt: 'charCodeAt', charCodeAt: 'codePointAt', apply: 'call', getOwnPropertyNames: 'keys', ownKeys: 'keys', replaceAll: 'replace', finally: 'then', freeze: 'seal', lstat: 'stat' };
    const inError = n => { for (let p = n; p; p = p.parent) { if (ts.isThrowStatement(p)) return true; if (ts.isNewExpression(p) && /Error$/.test(p.expression.getText(sf))) return true; if (ts.isCallExpression(p) && p.expression.getText(sf) === 'format') return true; if (ts.isFunctionLike(p)) return false; } return false; };
    const visit = n => {
        if (ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n) || ts.isTypeNode(n)) return;
        if (ts.isThrowStatement(n)) { put(n, ';', 'no throw'); ts.forEachChild(n, visit); return; }
        if (!inError(n)) {
            if (ts.isBinaryExpression(n)) { for (const r of OPS[n.operatorToken.getText(sf)] ?? []) put(n.operatorToken, r, n.operatorToken.getText(sf) + ' -> ' + r); if (['&&', '||', '??'].includes(n.operatorToken.getText(sf))) { put(n, n.left.getText(sf), 'left only'); put(n, n.right.getText(sf), 'right only'); } }
            if (ts.isPrefixUnaryExpression(n)) { if (n.operator === ts.SyntaxKind.ExclamationToken) put(n, n.operand.getText(sf), 'no !'); else if (n.operator === ts.SyntaxKind.MinusToken) put(n, n.operand.getText(sf), 'no -'); else if (n.operator === ts.SyntaxKind.PlusToken) put(n, n.operand.getText(sf), 'no +'); }
            if (ts.isNumericLiteral(n)) { put(n, String(Number(n.text) + 1), 'n+1'); if (Number(n.text) > 0) put(n, String(Number(n.text) - 1), 'n-1'); }
            if (ts.isStringLiteral(n) && !/[\u4e00-\u9fff]/.test(n.text) || n.kind === ts.SyntaxKind.NoSubstitutionTemplateLiteral) { if (!ts.isLiteralTypeNode(n.parent)) put(n, n.text === '' ? "'x'" : "''", 'string'); }
            if (n.kind === ts.SyntaxKind.TrueKeyword) put(n, 'false', 'true->false'); if (n.kind === ts.SyntaxKind.FalseKeyword) put(n, 'true', 'false->true');
            if (ts.isConditionalExpression(n)) { put(n, n.whenTrue.getText(sf), 'cond true'); put(n, n.whenFalse.getText(sf), 'cond false'); }
            if (ts.isIfStatement(n)) { put(n.expression, 'false as boolean', 'if false'); put(n.expression, 'true as boolean', 'if true'); }
            if (ts.isExpressionStatement(n)) put(n, ';', 'no statement');
            if (ts.isBreakStatement(n) || ts.isContinueStatement(n)) put(n, ';', 'no break');
            if (ts.isAwaitExpression(n)) put(n, '(' + n.expression.getText(sf) + ' as any)', 'no await');
            if (ts.isReturnStatement(n) && n.expression && n.parent.parent && !ts.isFunctionLike(n.parent.parent)) put(n, ';', 'no return');
            if (ts.isPropertyAccessExpression(n) && n.questionDotToken) put(n.questionDotToken, '.', 'no ?');
            if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) { const m = n.expression.name.text; if (CALLS[m]) put(n.expression.name, CALLS[m], m + ' -> ' + CALLS[m]); if (['slice', 'substring', 'sort', 'filter', 'reverse', 'trim', 'catch', 'map', 'flat', 'concat'].includes(m)) put(n, n.expression.expression.getText(sf), 'no ' + m); }
            if (ts.isSpreadElement(n) && false) put(n, n.expression.getText(sf), 'no spread');
            if (n.kind === ts.SyntaxKind.RegularExpressionLiteral) {
                const m = /^\/(.*)\/(\w*)$/s.exec(n.text); const R = (b, f, w) => { try { new RegExp(b, f); put(n, `/${b}/${f}`, w); } catch {} };
                for (const f of 'gimsu') R(m[1], m[2].includes(f) ? m[2].replace(f, '') : m[2] + f, 'flag ' + f);
                if (m[1].startsWith('^')) R(m[1].slice(1), m[2], 'no ^'); if (m[1].endsWith('$')) R(m[1].slice(0, -1), m[2], 'no $');
                for (let i = 1; i < m[1].length; i++) { const c = m[1][i], p = m[1][i - 1]; if (p === '\\' && m[1][i - 2] !== '\\') continue; if (c === '+') R(m[1].slice(0, i) + '*' + m[1].slice(i + 1), m[2], `+ -> * at ${i}`), R(m[1].slice(0, i) + m[1].slice(i + 1), m[2], `no + at ${i}`); if (c === '*') R(m[1].slice(0, i) + '+' + m[1].slice(i + 1), m[2], `* -> + at ${i}`); if (c === '?' && p !== '(') R(m[1].slice(0, i) + m[1].slice(i + 1), m[2], `no ? at ${i}`); if (c === '[' && m[1][i + 1] !== '^') R(m[1].slice(0, i + 1) + '^' + m[1].slice(i + 1), m[2], `[^ at ${i}`); if (c === '-' || /\d/.test(c)) { if (/\d/.test(c)) R(m[1].slice(0, i) + (c === '9' ? '8' : +c + 1) + m[1].slice(i + 1), m[2], `digit at ${i}`); } if (c === '|' ) { const j = m[1].slice(i + 1).search(/[|)]/); const e = j < 0 ? m[1].length : i + 1 + j; R(m[1].slice(0, i) + m[1].slice(e), m[2], `no alternative at ${i}`); } }
            }
            if (ts.isParameter(n) && n.initializer || ts.isBindingElement(n) && n.initializer) { const k = n.initializer.kind; if (k === ts.SyntaxKind.ArrayLiteralExpression) put(n.initializer, '[0] as any', 'default'); }
        }
        ts.forEachChild(n, visit);
    };
    visit(sf); return out;
}
let all = files.flatMap(mutants); const seen = new Set(); all = all.filter(m => { const k = m.file + m.a + ':' + m.b + m.text; return !seen.has(k) && seen.add(k); });
if (all.length > max) { const step = all.length / max; all = all.filter((_, i) => Math.floor(i / step) !== Math.floor((i - 1) / step)); }
console.log(prop, files.length, 'files', all.length, 'changes');
fs.mkdirSync(MU + '/cache', { recursive: true }); execSync(`mkdir -p ${V} && rsync -a --delete --exclude .git --exclude seeded --exclude evidence /verif/ ${V}/ 2>/dev/null || (rm -rf ${MU}/verif && cp -r /verif ${MU}/verif)`);
const env = { ...process.env, VERIF_SEED: '1', VERIF_TIER: 'quick', VERIF_TLC_CACHE: MU + '/cache', VERIF_FIRST: '1' };
const runCheck = dir => new Promise(res => { const p = spawn('node', ['harness/run.mjs', prop, 'quick'], { cwd: V, env: { ...env, VERIF_REPO: dir }, stdio: ['ignore', 'pipe', 'pipe'], detached: true }); let o = ''; p.stdout.on('data', d => o += d); p.stderr.on('data', d => o += d); const t = setTimeout(() => { try { process.kill(-p.pid, 'SIGKILL'); } catch {} }, 400000); p.on('close', c => { clearTimeout(t); res([c, o]); }); });
const clones = []; for (let j = 0; j < jobs; j++) { const d = `${MU}/r${j}`; execSync(`mkdir -p ${d} && rsync -a --delete --exclude .git --exclude node_modules /repo/ ${d}/ && ([ -e ${d}/node_modules ] || ln -s /repo/node_modules ${d}/node_modules) 2>/dev/null; chmod 755 ${d}`, { shell: '/bin/bash' }); clones.push(d); }
{ const [c, o] = await runCheck(clones[0]); if (c) { console.log('not quiet on the unchanged tree', o.slice(-1500)); process.exit(1); } }
const survivors = []; let caught = 0, odd = 0, next = 0;
await Promise.all(clones.map(async d => { for (;;) { const i = next++; if (i >= all.length) return; const m = all[i], f = path.join(d, path.relative(REPO, m.file)), src = fs.readFileSync(m.file, 'utf8');
    fs.writeFileSync(f, src.slice(0, m.a) + m.text + src.slice(m.b)); const [c, o] = await runCheck(d);
    if (c === 1) caught++; else if (c === 0) { const j = src.lastIndexOf('\n', m.a) + 1, k = src.indexOf('\n', m.b); survivors.push(m); console.log(`SURVIVES ${path.relative(REPO + '/packages', m.file)}:${m.line} [${m.what}] ${(src.slice(j, m.a) + '⟦' + src.slice(m.a, m.b) + ' ⇒ ' + m.text + '⟧' + src.slice(m.b, k)).trim().replace(/\s+/g, ' ').slice(0, 220)}`); } else { odd++; if (!/ERROR|error:|Build failed|is not defined|Cannot/.test(o)) console.log('ODD', c, path.relative(REPO, m.file), m.line, m.what, o.slice(-200)); }
    fs.writeFileSync(f, src); } }));
console.log(`${prop}: ${caught} noticed, ${survivors.length} unnoticed, ${odd} without an answer`);
