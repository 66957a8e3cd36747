// Decides calls of the real code against a specification built on FuncBase.tla:
//  cases(): TLC enumerates requests and the answers the specification requires; each is run on the real code;
//  recorded(): requests generated here are run on the real code and TLC decides every recorded answer.
import { tlc, mustTlc, checkTrace } from './tlc.mjs';
import { same, canon } from './replay.mjs';
import { beat } from './beat.mjs';
import { SEED } from './report.mjs';
const consts = (mode, constants) => `CONSTANTS Mode="${mode}" Eval<-EvalDef Cases<-CasesDef Law<-LawDef ${constants || ''}\n`;
export const guard = run => { const f = async (c, i) => { try { return await run(c, i); } catch (e) { return { threw: String(e?.message || e).slice(0, 300) }; } }; return f; };
/** answers requests in order, keeping up to n of them running ahead */
function lookahead(n, it, go) {
    const q = []; const fill = () => { while (q.length < n) { const r = it.next(); if (r.done) break; q.push(go(...r.value)); } };
    return () => { if (!q.length || n > 1) fill(); return q.shift(); };
}
export async function cases(rep, module, run, { constants, name = module, keyOf = c => JSON.stringify(c), mem = '8g', stopAfter = 25, times = 1, parallel = 1, spec = 'CSpec' } = {}) {
    const m = await mustTlc(module, { cfg: consts('cases', constants) + `SPECIFICATION ${spec}\n` + 'INVARIANT CLaw\nACTION_CONSTRAINT CEmit\n', mem });
    rep.model(m, module + ' ' + (constants || ''));
    // (in an order that does not depend on how TLC's workers ran and is unrelated to the shape of the requests)
    const hash = s => { let h = SEED | 0; for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193) ^ (h >>> 15); return h >>> 0; };
    m.cases = m.cases.map(x => { const k = JSON.stringify(canon(x.c)); return [hash(k), k, x]; }).sort((a, b) => a[0] - b[0] || (a[1] < b[1] ? -1 : 1)).map(x => x[2]);
    const go = guard(run); let bad = 0, n = 0; const per = {};
    const ahead = lookahead(parallel, function* () { for (let t = 0; t < times; t++) for (const { c } of m.cases) yield [c, t]; }(), go);
    for (let t = 0; t < times; t++) for (const { c, o } of m.cases) {
        n++; per[c.f ?? '-'] = (per[c.f ?? '-'] || 0) + 1;
        if (n % 64 === 1) beat(`${name}: near case ${JSON.stringify(c)}`);
        const got = await ahead();
        if (!same(canon(got), canon(o))) { if (rep.violation(`${name}:${keyOf(c, got)}`, { call: c, model_expects: o, implementation: got })) bad++; if (bad >= stopAfter) { beat(null); rep.trace(n); return m.cases; } }
        else if (n <= 1) rep.sample({ call: c, answer: o });
    }
    beat(null); rep.trace(n); rep.extra['cases_' + name] = per; return m.cases;
}
export async function recorded(rep, module, run, { constants, name = module, gen, runs, keyOf = c => JSON.stringify(c), norm = x => x, chunk = 40000, env = {}, parallel = 1 } = {}) {
    const go = guard(run); let list = []; const per = {};
    const flush = async () => {
        if (!list.length) return; const L = list; list = [];
        // an answer that is not plain data of the expected shape is still compared, as JSON, inside the specification
        const r = await checkTrace(module, L, { cfg: consts('trace', constants) + 'SPECIFICATION TSpec\nINVARIANT TLaw\nPOSTCONDITION TAll\n', workers: 8, mem: '8g', env });
        if (!r.ok) throw new Error(`trace validation (${module}) did not complete:\n` + r.text.slice(-3000) + r.err.slice(-500));
        rep.model(r, module + ' (recorded)');
        // (field order is not part of an answer)
        for (const b of r.bad.filter(b => !same(canon(b.model), canon(L[b.l - 1].o))).slice(0, 25)) { const e = L[b.l - 1]; rep.violation(`${name}:recorded:${keyOf(e.c, e.o)}`, { call: e.c, model_expects: b.model, implementation: e.o }); }
    };
    const reqs = []; const ahead = lookahead(parallel, function* () { for (let i = 0; i < runs; i++) { const c = gen(i); reqs.push(c); yield [c, i]; } }(), go);
    for (let i = 0; i < runs; i++) {
        const next = ahead(); const c = reqs.shift(); per[c.f ?? '-'] = (per[c.f ?? '-'] || 0) + 1;
        if (i % 16 === 0) beat(`${name}: near ${JSON.stringify(c).slice(0, 2000)}`);
        let o = norm(await next);
        o = JSON.parse(JSON.stringify(o ?? 'undefined', (k, v) => typeof v === 'number' && !Number.isInteger(v) ? 'num:' + v : v === undefined || v === null ? 'nil' : typeof v === 'number' && Math.abs(v) > 2147483647 ? 'big:' + v : v));
        list.push({ c, o });
        if (i < 1) rep.sample({ recorded_call: c, answer: o });
        if (list.length >= chunk) await flush();
    }
    beat(null); rep.trace(runs); rep.extra['recorded_' + name] = per;
    await flush();
}
