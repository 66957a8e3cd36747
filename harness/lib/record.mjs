// Records executions of the real code under randomised drivers and lets TLC decide them against the specification's actions.
import { checkTrace } from './tlc.mjs';
import { beat } from './beat.mjs';
/** runs: number; one(t, push): executes one run, calling push(event) for every action with its observation */
export async function recordTraces(rep, { name, module, constants = '', invariants = '', runs, one, chunk = 60000, view }) {
    let ev = [];
    const flush = async () => {
        if (!ev.length) return;
        const list = ev; ev = [];
        const runOf = list.map(e => e.run);
        const tr = await checkTrace(module, list, { cfg: `${constants ? 'CONSTANTS ' + constants : ''}\nSPECIFICATION TSpec\n${invariants ? 'INVARIANTS ' + invariants + '\n' : ''}POSTCONDITION TraceConsumed\n` });
        if (!tr.ok) throw new Error(`trace validation (${module}) did not complete:\n` + tr.text.slice(-3000) + tr.err.slice(-500));
        rep.model(tr, module); rep.count('recorded_events', list.length);
        const seen = new Set();
        for (const b of tr.bad) {
            const e = list[b.l - 1]; if (seen.has(e.run)) continue; seen.add(e.run);
            const script = list.filter(x => x.run === e.run);
            rep.violation(`${name}:recorded:${view ? view(e, script) : e.run}`, { rejected: e, model: b.model, script: script.slice(0, 40) });
            if (seen.size > 20) break;
        }
    };
    for (let t = 0; t < runs; t++) {
        const script = [];
        const push = e => { script.push(e); ev.push({ ...e, run: t }); };
        await one(t, push, d => beat(`${name}: ${typeof d === 'string' ? d : JSON.stringify(d)}`));
        beat(null);
        if (t === 0) rep.sample({ [name + '-recorded']: script.slice(0, 6) });
        if (ev.length > chunk) await flush();
    }
    rep.trace(runs);
    await flush();
}
