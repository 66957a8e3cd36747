import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
export const ROOT = fileURLToPath(new URL('../..', import.meta.url));
export const SEED = Number(process.env.VERIF_SEED || 1);
export const TIER = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
export const THOROUGH = TIER === 'thorough';

export class Report {
    constructor(id, level = 'model_checking') {
        this.id = id; this.level = level; this.t0 = Date.now(); this.states = 0; this.transitions = 0; this.traces = 0; this.samples = []; this.viol = []; this.extra = {}; this.assumptions = [];
        this.known = loadKnown(id); this.knownHit = new Map(); this.configs = [];
    }
    model(r, name) { this.states += r.states; this.transitions += r.transitions; this.configs.push({ config: name, distinct_states: r.states, states_generated: r.transitions, depth: r.depth }); }
    trace(n = 1) { this.traces += n; }
    count(k, n = 1) { this.extra[k] = (this.extra[k] || 0) + n; }
    sample(x) { if (this.samples.length < 6) this.samples.push(x); }
    /** key identifies the specific input/history, for known findings */
    violation(key, detail) {
        const k = this.known.find(f => f.key === key);
        if (k) { if (!this.knownHit.has(key)) this.knownHit.set(key, k.text); return false; }
        this.viol.push({ key, detail });
        if (process.env.VERIF_FIRST) { console.log(`VIOLATION property=${this.id} replay=none ${key.slice(0, 200)}`); process.exit(1); } // (mutation testing only)
        return true;
    }
    finish() {
        const wall = (Date.now() - this.t0) / 1000;
        for (const [, text] of this.knownHit) console.log(`KNOWN-FINDING: property=${this.id} ${text}`);
        let replay = null;
        if (this.viol.length) {
            const dir = path.join(ROOT, 'evidence', 'replay'); fs.mkdirSync(dir, { recursive: true });
            replay = path.join(dir, `${this.id}.json`);
            fs.writeFileSync(replay, JSON.stringify({ property: this.id, seed: SEED, tier: TIER, count: this.viol.length, violations: this.viol.slice(0, 40) }, null, 1));
        }
        const cov = { states: this.states, transitions: this.transitions, traces_validated_against_impl: this.traces, samples: this.samples.length ? this.samples : ['none'], configurations: this.configs, ...this.extra };
        fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
        fs.writeFileSync(path.join(ROOT, 'evidence', this.id + '.json'), JSON.stringify({ property: this.id, tier: TIER, seed: SEED, level: this.level, coverage: cov, assumptions: this.assumptions, wall_s: wall, violations: this.viol.length }, null, 1));
        console.log(`${this.id} [${TIER}] states=${this.states} transitions=${this.transitions} impl_traces=${this.traces} ${JSON.stringify(this.extra)} violations=${this.viol.length} ${wall.toFixed(1)}s`);
        if (this.viol.length) {
            for (const v of this.viol.slice(0, 5)) console.log('  ' + v.key.slice(0, 400) + ' :: ' + (typeof v.detail === 'string' ? v.detail : JSON.stringify(v.detail)).slice(0, 600));
            console.log(`VIOLATION property=${this.id} replay=${replay}`);
            return 1;
        }
        return 0;
    }
}
// known_findings.txt: lines "KNOWN property=<id> key=<json string> :: text" suppress exactly that key; "fixed: ..." lines suppress nothing.
function loadKnown(id) {
    const f = path.join(ROOT, 'known_findings.txt');
    if (!fs.existsSync(f)) return [];
    return fs.readFileSync(f, 'utf8').split('\n').map(l => /^KNOWN property=(\S+) key=("(?:[^"\\]|\\.)*") :: (.*)$/.exec(l)).filter(m => m && m[1] === id).map(m => ({ key: JSON.parse(m[2]), text: m[3] }));
}
