// A terminal, as far as the library's output needs one: what is on the screen, where the cursor is, how text looks.
// It only observes; what should be on the screen is decided by the specifications (Styles, Screen, Progress).
const NONE = [-1];
export const plain = () => ({ fg: NONE, bg: NONE, on: Array(9).fill(false) });
export const copy = s => ({ fg: [...s.fg], bg: [...s.bg], on: [...s.on] });
export function sgr(s, params) {
    const p = params === '' ? [0] : params.split(';').map(x => x === '' ? 0 : Number(x));
    for (let i = 0; i < p.length; i++) {
        const n = p[i];
        if (n === 0) Object.assign(s, plain());
        else if (n >= 1 && n <= 9) s.on[n - 1] = true;
        else if (n === 22) s.on[0] = s.on[1] = false;
        else if (n === 25) s.on[4] = s.on[5] = false;
        else if ([23, 24, 27, 28, 29].includes(n)) s.on[n - 21] = false;
        else if (n >= 30 && n <= 37) s.fg = [n - 30];
        else if (n >= 90 && n <= 97) s.fg = [n - 82];
        else if (n >= 40 && n <= 47) s.bg = [n - 40];
        else if (n >= 100 && n <= 107) s.bg = [n - 92];
        else if (n === 39) s.fg = NONE;
        else if (n === 49) s.bg = NONE;
        else if (n === 38 || n === 48) {
            const w = n === 38 ? 'fg' : 'bg';
            if (p[i + 1] === 5) { s[w] = [p[i + 2]]; i += 2; } else if (p[i + 1] === 2) { s[w] = p.slice(i + 2, i + 5); i += 4; } else throw new Error('unknown colour code ' + params);
        } else throw new Error('unknown style code ' + n);
    }
}
/** splits output into text characters and control sequences */
export function* tokens(out) {
    for (let i = 0; i < out.length;) {
        if (out[i] !== '\x1b') { yield { ch: out[i], raw: out[i] }; i++; continue; }
        const m = /^\x1b\[([?0-9;]*)([A-Za-z])/.exec(out.slice(i)) || /^\x1b()([78c(])/.exec(out.slice(i));
        if (!m) throw new Error('broken control sequence: ' + JSON.stringify(out.slice(i, i + 12)));
        yield { csi: m[0][1] === '[', args: m[1], op: m[2], raw: m[0] }; i += m[0].length;
    }
}
/** the text as it is shown, in runs of one style, from style s on; s is left as the output leaves it */
export function runs(out, s = plain()) {
    const list = [];
    for (const t of tokens(out)) {
        if (t.ch === undefined) { if (!t.csi || t.op !== 'm') throw new Error('unexpected control sequence ' + t.op); sgr(s, t.args); continue; }
        const last = list[list.length - 1];
        if (last && JSON.stringify(last.style) === JSON.stringify(s)) last.text.push(t.ch.charCodeAt(0)); else list.push({ style: copy(s), text: [t.ch.charCodeAt(0)] });
    }
    return list;
}
export class Screen {
    constructor(rows, cols) { Object.assign(this, { rows, cols, r: 0, c: 0, wrap: true, hidden: false, saved: [0, 0], style: plain(), pending: false }); this.cells = Array.from({ length: rows }, () => Array(cols).fill(32)); }
    scroll(n) { for (let i = 0; i < Math.min(n, this.rows); i++) { this.cells.shift(); this.cells.push(Array(this.cols).fill(32)); } for (let i = 0; i < Math.min(-n, this.rows); i++) { this.cells.pop(); this.cells.unshift(Array(this.cols).fill(32)); } }
    at(r, c) { this.r = Math.max(0, Math.min(this.rows - 1, r)); this.c = Math.max(0, Math.min(this.cols - 1, c)); this.pending = false; }
    feed(line) { if (this.r === this.rows - 1) this.scroll(1); else this.r++; }
    write(out) {
        for (const t of tokens(out)) {
            if (t.ch !== undefined) {
                if (t.ch === '\r') { this.c = 0; this.pending = false; continue; }
                if (t.ch === '\n') { this.feed(); this.c = 0; this.pending = false; continue; }
                if (this.pending && this.wrap) { this.feed(); this.c = 0; this.pending = false; }
                this.cells[this.r][this.c] = t.ch.charCodeAt(0);
                if (this.c === this.cols - 1) this.pending = true; else this.c++;
                continue;
            }
            const p = t.args.replace('?', '').split(';').map(x => x === '' ? undefined : Number(x)), n = p[0] || 1, e = p[0] || 0;
            const { r, c } = this;
            if (!t.csi) { if (t.op === '7') this.saved = [r, c]; else if (t.op === '8') this.at(...this.saved); else if (t.op === 'c') Object.assign(this, new Screen(this.rows, this.cols)); else if (t.op !== '(') throw new Error('unknown ' + t.op); continue; }
            switch (t.op) {
                case 'A': this.at(r - n, c); break; case 'B': this.at(r + n, c); break; case 'C': this.at(r, c + n); break; case 'D': this.at(r, c - n); break;
                case 'E': this.at(r + n, 0); break; case 'F': this.at(r - n, 0); break; case 'G': this.at(r, n - 1); break;
                case 'H': case 'f': this.at(n - 1, (p[1] || 1) - 1); break;
                case 's': this.saved = [r, c]; break; case 'u': this.at(...this.saved); break;
                case 'S': this.scroll(n); break; case 'T': this.scroll(-n); break;
                case 'J': for (let i = 0; i < this.rows; i++) for (let j = 0; j < this.cols; j++) if (e >= 2 || (e === 0 ? i > r || (i === r && j >= c) : i < r || (i === r && j <= c))) this.cells[i][j] = 32; break;
                case 'K': for (let j = 0; j < this.cols; j++) if (e === 2 || (e === 0 ? j >= c : j <= c)) this.cells[r][j] = 32; break;
                case 'm': sgr(this.style, t.args); break;
                case 'h': case 'l': if (t.args === '?25') this.hidden = t.op === 'l'; else if (t.args === '7' || t.args === '?7') this.wrap = t.op === 'h'; else throw new Error('unknown mode ' + t.args); break;
                default: throw new Error('unknown control sequence ' + t.op);
            }
        }
    }
}
