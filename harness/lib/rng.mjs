export function rng(seed) {
    let a = (Number(seed) * 2654435761) >>> 0 || 1;
    const next = () => { a |= 0; a = (a + 0x6d2b79f5) | 0; let t = Math.imul(a ^ (a >>> 15), 1 | a); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
    const r = { next, int: (lo, hi) => lo + Math.floor(next() * (hi - lo + 1)), bool: (p = 0.5) => next() < p, pick: a => a[Math.floor(next() * a.length)],
        shuffle: a => { a = a.slice(); for (let i = a.length - 1; i > 0; i--) { const j = Math.floor(next() * (i + 1)); [a[i], a[j]] = [a[j], a[i]]; } return a; },
        list: (lo, hi, f) => Array.from({ length: r.int(lo, hi) }, (_, i) => f(i)) };
    return r;
}
