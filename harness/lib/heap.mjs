// JavaScript object graphs from the heaps of spec/Heap.tla, and back
export const PRIMS = [7, undefined, NaN, 'text', 10n, null, -0, true, ''];
const prim = v => PRIMS[-v];
const code = v => { const i = PRIMS.findIndex(p => Object.is(p, v)); return i < 0 ? 'other:' + String(v) : 0 - i || 0; };
const FNS = ['() => 5', 'function named(x) { return x; }', 'async () => 1'].map(t => new Function('return ' + t));
export class Plain { constructor() { this.a = undefined; this.b = undefined; } }
const S = Symbol('field');
const TYPED = { u8: Uint8Array, f64: Float64Array, i16: Int16Array, big: BigInt64Array, clamp: Uint8ClampedArray, i8: Int8Array, u16: Uint16Array, i32: Int32Array, u32: Uint32Array, f32: Float32Array, ubig: BigUint64Array };
/** v selects among equivalent ways of building each kind (names of fields, contents, flags) */
export function build(h, v) {
    const names = i => [['a', 'b'], ['b', 'a'], ['x', S], ['0', 'toString']][(v + i) % 4];
    const typed = (C, i) => { const big = C === BigInt64Array || C === BigUint64Array, n = (v + i) % 4; const all = C.from(Array.from({ length: n + 2 }, (_, k) => big ? BigInt(k * 3 + 1) : k * 3 + 1)); return (v + i) % 3 ? all : all.subarray(1); };
    const o = h.map(({ k }, i) => {
        const w = v + i;
        switch (k) {
            case 'obj': return {}; case 'null': return Object.create(null); case 'arr': return []; case 'map': return new Map(); case 'set': return new Set(); case 'class': return new Plain();
            case 'date': return new Date([0, 1e12, NaN, -5][w % 4]); case 'reg': { const r = new RegExp(['a+', '[^/]\\/', '(?:)'][w % 3], ['gi', '', 'yu', 'dms'][w % 4]); r.lastIndex = w % 3; return r; }
            case 'buf': return Buffer.from(['abc', '', '\u00e9\u{1f600}'][w % 3]); case 'ab': return new Uint8Array([1, 2, w % 256]).buffer; case 'view': return new DataView(new Uint8Array([1, 2, 3, 4]).buffer, w % 3, 1 + w % 2);
            case 'err': { const E = [Error, TypeError, RangeError, SyntaxError][w % 4]; return new E('m' + w); }
            case 'agg': return w % 3 ? new AggregateError([0, 0], 'm' + w) : new AggregateError([0, 0]);
            case 'blank': return new Array([5, 1, 1000][w % 3]); case 'sparse': return new Array([5, 9][w % 2]);
            case 'dom': return new DOMException('m' + w, ['AbortError', 'NotFoundError', 'Error'][w % 3]);
            case 'blob': return new Blob(['b' + w, Buffer.from([0, 255])], { type: ['', 'text/x'][w % 2] });
            case 'file': return new File(['f' + w], 'n' + w % 3, { type: ['', 'text/x'][w % 2], lastModified: [0, 5, 1e12][w % 3] });
            case 'form': { const d = new FormData(); for (let k = 0; k < w % 4; k++) d.append('k' + k % 2, 'v' + k); return d; }
            case 'fn': return FNS[w % 3]();
            case 'num': return [new Number(5), new String('boxed'), new Boolean(false), Object(5n)][w % 4];
            case 'url': return w % 2 ? new URL('http://h/p?q=1') : new URLSearchParams('a=1&a=2');
            default: return typed(TYPED[k], i);
        }
    });
    const val = s => s > 0 ? o[s - 1] : prim(s);
    h.forEach(({ k, f }, i) => {
        const x = o[i], w = v + i + h.length, [p, q] = names(i), put = (n, s, hidden) => Object.defineProperty(x, n, { value: val(s), writable: w % 3 !== 1, configurable: w % 4 !== 2, enumerable: !hidden });
        switch (k) {
            case 'obj': case 'null': put(p, f[0]); put(q, f[1], (v + i) % 5 === 4); break;
            case 'class': x.a = val(f[0]); x.b = val(f[1]); break;
            case 'err': put('cause', f[0], true); put('extra', f[1]); break;
            case 'agg': x.errors[0] = val(f[0]); x.errors[1] = val(f[1]); if (w % 2) x.errors.length = 4; break;
            case 'blank': break; case 'sparse': x[3] = val(f[0]); break;
            case 'arr': x.push(val(f[0])); x.push(val(f[1])); if ((v + i) % 4 === 3) x.length = 4; break;
            case 'map': x.set(val(f[0]), val(f[1])); break;
            case 'set': x.add(val(f[0])); x.add(val(f[1])); break;
            default: put('extra', f[0]);
        }
    });
    const root = o[0]; root; return { root: o[0], all: o, names };
}
const CONTENT = x => x instanceof Date ? x.getTime() : x instanceof RegExp ? [x.source, x.flags, x.lastIndex] : Buffer.isBuffer(x) ? ['buf', x.toString('hex')] : x instanceof ArrayBuffer ? ['ab', Buffer.from(x).toString('hex')] :
    x instanceof DataView ? ['view', x.byteOffset, x.byteLength, Buffer.from(x.buffer).toString('hex')] : ArrayBuffer.isView(x) ? [...x].map(String) : x instanceof Error ? [x.name, x.message, x.stack, x.code, x.errors?.length] : x instanceof Blob ? [x.size, x.type, x.name, x.lastModified] : x instanceof FormData ? [...x] : typeof x === 'function' ? [x.toString(), x.name] :
    x instanceof Number || x instanceof String || x instanceof Boolean || x instanceof BigInt ? x.valueOf() : x instanceof URL || x instanceof URLSearchParams ? String(x) : Array.isArray(x) ? x.length : null;
const content = x => JSON.stringify(CONTENT(x), (k, v) => typeof v === 'bigint' ? v + 'n' : Object.is(v, NaN) ? 'NaN' : v);
const attrs = x => JSON.stringify(Reflect.ownKeys(x).filter(k => !(ArrayBuffer.isView(x) && typeof k === 'string' && /^\d+$/.test(k))).map(k => { const d = Object.getOwnPropertyDescriptor(x, k); return [String(k), d.enumerable, 'value' in d, d.writable, d.configurable]; }).sort());
/** canonical form of the graph below y, whose nodes must look like those of h (built with the same v) at each place */
export function read(y, h, n, built, used) {
    const twin = new Map(), out = [], at = [];
    const visit = (y, n) => {
        if (typeof y !== 'object' && typeof y !== 'function' || y === null) return code(y);
        if (twin.has(y)) return twin.get(y);
        const id = out.length + 1; twin.set(y, id);
        if (n === 0) { out.push({ k: 'unexpected', f: [] }); return id; }
        const { k, f } = h[n - 1], x = built.all[n - 1], node = { k, f: [] }; out.push(node); used?.push([x, y]);
        if (Object.getPrototypeOf(y) !== Object.getPrototypeOf(x)) { node.k = 'other prototype'; return id; }
        if (content(x) !== content(y)) { node.k = k + ' with other content ' + content(y) + ' not ' + content(x); return id; }
        if (attrs(x) !== attrs(y)) { node.k = k + ' with other attributes ' + attrs(y) + ' not ' + attrs(x); return id; }
        const [p, q] = built.names(n - 1);
        const vals = k === 'obj' || k === 'null' ? [y[p], y[q]] : k === 'class' ? [y.a, y.b] : k === 'err' ? [y.cause, y.extra] : k === 'agg' ? [y.errors[0], y.errors[1]] : k === 'blank' ? [] : k === 'sparse' ? [y[3]] : k === 'arr' ? [y[0], y[1]] : k === 'map' ? [...y].flat() : k === 'set' ? [...y] : [y.extra];
        vals.forEach((z, i) => node.f.push(visit(z, f[i] > 0 ? f[i] : 0)));
        return id;
    };
    const r = visit(y, n);
    return typeof r === 'number' && out.length ? out : r;
}
