// The platform's real HTTP client and server joined by in-memory sockets: no port is opened, no name is resolved.
// what asks for a connection is recorded ({ tls, host, port }) and answered by `serve(exchange)`.
import http from 'node:http';
import https from 'node:https';
import { Duplex } from 'node:stream';
export class Wire extends Duplex {
    constructor() { super({ allowHalfOpen: true }); this.timeoutMs = 0; }
    static pair() { const a = new Wire(), b = new Wire(); a.other = b; b.other = a; return [a, b]; }
    _read() { const f = this.pending; this.pending = null; f?.(); }
    _write(chunk, enc, cb) { const o = this.other; if (o.destroyed) return cb(Object.assign(new Error('write EPIPE'), { code: 'EPIPE' })); if (o.push(chunk)) cb(); else o.pending = cb; }
    _final(cb) { if (!this.other.destroyed) this.other.push(null); cb(); }
    _destroy(err, cb) { setImmediate(() => { const o = this.other; if (o && !o.destroyed && !o.readableEnded) { if (this.reset) o.destroy(Object.assign(new Error('read ECONNRESET'), { code: 'ECONNRESET' })); else o.push(null); } }); cb(err); }
    setTimeout(ms, cb) { this.timeoutMs = ms; if (cb) this.once('timeout', cb); return this; }
    setNoDelay() { return this; } setKeepAlive() { return this; } ref() { return this; } unref() { return this; }
    get remoteAddress() { return '127.0.0.1'; }
}
/** serve: async ({ req, res, body, n, tls, host, port, client }) => void; the request body is read before it is called */
export function network(serve, { refuse } = {}) {
    const seen = [], clients = [];
    let n = 0;
    const mk = (real, tls) => {
        const server = http.createServer({ keepAliveTimeout: 0, insecureHTTPParser: false, highWaterMark: 1 << 20 }, (req, res) => {
            const chunks = [];
            req.on('data', c => chunks.push(c));
            req.on('error', () => {});
            res.on('error', () => {});
            req.on('end', async () => {
                const at = req.socket.at, body = Buffer.concat(chunks);
                const x = { req, res, body, n: n++, ...at };
                seen.push(x);
                await serve(x);
            });
        });
        server.on('clientError', (e, s) => { s.destroy(); });
        const connect = o => {
            const [a, b] = Wire.pair(); if (o.timeout) a.timeoutMs = Number(o.timeout);
            b.at = { tls, host: o.hostname ?? o.host ?? 'localhost', port: o.port === undefined || o.port === null || o.port === '' ? (tls ? 443 : 80) : Number(o.port), client: a };
            clients.push(a);
            const why = refuse?.(b.at);
            if (why) setImmediate(() => a.destroy(Object.assign(new Error(why), { code: why })));
            else setImmediate(() => server.emit('connection', b));
            return a;
        };
        const inject = args => {
            const l = [...args], i = l.findIndex((x, k) => x && typeof x === 'object' && !(x instanceof URL) && typeof x !== 'function');
            if (i < 0) l.splice(typeof l[0] === 'string' || l[0] instanceof URL ? 1 : 0, 0, { createConnection: connect, defaultPort: tls ? 443 : 80 });
            else l[i] = Object.assign({}, l[i], { createConnection: connect, agent: undefined, defaultPort: l[i].defaultPort ?? (tls ? 443 : 80) });
            return l;
        };
        const request = (...a) => real.request(...inject(a));
        return { ...real, request, get: (...a) => { const r = request(...a); r.end(); return r; } };
    };
    const modules = { http: mk(http, false), https: mk(https, true) };
    return { modules: { ...modules, 'node:http': modules.http, 'node:https': modules.https }, seen, clients, open: () => clients.filter(c => !c.destroyed).length };
}
/** the outcome of a call, or 'pending' when nothing happens any more */
export async function outcome(p, ms = 3000) {
    let t; const limit = new Promise(r => { t = setTimeout(r, ms, { s: 'pending' }); });
    const r = await Promise.race([Promise.resolve(p).then(v => ({ s: 'ok', v }), e => ({ s: 'err', e })), limit]);
    clearTimeout(t); return r;
}
