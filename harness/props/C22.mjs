// C22 redirects
import { load } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { network } from '../lib/nethttp.mjs';
import { THOROUGH } from '../lib/report.mjs';
const tick = () => new Promise(r => setImmediate(r));
const render = a => `http${a.tls ? 's' : ''}://${a.host}${a.port === (a.tls ? 443 : 80) ? '' : ':' + a.port}`;
const flip = (h, x, y) => h === x ? y : x;
// names that resemble one another without being the same
const HOSTS = [{}, { 'a.test': 'site.test', 'b.test': 'evilsite.test', 'c.test': 'sub.site.test' }, { 'a.test': 'a.test', 'b.test': 'a.test.evil', 'c.test': 'test' }, { 'a.test': '127.0.0.1', 'b.test': '127.0.0.10', 'c.test': '27.0.0.1' }, { 'a.test': 'www.x.test', 'b.test': 'x.test', 'c.test': 'xx.test' }];
const real = (h, v) => HOSTS[v % 5][h] ?? h, back = (h, v) => Object.keys(HOSTS[v % 5]).find(k => HOSTS[v % 5][k] === h) ?? h;
/** the text of a location as the server (at address `at`) writes it */
function location(loc, at, variant) {
    const to = h => real(h, variant), here = render({ ...at, host: to(at.host) });
    switch (loc) {
        case 'abs': return here + '/x/y?k=1&k=2';
        case 'absroot': return here;
        case 'path': return '/p/q';
        case 'sub': return (variant % 2 ? './' : '') + 's?z=%20';
        case 'up': return '../u';
        case 'query': return '?w=2';
        case 'frag': return '/f#part';
        case 'scheme': return `http${at.tls ? '' : 's'}://${variant % 2 ? to(at.host) : to(at.host).toUpperCase()}/t`;
        case 'other': return `http://${to(flip(at.host, 'b.test', 'a.test'))}/o`;
        case 'othertls': return `https://${to(flip(at.host, 'b.test', 'c.test'))}/o/`;
        case 'otherport': return `${render({ ...at, host: to(at.host), port: 8081 })}/`;
        case 'net': return `//${to(flip(at.host, 'c.test', 'a.test'))}/n`;
        case 'bad': return ['http://[', 'https://a b/', 'http://h:99999999/'][variant % 3];
        case 'mail': return ['mailto:x@y.test', 'ftp://a.test/x', 'javascript:0'][variant % 3];
    }
}
function system(cfg, v) {
    let arrived = [], outcome = null, headers = 0, told = '';
    const net = network(x => { arrived.push(x); });
    const L = load('request', {}, net.modules);
    const payload = ['text=1', { k: ['1', '2'] }, Buffer.from([0, 255, 7]), new Uint8Array([1, 2, 3]).buffer][v % 4], bytes = ['text=1', 'k=1&k=2', '\x00\xff\x07', '\x01\x02\x03'][v % 4];
    const viaAuth = v % 3 === 0, virtual = v % 5 === 1, upper = v % 2 === 1, form = v % 4 % 3;
    const opts = {
        method: v % 3 === 1 ? cfg.method.toLowerCase() : cfg.method, timeout: 60000,
        headers: { [upper ? 'Cookie' : 'cookie']: 'sid=1', 'X-Keep': 'k', ...(viaAuth ? {} : { [upper ? 'Authorization' : 'authorization']: 'Bearer t' }), ...(virtual ? { Host: 'virtual.test' } : {}) },
    };
    if (viaAuth) opts.auth = 'u:p';
    if (cfg.max !== 21) opts.maxRedirects = cfg.max;
    if (cfg.method === 'POST' || cfg.method === 'PUT') opts.body = payload;
    const start = { tls: cfg.tls, host: real('a.test', v), port: cfg.tls ? 8443 : 80 };
    const query = v % 7 === 2;
    if (form === 0) Object.assign(opts, { https: cfg.tls, hostname: start.host, path: '/d/e' }, cfg.tls ? { port: 8443 } : {});
    const keep = { top: { ...opts }, headers: { ...opts.headers }, body: JSON.stringify(opts.body) };
    const unchanged = () => Object.keys(opts).length === Object.keys(keep.top).length && Object.keys(opts).every(k => Object.is(opts[k], keep.top[k])) && JSON.stringify(opts.headers) === JSON.stringify(keep.headers) && JSON.stringify(opts.body) === keep.body;
    const handlers = { header(res) { headers++; told = String(res.statusCode); } };
    const settle = async () => { for (let i = 0; i < 400 && !arrived.length && !outcome; i++) await tick(); if (outcome) for (let i = 0; i < 4; i++) await tick(); return look(); };
    let cur = null;
    function look() {
        if (arrived.length) {
            const x = arrived.shift(); cur = x;
            if (arrived.length || outcome) return { o: 'twice' };
            const [path, q] = x.req.url.split('?'), h = x.req.headers, wantAuth = viaAuth ? 'Basic ' + Buffer.from('u:p').toString('base64') : 'Bearer t';
            const creds = h.cookie === 'sid=1' && h.authorization === wantAuth;
            if (!creds && (h.cookie !== undefined || h.authorization !== undefined)) return { o: 'some credentials', cookie: h.cookie, authorization: h.authorization };
            const host = String(h.host).split(':')[0], wantHost = virtual && creds ? 'virtual.test' : x.host;
            if (host !== wantHost) return { o: 'host header', host, wantHost };
            if (h['x-keep'] !== 'k') return { o: 'header lost' };
            const b = x.body.toString('latin1');
            if (b !== '' && b !== bytes || b === '' && Number(h['content-length'] ?? 0) !== 0) return { o: 'other body', b };
            return { o: 'request', at: { tls: x.tls, host: back(x.host.toLowerCase(), v), port: x.port, path: path.replace(/^\//, '').split('/'), query: q ?? '' }, method: x.req.method, body: b !== '', creds };
        }
        if (outcome) {
            const { ok, v: r, e } = outcome;
            if (!unchanged()) return { o: 'options changed', opts: Object.keys(opts) };
            if (net.open()) return { o: 'connection open' };
            if (!ok) return e instanceof Promise || e === undefined ? { o: 'no reason' } : { o: 'err' };
            if (headers !== 1 || told !== String(r.status)) return { o: 'handler', headers, told };
            if (r.error !== null || r.status !== r.response.statusCode) return { o: 'result' };
            if (cur.req.method !== 'HEAD' && r.data.toString() !== 'body of ' + cur.n) return { o: 'other data', d: r.data.toString() };
            return { o: 'ok', status: r.status, loc: r.response.headers.location ?? null };
        }
        return { o: 'nothing' };
    }
    return {
        async start() {
            const url = render(start) + '/d/e';
            const p = form === 0 ? L.request(opts, handlers) : L.request(form === 1 ? url : new URL(url), opts, handlers);
            p.then(v => { outcome = outcome ? { ok: true, v: {} } : { ok: true, v }; }, e => { outcome = { ok: false, e }; });
            return settle();
        },
        async answer(status, loc) {
            const x = cur, h = {}; this.said = null;
            if (loc !== 'none') h.location = this.said = location(loc, { tls: x.tls, host: back(x.host.toLowerCase(), v), port: x.port }, v);
            x.res.writeHead(status, h);
            x.res.end(x.req.method === 'HEAD' ? undefined : 'body of ' + x.n);
            return settle();
        },
        async fail(how) {
            if (how === 'timeout') cur.client.emit('timeout');
            else if (how === 'reset') { cur.req.socket.reset = true; cur.req.socket.destroy(); }
            else { cur.res.writeHead(200, { 'content-length': 10 }); cur.res.write('part'); await tick(); await tick(); cur.req.socket.destroy(); }
            return settle();
        },
        stop() { for (const c of net.clients) c.destroy(); },
    };
}
let nth = 0;
const adapter = () => {
    let y; const v = nth++;
    return {
        init: () => ({ o: 'idle' }),
        step: (a, to) => a.a === 'start' ? (y = system(to.cfg, v)).start() : a.a === 'answer' ? y.answer(a.status, a.loc) : y.fail(a.a),
        expect: o => o.o === 'ok' ? { ...o, loc: o.loc === 'none' ? null : y.said } : o,
        end: () => y?.stop(),
    };
};
export default async function (rep) {
    for (const [max, loop] of THOROUGH ? [[3, false], [0, true]] : [[2, false], [0, true]]) {
        const m = await mustTlc('Redirects', { cfg: `CONSTANTS MaxLeft=${max} Loop=${loop ? 'TRUE' : 'FALSE'}\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Bounded OnlyHome BodylessGet EmitInit\nPROPERTIES OneOutcome EachHopCosts NoReturn KeepsMethod Settles\nACTION_CONSTRAINT EmitAll\n` });
        rep.model(m, `Redirects MaxLeft=${max} Loop=${loop}`);
        await replayGraph(rep, m.edges, adapter, { name: loop ? 'loop' : 'redirects', limit: THOROUGH ? 60000 : 9000, walks: loop ? 5 : THOROUGH ? 20000 : 1500, maxLen: 40 });
    }
}
