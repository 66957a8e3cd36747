// C23 what a request carries and what it delivers
import zlib from 'node:zlib';
import { load, virtualTime } from '../lib/bundle.mjs';
import { mustTlc } from '../lib/tlc.mjs';
import { replayGraph } from '../lib/replay.mjs';
import { cases, recorded } from '../lib/funcs.mjs';
import { rng } from '../lib/rng.mjs';
import { network, outcome } from '../lib/nethttp.mjs';
import { SEED, THOROUGH } from '../lib/report.mjs';
const tick = () => new Promise(r => setImmediate(r));
const TEXTS = ['plain', 'a b', 'x&y=z', '100%25', '+plus+', '#?/:@$,[]', 'é\u4e2d', '\u{1f600}', '', "'\"<>", '%', 'a;b', '~!*()', '0', 'null', '\t', '..', 'a=b&c'];
const NAMES = ['k', 'two words', 'a&b', 'key[]', 'ключ', '__x', '%41', 'a.b', 'a+b', '-0'];
const idx = (l, t) => { const i = l.indexOf(t); return i < 0 ? 'other ' + JSON.stringify(t) : i + 1; };
const T = n => TEXTS[n - 1], N = n => NAMES[n - 1];
const USER = { 'user-agent': 'Mine/1', 'content-type': 'text/x-mine', accept: 'x/y', 'accept-language': 'de' };
const CASE = [k => k, k => k.replace(/(^|-)\w/g, c => c.toUpperCase()), k => k.toUpperCase()];
const TYPES = { form: 'application/x-www-form-urlencoded', json: 'application/json', multi: 'multipart/form-data', data: 'multipart/form-data' };
const pairsOf = (list) => list.map(([k, v]) => k.startsWith('own') ? [-Number(k.slice(3)), Number(v)] : [idx(NAMES, k), idx(TEXTS, v)]);
async function carry(c, v) {
    let got;
    const net = network(x => { got = x; x.res.writeHead(200); x.res.end(); });
    const L = load('request', {}, net.modules);
    const q = {}; for (const { k, v: l } of c.query) q[N(k)] = l.length === 0 ? [undefined, null, []][v % 3] : l.length === 1 && v % 2 ? T(l[0]) : l.map(T);
    const opts = { method: v % 2 ? c.method : c.method.toLowerCase(), headers: {} };
    Object.keys(USER).forEach((k, i) => { if (c.mine[i]) opts.headers[CASE[(v + i) % 3](k)] = USER[k]; });
    if (c.query.length || v % 2) opts.query = q;
    const obj = () => Object.fromEntries(c.form.map(({ k, v: l }) => [N(k), l.length === 0 ? [] : l.length === 1 && v % 2 ? T(l[0]) : l.map(T)]));
    switch (c.body) {
        case 'form': opts.body = obj(); if (v % 3) opts.headers[CASE[v % 3]('content-type')] = TYPES.form + (v % 3 === 2 ? '; charset=UTF-8' : ''); break;
        case 'json': opts.body = obj(); opts.headers[CASE[v % 3]('content-type')] = TYPES.json; break;
        case 'multi': opts.body = Object.fromEntries(c.form.filter(f => f.v.length).map(({ k, v: l }) => [N(k), T(l[0])])); opts.headers[CASE[v % 3]('content-type')] = TYPES.multi; break;
        case 'data': { const d = new FormData(); for (const { k, v: l } of c.form) for (const t of l) if (v % 4 === 3) d.append(N(k), new Blob([T(t)], { type: 'text/x' }), 'f "1".txt'); else d.append(N(k), T(t)); opts.body = d; opts.headers[CASE[v % 3]('content-type')] = TYPES.data; break; }
        case 'text': opts.body = T(c.text); break;
        case 'bytes': opts.body = Buffer.from(T(c.text)); break;
        case 'view': { const b = new TextEncoder().encode('#' + T(c.text) + '#'); opts.body = b.subarray(1, b.length - 1); break; }
        case 'buffer': opts.body = new TextEncoder().encode(T(c.text)).buffer; break;
    }
    const own = c.own.map(n => `own${n}=${n}`).join('&'), path = '/d/e' + (own && '?' + own);
    const pending = v % 3 === 0 ? L.request({ ...opts, hostname: 'a.test', https: false, path }) : L.request(v % 3 === 1 ? 'http://a.test' + path : new URL('http://a.test' + path), opts);
    const r = await outcome(pending);
    if (r.s !== 'ok') return { failed: r.s, why: String(r.e?.message ?? r.e) };
    const [p, ...rest] = got.req.url.split('?'), search = rest.join('?'), h = got.req.headers, buf = got.body;
    if (p !== '/d/e') return { path: got.req.url };
    const pairs = pairsOf([...new URLSearchParams(search)]);
    let body = [];
    const type = String(h['content-type']), vals = x => Array.isArray(x) ? x : [x];
    if (c.body === 'form') body = pairsOf([...new URLSearchParams(buf.toString())]);
    else if (c.body === 'json') body = Object.entries(JSON.parse(buf.toString())).map(([k, x]) => ({ k: idx(NAMES, k), v: vals(x).map(t => idx(TEXTS, t)) }));
    else if (c.body === 'multi' || c.body === 'data') { const f = await new Response(buf, { headers: { 'content-type': type } }).formData(); const l = []; for (const [k, x] of f) l.push([k, typeof x === 'string' ? x : (x.type === 'text/x' ? await x.text() : 'type ' + x.type)]); body = pairsOf(l); }
    else if (c.body !== 'none') body = [idx(TEXTS, buf.toString())];
    else body = buf.length ? ['unexpected'] : [];
    if (c.body === 'form' && !/urlencoded/.test(type) || c.body === 'json' && !/json/.test(type)) return { type };
    return { method: got.req.method, pairs, body,
        lengthOk: c.body === 'none' ? !Number(h['content-length'] ?? 0) : T(c.text || 1) === '' && c.text ? buf.length === 0 : String(buf.length) === h['content-length'],
        mine: Object.keys(USER).map((k) => h[k] === USER[k]),
        rest: h.host === 'a.test' && !!h['user-agent'] && !!h['accept-encoding'] && net.open() === 0 };
}
const EXTRA = {
    async bytes(c, v, ask) {
        const b = Buffer.from(Array.from({ length: c.n }, (_, i) => ((i + 1) * 7 + c.n) % 256)), m = ['POST', 'put', 'PATCH'][v % 3];
        if (c.way === 'file') { const d = new FormData(); d.append('x', new Blob([b]), 'x.bin'); const x = await ask('http://a.test/', { method: m, body: d, headers: { 'Content-Type': TYPES.data } });
            const f = await new Response(x.body, { headers: { 'content-type': x.req.headers['content-type'] } }).formData(), got = Buffer.from(await f.get('x').arrayBuffer());
            return { bytes: [...got], declared: Number(x.req.headers['content-length']) - x.body.length + got.length }; }
        const body = c.way === 'buffer' ? b : c.way === 'view' ? new Uint8Array(b) : c.way === 'slice' ? Buffer.concat([Buffer.from('#'), b, Buffer.from('#')]).subarray(1, b.length + 1) : new Uint8Array(b).buffer;
        const x = await ask('http://a.test/', { method: m, body }); return { bytes: [...x.body], declared: Number(x.req.headers['content-length']) };
    },
    async value(c, v, ask) {
        const val = c.way === 'number' ? c.n : c.way === 'truth' ? c.n > 0 : c.way === 'object' ? { a: c.n } : [c.n, c.n + 1];
        const x = v % 2 ? await ask({ hostname: 'a.test', https: false, path: '/', query: { q: val } }) : await ask('http://a.test/', { query: { q: val } }); return new URL(x.req.url, 'http://a').searchParams.getAll('q').join(' and ');
    },
    async instant(c, v, ask) {
        const [d, h, m, s, ms] = c.at, x = await ask('http://a.test/', { query: { q: v % 2 ? [new Date(Date.UTC(1970, 0, d, h, m, s, ms))] : new Date(Date.UTC(1970, 0, d, h, m, s, ms)) } }), t = new URL(x.req.url, 'http://a').searchParams.get('q');
        const g = /^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)\.(\d{3})Z$/.exec(t); return g ? g.slice(1).map(Number) : 'text ' + t;
    },
    async who(c, v, ask) {
        const u = `http://${c.way === 'option' ? '' : c.user + ':' + c.pass + '@'}a.test/`, o = c.way === 'option' ? { auth: c.user + ':' + c.pass } : c.way === 'both' ? { auth: 'other:pass' } : {};
        const x = await ask(c.way === 'object' ? new URL(u) : u, o), g = /^Basic (\S+)$/.exec(x.req.headers.authorization); return g ? Buffer.from(g[1], 'base64').toString() : 'header ' + x.req.headers.authorization;
    },
    async where(c, v, ask) {
        const o = {}; if (c.optport) o.port = c.optport; if (c.other) o.hostname = 'b.test'; if (c.over !== 'no') o.https = c.over === 'same' ? c.tls : !c.tls;
        const u = `http${c.tls ? 's' : ''}://a.test${c.port ? ':' + c.port : ''}/`, x = c.way === 'options' ? await ask({ hostname: 'a.test', path: '/', ...o }) : await ask(c.way === 'object' ? new URL(u) : u, o);
        return { tls: x.tls, host: x.host, port: x.port === (x.tls ? 443 : 80) ? 0 : x.port };
    },
    async path(c, v, ask) {
        const o = {}; if (c.opt) o.path = c.opt; if (c.more) o.query = { z: [3, '3'][v % 2] };
        const u = 'http://a.test' + c.path + (c.search && '?' + c.search) + c.part; return (await ask(v % 2 ? new URL(u) : u, o)).req.url;
    },
    async breaks(c, v, ask) {
        const t = c.text.map(m => MARKS[m]).join(''), d = new FormData(); d.append('q', t);
        const x = await ask('http://a.test/', { method: 'POST', headers: { 'Content-Type': TYPES.data }, body: v % 2 ? d : { q: t } });
        return marks((await new Response(x.body, { headers: { 'content-type': x.req.headers['content-type'] } }).formData()).get('q'));
    },
    async named(c, v, ask) {
        const t = c.text.map(m => MARKS[m]).join(''), d = new FormData(); d.append(t, 'v');
        const x = await ask('http://a.test/', { method: 'POST', headers: { 'content-type': TYPES.data }, body: v % 2 ? d : { [t]: 'v' } });
        return marks([...(await new Response(x.body, { headers: { 'content-type': x.req.headers['content-type'] } }).formData()).keys()].join('two fields'));
    },
};
const MARKS = { x: 'x', cr: '\r', lf: '\n', quote: '"', percent: '%' }, marks = t => [...t].map(k => Object.keys(MARKS).find(m => MARKS[m] === k) ?? k);
async function extra(c, v) {
    let got, times = 0; const net = network(x => { got = x; times++; x.res.writeHead(200); x.res.end(); });
    const L = load('request', {}, net.modules);
    try {
        const r = await EXTRA[c.f](c, v, async (...a) => { const r = await outcome(L.request(...a)); if (r.s !== 'ok') throw Error(r.s + ' ' + (r.e?.cause?.error?.message ?? r.e?.message ?? r.e)); return got; });
        return times === 1 && !net.open() ? r : { times, open: net.open() };
    } catch (e) { return 'failed: ' + e.message; }
}
const HOST = i => ['a.test', 'b.test', 'xn--c.test', 'A.test'][i], ADDR = (i) => `10.0.0.${i}`;
async function dns(c, v) {
    const asked = [];
    const net = network(x => {
        const u = new URL(x.req.url, 'http://h'), i = c.q.findIndex((_, j) => HOST(j) === u.searchParams.get('dn')) + 1, a = c.q[i - 1];
        asked.push(u.pathname === '/d' && x.host === '119.29.29.29' && !x.tls ? i : 'other question ' + x.req.url);
        if (a === 'fails') return x.client.destroy(new Error('gone'));
        x.res.writeHead(a === 'status' ? [404, 500, 302, 204][v % 4] : 200); x.res.end(a === 'one' ? ADDR(i) : a === 'two' ? ADDR(i) + ';' + ADDR(i + 10) : a === 'status' && v % 4 !== 3 ? 'sorry' : '');
    });
    const L = load('request', {}, net.modules), hosts = c.q.map((_, i) => HOST(i)), keep = hosts.slice();
    const w = await outcome(L.queryDNS(hosts.length === 1 && v % 2 ? hosts[0] : hosts)), r = w.v;
    if (w.s !== 'ok') return net.open() || asked.length !== c.q.indexOf('fails') + 1 ? { asked, open: net.open() } : 'refused';
    if (keep.some((h, i) => h !== hosts[i])) return 'hosts changed';
    if (Object.keys(r).length !== hosts.length || net.open()) return { r, open: net.open() };
    return { asked, found: hosts.map(h => r[h].map(a => Number(/^10\.0\.0\.(\d+)$/.exec(a)?.[1] ?? NaN))) };
}
async function ip(c, v) {
    const net = network(x => {
        if (x.host !== 'pv.sohu.com' || x.req.url !== '/cityjson') return x.client.destroy(new Error('other address'));
        if (c.a === 'fails') return x.client.destroy(new Error('gone'));
        x.res.writeHead(c.a === 'status' ? [404, 500, 201][v % 3] : 200);
        x.res.end(c.a === 'empty' ? '' : c.a === 'other text' ? '<html>var returnCitySN = {}' : c.a === 'no city' ? 'var returnCitySN = {"cip": "1.2.3.4"};' : Buffer.concat([Buffer.from('var returnCitySN = {"cip": "1.2.3.4", "cid": "310000", "cname": "'), Buffer.from([0xc9, 0xcf, 0xba, 0xa3]), Buffer.from('"};')]));
    });
    const L = load('request', {}, net.modules), r = await outcome(L.publicIP());
    if (r.s !== 'ok') return net.open() ? 'left open' : 'refused';
    const t = JSON.stringify(r.v);
    return t === '{"ip":"1.2.3.4","city":{"id":"310000","name":"上海"}}' ? 'good' : t === '{"ip":"1.2.3.4","city":{}}' ? 'no city' : t;
}
const CONTENT = 'h\u00e9llo '.repeat(60) + '\u{1f600}';
const SQUEEZE = { none: b => b, unknown: b => b, gzip: zlib.gzipSync, GZIP: zlib.gzipSync, 'x-gzip': zlib.gzipSync, deflate: zlib.deflateSync, raw: zlib.deflateRawSync, br: zlib.brotliCompressSync };
function system(cfg, v) {
    const vt = virtualTime(); let got = null, out = null, hs = 0, ds = 0;
    const net = network(x => { got = x; }, { refuse: () => cfg.refused && ['ECONNREFUSED', 'ENOTFOUND', 'EHOSTUNREACH'][v % 3] });
    const L = load('request', vt.globals, net.modules);
    const plain = Buffer.from(cfg.pieces ? CONTENT.slice(0, [CONTENT.length, 4, 40][v % 3]) : ''), wire = cfg.pieces ? Buffer.from(SQUEEZE[cfg.enc](plain)) : Buffer.alloc(0);
    if (cfg.bad) { const at = cfg.enc === 'gzip' || cfg.enc === 'GZIP' || cfg.enc === 'x-gzip' ? [0, 2][v % 2] : 0; wire[at] ^= 0xff; if (cfg.enc === 'raw' || cfg.enc === 'deflate') wire[0] = 0x07; if (cfg.enc === 'br') { wire.fill(0xff); } }
    const cuts = Array.from({ length: cfg.pieces + 1 }, (_, i) => i === 0 ? 0 : i === cfg.pieces ? wire.length : v % 4 === 0 ? Math.min(i, wire.length) : v % 4 === 1 ? Math.max(0, wire.length - (cfg.pieces - i)) : Math.floor(wire.length * i / cfg.pieces));
    const done = async () => { const t = Date.now(); while (!out && Date.now() - t < 3000) await tick(); for (let i = 0; i < 3; i++) await tick(); };
    const settleFast = async () => { for (let i = 0; i < 12 && !out; i++) await tick(); for (let i = 0; i < 3; i++) await tick(); };
    let sent = 0;
    const look = () => {
        if (!out) return ['nothing'];
        if (net.open()) return ['connection open'];
        if (!out.ok) { const e = out.e; return e instanceof Promise || e === undefined || e === null ? ['no reason'] : ['err']; }
        const r = out.v;
        if (r.error !== null) return ['ok with error'];
        if (r.status !== 200 || r.response.statusCode !== 200 || r.statusText !== 'Fine') return ['other status'];
        if (!Buffer.isBuffer(r.data)) return ['not bytes'];
        if (cfg.stop === 'header' ? ds : cfg.stop.startsWith('data') ? ds < 1 : hs !== 1) return ['handlers', hs, ds];
        const want = cfg.stop === 'no' ? plain : wire.subarray(0, cuts[cfg.stop === 'data2' ? 1 : 0]);
        if (!r.data.equals(want)) return ['other data', r.data.length, want.length];
        return ['ok', cfg.stop === 'no' ? cfg.pieces : cfg.stop === 'data2' ? 1 : 0];
    };
    return {
        async call() {
            const h = { header(res) { hs++; if (res.statusCode !== 200) throw Error('status'); return cfg.stop === 'header' ? true : undefined; }, data(chunk) { ds++; if (!Buffer.isBuffer(chunk)) throw Error('chunk'); return (cfg.stop === 'data1' && ds === 1) || (cfg.stop === 'data2' && ds === 2) ? true : undefined; } };
            const o = { method: cfg.head ? 'HEAD' : 'GET', timeout: 777 }; if (cfg.delay) o.delay = 50;
            L.request('http://a.test/x', o, h).then(x => { out = { ok: true, v: x }; }, e => { out = { ok: false, e }; });
            if (cfg.delay) { await settleFast(); if (got || net.clients.length) return ['too early']; await vt.advance(49, tick); await settleFast(); return got ? ['too early'] : ['nothing']; }
            return this.arrive();
        },
        async arrive() {
            for (let i = 0; i < 100 && !got && !out; i++) { await tick(); if (i === 3) await vt.advance(1, tick); }
            if (out) return look();
            return got ? got.client.timeoutMs === 777 ? ['request'] : ['no timeout set', got.client.timeoutMs] : ['nothing'];
        },
        async due() { await vt.advance(2, tick); return this.arrive(); },
        async refused() { cfg = { ...cfg, refused: true }; const o = { delay: 0 }; L.request('http://a.test/x', o).then(x => { out = { ok: true, v: x }; }, e => { out = { ok: false, e }; }); await settleFast(); await vt.advance(1, tick); await done(); return look(); },
        async head() {
            const h = {}; if (cfg.enc !== 'none') h['content-encoding'] = cfg.enc === 'raw' ? 'deflate' : cfg.enc === 'unknown' ? 'x-zip' : cfg.enc;
            if (cfg.len) h['content-length'] = String(wire.length);
            got.res.writeHead(200, 'Fine', h); got.res.flushHeaders();
            if (cfg.head) { got.res.end(); await done(); } else if (cfg.stop === 'header' || cfg.len && !cfg.pieces) await done(); else await settleFast();
            return look();
        },
        async piece() {
            const b = wire.subarray(cuts[sent], cuts[++sent]); if (b.length) got.res.write(b);
            const last = (cfg.stop === 'data1' && sent === 1) || (cfg.stop === 'data2' && sent === 2) || (cfg.len && sent === cfg.pieces);
            if (last) await done(); else await settleFast();
            return cfg.bad && !last ? ['any'] : look();
        },
        async end() { got.res.end(); await done(); return look(); },
        async cut() { got.req.socket.reset = v % 2 === 0; got.req.socket.destroy(); await done(); return look(); },
        async timeout() { got.client.emit('timeout'); await done(); return look(); },
        stop() { for (const c of net.clients) c.destroy(); },
    };
}
// (every way is taken in each of twelve variants of sizes, cuts and faults)
let nth = 0;
const adapter = () => { let y; const v = nth++;
    return { init: () => ['idle'], step: (a, to) => { y ??= system(to.cfg, v); return y[a.a](); }, expect: o => o, end: () => y?.stop() }; };
export default async function (rep) {
    const mp = THOROUGH ? 3 : 2;
    const m = await mustTlc('Deliver', { cfg: `CONSTANTS MaxPieces=${mp}\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Whole EmitInit\nPROPERTIES Once Settles\nACTION_CONSTRAINT Emit\n` });
    rep.model(m, 'Deliver MaxPieces=' + mp);
    for (let i = 0; i < 12; i++) { nth = i; await replayGraph(rep, m.edges, adapter, { name: 'deliver', walks: THOROUGH ? 500 : 20 }); }
    let n = 0;
    const set = k => '{' + Array.from({ length: k }, (_, i) => i + 1).join() + '}';
    await cases(rep, 'Carry', c => c.f === 'dns' ? dns(c, n++) : c.f === 'ip' ? ip(c, n++) : c.f in EXTRA ? extra(c, n++) : carry(c, n++ % 60), { constants: `MaxFields=2 Names=${set(3)} Values=${set(THOROUGH ? 9 : 4)}`, spec: 'CaSpec', times: THOROUGH ? 4 : 1, parallel: 8 });
    const R = rng(SEED * 5 + 23);
    await recorded(rep, 'Carry', (c, i) => carry(c, i % 60), { constants: 'MaxFields=0 Names={} Values={}', runs: THOROUGH ? 20000 : 2500, parallel: 8, gen: () => {
        const q = (n, one) => { const ks = R.shuffle(NAMES.map((_, i) => i + 1)).slice(0, n); return ks.map(k => ({ k, v: Array.from({ length: one ? 1 : R.int(0, 3) }, () => R.int(1, TEXTS.length)) })); };
        const body = R.pick(['none', 'none', 'form', 'json', 'multi', 'data', 'text', 'bytes', 'view', 'buffer']), has = ['form', 'json', 'multi', 'data'].includes(body);
        return { f: 'carry', method: body === 'none' ? R.pick(['GET', 'HEAD', 'DELETE', 'OPTIONS']) : R.pick(['POST', 'PUT', 'PATCH', 'DELETE']), own: R.pick([[], [1], [1, 2]]), query: q(R.int(0, 4)), mine: [R.bool(), has ? false : R.bool(), R.bool(), R.bool()], body,
            form: has ? q(R.int(1, 4), body === 'multi') : [], text: ['text', 'bytes', 'view', 'buffer'].includes(body) ? R.int(1, TEXTS.length) : 0 };
    } });
}
