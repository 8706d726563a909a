// Runs the JavaScript client in a context that looks like a browser page as far as the client needs it.
// One line of JSON in, one out: {"script"} loads a client, {"op", ...} performs an operation; while it runs,
// its requests and timers go out as {"xhr"} and {"sleep"} lines and are answered by one line each.
// Byte strings are strings of characters below 256, as they are for the client.
'use strict';
const fs = require('fs');
const vm = require('vm');

const chunk = Buffer.alloc(1 << 16);
let pending = Buffer.alloc(0);
function readLine() {
	for (;;) {
		const i = pending.indexOf(10);
		if (i >= 0) {
			const line = pending.subarray(0, i).toString('utf8');
			pending = pending.subarray(i + 1);
			return line;
		}
		let n;
		try {
			n = fs.readSync(0, chunk, 0, chunk.length, null);
		} catch (e) {
			if (e.code === 'EAGAIN') {
				Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 1);
				continue;
			}
			if (e.code === 'EOF') n = 0; else throw e;
		}
		if (n === 0) process.exit(0);
		pending = Buffer.concat([pending, chunk.subarray(0, n)]);
	}
}
function writeLine(o) {
	const b = Buffer.from(JSON.stringify(o) + '\n', 'utf8');
	for (let i = 0; i < b.length;) {
		try {
			i += fs.writeSync(1, b, i);
		} catch (e) {
			if (e.code !== 'EAGAIN') throw e;
			Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 1);
		}
	}
}

let queue = [];
let result = null;
let steps = 0;
let page = null, realm = null;

function bytesOf(data) {
	if (data === null || data === undefined) return {body: '', type: ''};
	if (ArrayBuffer.isView(data) || Object.prototype.toString.call(data) === '[object Uint8Array]')
		return {body: Buffer.from(data.buffer, data.byteOffset, data.byteLength).toString('latin1'), type: ''};
	if (Object.prototype.toString.call(data) === '[object ArrayBuffer]') return {body: Buffer.from(data).toString('latin1'), type: ''};
	return {body: Buffer.from(String(data), 'utf8').toString('latin1'), type: 'text/plain;charset=UTF-8'};
}

class XMLHttpRequest {
	constructor() {
		this.readyState = 0; this.status = 0; this.statusText = ''; this.response = null; this.responseText = ''; this.responseType = '';
		this.onload = null; this.onerror = null; this.onreadystatechange = null; this.onloadend = null;
		this._h = []; this._l = {};
	}
	addEventListener(n, f) { (this._l[n] = this._l[n] || []).push(f); }
	open(method, url) { this._m = method; this._u = url; this.readyState = 1; }
	setRequestHeader(n, v) { this._h.push([n, String(v)]); }
	getResponseHeader(n) {
		const v = [];
		for (const [k, x] of this._rh) if (k.toLowerCase() === String(n).toLowerCase()) v.push(x);
		return v.length ? v.join(', ') : null;
	}
	getAllResponseHeaders() { return this._rh.map(x => x[0].toLowerCase() + ': ' + x[1] + '\r\n').join(''); }
	abort() {}
	_fire(n) {
		const e = {type: n, target: this, currentTarget: this};
		for (const f of [this['on' + n]].concat(this._l[n] || [])) if (f) attempt(() => f.call(this, e));
	}
	send(data) {
		queue.push(() => {
			const b = bytesOf(data);
			const h = this._h.slice();
			if (b.type && !h.some(x => x[0].toLowerCase() === 'content-type')) h.push(['Content-Type', b.type]);
			writeLine({xhr: {method: this._m, url: this._u, headers: h, body: b.body}});
			const a = JSON.parse(readLine());
			this.readyState = 4;
			this._rh = a.headers || [];
			if (a.error) {
				this._fire('readystatechange');
				this._fire('error');
			} else {
				this.status = a.status;
				const body = Buffer.from(a.body || '', 'latin1');
				this.responseText = body.toString('utf8');
				if (this.responseType === 'arraybuffer') {
					this.response = realm.Uint8Array.from(body).buffer;
				} else {
					this.response = this.responseText;
				}
				this._fire('readystatechange');
				this._fire('load');
			}
			this._fire('loadend');
		});
	}
}

function attempt(f) {
	try { f(); } catch (e) { result.errors.push(String(e && e.stack || e)); }
}

let timers = new Map(), nextTimer = 1;
function setTimer(f, ms) {
	const id = nextTimer++;
	timers.set(id, true);
	queue.push(() => {
		if (!timers.delete(id)) return;
		writeLine({sleep: Math.min(Number(ms) || 0, Number.MAX_VALUE)});
		readLine();
		attempt(() => f());
	});
	return id;
}

function load(script) {
	const context = vm.createContext({XMLHttpRequest, setTimeout: setTimer, clearTimeout: id => timers.delete(id),
		atob: s => atob(s), btoa: s => btoa(s), TextEncoder, TextDecoder, console: {log() {}, warn() {}, error() {}, info() {}}});
	context.window = context; context.self = context;
	realm = vm.runInContext('({JSON, Uint8Array})', context);
	vm.runInContext(script, context, {filename: 'continusec.js'});
	const found = new Map(); // however the script declares what it offers
	page = new Proxy({}, {get(_, n) {
		if (!found.has(n)) found.set(n, vm.runInContext('typeof ' + n + ' === "undefined" ? undefined : ' + n, context));
		return found.get(n);
	}});
}

// ---- values in and out ----

const num = n => (typeof n === 'number' && !Number.isFinite(n)) ? String(n) : n;
const outHead = h => h === null || h === undefined ? null : {size: num(h.getTreeSize()), root: h.getRootHash()};
const outMapHead = h => h === null || h === undefined ? null : {root: h.getRootHash(), mutation: outHead(h.getMutationLogTreeHead()), size: num(h.getTreeSize())};
const outState = s => s === null || s === undefined ? null : {map: outMapHead(s.getMapHead()), thl: outHead(s.getTreeHeadLogTreeHead()), size: num(s.getTreeSize())};
const outEntry = e => { const o = {}; try { o.data = e.getData(); } catch (x) { o.error = String(x); } if (e.getLeafHash) o.leaf = e.getLeafHash(); return o; };
const outProof = p => ({leaf: p.getLeafHash(), size: num(p.getTreeSize()), index: num(p.getLeafIndex()), path: p.getAuditPath()});
const inHead = h => h === null || h === undefined ? null : new page.LogTreeHead(h.size, h.root);
const inMapHead = h => new page.MapTreeHead(inHead(h.mutation), h.root);
const inState = s => s === null || s === undefined ? null : new page.MapTreeState(inMapHead(s.map), inHead(s.thl));
const inProof = p => new page.LogInclusionProof(p.leaf, p.size, p.index, p.path);
const inLeaf = l => new page.AddEntryResponse(l);
const inEntry = e => new page[{raw: 'RawDataEntry', json: 'JsonEntry', redactable: 'RedactableJsonEntry', redacted: 'RedactedJsonEntry', mutation: 'MutationEntry'}[e.kind]](e.data);
const factory = n => page[{raw: 'RAW_DATA_ENTRY_FACTORY', json: 'JSON_ENTRY_FACTORY', redacted: 'REDACTED_JSON_ENTRY_FACTORY', mutation: 'MUTATION_ENTRY_FACTORY'}[n]];

function logOf(q) {
	const c = new page.ContinusecClient(q.account, q.key, q.base);
	if (q.kind === 'mutation') return c.getVerifiableMap(q.name).getMutationLog();
	if (q.kind === 'treehead') return c.getVerifiableMap(q.name).getTreeHeadLog();
	return c.getVerifiableLog(q.name);
}
const mapOf = q => new page.ContinusecClient(q.account, q.key, q.base).getVerifiableMap(q.name);

const ok = out => function () { result.calls.push(['success', arguments.length ? out(...arguments) : null]); };
const none = ok(() => null);
const fail = function (r) { result.calls.push(['failure', String(r)]); };
const each = (i, e) => { result.each.push([num(i), outEntry(e)]); };
const value = f => { let v; try { v = f(); } catch (e) { fail(e); return; } result.calls.push(['success', v === undefined ? '(undefined)' : v]); };
// helpers may go
const helper = (n, f) => page[n] ? value(() => f(page[n])) : result.calls.push(['absent', n]);

const ops = {
	add: q => logOf(q).add(inEntry(q.entry), ok(r => r.getLeafHash()), fail),
	logHead: q => logOf(q).getTreeHead(q.size, ok(outHead), fail),
	entry: q => logOf(q).getEntry(q.index, factory(q.factory), ok(outEntry), fail),
	entries: q => logOf(q).getEntries(q.first, q.last, factory(q.factory), each, none, fail),
	verifyEntries: q => logOf(q).verifyEntries(inHead(q.prev), inHead(q.head), factory(q.factory), each, none, fail),
	inclusion: q => logOf(q).getInclusionProof(q.size, inLeaf(q.leaf), ok(outProof), fail),
	inclusionByIndex: q => logOf(q).getInclusionProofByIndex(q.size, q.index, ok(outProof), fail),
	verifyInclusion: q => logOf(q).verifyInclusion(inHead(q.head), q.entry ? inEntry(q.entry) : inLeaf(q.leaf), none, fail),
	consistency: q => logOf(q).getConsistencyProof(q.first, q.size, ok(p => ({first: num(p.getFirstSize()), size: num(p.getSecondSize()), path: p.getAuditPath()})), fail),
	verifyConsistency: q => logOf(q).verifyConsistency(inHead(q.a), inHead(q.b), none, fail),
	latestHead: q => logOf(q).getVerifiedLatestTreeHead(inHead(q.prev), ok(outHead), fail),
	verifiedHead: q => logOf(q).getVerifiedTreeHead(inHead(q.prev), q.size, ok(outHead), fail),
	supplied: q => logOf(q).verifySuppliedInclusionProof(inHead(q.prev), inProof(q.proof), ok(outHead), fail),
	block: q => logOf(q).blockUntilPresent(inLeaf(q.leaf), ok(outHead), fail),

	get: q => mapOf(q).getValue(q.mapKey, q.size, factory(q.factory), ok(r => {
		const o = {key: r.getKey(), value: outEntry(r.getValue()), size: num(r.getTreeSize()), path: r.getAuditPath()};
		if (q.head) try { r.verify(inMapHead(q.head)); o.verified = true; } catch (e) { o.verified = false; }
		return o;
	}), fail),
	verifiedGet: q => mapOf(q).getVerifiedValue(q.mapKey, inState(q.state), factory(q.factory), ok(outEntry), fail),
	set: q => mapOf(q).setValue(q.mapKey, inEntry(q.entry), ok(r => r.getLeafHash()), fail),
	del: q => mapOf(q).deleteValue(q.mapKey, ok(r => r.getLeafHash()), fail),
	mapHead: q => mapOf(q).getTreeHead(q.size, ok(outMapHead), fail),
	blockSize: q => mapOf(q).blockUntilSize(q.size, ok(outMapHead), fail),
	latestState: q => mapOf(q).getVerifiedLatestMapState(inState(q.prev), ok(outState), fail),
	verifiedState: q => mapOf(q).getVerifiedMapState(inState(q.prev), q.size, ok(outState), fail),

	// without a server
	leafHash: q => value(() => inEntry(q.entry).getLeafHash()),
	data: q => value(() => inEntry(q.entry).getData()),
	objectHash: q => helper('objectHashWithStdRedaction', f => f(realm.JSON.parse(q.text))),
	mapHeadHash: q => value(() => inMapHead(q.head).getLeafHash()),
	keyPath: q => helper('constructKeyPath', f => f(q.mapKey)),
	proofVerify: q => value(() => { inProof(q.proof).verify(inHead(q.head)); return true; }),
	consistencyVerify: q => value(() => { new page.LogConsistencyProof(q.proof.first, q.proof.size, q.proof.path).verify(inHead(q.a), inHead(q.b)); return true; }),
};

for (;;) {
	const q = JSON.parse(readLine());
	queue = []; steps = 0; timers = new Map();
	result = {calls: [], errors: [], each: []};
	if (q.script !== undefined) {
		attempt(() => load(q.script));
	} else {
		attempt(() => ops[q.op](q));
		while (queue.length && steps++ < 100000) queue.shift()();
	}
	writeLine({done: result});
}
