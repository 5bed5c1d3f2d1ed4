"use strict";
// node check.js BUNDLE STATES.jsonl : runs the library's decoders on every dumped state and compares with what the state holds.
const { Worker, isMainThread, parentPort, workerData } = require("worker_threads");
const fs = require("fs");
const os = require("os");
const readline = require("readline");

class Bad extends Error {}
let n = 0;
function eq(what, got, want) {
  n++;
  const g = JSON.stringify(got), w = JSON.stringify(want);
  if (g !== w) throw new Bad(`${what}: the library gives ${short(g)}, the account holds ${short(w)}`);
}
const short = (s) => (s === undefined ? "undefined" : s.length > 400 ? s.slice(0, 400) + "..." : s);
const S = (x) => (x === undefined || x === null ? String(x) : x.toString());
const H = (x) => Buffer.from(x).toString("hex");
async function call(what, f) {
  try { return await f(); } catch (e) { if (e instanceof Bad) throw e; throw new Bad(`${what} fails: ${e && e.message}`); }
}

function levels(orders) {
  const out = [];
  for (const [id, q] of orders) {
    const p = (BigInt(id) >> 64n).toString();
    if (out.length && out[out.length - 1][0] === p) out[out.length - 1][1] += BigInt(q);
    else out.push([p, BigInt(q)]);
  }
  return out.map(([p, q]) => [p, q.toString()]);
}

function some(orders) {
  if (orders.length <= 60) return orders;
  return orders.filter((_, i) => i < 5 || i >= orders.length - 5 || i % 17 === 0 || Math.abs(i - 256) < 3 || Math.abs(i - 128) < 3);
}

async function side(L, name, slab, orders, r, tag) {
  const { BN } = L;
  const cbl = r.cb, up = orders, down = orders.slice().reverse();
  eq(`${name} tag`, slab.header.accountTag, tag);
  if (slab.header.leafCount !== orders.length) throw new Bad(`${name} leafCount: ${slab.header.leafCount}, ${orders.length} orders rest`);
  n++;
  eq(`${name} capacity`, slab.orderCapacity + 1, name.startsWith("bids") ? r.bidc : r.askc);
  const ref = (x) => [S(x.leafNode.key), S(x.leafNode.baseQuantity), H(x.callbackInfo)];
  const prices = (x) => S(x.leafNode.getPrice());
  await call(`${name} items()`, () => {
    eq(`${name} items(false)`, [...slab.items(false)].map(ref), up);
    eq(`${name} items()`, [...slab.items()].map(ref), up);
    eq(`${name} iteration`, [...slab].map(ref), up);
    eq(`${name} items(true)`, [...slab.items(true)].map(ref), down);
    eq(`${name} prices`, [...slab.items(false)].map(prices), up.map((o) => (BigInt(o[0]) >> 64n).toString()));
  });
  const c = orders.length;
  const ks = c <= 60 ? [...Array(c + 2).keys()] : [0, 1, 2, 3, 17, c - 1, c, c + 1];
  ks.push(1000000);
  for (const k of ks) for (const max of [false, true]) await call(`${name} getMinMaxNodes(${k}, ${max})`, () => eq(`${name} getMinMaxNodes(${k}, ${max})`, slab.getMinMaxNodes(k, max).map(ref), (max ? down : up).slice(0, k)));
  const lu = levels(up), ld = levels(down);
  const ds = lu.length <= 60 ? [...Array(lu.length + 2).keys()] : [0, 1, 2, 3, lu.length - 1, lu.length, lu.length + 1];
  ds.push(1000000);
  for (const d of ds) for (const inc of [true, false]) await call(`${name} getL2DepthJS(${d}, ${inc})`, () => eq(`${name} getL2DepthJS(${d}, ${inc}) as [price, size]`, slab.getL2DepthJS(d, inc).map((x) => [S(x.price), S(x.size)]), (inc ? lu : ld).slice(0, d)));
  const ids = new Set(orders.map((o) => o[0]));
  for (const o of some(orders)) {
    const key = new BN(o[0]);
    await call(`${name} getNodeByKey(${o[0]})`, () => {
      const x = slab.getNodeByKey(key);
      eq(`${name} getNodeByKey(${o[0]})`, x && [S(x.key), S(x.baseQuantity)], [o[0], o[1]]);
      eq("getPriceFromKey", S(L.getPriceFromKey(key)), (BigInt(o[0]) >> 64n).toString());
      eq("the key after the lookup", S(key), o[0]);
    });
  }
  for (const p of r.probes) if (!ids.has(p)) await call(`${name} getNodeByKey(${p})`, () => eq(`${name} getNodeByKey(${p}), which does not rest`, S(slab.getNodeByKey(new BN(p))), "undefined"));
}

const EV = (L, e) => e instanceof L.EventFill ? ["f", e.takerSide, S(e.makerOrderId), S(e.baseSize), S(e.quoteSize), H(e.makerCallbackInfo), H(e.takerCallbackInfo)]
  : e instanceof L.EventOut ? ["o", e.side, S(e.orderId), S(e.baseSize), H(e.callbackInfo)] : ["?", S(e)];

async function record(L, r) {
  if (r.sizes) {
    eq("MarketState.LEN", L.MarketState.LEN, r.market_len);
    for (const [k, cb, slab, queue] of r.sizes) {
      eq(`Slab.computeAllocationSize(${k}, ${cb})`, L.Slab.computeAllocationSize(k, cb), slab);
      eq(`EventQueue.computeAllocationSize(${k}, ${cb})`, L.EventQueue.computeAllocationSize(k, cb), queue);
    }
    const conn = new L.web3.Connection(new Map());
    for (const [a, cb, , queue] of r.sizes) for (const [b, cb2, slab] of r.sizes) {
      if (cb !== cb2 || cb !== 32) continue;
      const own = new L.web3.PublicKey(3);
      const given = (a + b) % 2 === 0;
      const [signers, ins] = await call("createMarket", () => L.createMarket(conn, new L.web3.PublicKey(1), cb, new L.BN(8), a, b, new L.BN(1), new L.web3.PublicKey(2), new L.BN(1), given ? own : undefined));
      const what = `createMarket(events ${a}, orders ${b})`;
      const made = ins.filter((i) => i.system === "createAccount");
      eq(`${what}: spaces of the created accounts`, made.map((i) => i.space).sort((x, y) => x - y), [queue, slab, slab, r.market_len].sort((x, y) => x - y));
      // the last instruction creates the market on these accounts: market, queue, bids, asks, each made before with its size, its rent and the program as owner
      const last = ins[ins.length - 1];
      const prog = given ? own : L.AAOB_ID;
      eq(`${what}: program`, [ins.filter((i) => !i.system).length, S(last.programId)], [1, S(prog)]);
      for (const [k, [role, space]] of [["market", r.market_len], ["event queue", queue], ["bids", slab], ["asks", slab]].entries()) {
        const key = S(last.keys[k].pubkey);
        const m = made.filter((i) => S(i.newAccountPubkey) === key);
        eq(`${what}: the ${role} account is created once, with size, rent, owner, payer, signature`, [m.length, ...m.map((i) => [i.space, i.lamports, S(i.programId), S(i.fromPubkey)]), signers.filter((x) => S(x.publicKey) === key).length],
          [1, [space, await conn.getMinimumBalanceForRentExemption(space), S(prog), S(new L.web3.PublicKey(2))], 1]);
        eq(`${what}: the ${role} account is writable`, last.keys[k].isWritable, true);
      }
    }
    return;
  }
  const buf = (h) => Buffer.from(h, "hex");
  const hexToKey = (h) => new L.web3.PublicKey(buf(h));
  const { BN, MarketState, EventQueue, Slab } = L;
  const [tm, tq, tb, ta] = r.tags;
  eq("AccountTag members", [L.AccountTag.Market, L.AccountTag.EventQueue, L.AccountTag.Bids, L.AccountTag.Asks, L.AccountTag.Disabled], [128, 129, 130, 131, 132]);
  const mk = new L.web3.PublicKey(Buffer.alloc(32, 0xee));
  const map = new Map([[mk.toString(), buf(r.market)], [hexToKey(r.keys[0]).toString(), buf(r.eq)], [hexToKey(r.keys[1]).toString(), buf(r.bids)], [hexToKey(r.keys[2]).toString(), buf(r.asks)]]);
  const conn = new L.web3.Connection(map);
  const markets = [await call("MarketState.deserialize", () => MarketState.deserialize(buf(r.market), r.cb)), await call("MarketState.retrieve", () => MarketState.retrieve(conn, mk, r.cb))];
  for (const m of markets) eq("market state", [S(m.tag), m.eventQueue.toBuffer().toString("hex"), m.bids.toBuffer().toString("hex"), m.asks.toBuffer().toString("hex"), S(m.minBaseOrderSize), S(m.tickSize), m.callbackInfoLen],
    [String(tm), r.tags[0] === 128 ? r.keys[0] : m.eventQueue.toBuffer().toString("hex"), r.tags[0] === 128 ? r.keys[1] : m.bids.toBuffer().toString("hex"), r.tags[0] === 128 ? r.keys[2] : m.asks.toBuffer().toString("hex"), r.min, r.tick, r.cb]);
  const open = tm === 128;
  await side(L, "bids", open ? await call("loadBidsSlab", () => markets[1].loadBidsSlab(conn)) : Slab.deserialize(buf(r.bids), r.cb), r.exp.bids, r, tb);
  await side(L, "asks", open ? await call("loadAsksSlab", () => markets[1].loadAsksSlab(conn)) : Slab.deserialize(buf(r.asks), r.cb), r.exp.asks, r, ta);
  // an account may be longer than a whole number of orders
  if (r.exp.bids.length + r.exp.asks.length <= 60) {
    const slot = 24 + 32 + r.cb;
    let extra = 0;
    for (let e = 8; e < slot; e += 8) if (e % r.cb === 0) extra = e;
    if (extra) {
      await side(L, "bids (account with slack)", await call("Slab.deserialize", () => Slab.deserialize(Buffer.concat([buf(r.bids), Buffer.alloc(extra)]), r.cb)), r.exp.bids, r, tb);
      await side(L, "asks (account with slack)", await call("Slab.deserialize", () => Slab.deserialize(Buffer.concat([buf(r.asks), Buffer.alloc(extra)]), r.cb)), r.exp.asks, r, ta);
    }
  }
  const want = r.exp.q;
  const qs = [await call("EventQueue.parse", () => EventQueue.parse(r.cb, buf(r.eq))), await call("EventQueue.load", () => EventQueue.load(conn, hexToKey(r.keys[0]), r.cb))];
  const hd = await call("EventQueue.parseEventQueueHeader", () => EventQueue.parseEventQueueHeader(buf(r.eq).subarray(0, 32)));
  for (const h of [hd, qs[0].header, qs[1].header]) eq("event queue header", [h.tag, S(h.count), S(h.seqNum)], [tq, String(want.length), r.seq]);
  for (const q of qs) {
    for (let i = 0; i < want.length; i++) await call(`peekAt(${i})`, () => eq(`peekAt(${i})`, EV(L, q.peekAt(i)), want[i]));
    const fills = want.filter((e) => e[0] === "f");
    await call("parseFill()", () => eq("parseFill()", q.parseFill().map((e) => EV(L, e)), fills));
    const lims = want.length <= 40 ? [...Array(want.length + 2).keys()].slice(1) : [1, 2, 3, want.length >> 1, want.length - 1, want.length, want.length + 1];
    lims.push(1000000);
    for (const l of lims) await call(`parseFill(${l})`, () => {
      const got = q.parseFill(l).map((e) => EV(L, e));
      if (l >= want.length) eq(`parseFill(${l})`, got, fills);
      else { // the limit may count events or fills: at least the fills among the first l events, at most l fills, always the oldest
        const least = want.slice(0, l).filter((e) => e[0] === "f").length;
        if (got.length < least || got.length > l) throw new Bad(`parseFill(${l}) gives ${got.length} fills; ${least} of the first ${l} events are fills`);
        eq(`parseFill(${l})`, got, fills.slice(0, got.length));
      }
    });
  }
}

async function lines(file, k, m) {
  const L = require(workerData.bundle);
  const rl = readline.createInterface({ input: fs.createReadStream(file, { highWaterMark: 1 << 20 }), crlfDelay: Infinity });
  let i = 0, recs = 0;
  for await (const line of rl) {
    if (i++ % m !== k || !line) continue;
    workerData.at[k] = i;
    const r = JSON.parse(line);
    try { await record(L, r); recs++; } catch (e) {
      const msg = e instanceof Bad ? e.message : `the decoders fail: ${e && e.stack}`;
      return { violation: `${msg} (world ${r.world})`, record: r };
    }
  }
  workerData.at[k] = -1;
  return { ok: { records: recs, comparisons: n } };
}

if (isMainThread) {
  const [bundle, file] = process.argv.slice(2);
  try { require(bundle); } catch (e) { console.log(JSON.stringify({ violation: `the library does not load: ${e && e.message}`, record: null })); process.exit(0); }
  const m = Math.min(os.cpus().length, 8);
  const at = new Int32Array(new SharedArrayBuffer(4 * m)), since = Array(m).fill(0), last = Array(m).fill(0);
  // a decoder that does not come back is a violation, not a hang of the check
  setInterval(() => {
    for (let k = 0; k < m; k++) {
      if (at[k] !== last[k]) { last[k] = at[k]; since[k] = Date.now(); }
      else if (at[k] > 0 && since[k] && Date.now() - since[k] > 60000) {
        const line = fs.readFileSync(file, "utf8").split("\n")[at[k] - 1];
        fs.writeSync(1, JSON.stringify({ violation: "a decoder does not terminate", record: JSON.parse(line) }) + "\n");
        process.exit(0);
      }
    }
  }, 500);
  let done = 0, total = { records: 0, comparisons: 0 };
  for (let k = 0; k < m; k++) {
    const w = new Worker(__filename, { workerData: { bundle, file, k, m, at } });
    w.on("message", (x) => {
      if (x.violation) { fs.writeSync(1, JSON.stringify(x) + "\n"); process.exit(0); }
      total.records += x.ok.records; total.comparisons += x.ok.comparisons;
      if (++done === m) { fs.writeSync(1, JSON.stringify({ ok: total }) + "\n"); process.exit(0); }
    });
    w.on("error", (e) => { fs.writeSync(1, JSON.stringify({ violation: `the decoders fail: ${e && e.stack}`, record: null }) + "\n"); process.exit(0); });
  }
} else {
  lines(workerData.file, workerData.k, workerData.m).then((x) => parentPort.postMessage(x));
}
