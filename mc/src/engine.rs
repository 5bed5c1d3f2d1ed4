//! Breadth-first explicit-state exploration of the real instruction processors.
use crate::decode::*;
use crate::env::*;
use crate::monitor::*;
use crate::spec::*;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use rustc_hash::FxHashSet;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- alphabets

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct NT { pub bid: bool, pub price: u64, pub base: u64, pub quote: u64, pub limit: u64, pub po: bool, pub pa: bool, pub stb: u8, pub owner: u64 }
pub const M: u64 = u64::MAX;
/// a plain limit order
pub const fn nt(bid: bool, price: u64, base: u64, owner: u64) -> NT { NT { bid, price, base, quote: M, limit: M, po: false, pa: true, stb: 0, owner } }
impl NT {
    pub fn q(mut self, q: u64) -> NT { self.quote = q; self }
    pub fn l(mut self, l: u64) -> NT { self.limit = l; self }
    pub fn po(mut self) -> NT { self.po = true; self }
    pub fn nopost(mut self) -> NT { self.pa = false; self }
    pub fn s(mut self, s: u8) -> NT { self.stb = s; self }
    pub fn act<C: CbT>(&self, tag: u64) -> Act where <C as CallbackInfo>::CallbackId: PartialEq {
        Act::New(NewP { bid: self.bid, price: self.price, base: self.base, quote: self.quote, limit: self.limit, post_only: self.po, post_allowed: self.pa, stb: self.stb, cb: C::mk(self.owner, tag) })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CQ { N(u64), Len(i64) }

#[derive(Clone, Debug, Default)]
pub struct Alpha {
    pub news: Vec<NT>,
    pub cancel_live: bool,
    /// 0 = none, 1 = a few neighbours of live ids and recently used ids, 2 = every single-bit neighbour as well
    pub cancel_dead: u8,
    pub consume: Vec<CQ>,
    /// 0 = none, 1 = singles, all, reversed, duplicates, missing; 2 = also every ordered pair and triple
    pub mass: u8,
    pub seqs: Vec<u64>,
    /// slab-level worlds: every key of the universe is inserted when absent (and there is room), removed whether present or not
    pub keys: Vec<(bool, u128)>,
    pub cap: usize,
}

/// All resting orders, or on a big book a fixed selection: the ends, the places around the powers of two, and a regular sample.
fn some_live(v: &View) -> Vec<&Ord> {
    let mut out = vec![];
    for side in [&v.bids, &v.asks] {
        let n = side.len();
        if n <= 48 { out.extend(side.iter()); continue; }
        let mut ks: Vec<usize> = if n > 20000 { vec![n / 3] } else { (0..n).step_by(n / 12).collect() };
        for c in [0, 255, 256, 65535, 65536, n - 1] { for d in 0..2 { if c + d < n { ks.push(c + d) } } }
        ks.sort();
        ks.dedup();
        out.extend(ks.into_iter().map(|k| &side[k]));
    }
    out
}

fn dead_ids(v: &View, level: u8, prices: &[u64], issued: &[u128]) -> Vec<u128> {
    let mut d: Vec<u128> = vec![0, u128::MAX, 1 << 63, 1 << 64, 1];
    let live = some_live(v);
    let big = v.bids.len() + v.asks.len() > 20000;
    for o in live.into_iter().step_by(if big { 3 } else { 1 }) {
        let bits: Vec<u32> = if big { vec![0, 16, 63, 64, 127] } else if level >= 2 { (0..128).collect() } else { vec![0, 1, 31, 32, 62, 63, 64, 65, 96, 127] };
        for b in bits { d.push(o.id ^ (1u128 << b)); }
        d.push(o.id.wrapping_add(1));
        d.push(o.id.wrapping_sub(1));
        d.push(o.id & u64::MAX as u128);
        d.push(o.id & !(u64::MAX as u128));
        d.push(o.id ^ u64::MAX as u128);
        d.push(o.id.rotate_left(64));
    }
    for p in prices {
        for k in 0..8u64 {
            let s = v.seq.wrapping_sub(k);
            if s > v.seq { continue; }
            d.push((*p as u128) << 64 | s as u128);
            d.push((*p as u128) << 64 | !s as u128);
        }
    }
    for e in v.q.iter().step_by((v.q.len() / if big { 4 } else { 64 }).max(1)) { if let Some(i) = e.id() { d.push(i); } }
    d.extend(issued);
    d.sort();
    d.dedup();
    let ix = Idx::new(v);
    d.retain(|i| ix.get(*i).is_none());
    d
}

pub fn gen<C: CbT>(a: &Alpha, v: &View, prices: &[u64], issued: &[u128]) -> Vec<Act> where <C as CallbackInfo>::CallbackId: PartialEq {
    let mut out = vec![];
    for (i, n) in a.news.iter().enumerate() {
        out.push(n.act::<C>(v.seq << 24 | (v.q.len() as u64) << 16 | i as u64));
    }
    let live: Vec<u128> = if a.cancel_live || a.mass > 0 { some_live(v).into_iter().map(|o| o.id).collect() } else { vec![] };
    if a.cancel_live { for i in &live { out.push(Act::Cancel(*i)); } }
    let dead = if a.cancel_dead > 0 || a.mass > 0 { dead_ids(v, a.cancel_dead, prices, issued) } else { vec![] };
    if a.cancel_dead > 0 { for i in &dead { out.push(Act::Cancel(*i)); } }
    for c in &a.consume {
        let n = match c { CQ::N(n) => *n, CQ::Len(d) => { let x = v.q.len() as i64 + d; if x < 0 { continue; } x as u64 } };
        out.push(Act::Consume(n));
    }
    if a.mass > 0 {
        let mut lists: Vec<Vec<u128>> = vec![vec![], live.clone(), live.iter().rev().cloned().collect()];
        let dd: Vec<u128> = dead.iter().step_by((dead.len() / 6).max(1)).cloned().collect();
        for a1 in &live {
            lists.push(vec![*a1]);
            lists.push(vec![*a1, *a1]);
        }
        let mut dup = live.clone();
        dup.extend(live.first());
        lists.push(dup);
        for d in &dd {
            lists.push(vec![*d]);
            let mut l = live.clone();
            l.push(*d);
            lists.push(l);
            let mut l = vec![*d];
            l.extend(&live);
            lists.push(l);
        }
        if a.mass > 1 && live.len() > 12 { for (i, x) in live.iter().enumerate() { let y = live[(i * 7 + 3) % live.len()]; lists.push(vec![*x, y]); } }
        else if a.mass > 1 {
            for x in &live { for y in &live { if x != y {
                lists.push(vec![*x, *y]);
                lists.push(vec![*x, *y, *x]);
                for z in &live { if z != x && z != y { lists.push(vec![*x, *y, *z]); } }
            } } }
        }
        lists.sort_by_key(|l| l.len());
        lists.dedup();
        out.extend(lists.into_iter().map(Act::Mass));
    }
    for (k, (bid, id)) in a.keys.iter().enumerate() {
        let side = v.side(*bid);
        if cfg!(feature = "readers") { out.push(Act::Del(*bid, *id)); }
        if side.iter().any(|o| o.id == *id) { continue; }
        if side.len() < a.cap { out.push(Act::Put(*bid, *id, 3 + k as u64)); }
    }
    for s in &a.seqs { if *s > v.seq { out.push(Act::Seq(*s)); } }
    out
}

// ---------------------------------------------------------------- worlds

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P { N(NT), /// cancel the k-th order of a side in priority
    X(bool, usize), C(u64), Seq(u64), Put(bool, u128, u64) }

#[derive(Clone)]
pub struct World {
    pub name: String,
    pub cfg: Cfg,
    pub prefix: Vec<P>,
    pub setup: Alpha,
    pub depth: usize,
    pub probes: Alpha,
    pub track_ids: bool,
    pub entry: bool,
    pub hook: u32,
    /// a long prefix of orders that all come to rest: executed without judging each step, the result is compared with what was posted
    pub fast: bool,
}
pub const H_STRUCT: u32 = 1;
pub const H_READ: u32 = 2;
pub const H_TWIN: u32 = 4;
pub const H_CLOSE: u32 = 8;
pub const H_ENTRY: u32 = 16;
pub const H_DUMP: u32 = 32;

#[derive(Clone, Debug)]
pub struct Viol { pub prop: usize, pub msg: String, pub world: String, pub cb: String, pub cfg: Option<Cfg>, pub entry: bool, pub trace: Vec<Act>, pub special: Option<String>, /// the trace continues the unjudged prefix of the named world
    pub fast: bool }

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub relevant: u64,
    pub validated: u64,
    pub deviations: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub worlds: Vec<serde_json::Value>,
    pub samples: Vec<String>,
    pub extra: BTreeMap<String, serde_json::Value>,
    pub max_depth: usize,
}

pub fn hash128(w: &[u64], g: &[u128], i: &[u128]) -> u128 {
    let (mut a, mut b) = (0x9E37_79B9_7F4A_7C15u64, 0xC2B2_AE3D_27D4_EB4Fu64);
    let mut f = |x: u64| {
        a = (a.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
        b = (b ^ x).wrapping_mul(0x9FB2_1C65_1E98_DF25).rotate_left(29) ^ (b >> 7);
    };
    for x in w { f(*x); }
    f(g.len() as u64);
    for x in g.iter().chain(i) { f(*x as u64); f((*x >> 64) as u64); }
    a ^= a >> 32; b ^= b >> 29;
    (a as u128) << 64 | b as u128
}

struct Item { node: u32, buf: Box<[u64]>, g: Ghost, issued: Vec<u128> }
struct Child { order: (usize, usize), buf: Box<[u64]>, g: Ghost, issued: Vec<u128>, act: Act }

pub fn next_ghost(g: &Ghost, pre: &View, post: &View, out: &Out) -> Ghost {
    let _ = pre;
    let ix = Idx::new(post);
    let mut n: Ghost = g.iter().copied().filter(|i| ix.get(*i).is_some()).collect();
    if let Out::Ok(Some(s)) = out { if let Some(id) = s.id { if !n.contains(&id) && ix.get(id).is_some() { n.push(id); } } }
    // orders on the book that no summary reported: keep them judgeable
    if n.len() > 48 {
        let h: FxHashSet<u128> = n.iter().copied().collect();
        for o in post.all() { if !h.contains(&o.id) { n.push(o.id); } }
    } else {
        for o in post.all() { if !n.contains(&o.id) { n.push(o.id); } }
    }
    n
}

pub fn prefix_act<C: CbT>(p: &P, v: &View, g: &Ghost) -> Option<Act> where <C as CallbackInfo>::CallbackId: PartialEq {
    Some(match p {
        P::N(n) => n.act::<C>(v.seq << 24 | (v.q.len() as u64) << 16 | 0xff),
        P::X(b, k) => Act::Cancel(priority(v.side(*b), *b, g).get(*k)?.id),
        P::C(n) => Act::Consume(*n),
        P::Seq(n) => Act::Seq(*n),
        P::Put(b, i, q) => Act::Put(*b, *i, *q),
    })
}

/// Posts every order of the prefix and compares the book with the list of posted orders.
pub fn fast_prefix<C: CbT>(w: &World) -> Result<(Vec<u64>, Ghost, u64), (Vec<usize>, String)> where <C as CallbackInfo>::CallbackId: PartialEq {
    let lay = w.cfg.lay;
    let mut b = create::<C>(&lay, w.cfg.tick, w.cfg.min).map_err(|e| (vec![16], e))?;
    let mut want: [Vec<Ord>; 2] = [vec![], vec![]];
    let mut g = vec![];
    for (k, p) in w.prefix.iter().enumerate() {
        let P::N(n) = p else { panic!("fast prefix") };
        let act = n.act::<C>(k as u64);
        match (exec::<C>(&mut b, &lay, &act, w.entry), &act) {
            (Out::Ok(Some(Summ { id: Some(id), .. })), Act::New(a)) => {
                g.push(id);
                want[a.bid as usize].push(Ord { id, qty: a.base, cb: a.cb });
            }
            (Out::Panic(m), _) => return Err((vec![20, 9], format!("posting order number {} on an uncrossed book aborted: {m}", k + 1))),
            (o, _) => return Err((vec![9, 6], format!("posting order number {} on an uncrossed book with room ended with {o}", k + 1))),
        }
    }
    let v = view(&b, &lay);
    if let Some(e) = v.berr { return Err((vec![18, 5, 22], format!("after posting {} orders: {e}", g.len()))); }
    for bid in [false, true] {
        let mut x = want[bid as usize].clone();
        if x.iter().any(|o| (o.id >> 63 & 1 == 1) != bid) { return Err((vec![14], "an order id names the wrong side".into())); }
        x.sort_by_key(|o| o.id);
        if x.windows(2).any(|p| p[0].id == p[1].id) { return Err((vec![14], "an order id was issued twice".into())); }
        let mut y = v.side(bid).clone();
        y.sort_by_key(|o| o.id);
        if let Some(k) = (0..x.len().max(y.len())).find(|k| x.get(*k) != y.get(*k)) { return Err((vec![5, 18, 25], format!("after posting {} orders: the book differs from the posted orders, {:?} instead of {:?}", g.len(), y.get(k), x.get(k)))); }
    }
    Ok((b, g, w.prefix.len() as u64))
}

/// What is being explored, for a report of a call that does not come back.
pub static WHERE: Mutex<String> = Mutex::new(String::new());
pub static HANG_SECS: AtomicU64 = AtomicU64::new(60);

pub fn prices_of(w: &World) -> Vec<u64> {
    let mut p: Vec<u64> = w.setup.news.iter().map(|n| n.price).collect();
    p.sort();
    p.dedup();
    p.truncate(6);
    p
}

pub struct Slot { pub node: AtomicUsize, pub act: AtomicUsize, pub tick: AtomicU64 }

/// Explore one world, judging property `prop` (0 = all) on every transition. Returns the first violation.
pub fn explore<C: CbT>(w: &World, prop: usize, st: &mut Stats) -> Option<Viol> where <C as CallbackInfo>::CallbackId: PartialEq {
    let t0 = std::time::Instant::now();
    *WHERE.lock().unwrap() = w.name.clone();
    let lay = w.cfg.lay;
    let mk_viol = |prop: usize, msg: String, trace: Vec<Act>| Viol { prop, msg, world: w.name.clone(), cb: C::NAME.into(), cfg: Some(w.cfg), entry: w.entry, trace, special: None, fast: w.fast };
    let root = match create::<C>(&lay, w.cfg.tick, w.cfg.min) {
        Ok(b) => b,
        Err(e) => return Some(mk_viol(if prop == 0 { 16 } else { prop }, format!("a well-formed market cannot be created: {e}"), vec![])),
    };
    let prices = prices_of(w);
    // prefix
    let mut buf = root;
    let mut g: Ghost = vec![];
    let mut issued: Vec<u128> = vec![];
    let mut trace: Vec<Act> = vec![];
    let mut js = Judge::default();
    if w.fast {
        match fast_prefix::<C>(w) {
            Ok((b, gg, n)) => { buf = b; g = gg; st.transitions += n; }
            Err((props, m)) => if prop == 0 || props.contains(&prop) { return Some(mk_viol(if prop == 0 { props[0] } else { prop }, m, vec![])); } else { return None },
        }
    }
    for p in if w.fast { &[][..] } else { &w.prefix[..] } {
        let pre = view(&buf, &lay);
        let Some(act) = prefix_act::<C>(p, &pre, &g) else { continue };
        let snap = buf.clone();
        let out = exec::<C>(&mut buf, &lay, &act, w.entry);
        if !out.is_ok() { buf = snap; }
        let post = view(&buf, &lay);
        let j = judge::<C>(&Step { cfg: &w.cfg, pre: &pre, g: &g, act: &act, out: &out, post: &post, issued: if w.track_ids { Some(&issued) } else { None } });
        trace.push(act);
        st.transitions += 1;
        st.relevant += j.rel[prop];
        js.deviates |= j.deviates;
        for (p, m) in &j.viol { if *p == prop || prop == 0 { return Some(mk_viol(*p, m.clone(), trace)); } }
        if w.track_ids { if let Out::Ok(Some(Summ { id: Some(id), .. })) = out { issued.push(id); } }
        g = next_ghost(&g, &pre, &post, &out);
    }
    let prefix_trace = trace;
    // nodes[k] = (parent, act)
    let mut nodes: Vec<(u32, Option<Act>)> = vec![(u32::MAX, None)];
    let seen: Vec<Mutex<FxHashSet<u128>>> = (0..256).map(|_| Mutex::new(FxHashSet::default())).collect();
    let h0 = hash128(&buf, &g, &issued);
    seen[(h0 >> 120) as usize].lock().unwrap().insert(h0);
    let mut frontier = vec![Item { node: 0, buf: buf.into_boxed_slice(), g, issued }];
    let mut depth = 0;
    let mut sampled: Vec<(u32, u128)> = vec![];
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let transitions = AtomicU64::new(0);
    let relevant = AtomicU64::new(0);
    let deviations = AtomicU64::new(0);
    let outcomes: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let mut n_states = 1u64;
    let path = |nodes: &Vec<(u32, Option<Act>)>, mut k: u32| -> Vec<Act> {
        let mut v = vec![];
        while k != u32::MAX { if let Some(a) = &nodes[k as usize].1 { v.push(a.clone()); } k = nodes[k as usize].0; }
        v.reverse();
        let mut t = prefix_trace.clone();
        t.extend(v);
        t
    };
    loop {
        let expand = depth < w.depth;
        let next = AtomicUsize::new(0);
        let children: Mutex<Vec<Child>> = Mutex::new(vec![]);
        let viols: Mutex<Vec<((usize, usize), usize, String, Option<Act>)>> = Mutex::new(vec![]);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let slots: Vec<Slot> = (0..nthreads).map(|_| Slot { node: AtomicUsize::new(usize::MAX), act: AtomicUsize::new(0), tick: AtomicU64::new(0) }).collect();
        let cur: Vec<Mutex<Option<Act>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
        let fr = &frontier;
        let nodes_ref = &nodes;
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for t in 0..nthreads {
                let (next, children, viols, stop, slots, cur, seen, prices) = (&next, &children, &viols, &stop, &slots, &cur, &seen, &prices);
                let (transitions, relevant, deviations, outcomes) = (&transitions, &relevant, &deviations, &outcomes);
                hs.push(sc.spawn(move || {
                    let mut scratch = vec![0u64; lay.words()];
                    let mut local: Vec<Child> = vec![];
                    let (mut ntr, mut nrel, mut ndev) = (0u64, 0u64, 0u64);
                    let mut oc: BTreeMap<String, u64> = BTreeMap::new();
                    loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= fr.len() || stop.load(Ordering::Relaxed) { break; }
                        let it = &fr[k];
                        let pre = view(&it.buf, &lay);
                        slots[t].node.store(k, Ordering::Relaxed);
                        *cur[t].lock().unwrap() = None;
                        slots[t].tick.fetch_add(1, Ordering::Relaxed);
                        // state hooks
                        if w.hook != 0 && pre.berr.is_none() && pre.qerr.is_none() {
                            let mut j = Judge::default();
                            crate::hooks::state_hook::<C>(w, &it.buf, &pre, &it.g, &prices, &it.issued, &mut j);
                            nrel += j.rel[prop];
                            for (p, m) in j.viol { if p == prop || prop == 0 { viols.lock().unwrap().push(((k, 0), p, m, None)); stop.store(true, Ordering::Relaxed); break; } }
                        }
                        let setup = if expand { gen::<C>(&w.setup, &pre, prices, &it.issued) } else { vec![] };
                        let ns = setup.len();
                        let probes = gen::<C>(&w.probes, &pre, prices, &it.issued);
                        for (ai, act) in setup.into_iter().chain(probes).enumerate() {
                            scratch.copy_from_slice(&it.buf);
                            slots[t].act.store(ai, Ordering::Relaxed);
                            *cur[t].lock().unwrap() = Some(act.clone());
                            slots[t].tick.fetch_add(1, Ordering::Relaxed);
                            let out = exec::<C>(&mut scratch, &lay, &act, w.entry);
                            ntr += 1;
                            let postv;
                            let post = if out.is_ok() { postv = view(&scratch, &lay); &postv } else { &pre };
                            let mut j = judge::<C>(&Step { cfg: &w.cfg, pre: &pre, g: &it.g, act: &act, out: &out, post, issued: if w.track_ids { Some(&it.issued) } else { None } });
                            j.rel[16] += 1;
                            if out.is_ok() && scratch[..MARKET_LEN / 8] != it.buf[..MARKET_LEN / 8] { j.viol.push((16, "the market account changed".into())); }
                            nrel += j.rel[prop];
                            ndev += j.deviates as u64;
                            *oc.entry(outcome_key(&act, &out, &pre, post)).or_default() += 1;
                            if let Some((p, m)) = j.viol.into_iter().find(|(p, _)| *p == prop || prop == 0) {
                                viols.lock().unwrap().push(((k, ai), p, m, Some(act)));
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            if ai < ns && out.is_ok() {
                                let g = next_ghost(&it.g, &pre, post, &out);
                                let mut issued = it.issued.clone();
                                if w.track_ids { if let Out::Ok(Some(Summ { id: Some(id), .. })) = out { issued.push(id); } }
                                let h = hash128(&scratch, &g, &issued);
                                if seen[(h >> 120) as usize].lock().unwrap().insert(h) {
                                    local.push(Child { order: (k, ai), buf: scratch.clone().into_boxed_slice(), g, issued, act });
                                }
                            }
                        }
                    }
                    slots[t].node.store(usize::MAX, Ordering::Relaxed);
                    children.lock().unwrap().append(&mut local);
                    transitions.fetch_add(ntr, Ordering::Relaxed);
                    relevant.fetch_add(nrel, Ordering::Relaxed);
                    deviations.fetch_add(ndev, Ordering::Relaxed);
                    let mut o = outcomes.lock().unwrap();
                    for (k, v) in oc { *o.entry(k).or_default() += v; }
                }));
            }
            // watchdog: an instruction that does not come back is a violation, not a hang of the check
            let (slots, cur, done) = (&slots, &cur, &done);
            let path = &path;
            sc.spawn(move || {
                let mut last: Vec<(u64, std::time::Instant)> = slots.iter().map(|s| (s.tick.load(Ordering::Relaxed), std::time::Instant::now())).collect();
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                    for (t, s) in slots.iter().enumerate() {
                        let x = s.tick.load(Ordering::Relaxed);
                        if x != last[t].0 || s.node.load(Ordering::Relaxed) == usize::MAX { last[t] = (x, std::time::Instant::now()); }
                        else if last[t].1.elapsed().as_secs() > HANG_SECS.load(Ordering::Relaxed) {
                            let k = s.node.load(Ordering::Relaxed);
                            let mut tr = path(nodes_ref, fr[k].node);
                            if let Some(a) = cur[t].lock().unwrap().clone() { tr.push(a); }
                            let v = mk_viol(if prop == 0 { 20 } else { prop }, "an instruction or query does not terminate".into(), tr);
                            crate::report::violation_exit(&v);
                        }
                    }
                }
            });
            for h in hs { h.join().unwrap(); }
            done.store(true, Ordering::Relaxed);
        });
        st.max_depth = st.max_depth.max(depth);
        let mut vs = viols.into_inner().unwrap();
        if !vs.is_empty() {
            vs.sort_by_key(|v| v.0);
            let ((k, _), p, m, a) = vs.swap_remove(0);
            let mut tr = path(&nodes, frontier[k].node);
            tr.extend(a);
            st.states += n_states;
            st.transitions += transitions.load(Ordering::Relaxed);
            st.relevant += relevant.load(Ordering::Relaxed);
            return Some(mk_viol(p, m, tr));
        }
        let mut ch = children.into_inner().unwrap();
        if !expand || ch.is_empty() { break; }
        ch.sort_by_key(|c| c.order);
        let old = std::mem::take(&mut frontier);
        frontier = ch.into_iter().map(|c| {
            nodes.push((old[c.order.0].node, Some(c.act)));
            Item { node: (nodes.len() - 1) as u32, buf: c.buf, g: c.g, issued: c.issued }
        }).collect();
        drop(old);
        n_states += frontier.len() as u64;
        let step = (frontier.len() / 40).max(1);
        for it in frontier.iter().step_by(step) { sampled.push((it.node, hash128(&it.buf, &[], &[]))); }
        depth += 1;
    }
    // every sampled path is replayed from market creation on fresh accounts, without snapshots
    let mut validated = 0;
    for (n, h) in &sampled {
        let tr = path(&nodes, *n);
        let start = if w.fast { match fast_prefix::<C>(w) { Ok((b, _, _)) => b, Err(_) => continue } } else { create::<C>(&lay, w.cfg.tick, w.cfg.min).unwrap() };
        let b = replay_plain::<C>(start, &w.cfg, &tr, w.entry);
        if hash128(&b, &[], &[]) != *h {
            return Some(mk_viol(if prop == 0 { 19 } else { prop }, "running the same instructions again from the creation of the market gives another state".into(), tr));
        }
        validated += 1;
    }
    if let Some((n, _)) = sampled.last() {
        if st.samples.len() < 6 { st.samples.push(format!("{}: {}", w.name, path(&nodes, *n).iter().map(show_act).collect::<Vec<_>>().join("; "))); }
    }
    st.states += n_states;
    st.transitions += transitions.load(Ordering::Relaxed);
    st.relevant += relevant.load(Ordering::Relaxed);
    st.deviations += deviations.load(Ordering::Relaxed) + js.deviates as u64;
    st.validated += validated;
    for (k, v) in outcomes.into_inner().unwrap() { *st.outcomes.entry(k).or_default() += v; }
    st.worlds.push(serde_json::json!({"world": w.name, "depth": depth, "states": n_states, "transitions": transitions.load(Ordering::Relaxed),
        "judged": relevant.load(Ordering::Relaxed), "setup_alphabet": w.setup.news.len(), "probe_alphabet": w.probes.news.len(), "seconds": t0.elapsed().as_secs_f64()}));
    if std::env::var("AOBMC_V").is_ok() { eprintln!("{} {:?}", st.worlds.last().unwrap(), js.deviates); }
    None
}

fn outcome_key(a: &Act, o: &Out, pre: &View, post: &View) -> String {
    let k = match a { Act::New(_) => "new", Act::Cancel(_) => "cancel", Act::Mass(_) => "mass", Act::Consume(_) => "consume", Act::Seq(_) => "seq", Act::Put(..) => "put", Act::Del(..) => "del" };
    match o {
        Out::Ok(s) => {
            let evs = &post.q[pre.q.len().min(post.q.len())..];
            let f = evs.iter().filter(|e| matches!(e, Ev::Fill { .. })).count();
            let x = evs.len() - f;
            let p = s.as_ref().map_or(false, |s| s.id.is_some());
            if k == "new" { format!("new ok fills={f} outs={x}{}", if p { " posted" } else { "" }) } else { format!("{k} ok") }
        }
        Out::Err(c) => format!("{k} {}", err_name(*c)),
        Out::Panic(_) => format!("{k} panic"),
    }
}

/// Plain linear execution with roll-back of failed instructions.
pub fn replay_plain<C: CbT>(mut b: Vec<u64>, cfg: &Cfg, tr: &[Act], entry: bool) -> Vec<u64> where <C as CallbackInfo>::CallbackId: PartialEq {
    for a in tr {
        let snap = b.clone();
        if !exec::<C>(&mut b, &cfg.lay, a, entry).is_ok() { b = snap; }
    }
    b
}

pub fn show_act(a: &Act) -> String {
    match a {
        Act::New(p) => format!("new {} price={} base={} quote={} limit={} {}{}stb={} cb={:x},{:x}", if p.bid { "bid" } else { "ask" }, p.price, p.base, p.quote, p.limit,
            if p.post_only { "post-only " } else { "" }, if p.post_allowed { "" } else { "no-post " }, p.stb, p.cb[0], p.cb[1]),
        Act::Cancel(i) => format!("cancel {i:#x}"),
        Act::Mass(v) => format!("mass-cancel {v:x?}"),
        Act::Consume(n) => format!("consume {n}"),
        Act::Put(b, i, q) => format!("insert {} {i:#x} qty={q}", if *b { "bid" } else { "ask" }),
        Act::Del(b, i) => format!("remove {} {i:#x}", if *b { "bid" } else { "ask" }),
        Act::Seq(n) => format!("sequence number set to {n}"),
    }
}
