//! Reference semantics: deliberately plain, list-based, 128-bit arithmetic; knows nothing of trees, slots or sequence numbers.
use crate::decode::*;
use crate::env::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg { pub lay: Lay, pub tick: u64, pub min: u64 }

pub const F_TRADE: u32 = 1;
pub const F_SELF: u32 = 2;
pub const F_DUST: u32 = 4;
pub const F_LIMIT: u32 = 8;
pub const F_POST: u32 = 16;
pub const F_EVICT: u32 = 32;
pub const F_REFUSE: u32 = 64;
pub const F_BLOCK: u32 = 128;
pub const F_SMALL: u32 = 256;
pub const F_OUT0: u32 = 512;

/// ids of resting orders in the order in which they were accepted
pub type Ghost = Vec<u128>;

pub fn priority(side: &[Ord], bid: bool, g: &Ghost) -> Vec<Ord> {
    let mut v: Vec<(usize, &Ord)> = if g.len() > 48 {
        let m: rustc_hash::FxHashMap<u128, usize> = g.iter().enumerate().rev().map(|(k, i)| (*i, k)).collect();
        side.iter().map(|o| (m.get(&o.id).copied().unwrap_or(usize::MAX), o)).collect()
    } else { side.iter().map(|o| (g.iter().position(|x| *x == o.id).unwrap_or(usize::MAX), o)).collect() };
    v.sort_by(|(ga, a), (gb, b)| {
        let p = if bid { b.price().cmp(&a.price()) } else { a.price().cmp(&b.price()) };
        p.then(ga.cmp(gb)).then(a.id.cmp(&b.id))
    });
    v.into_iter().map(|(_, o)| o.clone()).collect()
}

pub fn mul_floor(b: u64, p: u64) -> u128 { (b as u128 * p as u128) >> 32 }
pub fn mul_ceil(b: u64, p: u64) -> u128 {
    let x = b as u128 * p as u128;
    (x >> 32) + ((x & 0xffff_ffff != 0) as u128)
}
pub fn buys(quote: u64, p: u64) -> u128 { if p == 0 { u128::MAX } else { ((quote as u128) << 32) / p as u128 } }
/// largest base tradable, and its quote
pub fn trade(offer: u64, rb: u64, rq: u64, p: u64, taker_bid: bool) -> (u64, u128) {
    let b = (offer as u128).min(rb as u128).min(buys(rq, p)) as u64;
    (b, if taker_bid { mul_ceil(b, p) } else { mul_floor(b, p) })
}
pub fn crosses(bid: bool, limit: u64, p: u64) -> bool { if bid { limit >= p } else { limit <= p } }

#[derive(Clone, Debug)]
pub struct SpecNew {
    /// Err(code) or totals (traded base, traded quote, posted base, posted quote)
    pub res: Result<(u64, u64, u64, u64), u64>,
    pub evs: Vec<Ev>,
    pub feats: u32,
    pub touched: u64,
}

pub fn spec_new<C: CbT>(cfg: &Cfg, v: &View, g: &Ghost, p: &NewP) -> SpecNew
where <C as asset_agnostic_orderbook::state::orderbook::CallbackInfo>::CallbackId: PartialEq {
    let mut s = SpecNew { res: Err(E_PRICE), evs: vec![], feats: 0, touched: 0 };
    if p.price % cfg.tick != 0 || (p.post_allowed && p.price < cfg.tick) { return s; }
    let room = cfg.lay.eqc - v.q.len();
    let mut opp: std::collections::VecDeque<Ord> = priority(v.side(!p.bid), !p.bid, g).into();
    let own = priority(v.side(p.bid), p.bid, g);
    let (mut rb, mut rq) = (p.base, p.quote);
    let taker = p.bid;
    macro_rules! push { ($e:expr) => { if s.evs.len() >= room { s.res = Err(E_QFULL); return s; } else { s.evs.push($e) } } }
    let blocked;
    loop {
        if s.touched == p.limit { blocked = true; s.feats |= F_LIMIT; break; }
        let Some(m) = opp.front().cloned() else { blocked = false; break };
        if !crosses(taker, p.price, m.price()) { blocked = false; break; }
        if p.post_only { blocked = true; s.feats |= F_BLOCK; break; }
        let (b, q) = trade(m.qty, rb, rq, m.price(), taker);
        if b == 0 || q == 0 { blocked = true; s.feats |= F_BLOCK; break; }
        if p.stb != 0 && C::same_owner(&m.cb, &p.cb) {
            s.feats |= F_SELF;
            if p.stb == 2 { s.res = Err(E_SELF); return s; }
            push!(Ev::Out { side: taker as u8, id: m.id, base: m.qty, cb: m.cb });
            opp.pop_front();
            s.touched += 1;
            continue;
        }
        let q = q as u64;
        push!(Ev::Fill { side: !taker as u8, id: m.id, base: b, quote: q, mcb: m.cb, tcb: p.cb });
        s.feats |= F_TRADE;
        rb -= b;
        rq -= q;
        opp[0].qty -= b;
        if opp[0].qty < cfg.min {
            s.feats |= if opp[0].qty > 0 { F_DUST } else { F_OUT0 };
            push!(Ev::Out { side: taker as u8, id: m.id, base: opp[0].qty, cb: m.cb });
            opp.pop_front();
        }
        s.touched += 1;
    }
    let none = (p.base - rb, p.quote - rq, 0, 0);
    s.res = Ok(none);
    if blocked || !p.post_allowed { return s; }
    let want = (rb as u128).min(buys(rq, p.price)) as u64;
    if want < cfg.min { s.feats |= F_SMALL; return s; }
    let cap = if p.bid { cfg.lay.bidc } else { cfg.lay.askc };
    if own.len() >= cap {
        let w = own.last().unwrap().clone();
        let better = if p.bid { p.price > w.price() } else { p.price < w.price() };
        if !better { s.feats |= F_REFUSE; return s; }
        s.feats |= F_EVICT;
        push!(Ev::Out { side: !p.bid as u8, id: w.id, base: w.qty, cb: w.cb });
    }
    s.feats |= F_POST;
    let pq = if p.bid { mul_ceil(want, p.price) } else { mul_floor(want, p.price) } as u64;
    s.res = Ok((p.base - rb, p.quote - rq, want, pq));
    s
}
