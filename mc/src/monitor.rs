//! One monitor per property. Every monitor looks at one transition of the real code: decoded state before,
//! action, result, decoded state after. Each is judged on what the code actually did, so that a deviation is
//! attributed to the properties it breaks.
use crate::decode::*;
use crate::env::*;
use crate::spec::*;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;

pub const NPROP: usize = 30;

#[derive(Default, Clone)]
pub struct Judge {
    pub rel: [u64; NPROP],
    pub viol: Vec<(usize, String)>,
    pub deviates: bool,
}
impl Judge {
    fn r(&mut self, p: usize) { self.rel[p] += 1; }
    fn v(&mut self, p: usize, m: impl Into<String>) { self.viol.push((p, m.into())); }
    fn vs(&mut self, ps: &[usize], m: impl Into<String>) { let m = m.into(); for p in ps { self.viol.push((*p, m.clone())) } }
}

pub struct Step<'a> {
    pub cfg: &'a Cfg,
    pub pre: &'a View,
    pub g: &'a Ghost,
    pub act: &'a Act,
    pub out: &'a Out,
    pub post: &'a View,
    /// every id ever issued on this path, when tracked
    pub issued: Option<&'a [u128]>,
}

pub fn show(o: &Ord) -> String { format!("{:#x} price={} qty={}", o.id, o.price(), o.qty) }

pub fn same_book(want: &[Ord], got: &[Ord]) -> Result<(), String> {
    if want.len() == got.len() && want.len() > 48 {
        let f = |v: &[Ord]| { let mut v: Vec<(u128, u64)> = v.iter().map(|o| (o.id, o.qty)).collect(); v.sort(); v };
        if f(want) == f(got) { return Ok(()); }
    }
    for w in want {
        match got.iter().find(|o| o.id == w.id) {
            None => return Err(format!("order {} is no longer on the book", show(w))),
            Some(o) if o.qty != w.qty => return Err(format!("order {} rests with size {} instead of {}", show(w), o.qty, w.qty)),
            _ => {}
        }
    }
    for o in got {
        if !want.iter().any(|w| w.id == o.id) { return Err(format!("unexpected order {} on the book", show(o))); }
    }
    if want.len() != got.len() { return Err("an order rests twice on the book".into()); }
    Ok(())
}

/// Properties whose guaranteed effect is missing when an instruction fails that should have had these features.
fn feat_props(f: u32) -> Vec<usize> {
    let mut v = vec![];
    if f & F_TRADE != 0 { v.extend([1, 2]) }
    if f & F_SELF != 0 { v.push(7) }
    if f & (F_DUST | F_OUT0) != 0 { v.push(24) }
    if f & F_LIMIT != 0 { v.push(8) }
    if f & F_POST != 0 { v.push(6) }
    if f & (F_EVICT | F_REFUSE) != 0 { v.push(9) }
    v
}

pub fn judge<C: CbT>(s: &Step) -> Judge where <C as CallbackInfo>::CallbackId: PartialEq {
    let mut j = Judge::default();
    #[cfg(feature = "chain")]
    { j.r(28); if let Some(m) = crate::chain::take() { j.v(28, m); return j; } }
    if s.pre.berr.is_some() || s.pre.qerr.is_some() { return j; }
    // ---- C20
    if let Out::Panic(m) = s.out { j.r(20); j.v(20, format!("the instruction aborted: {m}")); } else { j.r(20) }
    // ---- state invariants on the state after
    if let Some(e) = &s.post.berr {
        j.vs(&[18, 5, 22], format!("the book can no longer be read: {e}"));
        if matches!(s.act, Act::Cancel(_)) { j.v(10, format!("the book can no longer be read: {e}")); }
        if matches!(s.act, Act::Mass(_)) { j.v(11, format!("the book can no longer be read: {e}")); }
        if s.pre.side(true).len() >= s.cfg.lay.bidc || s.pre.side(false).len() >= s.cfg.lay.askc { j.v(9, format!("the book can no longer be read: {e}")); }
        j.deviates = true;
        return j;
    }
    if let Some(e) = &s.post.qerr { j.vs(&[12, 13, 22], format!("the event queue can no longer be read: {e}")); j.deviates = true; return j; }
    invariants(s, &mut j);
    let n0 = j.viol.len();
    if let Out::Err(c) = s.out { causes::<C>(s, *c, &mut j); }
    match s.act {
        Act::New(p) => judge_new::<C>(s, p, &mut j),
        Act::Cancel(id) => judge_cancel(s, &[*id], false, &mut j),
        Act::Mass(v) => judge_cancel(s, v, true, &mut j),
        Act::Consume(n) => judge_consume(s, *n, &mut j),
        Act::Seq(_) => {}
        Act::Put(bid, id, qty) => {
            j.r(18);
            let mut want = s.pre.side(*bid).clone();
            want.push(Ord { id: *id, qty: *qty, cb: C::mk(*qty, *id as u64 ^ (*id >> 64) as u64) });
            slab_agrees(s, *bid, want, &mut j);
            if !s.out.is_ok() { j.v(18, format!("inserting {id:#x} ended with {}", s.out)); }
        }
        Act::Del(bid, id) => {
            j.r(18);
            let mut want = s.pre.side(*bid).clone();
            let hit = want.iter().position(|o| o.id == *id).map(|k| want.remove(k));
            match (&hit, s.out) {
                (None, Out::Err(E_NOTFOUND)) => {}
                (Some(o), Out::Ok(Some(r))) if r.id == Some(o.id) && r.base == o.qty && r.quote == o.cb[0] ^ o.cb[1] ^ o.cb[2] ^ o.cb[3] => {}
                (h, o) => j.v(18, format!("removing {id:#x} ended with {o}; expected {}", h.as_ref().map(show).unwrap_or("nothing to be removed".into()))),
            }
            slab_agrees(s, *bid, want, &mut j);
        }
    }
    j.deviates |= j.viol.len() > n0;
    j
}

fn invariants(s: &Step, j: &mut Judge) {
    let (b, a) = (&s.post.bids, &s.post.asks);
    if let (Some(bb), Some(ba)) = (b.iter().map(|o| o.price()).max(), a.iter().map(|o| o.price()).min()) {
        j.r(4);
        if bb >= ba { j.v(4, format!("the book is crossed: best bid {bb}, best ask {ba}")); }
    }
    for o in s.post.all() {
        j.r(24);
        if o.qty < s.cfg.min { j.v(24, format!("resting order {} is smaller than the minimum order size {}", show(o), s.cfg.min)); }
        if o.price() == 0 || o.price() % s.cfg.tick != 0 { j.v(6, format!("resting order {} is not at a positive multiple of the tick size {}", show(o), s.cfg.tick)); }
    }
    // callback information of orders that stay
    let ix = Idx::new(s.post);
    for o in s.pre.all() {
        if let Some(n) = ix.get(o.id) {
            j.r(25);
            if n.cb != o.cb { j.v(25, format!("callback information of resting order {} changed from {:x?} to {:x?}", show(o), o.cb, n.cb)); }
        }
    }
}

fn new_events<'a>(s: &'a Step, j: &mut Judge) -> Option<&'a [Ev]> {
    let n = s.pre.q.len();
    j.r(12);
    if s.post.q.len() < n || s.post.q[..n] != s.pre.q[..] {
        j.vs(&[12, 13], format!("unconsumed events changed: {:x?} became {:x?}", s.pre.q, s.post.q));
        return None;
    }
    Some(&s.post.q[n..])
}

/// C29: the cause named by the error holds.
fn causes<C: CbT>(s: &Step, code: u64, j: &mut Judge) where <C as CallbackInfo>::CallbackId: PartialEq {
    let holds = match s.act {
        Act::New(p) => {
            let bad = p.price % s.cfg.tick != 0 || (p.post_allowed && p.price < s.cfg.tick);
            if code == E_PRICE { bad } else { spec_new::<C>(&if bad { Cfg { tick: 1, ..*s.cfg } } else { *s.cfg }, s.pre, s.g, p).res == Err(code) }
        }
        Act::Cancel(id) => crate::causes::cancel_cause(s.pre, &[*id], code),
        Act::Mass(v) => crate::causes::cancel_cause(s.pre, v, code),
        Act::Consume(_) => false,
        _ => return,
    };
    j.r(29);
    if !holds { j.v(29, format!("the instruction ended with {}, which is not so", s.out)); }
}

fn judge_new<C: CbT>(s: &Step, p: &NewP, j: &mut Judge) where <C as CallbackInfo>::CallbackId: PartialEq {
    let cfg = s.cfg;
    let sp = spec_new::<C>(cfg, s.pre, s.g, p);
    let taker = p.bid;
    // ---- outcome
    match (&sp.res, s.out) {
        (Ok(_), Out::Ok(Some(_))) => {}
        (_, Out::Ok(None)) => { j.vs(&[3, 21], "a new order returned no summary"); return; }
        (Ok(_), f) => {
            let m = format!("the order should have succeeded but ended with {f}");
            if let Out::Err(E_QFULL) = f { j.v(13, format!("{m} although its {} events fit in {} free slots", sp.evs.len(), cfg.lay.eqc - s.pre.q.len())); }
            if let Out::Err(E_SELF) = f { j.v(7, m.clone()); }
            if let Out::Err(E_PRICE) = f { j.v(6, m.clone()); }
            if let Out::Err(E_SLAB) = f { j.v(9, m.clone()); }
            if let Out::Err(E_TAG) = f { j.v(15, m.clone()); }
            j.vs(&feat_props(sp.feats), m.clone());
            if !s.pre.q.is_empty() && sp.evs.len() + s.pre.q.len() >= cfg.lay.eqc - 1 { j.v(13, m); }
            return;
        }
        (Err(e), f) if !f.is_ok() => {
            match *e { E_PRICE => j.r(6), E_SELF => j.r(7), E_QFULL => j.r(13), _ => {} }
            let code = if let Out::Err(c) = f { *c } else { u64::MAX };
            if code != *e {
                let m = format!("expected {}, got {f}", err_name(*e));
                match *e {
                    E_PRICE => {}
                    E_SELF => j.v(7, m.clone()),
                    _ => j.v(13, m.clone()),
                }
                if code == E_QFULL { j.v(13, m.clone()); }
                if code == E_SELF { j.v(7, m); }
            }
            return;
        }
        (Err(e), _) => {
            let m = format!("expected {}, got {}", err_name(*e), s.out);
            match *e { E_PRICE => j.v(6, m), E_SELF => j.v(7, m), _ => j.v(13, m) }
        }
    }
    let Out::Ok(Some(sum)) = s.out else { return };
    let Some(evs) = new_events(s, j) else { return };
    j.r(13);
    if s.post.q.len() > cfg.lay.eqc { j.v(13, "more events than slots"); }

    // ---- C12: what was appended is this instruction's output, not something left over in the ring
    {
        let (before, after) = (Idx::new(s.pre), Idx::new(s.post));
        let mut seen: rustc_hash::FxHashSet<u128> = Default::default();
        for (k, e) in evs.iter().enumerate() {
            let (out, fine) = match e {
                Ev::Bad(_) => continue, // reported below
                Ev::Fill { id, .. } => (false, before.get(*id).map_or(false, |o| after.get(*id).map_or(true, |n| n.qty < o.qty))),
                Ev::Out { id, .. } => (true, before.get(*id).is_some() && after.get(*id).is_none()),
            };
            if !fine { j.v(12, format!("event {k} appended by the order is not about anything it did: {e:x?}")); }
// a quote-bound ask may trade twice with one order because of rounding; nothing can be removed twice
            if out && !seen.insert(e.id().unwrap_or(0)) { j.v(12, format!("event {k} repeats one the order appended before: {e:x?}")); }
        }
    }
    let mut opp: std::collections::VecDeque<Ord> = priority(s.pre.side(!taker), !taker, s.g).into();
    let mut own = priority(s.pre.side(taker), taker, s.g);
    let (mut rb, mut rq) = (p.base, p.quote);
    let (mut tb, mut tq) = (0u128, 0u128);
    let mut touched = 0u64;
    let mut evicted: Option<Ord> = None;
    let mut over = false;
    let opp_flag = taker as u8; // side byte of an order of the opposite side: Bid=0, Ask=1
    let own_flag = !taker as u8;
    let mut i = 0;
    while i < evs.len() {
        match &evs[i] {
            Ev::Bad(t) => { j.vs(&[12, 5], format!("event with unknown tag {t}")); return; }
            Ev::Fill { side, id, base, quote, mcb, tcb } => {
                let Some(pos) = opp.iter().position(|o| o.id == *id) else {
                    j.vs(&[5, 1], format!("fill event for {id:#x}, which is not resting on the opposite side"));
                    return;
                };
                let m = opp[pos].clone();
                j.r(1); j.r(2); j.r(25);
                if pos != 0 {
                    j.v(1, format!("traded with {} although {} has priority", show(&m), show(&opp[0])));
                    if opp.iter().take(pos).any(|o| C::same_owner(&o.cb, &p.cb)) { j.v(7, format!("an own order with priority was passed over: traded with {} behind {}", show(&m), show(&opp[0]))); }
                }
                if !crosses(taker, p.price, m.price()) { j.v(1, format!("traded with {} beyond the limit price {}", show(&m), p.price)); }
                if C::same_owner(&m.cb, &p.cb) {
                    j.r(7);
                    if p.stb != 0 { j.v(7, format!("traded with own order {} under self-trade behaviour {}", show(&m), p.stb)); }
                }
                if p.post_only { j.v(6, "a post-only order traded"); }
                if touched >= p.limit { j.v(8, format!("touched more than {} orders", p.limit)); }
                if *side != own_flag { j.v(5, format!("fill event of a {} order says taker side {side}", if taker { "bid" } else { "ask" })); }
                if *mcb != m.cb { j.v(25, format!("fill event for {} carries maker callback {:x?} instead of {:x?}", show(&m), mcb, m.cb)); }
                if *tcb != p.cb { j.v(25, format!("fill event carries taker callback {:x?} instead of {:x?}", tcb, p.cb)); }
                let (wb, wq) = trade(m.qty, rb, rq, m.price(), taker);
                if *base != wb || *quote as u128 != wq || *base == 0 || *quote == 0 {
                    j.v(2, format!("trade with {} has base {base} quote {quote}; expected base {wb} quote {wq} (remaining base {rb} quote {rq})", show(&m)));
                }
                tb += *base as u128;
                tq += *quote as u128;
                if *base > rb || *quote > rq { j.v(3, format!("trades exceed the order's caps: base {tb} of {}, quote {tq} of {}", p.base, p.quote)); over = true; }
                if *base > m.qty { j.v(5, format!("filled {base} of {}", show(&m))); return; }
                rb = rb.saturating_sub(*base);
                rq = rq.saturating_sub(*quote);
                opp[pos].qty -= base;
                touched += 1;
                let left = opp[pos].qty;
                let next_out = match evs.get(i + 1) { Some(Ev::Out { side, id: oid, base, cb }) if oid == id => Some((*side, *base, *cb)), _ => None };
                j.r(24);
                match next_out {
                    Some((oside, obase, ocb)) => {
                        if left >= cfg.min { j.vs(&[24, 5], format!("{} was removed although {left} is left (minimum {})", show(&m), cfg.min)); }
                        if obase != left { j.vs(&[24, 5], format!("out event for {} reports {obase} instead of the left-over {left}", show(&m))); }
                        if oside != opp_flag { j.v(5, format!("out event for {} reports side {oside}", show(&m))); }
                        if ocb != m.cb { j.v(25, format!("out event for {} carries callback {:x?} instead of {:x?}", show(&m), ocb, m.cb)); }
                        opp.remove(pos);
                        i += 1;
                    }
                    None => {
                        if left < cfg.min {
                            j.v(24, format!("{} has {left} left (minimum {}) but no out event follows its fill", show(&m), cfg.min));
                            if s.post.find(*id).is_none() { j.v(5, format!("{} left the book without an out event", show(&m))); opp.remove(pos); }
                        }
                    }
                }
            }
            Ev::Out { side, id, base, cb } => {
                j.r(25);
                if let Some(pos) = opp.iter().position(|o| o.id == *id) {
                    let m = opp[pos].clone();
                    j.r(7);
                    let (wb, wq) = trade(m.qty, rb, rq, m.price(), taker);
                    if !C::same_owner(&m.cb, &p.cb) || p.stb != 1 {
                        let filled_before = evs[..i].iter().any(|e| matches!(e, Ev::Fill { id: f, .. } if f == id));
                        j.v(if filled_before { 24 } else { 7 }, format!("{} was removed from the opposite side without reason", show(&m)));
                    }
                    if pos != 0 { j.vs(&[1, 7], format!("removed own order {} although {} has priority", show(&m), show(&opp[0]))); }
                    if !crosses(taker, p.price, m.price()) || p.post_only { j.v(7, format!("own order {} was removed although it was not reached", show(&m))); }
                    if wb == 0 || wq == 0 { j.v(7, format!("own order {} was removed although it would not trade", show(&m))); }
                    if touched >= p.limit { j.vs(&[8, 7], format!("touched more than {} orders", p.limit)); }
                    if *base != m.qty { j.vs(&[7, 5], format!("out event for own order {} reports {base}", show(&m))); }
                    if *side != opp_flag { j.v(5, format!("out event for {} reports side {side}", show(&m))); }
                    if *cb != m.cb { j.v(25, format!("out event for {} carries callback {:x?} instead of {:x?}", show(&m), cb, m.cb)); }
                    opp.remove(pos);
                    touched += 1;
                } else if let Some(pos) = own.iter().position(|o| o.id == *id) {
                    let m = own[pos].clone();
                    j.r(9);
                    if evicted.is_some() { j.v(9, "more than one order was evicted"); }
                    if pos + 1 != own.len() { j.v(9, format!("evicted {} although {} is less aggressive or newer", show(&m), show(own.last().unwrap()))); }
                    if i + 1 != evs.len() { j.vs(&[9, 12], "the eviction is not the last event"); }
                    if *base != m.qty { j.vs(&[9, 5], format!("out event for evicted order {} reports {base}", show(&m))); }
                    if *side != own_flag { j.vs(&[9, 5], format!("out event for evicted order {} reports side {side}", show(&m))); }
                    if *cb != m.cb { j.v(25, format!("out event for evicted {} carries callback {:x?} instead of {:x?}", show(&m), cb, m.cb)); }
                    own.remove(pos);
                    evicted = Some(m);
                } else {
                    j.v(5, format!("out event for {id:#x}, which is not resting"));
                    return;
                }
            }
        }
        i += 1;
    }
    // ---- why did matching stop?
    let next = opp.front().cloned();
    let opp: Vec<Ord> = opp.into();
    let next_crosses = next.as_ref().map_or(false, |m| crosses(taker, p.price, m.price()));
    if let Some(m) = &next {
        if next_crosses && touched < p.limit && !p.post_only && !over {
            let (b, q) = trade(m.qty, rb, rq, m.price(), taker);
            if b > 0 && q > 0 {
                let why = format!("matching stopped before {} although it crosses and {b} could trade (touched {touched}, match limit {})", show(m), p.limit);
                if C::same_owner(&m.cb, &p.cb) && p.stb != 0 { j.v(7, why); }
                else {
                    j.vs(&[2, 8], why.clone());
                    if C::same_owner(&m.cb, &p.cb) { j.v(7, why.clone()); }
                    if evs.iter().any(|e| matches!(e, Ev::Out { .. })) && p.stb == 1 { j.v(7, why); }
                }
            }
        }
    }
    if touched == p.limit { j.r(8); }
    // ---- posting
    let limit_hit = touched >= p.limit;
    let want = if p.price == 0 { 0 } else { (rb as u128).min(buys(rq, p.price)) as u64 };
    let may = !limit_hit && !next_crosses && p.post_allowed && want >= cfg.min;
    let cap = if taker { cfg.lay.bidc } else { cfg.lay.askc };
    let pre_own = s.pre.side(taker).len();
    let full = pre_own >= cap;
    let worst = priority(s.pre.side(taker), taker, s.g).pop();
    let better = worst.as_ref().map_or(false, |w| if taker { p.price > w.price() } else { p.price < w.price() });
    let added: Vec<(bool, Ord)> = [true, false].iter().flat_map(|b| {
        let base: rustc_hash::FxHashSet<u128> = s.pre.side(*b).iter().map(|o| o.id).collect();
        s.post.side(*b).iter().filter(|o| !base.contains(&o.id)).map(|o| (*b, o.clone())).collect::<Vec<_>>()
    }).collect();
    j.r(3); j.r(6);
    // an id that clobbers an existing order counts as posted too
    let posted_ord = match (added.first(), sum.id) {
        (Some((b, o)), _) => Some((*b, o.clone())),
        (None, Some(id)) => s.post.find(id).map(|o| (s.post.bids.iter().any(|x| x.id == id), o.clone())),
        _ => None,
    };
    if added.len() > 1 { j.vs(&[3, 5], "more than one order was added"); }
    match (sum.id, added.first()) {
        (Some(id), Some((_, o))) => {
            if o.id != id { j.vs(&[3, 5], format!("the summary reports id {id:#x} but the added order is {}", show(o))); }
            if o.qty != sum.posted { j.vs(&[3, 5], format!("the summary reports posted quantity {} but the added order is {}", sum.posted, show(o))); }
        }
        (Some(id), None) => j.vs(&[3, 5], format!("the summary reports posted order {id:#x} but no order was added")),
        (None, Some((_, o))) => j.vs(&[3, 5], format!("the summary reports no posted order but {} was added", show(o))),
        (None, None) => if sum.posted != 0 { j.v(3, format!("the summary reports posted quantity {} but no order was added", sum.posted)) },
    }
    let pb = posted_ord.as_ref().map_or(0, |(_, o)| o.qty);
    let pq = if posted_ord.is_some() { if taker { mul_ceil(pb, p.price) } else { mul_floor(pb, p.price) } } else { 0 };
    if sum.base as u128 != tb + pb as u128 { j.v(3, format!("the summary's total base is {}, but {tb} traded and {pb} was posted", sum.base)); }
    if sum.quote as u128 != tq + pq { j.v(3, format!("the summary's total quote is {}, but {tq} traded and {pq} was posted", sum.quote)); }
    if sum.base > p.base || sum.quote > p.quote { j.v(3, format!("the summary exceeds the order's caps: {:?} for base {} quote {}", sum, p.base, p.quote)); }
    match &posted_ord {
        Some((b, o)) => {
            j.r(14);
            if *b != p.bid { j.vs(&[14, 6, 5], format!("a {} order was put on the other side of the book", if taker { "bid" } else { "ask" })); }
            if o.price() != p.price { j.vs(&[14, 6], format!("order id {:#x} encodes price {} instead of the limit price {}", o.id, o.price(), p.price)); }
            let says_bid = o.id & (1 << 63) != 0;
            if says_bid != *b { j.v(14, format!("order id {:#x} names the wrong side", o.id)); }
            if s.g.contains(&o.id) { j.v(14, format!("order id {:#x} is already in use by a resting order", o.id)); }
            if s.pre.q.iter().any(|e| e.id() == Some(o.id)) || evs.iter().any(|e| e.id() == Some(o.id)) { j.v(14, format!("order id {:#x} was already used by an order with unconsumed events", o.id)); }
            if let Some(h) = s.issued { if h.contains(&o.id) { j.v(14, format!("order id {:#x} was issued before", o.id)); } }
            if o.cb != p.cb { j.v(25, format!("posted order {} carries callback {:x?} instead of {:x?}", show(o), o.cb, p.cb)); }
            if limit_hit { j.vs(&[8, 6], format!("{} was posted although the match limit {} was used up", show(o), p.limit)); }
            else if next_crosses { j.v(6, format!("{} was posted although {} still crosses", show(o), show(next.as_ref().unwrap()))); }
            if !p.post_allowed { j.v(6, format!("{} was posted although posting is not allowed", show(o))); }
            if want < cfg.min { j.v(6, format!("{} was posted although only {want} is left (minimum {})", show(o), cfg.min)); }
            else if o.qty != want { j.v(6, format!("{} was posted instead of size {want}", show(o))); }
            if full && may {
                j.r(9);
                if !better { j.v(9, format!("{} was posted on a full side although it is not better than {}", show(o), show(worst.as_ref().unwrap()))); }
                if evicted.is_none() { j.v(9, format!("{} was posted on a full side and nothing was evicted", show(o))); }
            }
        }
        None => {
            if may {
                let m = format!("size {want} at {} was not posted although nothing crosses", p.price);
                if !full { j.vs(&[6, 9], format!("{m} and the side has room ({pre_own} of {cap})")); }
                else if better { j.v(9, format!("{m} and it is better than {}", show(worst.as_ref().unwrap()))); }
            }
            if may && full { j.r(9); }
        }
    }
    if let Some(e) = &evicted {
        if !full { j.v(9, format!("{} was evicted although the side has room ({pre_own} of {cap})", show(e))); }
        if posted_ord.is_none() { j.v(9, format!("{} was evicted but nothing was posted", show(e))); }
    }
    // ---- C05 mirror: pre-state plus outputs equals post-state
    j.r(5);
    if let Some(id) = sum.id { own.push(Ord { id, qty: sum.posted, cb: p.cb }); }
    for (want, got, which) in [(&own, s.post.side(taker), "own"), (&opp, s.post.side(!taker), "opposite")] {
        if let Err(e) = same_book(want, got) {
            j.v(5, format!("the outputs do not account for the book ({which} side): {e}"));
            if full && may && which == "own" { j.v(9, format!("posting on a full side: {e}")); }
            if which == "own" && !full && may { j.v(9, format!("posting with room: {e}")); }
            if touched == 0 && which == "opposite" { j.v(7, format!("an order that was not reached changed: {e}")); }
        }
    }
    // ---- full agreement with the reference (only used to notice anything the monitors above leave unattributed)
    if let Ok(t) = &sp.res {
        if sp.evs != evs || (sum.base, sum.quote, sum.posted) != (t.0 + t.2, t.1 + t.3, t.2) { j.deviates = true; }
    } else { j.deviates = true; }
}

fn judge_cancel(s: &Step, ids: &[u128], mass: bool, j: &mut Judge) {
    let me = if mass { 11 } else { 10 };
    j.r(me);
    // expected
    let mut book: Vec<Ord> = s.pre.all().cloned().collect();
    let (mut tb, mut tq) = (0u128, 0u128);
    let mut missing = None;
    for id in ids {
        match book.iter().position(|o| o.id == *id) {
            Some(k) => { let o = book.remove(k); tb += o.qty as u128; tq += mul_floor(o.qty, o.price()); }
            None => { missing = Some(*id); break; }
        }
    }
    let fits = tb <= u64::MAX as u128 && tq <= u64::MAX as u128;
    match (missing, s.out) {
        (Some(id), o) => {
            // when a sum overflows before the missing id is reached, either error is right
            let ok = *o == Out::Err(E_NOTFOUND) || (!fits && matches!(o, Out::Err(_)));
            if !ok { j.v(me, format!("cancelling {id:#x}, which does not rest, ended with {o} instead of OrderNotFound")); }
            if !o.is_ok() { return; }
            if ids.len() > 1 || !mass { j.v(5, format!("cancelling {id:#x}, which does not rest, ended with {o}")); }
            return;
        }
        (None, o) if !fits => {
            if !matches!(o, Out::Err(_)) { j.v(me, format!("the cancelled totals do not fit in 64 bits, but the result is {o}")); }
            return;
        }
        (None, Out::Ok(Some(sum))) => {
            if sum.id.is_some() || sum.posted != 0 || sum.base as u128 != tb || sum.quote as u128 != tq {
                j.v(me, format!("reported {sum:?}; expected base {tb} quote {tq}"));
                if sum.base as u128 != tb { j.v(5, format!("the cancellation reports base {} instead of {tb}", sum.base)); }
            }
        }
        (None, o) => { j.v(me, format!("cancelling resting orders {ids:x?} ended with {o}")); return; }
    }
    j.r(5);
    let got: Vec<Ord> = s.post.all().cloned().collect();
    if let Err(e) = same_book(&book, &got) { j.vs(&[me, 5], format!("after cancelling {ids:x?}: {e}")); }
    j.r(12);
    if s.post.q != s.pre.q { j.vs(&[me, 12], "a cancellation changed the event queue"); }
}

fn judge_consume(s: &Step, n: u64, j: &mut Judge) {
    j.r(12);
    if !s.out.is_ok() { j.v(12, format!("consuming {n} events ended with {}", s.out)); return; }
    let k = (s.pre.q.len() as u64).min(n) as usize;
    if s.post.q != s.pre.q[k..] { j.v(12, format!("consuming {n} of {} events left {:x?}; expected {:x?}", s.pre.q.len(), s.post.q, &s.pre.q[k..])); }
    if s.post.bids != s.pre.bids || s.post.asks != s.pre.asks { j.vs(&[12, 5], "consuming events changed the book"); }
    j.r(5);
}

fn slab_agrees(s: &Step, bid: bool, mut want: Vec<Ord>, j: &mut Judge) {
    want.sort_by_key(|o| o.id);
    let got = s.post.side(bid);
    if *got != want {
        j.v(18, format!("the side holds [{}] instead of [{}]", got.iter().map(show).collect::<Vec<_>>().join(", "), want.iter().map(show).collect::<Vec<_>>().join(", ")));
    }
}
