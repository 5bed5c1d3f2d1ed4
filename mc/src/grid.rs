//! Exhaustive value grids: short scenarios over every combination of boundary values of the parameters,
//! each step executed on the real code and judged by the same monitors as the exploration.
use crate::decode::*;
use crate::engine::*;
use crate::env::*;
use crate::monitor::*;
use crate::special::par;
use crate::spec::*;
use crate::worlds::{lay, U};
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use std::sync::Mutex;

#[derive(Clone)]
pub struct St { buf: Vec<u64>, v: View, g: Ghost, issued: Vec<u128>, trace: Vec<Act> }

pub struct Grid<'a> { prop: usize, name: &'a str, entry: bool, found: Mutex<Vec<(usize, Viol)>> }

impl Grid<'_> {
    fn start<C: CbT>(&self, cfg: &Cfg) -> Result<St, String> where <C as CallbackInfo>::CallbackId: PartialEq {
        let buf = create::<C>(&cfg.lay, cfg.tick, cfg.min)?;
        let v = view(&buf, &cfg.lay);
        Ok(St { buf, v, g: vec![], issued: vec![], trace: vec![] })
    }
    fn fail<C: CbT>(&self, i: usize, cfg: &Cfg, s: &St, act: Option<&Act>, p: usize, m: String) -> String where <C as CallbackInfo>::CallbackId: PartialEq {
        let mut trace = s.trace.clone();
        trace.extend(act.cloned());
        self.found.lock().unwrap().push((i, Viol { prop: p, msg: m.clone(), world: self.name.into(), cb: C::NAME.into(), cfg: Some(*cfg), entry: self.entry, trace, special: None, fast: false }));
        m
    }
    /// Executes and judges one action; the state after it, or the violation.
    fn step<C: CbT>(&self, i: usize, cfg: &Cfg, s: &St, act: &Act, c: &mut u64) -> Result<(St, Out), String> where <C as CallbackInfo>::CallbackId: PartialEq {
        let mut buf = s.buf.clone();
        let out = exec::<C>(&mut buf, &cfg.lay, act, self.entry && !matches!(act, Act::Seq(_)));
        *c += 1;
        if !out.is_ok() { buf.copy_from_slice(&s.buf); }
        let post = if out.is_ok() { view(&buf, &cfg.lay) } else { s.v.clone() };
        let j = judge::<C>(&Step { cfg, pre: &s.v, g: &s.g, act, out: &out, post: &post, issued: Some(&s.issued) });
        if let Some((p, m)) = j.viol.into_iter().find(|(p, _)| *p == self.prop || self.prop == 0) { return Err(self.fail::<C>(i, cfg, s, Some(act), p, m)); }
        if out.is_ok() && buf[..MARKET_LEN / 8] != s.buf[..MARKET_LEN / 8] && (self.prop == 16 || self.prop == 0) { return Err(self.fail::<C>(i, cfg, s, Some(act), 16, "the market account changed".into())); }
        let g = next_ghost(&s.g, &s.v, &post, &out);
        #[cfg(feature = "chain")]
        if out.is_ok() {
            crate::chain::readers::<C>(cfg, &buf, &post, &g);
            if let Some(m) = crate::chain::take() { return Err(self.fail::<C>(i, cfg, s, Some(act), 28, m)); }
        }
        if out.is_ok() && post.berr.is_none() && post.qerr.is_none() {
            if self.prop == 18 || self.prop == 0 {
                for bid in [true, false] { if let Err(e) = slab(bytemuck::cast_slice(&buf), &cfg.lay, bid).check() { return Err(self.fail::<C>(i, cfg, s, Some(act), 18, e)); } }
            }
            if self.prop == 22 || self.prop == 18 || self.prop == 0 {
                #[cfg(feature = "readers")]
                if let Err((ps, e)) = crate::readside::read_side::<C>(cfg, &buf, &post, &g, &[], &s.issued, 0, &mut Judge::default()) {
                    if let Some(p) = ps.into_iter().find(|p| *p == self.prop || self.prop == 0) { return Err(self.fail::<C>(i, cfg, s, Some(act), p, e)); }
                }
            }
        }
        let mut issued = s.issued.clone();
        if let Out::Ok(Some(Summ { id: Some(id), .. })) = out { issued.push(id); }
        let mut trace = s.trace.clone();
        trace.push(act.clone());
        Ok((St { buf, v: post, g, issued, trace }, out))
    }
    /// Hands a state to the JavaScript decoders.
    fn dump(&self, cfg: &Cfg, s: &St) {
        if self.prop != 26 { return; }
        let mut pr: Vec<u128> = s.issued.iter().rev().take(6).copied().collect();
        pr.extend(s.v.all().take(3).flat_map(|o| [o.id ^ 1, o.id ^ 1 << 64, o.id ^ 1 << 127]));
        pr.extend([0, u128::MAX]);
        pr.retain(|i| s.v.find(*i).is_none());
        crate::dump::plain(self.name, cfg, &s.buf, &s.v, &pr);
    }
    /// Executes one action without judging it: a new order that must be posted, or a trade of one fill.
    fn bulk<C: CbT>(&self, i: usize, cfg: &Cfg, s: &mut St, act: Act, post: bool, c: &mut u64) -> Result<(), String> where <C as CallbackInfo>::CallbackId: PartialEq {
        let out = exec::<C>(&mut s.buf, &cfg.lay, &act, self.entry);
        *c += 1;
        match out {
            Out::Ok(Some(Summ { id: Some(id), .. })) if post => { s.g.push(id); s.issued.push(id); }
            Out::Ok(Some(Summ { id: None, .. })) if !post => {}
            o => return Err(self.fail::<C>(i, cfg, s, Some(&act), if self.prop == 0 { 20 } else { self.prop }, format!("step {} of filling the accounts ended with {o}", s.trace.len() + 1))),
        }
        s.trace.push(act);
        Ok(())
    }
    /// The same without keeping the state after it.
    fn probe<C: CbT>(&self, i: usize, cfg: &Cfg, s: &St, act: &Act, scratch: &mut Vec<u64>, c: &mut u64) -> Result<(), String> where <C as CallbackInfo>::CallbackId: PartialEq {
        scratch.clone_from(&s.buf);
        let out = exec::<C>(scratch, &cfg.lay, act, self.entry);
        *c += 1;
        let postv;
        let post = if out.is_ok() { postv = view(scratch, &cfg.lay); &postv } else { &s.v };
        let j = judge::<C>(&Step { cfg, pre: &s.v, g: &s.g, act, out: &out, post, issued: Some(&s.issued) });
        match j.viol.into_iter().find(|(p, _)| *p == self.prop || self.prop == 0) { Some((p, m)) => Err(self.fail::<C>(i, cfg, s, Some(act), p, m)), None => Ok(()) }
    }
}

fn run(prop: usize, name: &str, entry: bool, n: usize, st: &mut Stats, f: impl Fn(&Grid, usize, &mut u64) -> Result<(), String> + Sync) -> Option<Viol> {
    let g = Grid { prop, name, entry, found: Mutex::new(vec![]) };
    let t0 = std::time::Instant::now();
    let r = par(prop, name, n, st, |i, c| f(&g, i, c).err());
    if std::env::var_os("AOBMC_TIME").is_some() { eprintln!("{name}: {:.1}s", t0.elapsed().as_secs_f64()); }
    let mut v = g.found.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    r.map(|r| v.into_iter().next().map(|x| x.1).unwrap_or(r))
}

fn near(xs: &[u64], d: i64) -> Vec<u64> {
    let mut v: Vec<u64> = xs.iter().flat_map(|x| (-d..=d).map(move |k| x.wrapping_add(k as u64))).collect();
    v.sort();
    v.dedup();
    v
}
fn uniq(mut v: Vec<u64>) -> Vec<u64> { v.sort(); v.dedup(); v }
fn powers(ks: impl Iterator<Item = u32>) -> Vec<u64> { ks.map(|k| 1u64 << k).collect() }
fn sat(x: u128) -> u64 { x.min(M as u128) as u64 }

pub fn grids(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    // every grid is judged for every property of the state machine; the expensive ones where they can matter
    const ALL: [usize; 20] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 18, 20, 22, 24, 25, 29];
    if prop == 26 {
        if let Some(v) = callback_sizes(prop, deep, st) { return Some(v); }
        if let Some(v) = capacity_grid(prop, deep, st) { return Some(v); }
        return large_grid(prop, st);
    }
    if prop != 0 && prop != 19 && prop != 28 && !ALL.contains(&prop) { return None; }
    let on = |ps: &[usize]| prop == 0 || prop == 28 || ps.contains(&prop);
    let all = on(&ALL);
    if all { if let Some(v) = trade_grid(prop, deep, st) { return Some(v); } }
    if on(&[1, 2, 3, 4, 5, 8, 18, 20, 24, 29]) { if let Some(v) = two_makers(prop, deep, st) { return Some(v); } }
    if on(&[3, 4, 5, 6, 14, 20, 24, 25, 29]) { if let Some(v) = post_grid(prop, deep, st) { return Some(v); } }
    if all { if let Some(v) = callback_bits(prop, st) { return Some(v); } }
    if all { if let Some(v) = callback_sizes(prop, deep, st) { return Some(v); } }
    if on(&[1, 2, 3, 4, 5, 6, 7, 8, 20, 24, 29]) { if let Some(v) = limit_grid(prop, deep, st) { return Some(v); } }
    if all { if let Some(v) = sweep_grid(prop, deep, st) { return Some(v); } }
    if on(&[4, 6, 14, 20, 29]) { if let Some(v) = tick_grid(prop, deep, st) { return Some(v); } }
    if all { if let Some(v) = consume_grid(prop, deep, st) { return Some(v); } }
    if on(&[5, 10, 11, 18, 20, 22, 25, 29]) { if let Some(v) = cancel_grid(prop, deep, st) { return Some(v); } }
    if on(&[5, 10, 11, 20, 29]) { if let Some(v) = mass_grid(prop, deep, st) { return Some(v); } }
    if all { if let Some(v) = seq_grid(prop, deep, st) { return Some(v); } }
    if all || prop == 19 { if let Some(v) = capacity_grid(prop, deep, st) { return Some(v); } }
    if on(&[1, 2, 3, 4, 5, 6, 9, 10, 14, 18, 20, 22, 29]) { if let Some(v) = price_grid(prop, deep, st) { return Some(v); } }
    // every call is made twice and on copies there
    if prop == 28 && !deep { return None; }
    if on(&[5, 9, 10, 12, 13, 14, 18, 19, 20, 22, 25, 29]) { if let Some(v) = large_grid(prop, st) { return Some(v); } }
    None
}

fn prices(deep: bool) -> Vec<u64> {
    let mut v = near(&powers([1u32, 16, 31, 32, 33, 48, 62, 63].into_iter()), 1);
    v.extend([1, 3, U / 3, 2 * (U / 3), 3 * (U / 4), 5 * (U / 2), 7 * U, 10 * U + 3, M / 3, M - 1, M]);
    if deep { v.extend(near(&powers((0..64).step_by(3)), 1)); v.extend([U / 7, U / 10, 1000 * U + 1, 123_456_789_012]); }
    v.retain(|x| *x > 0);
    uniq(v)
}
fn sizes(deep: bool) -> Vec<u64> {
    let mut v = near(&powers([1u32, 2, 31, 32, 33, 62, 63].into_iter()), 1);
    v.extend([1, 3, 7, 10, 100, 1000, M / 3, M - 1, M]);
    if deep { v.extend(near(&powers((0..64).step_by(5)), 1)); v.extend([5, 9, 11, 13, 997, 123_456_789]); }
    v.retain(|x| *x > 0);
    uniq(v)
}

/// One resting order, one incoming order: sizes around every boundary of the trade (full fill, dust, budget, rounding).
fn trade_grid(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let (ps, ss) = (prices(deep), sizes(deep));
    let mins: Vec<u64> = if deep { vec![1, 2, 3, 7, 100, 1 << 32, 1 << 40] } else { vec![1, 2, 7, 1 << 32] };
    let n = ps.len() * mins.len() * 2;
    run(prop, "grid-trade", false, n, st, |g, i, c| {
        let (bid, min, price) = (i % 2 == 0, mins[i / 2 % mins.len()], ps[i / 2 / mins.len()]);
        let cfg = Cfg { lay: lay(16, 5, 2, 2), tick: 1, min };
        let root = g.start::<Cb16>(&cfg)?;
        let mut scratch = vec![];
        for size in &ss {
            if *size < min { continue; }
            // the maker rests on the side opposite to the taker
            let (s, _) = g.step::<Cb16>(i, &cfg, &root, &nt(!bid, price, *size, 1).act::<Cb16>(1), c)?;
            let Some(m) = s.v.all().next().cloned() else { continue };
            let mut bs = vec![1, 2, m.qty, m.qty / 2, M, min, min.saturating_sub(1), m.qty.saturating_sub(min)];
            bs = near(&bs, 1);
            bs.push(sat(m.qty as u128 * 2 + 5));
            bs.retain(|b| *b > 0 || m.qty < 4);
            let bs = uniq(bs);
            let cost = |b: u64| if bid { mul_ceil(b, price) } else { mul_floor(b, price) };
            for b in &bs {
                let t = m.qty.min(*b);
                let mut qs = vec![0, 1, 2, M, sat(cost(t)), sat(cost(m.qty.saturating_sub(min))), sat(cost(m.qty.saturating_sub(min) + 1)), sat(cost(t) / 2), sat(cost(t) + mul_floor(min, price))];
                qs.extend([sat(cost(t)).saturating_sub(1), sat(cost(t) + 1), sat(cost(t.saturating_sub(1))), sat(cost(t.saturating_add(1))), sat(cost(t) + cost(min)), sat(cost(t) + cost(min)).saturating_sub(1)]);
                for q in uniq(qs) {
                    for limit_price in [price, if bid { price.saturating_add(1) } else { (price - 1).max(1) }, if bid { M } else { 1 }] {
                        let a = nt(bid, limit_price, *b, 0).q(q).act::<Cb16>(2);
                        g.probe::<Cb16>(i, &cfg, &s, &a, &mut scratch, c)?;
                    }
                }
            }
        }
        Ok(())
    })
}

/// Two resting orders at the same or neighbouring prices, budgets around what the first and both cost.
fn two_makers(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let mut ps = vec![1u64, U / 3, U - 1, U, U + 1, 2 * U, 5 * (U / 2), 1000 * U, 1 << 50, 1 << 63];
    if deep { ps.extend([2, 3, 1 << 16, (1 << 31) + 1, 7 * U + 5, 1 << 40, M - 1]); }
    let ss: Vec<u64> = if deep { vec![2, 3, 5, 7, 8, 64, 100, (1 << 20) + 1, 1 << 33] } else { vec![2, 3, 7, 100, (1 << 33) + 1] };
    let mins = [1u64, 2];
    let n = ps.len() * 2 * mins.len();
    run(prop, "grid-two-makers", false, n, st, |g, i, c| {
        let (bid, min, p1) = (i % 2 == 0, mins[i / 2 % 2], ps[i / 4]);
        let cfg = Cfg { lay: lay(16, 7, 3, 3), tick: 1, min };
        let root = g.start::<Cb16>(&cfg)?;
        let mut scratch = vec![];
        // the second maker is at the same price or worse for the taker
        let p2s: Vec<u64> = uniq(vec![p1, if bid { p1.saturating_add(1) } else { (p1 - 1).max(1) }, if bid { p1.saturating_mul(2) } else { (p1 / 2).max(1) }, if bid { p1.saturating_add(3 * U) } else { (p1 / 5).max(1) }]);
        for p2 in p2s { for s1 in &ss { for s2 in &ss {
            for first in [true, false] {
                let mk = [nt(!bid, p1, *s1, 1).act::<Cb16>(1), nt(!bid, p2, *s2, 0).act::<Cb16>(2)];
                let (a, b) = if first { (0, 1) } else { (1, 0) };
                let (s, _) = g.step::<Cb16>(i, &cfg, &root, &mk[a], c)?;
                let (s, _) = g.step::<Cb16>(i, &cfg, &s, &mk[b], c)?;
                let cost = |b: u64, p: u64| if bid { mul_ceil(b, p) } else { mul_floor(b, p) };
                let c1 = cost(*s1, p1);
                let both = c1 + cost(*s2, p2);
                let bs = uniq(vec![*s1, s1 + 1, s1 + min, s1 + s2 - min, s1 + s2 - 1, s1 + s2, s1 + s2 + min, M, s1 - 1]);
                let qs = uniq(vec![0, sat(c1), sat(c1).saturating_sub(1), sat(c1 + 1), sat(c1 + cost(min, p2)), sat(both), sat(both).saturating_sub(1), sat(both + 1), M]);
                for b in &bs { for q in &qs { for l in [1u64, 2, 3] { for lp in [p2, if bid { M } else { 1 }] {
                    g.probe::<Cb16>(i, &cfg, &s, &nt(bid, lp, *b, 2).q(*q).l(l).act::<Cb16>(3), &mut scratch, c)?;
                } } } }
            }
        } } }
        Ok(())
    })
}

/// One order on an empty book: what is posted and reported.
fn post_grid(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let mut ps = prices(deep);
    ps.extend(near(&powers((0..64).step_by(if deep { 1 } else { 4 })), 1));
    ps.push(0);
    let ps = uniq(ps);
    let ss = sizes(true);
    let mins: Vec<u64> = vec![1, 2, 3, 7, 100, 1 << 20, 1 << 31, 1 << 32, 1 << 40, 1 << 63, M];
    run(prop, "grid-post", false, ps.len(), st, |g, i, c| {
        let p = ps[i];
        let mut scratch = vec![];
        for min in &mins {
            let cfg = Cfg { lay: lay(16, 5, 1, 1), tick: 1, min: *min };
            let root = g.start::<Cb16>(&cfg)?;
            for bid in [true, false] { for b in ss.iter().copied().chain([0, *min, min - 1, min.saturating_add(1)]) {
                let cost = |b: u64| if bid { mul_ceil(b, p) } else { mul_floor(b, p) };
                let mut qs = near(&[sat(cost(b)), sat(cost(*min)), 1], 1);
                qs.extend([0, M, sat(cost(b) / 2), sat(cost(min - 1)), 1 << 32, 1 << 63]);
                for q in uniq(qs) { for fl in 0..4 {
                    let mut o = nt(bid, p, b, 0).q(q);
                    if fl & 1 != 0 { o = o.nopost(); }
                    if fl & 2 != 0 { o = o.po(); }
                    g.probe::<Cb16>(i, &cfg, &root, &o.act::<Cb16>(1), &mut scratch, c)?;
                } }
            } }
        }
        Ok(())
    })
}

/// Callback information that differs in any single bit: who counts as the same owner, and what reaches the events.
fn callback_bits(prop: usize, st: &mut Stats) -> Option<Viol> {
    fn go<C: CbT>(prop: usize, name: &str, entry: bool, st: &mut Stats) -> Option<Viol> where <C as CallbackInfo>::CallbackId: PartialEq {
        let n = std::mem::size_of::<C>() * 8;
        let mask = |mut w: CbW| { for k in n / 64..4 { w[k] = 0; } w };
        let bases: Vec<CbW> = vec![[0; 4], mask([M; 4]), C::mk(0, 0), mask([0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x5555_aaaa_3333_cccc, 0x0f0f_f0f0_1234_8765])];
        run(prop, name, entry, n * bases.len(), st, |g, i, c| {
            let base = bases[i % bases.len()];
            let bit = i / bases.len();
            let mut other = base;
            other[bit / 64] ^= 1 << (bit % 64);
            let cfg = Cfg { lay: lay(n / 8, 6, 2, 2), tick: U, min: 2 };
            let root = g.start::<C>(&cfg)?;
            let o = |bid: bool, p: u64, q: u64, cb: CbW, stb: u8| Act::New(NewP { bid, price: p * U, base: q, quote: M, limit: M, post_only: false, post_allowed: true, stb, cb });
            for bid in [true, false] {
                let (near_p, far_p) = if bid { (5, 6) } else { (6, 5) };
                // a foreign-but-similar order in front of an own one and the other way round
                for (x, y) in [(other, base), (base, other), (base, base)] {
                    let (s, _) = g.step::<C>(i, &cfg, &root, &o(!bid, near_p, 5, x, 0), c)?;
                    let (s, _) = g.step::<C>(i, &cfg, &s, &o(!bid, far_p, 3, y, 0), c)?;
                    for stb in 0..3 { for q in [2, 4, 7, 20] {
                        let (s2, _) = g.step::<C>(i, &cfg, &s, &o(bid, far_p, q, base, stb), c)?;
                        // events carry it; they survive another order and consumption one by one
                        let (s3, _) = g.step::<C>(i, &cfg, &s2, &Act::Consume(1), c)?;
                        g.step::<C>(i, &cfg, &s3, &o(bid, far_p, q, other, stb), c)?;
                    } }
                    // eviction from a full side
                    let better = if bid { 4 } else { 7 };
                    let (s4, _) = g.step::<C>(i, &cfg, &s, &o(!bid, better, 4, other, 0), c)?;
                    g.step::<C>(i, &cfg, &s4, &o(!bid, better, 4, base, 0), c)?;
                }
            }
            Ok(())
        })
    }
    if let Some(v) = go::<Cb16>(prop, "grid-callback16", false, st) { return Some(v); }
    if let Some(v) = go::<Cb24>(prop, "grid-callback24", false, st) { return Some(v); }
    go::<[u8; 32]>(prop, "grid-callback32", true, st)
}

/// Callback information of every length, from none to longer than a node: slots filled, emptied, reused, evicted; queue wrapped.
fn callback_sizes(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    fn go<C: CbT>(g: &Grid, i: usize, cap: usize, bid: bool, c: &mut u64) -> Result<(), String> where <C as CallbackInfo>::CallbackId: PartialEq {
        let cfg = Cfg { lay: lay(std::mem::size_of::<C>(), 5 + cap, if bid { cap } else { 3 }, if bid { 2 } else { cap }), tick: U, min: 2 };
        let mut s = g.start::<C>(&cfg)?;
        let p = |k: u64| (if bid { 20 + k } else { 60 - k }) * U;
        for round in 0..3u64 {
            let t = 1000 * round;
            g.dump(&cfg, &s);
            for k in 0..cap as u64 + 2 { s = g.step::<C>(i, &cfg, &s, &nt(bid, p((k * 3 + round) % 5 + k / 2), 2 + k % 4, k % 3).act::<C>(t + k), c)?.0; }
            g.dump(&cfg, &s);
            s = g.step::<C>(i, &cfg, &s, &nt(!bid, p(30), 9, 1).act::<C>(t + 50), c)?.0;
            let ids: Vec<u128> = s.v.all().map(|o| o.id).collect();
            for (a, stb) in [(3u64, 0u8), (5, 1), (4, 2), (2, 1)] {
                for owner in 0..3 { s = g.step::<C>(i, &cfg, &s, &nt(!bid, p(0), a, owner).s(stb).nopost().act::<C>(t + 60 + a + owner), c)?.0; }
                if a % 2 == 1 { g.dump(&cfg, &s); }
                s = g.step::<C>(i, &cfg, &s, &Act::Consume(a), c)?.0;
            }
            s = g.step::<C>(i, &cfg, &s, &Act::Consume(M), c)?.0;
            s = g.step::<C>(i, &cfg, &s, &Act::Cancel(ids.first().copied().unwrap_or(7)), c)?.0;
            let left: Vec<u128> = s.v.all().map(|o| o.id).step_by(2).collect();
            s = g.step::<C>(i, &cfg, &s, &Act::Mass(left), c)?.0;
        }
        Ok(())
    }
    let caps: Vec<usize> = (1..=(if deep { 40 } else { 12 })).collect();
    run(prop, "grid-callback-length", false, CB_SIZES.len() * caps.len() * 2, st, |g, i, c| {
        let (n, cap, bid) = (CB_SIZES[i / 2 / caps.len()], caps[i / 2 % caps.len()], i % 2 == 0);
        macro_rules! f { ($t:ty) => { go::<$t>(g, i, cap, bid, c) } }
        crate::with_cb!(n, f)
    })
}

/// Match limits of every magnitude against a side of several owners' orders.
fn limit_grid(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let mut ls: Vec<u64> = (0..=12).collect();
    for k in 3..64 { for d in 0..=(if deep { 9u64 } else { 4 }) { ls.push((1u64 << k) + d); ls.push(((1u64 << k) - 1).saturating_sub(d)); } }
    ls.extend([M, M - 1, M - 3]);
    let ls = uniq(ls);
    run(prop, "grid-limit", false, ls.len() * 2, st, |g, i, c| {
        let (l, bid) = (ls[i / 2], i % 2 == 0);
        let cfg = Cfg { lay: lay(16, 24, 10, 10), tick: U, min: 2 };
        let mut s = g.start::<Cb16>(&cfg)?;
        for (k, (p, q, o)) in [(5u64, 3u64, 0u64), (5, 4, 1), (6, 5, 0), (6, 3, 0), (6, 6, 1), (7, 9, 0), (8, 2, 1), (8, 5, 0)].into_iter().enumerate() {
            let p = if bid { p } else { 13 - p };
            s = g.step::<Cb16>(i, &cfg, &s, &nt(!bid, p * U, q, o).act::<Cb16>(k as u64), c)?.0;
        }
        let mut scratch = vec![];
        for base in [3u64, 4, 6, 7, 8, 12, 15, 20, 21, 23, 30, 37, 38, 40, 1 << 40, M] {
            for lp in [5u64, 6, 7, 8, 9] { for owner in [0, 1, 2] { for stb in 0..3 {
                for fl in 0..3 {
                    let mut o = nt(bid, (if bid { lp } else { 13 - lp }) * U, base, owner).l(l).s(stb);
                    if fl == 1 { o = o.nopost(); }
                    if fl == 2 { o = o.po(); }
                    g.probe::<Cb16>(i, &cfg, &s, &o.act::<Cb16>(77), &mut scratch, c)?;
                }
            } } }
        }
        Ok(())
    })
}

/// One order that meets very many resting orders: trades, self-trade removals, both in turn; exact and insufficient event room.
fn sweep_grid(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let mut ns: Vec<usize> = (1..=(if deep { 300 } else { 140 })).collect();
    ns.extend([255, 256, 257, 300]);
    if deep { ns.extend([511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097]); }
    let ns: Vec<usize> = uniq(ns.into_iter().map(|x| x as u64).collect()).into_iter().map(|x| x as usize).collect();
    const VAR: usize = 6;
    run(prop, "grid-sweep", false, ns.len() * 2 * VAR, st, |g, i, c| {
        let (n, bid, var) = (ns[i / (2 * VAR)], i / VAR % 2 == 0, i % VAR);
        let eqc = match var { 4 => 2 * n, 5 => 2 * n - 1, _ => 2 * n + 4 }.max(5);
        let cfg = Cfg { lay: lay(16, eqc, n + 2, n + 2), tick: U, min: 2 };
        let mut s = g.start::<Cb16>(&cfg)?;
        let p = |k: u64| (if bid { 10 + k } else { 5000 - k }) * U;
        let mut cost = 0u64;
        let mut total = 0u64;
        for k in 0..n as u64 {
            // owners: 0 is the taker's
            let (lv, ow) = match var { 0 => (0, 1), 1 => (k, 1), 2 => (k / 3, k % 2), 3 => (k % 4, 0), _ => (k % 2, 1) };
            let q = 2 + (k * 5) % 7;
            g.bulk::<Cb16>(i, &cfg, &mut s, nt(!bid, p(lv), q, ow).act::<Cb16>(k), true, c)?;
            total += q;
            cost += q * (p(lv) / U);
        }
        s.v = view(&s.buf, &cfg.lay);
        let far = if bid { 6000 * U } else { U };
        let mut scratch = vec![];
        for stb in 0..3 {
            for base in [total - 1, total, total + 5, M] {
                for l in [n as u64 - 1, n as u64, n as u64 + 1, M] {
                    for fl in 0..2 {
                        let mut o = nt(bid, far, base, 0).l(l).s(stb);
                        if fl == 1 { o = o.nopost(); }
                        g.probe::<Cb16>(i, &cfg, &s, &o.act::<Cb16>(7777), &mut scratch, c)?;
                    }
                }
            }
            for quote in [cost - 1, cost, cost + 1] {
                g.probe::<Cb16>(i, &cfg, &s, &nt(bid, far, M, 0).q(quote).s(stb).act::<Cb16>(7778), &mut scratch, c)?;
            }
        }
        // and what is left afterwards serves
        let (s2, o) = g.step::<Cb16>(i, &cfg, &s, &nt(bid, far, total + 5, 0).s(1).act::<Cb16>(7779), c)?;
        if o.is_ok() {
            let s3 = g.step::<Cb16>(i, &cfg, &s2, &Act::Consume(n as u64), c)?.0;
            let s4 = g.step::<Cb16>(i, &cfg, &s3, &nt(!bid, far, 3, 1).act::<Cb16>(7780), c)?.0;
            g.step::<Cb16>(i, &cfg, &s4, &Act::Consume(M), c)?;
        }
        Ok(())
    })
}

/// Tick sizes and limit prices: accepted exactly when a multiple (and at least one tick when it may post).
fn tick_grid(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let mut ts = near(&powers((0..64).step_by(if deep { 1 } else { 3 })), 1);
    ts.extend([3, 5, 6, 7, 9, 10, 12, 100, 1000, 21474836480, 2147483648, 42949672, 3 * U, 10 * U, M / 2, M / 3, M - 1, M]);
    ts.retain(|t| *t > 0);
    let ts = uniq(ts);
    run(prop, "grid-tick", false, ts.len(), st, |g, i, c| {
        let t = ts[i];
        let cfg = Cfg { lay: lay(16, 5, 2, 2), tick: t, min: 1 };
        let root = g.start::<Cb16>(&cfg)?;
        let mut ps = near(&powers(0..64), 1);
        for k in [0u64, 1, 2, 3, 4, 7, 8, 1000, U - 1, U, U + 1, M / t / 2, (M / t).saturating_sub(1), M / t] { if let Some(x) = k.checked_mul(t) { ps.extend(near(&[x], 2)); ps.push(x.wrapping_add(t / 2)); ps.push(x ^ (1 << 32)); ps.push(x ^ (1 << 63)); } }
        let ps = uniq(ps);
        let mut scratch = vec![];
        let (s1, _) = g.step::<Cb16>(i, &cfg, &root, &nt(true, t, 3, 1).act::<Cb16>(1), c)?;
        let (s2, _) = g.step::<Cb16>(i, &cfg, &root, &nt(false, t, 3, 1).act::<Cb16>(1), c)?;
        for s in [&root, &s1, &s2] { for p in &ps { for bid in [true, false] { for fl in 0..4 {
            let mut o = nt(bid, *p, 2, 0);
            if fl & 1 != 0 { o = o.nopost(); }
            if fl & 2 != 0 { o = o.po(); }
            g.probe::<Cb16>(i, &cfg, s, &o.act::<Cb16>(2), &mut scratch, c)?;
        } } } }
        Ok(())
    })
}

/// Numbers of events to consume of every magnitude, at every fill level and head position.
fn consume_grid(prop: usize, _deep: bool, st: &mut Stats) -> Option<Viol> {
    let mut ns = near(&powers(0..64), 3);
    ns.extend([0, M, M - 1, M - 2, M - 4, M - 5, M - 6, M - 7]);
    let ns = uniq(ns);
    run(prop, "grid-consume", false, 8 * 9, st, |g, i, c| {
        let (cap, head, len) = (8u64, (i % 8) as u64, (i / 8) as u64);
        let cfg = Cfg { lay: lay(16, cap as usize, 2, 2), tick: U, min: 2 };
        let s = g.start::<Cb16>(&cfg)?;
        let mut s = g.step::<Cb16>(i, &cfg, &s, &nt(true, U, 1 << 30, 1).act::<Cb16>(1), c)?.0;
        for k in 0..head { s = g.step::<Cb16>(i, &cfg, &s, &nt(false, U, 2, 0).nopost().act::<Cb16>(k), c)?.0; s = g.step::<Cb16>(i, &cfg, &s, &Act::Consume(1), c)?.0; }
        for k in 0..len { s = g.step::<Cb16>(i, &cfg, &s, &nt(false, U, 3 + k, 0).nopost().act::<Cb16>(k), c)?.0; }
        for n in &ns {
            let (s1, _) = g.step::<Cb16>(i, &cfg, &s, &Act::Consume(*n), c)?;
            // and what comes after it is appended where it belongs
            let (s2, _) = g.step::<Cb16>(i, &cfg, &s1, &nt(false, U, 5, 0).nopost().act::<Cb16>(9), c)?;
            g.step::<Cb16>(i, &cfg, &s2, &Act::Consume(1), c)?;
        }
        Ok(())
    })
}

/// Reported totals of cancellations: single orders and pairs of every magnitude.
fn cancel_grid(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let ps = prices(deep);
    let ss = sizes(deep);
    run(prop, "grid-cancel", false, ps.len() * 2, st, |g, i, c| {
        let (p, bid) = (ps[i / 2], i % 2 == 0);
        let cfg = Cfg { lay: lay(16, 5, 3, 3), tick: 1, min: 1 };
        let root = g.start::<Cb16>(&cfg)?;
        let mut scratch = vec![];
        for s in &ss {
            let (s1, _) = g.step::<Cb16>(i, &cfg, &root, &nt(bid, p, *s, 1).act::<Cb16>(1), c)?;
            let Some(a) = s1.v.all().next().cloned() else { continue };
            for act in [Act::Cancel(a.id), Act::Mass(vec![a.id])] { g.probe::<Cb16>(i, &cfg, &s1, &act, &mut scratch, c)?; }
            for (b2, p2) in [(bid, p), (bid, (p / 2).max(1)), (!bid, if bid { p.saturating_add(1) } else { p - 1 })] {
                if p2 == 0 || (b2 != bid && p2 == p) { continue; }
                for q2 in [1u64, 2, s / 2, *s, M - s, (M - s).saturating_add(1), 1 << 63, M] {
                    if q2 == 0 { continue; }
                    let (s2, _) = g.step::<Cb16>(i, &cfg, &s1, &nt(b2, p2, q2, 0).act::<Cb16>(2), c)?;
                    let Some(b) = s2.v.all().find(|o| o.id != a.id).cloned() else { continue };
                    for l in [vec![a.id, b.id], vec![b.id, a.id], vec![b.id], vec![a.id, b.id, a.id], vec![a.id, b.id ^ 1 << 64]] { g.probe::<Cb16>(i, &cfg, &s2, &Act::Mass(l), &mut scratch, c)?; }
                    g.probe::<Cb16>(i, &cfg, &s2, &Act::Cancel(b.id), &mut scratch, c)?;
                }
            }
        }
        Ok(())
    })
}

/// Mass cancels of every list length, complete or with one id missing, repeated or foreign at any position.
fn mass_grid(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let mut ns: Vec<usize> = (0..=130).collect();
    ns.extend([200, 254, 255, 256, 257, 258, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 1200]);
    if deep { ns.extend(130..520); ns.extend([2047, 2048, 2049, 4096, 5000]); }
    ns.sort();
    ns.dedup();
    let top = *ns.last().unwrap() + 4;
    run(prop, "grid-mass", false, ns.len() * 3, st, |g, i, c| {
        let (n, which) = (ns[i / 3], i % 3);
        let cap = if n < 130 { 140 } else { top };
        // orders on one side, the other, or both
        let cfg = Cfg { lay: lay(16, 5, cap, cap), tick: 1, min: 1 };
        let mut s = g.start::<Cb16>(&cfg)?;
        for k in 0..n as u64 + 3 {
            let bid = match which { 0 => true, 1 => false, _ => k % 2 == 0 };
            g.bulk::<Cb16>(i, &cfg, &mut s, nt(bid, if bid { U / 3 + k % 7 } else { 3 * U + U / 3 + k % 5 }, 1 + k % 9, k % 2).act::<Cb16>(k), true, c)?;
        }
        s.v = view(&s.buf, &cfg.lay);
        let all = s.g.clone();
        let mut scratch = vec![];
        let ids = all[..n].to_vec();
        let mut rev = ids.clone();
        rev.reverse();
        for l in [ids.clone(), rev, all.clone()] { g.probe::<Cb16>(i, &cfg, &s, &Act::Mass(l), &mut scratch, c)?; }
        let pos: Vec<usize> = if n <= 70 { (0..n).collect() } else { [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n / 2, n - 2, n - 1].into_iter().filter(|k| *k < n).collect() };
        for k in pos {
            for x in [ids[(k + n - 1) % n], ids[k] ^ 1 << 64, ids[k] ^ 1 << 63, 0] {
                let mut l = ids.clone();
                l[k] = x;
                g.probe::<Cb16>(i, &cfg, &s, &Act::Mass(l), &mut scratch, c)?;
            }
            let mut l = ids.clone();
            l.insert(k, all[n + 1] ^ 2);
            g.probe::<Cb16>(i, &cfg, &s, &Act::Mass(l), &mut scratch, c)?;
            let mut l = ids.clone();
            l.push(ids[k]);
            g.probe::<Cb16>(i, &cfg, &s, &Act::Mass(l), &mut scratch, c)?;
        }
        Ok(())
    })
}

/// The order counter around every power of two: old orders keep their priority, ids stay unique and well-formed.
fn seq_grid(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let mut ns: Vec<u64> = vec![];
    for k in 2..63u32 { for d in 0..(if deep { 6 } else { 3 }) { ns.push((1u64 << k).saturating_sub(d)); } for j in 0..k { if deep || j % 7 == 0 { ns.push((1 << k) + (1 << j) - 1); } } }
    for k in [10u32, 100, 1000, 10_000, 1_000_000, 1_000_000_000] { ns.push(k as u64 - 1); }
    ns.retain(|n| *n >= 4 && *n < 1 << 63);
    let ns = uniq(ns);
    run(prop, "grid-seq", false, ns.len() * 2, st, |g, i, c| {
        let (n, bid) = (ns[i / 2], i % 2 == 0);
        let cfg = Cfg { lay: lay(16, 20, 6, 6), tick: U, min: 2 };
        let root = g.start::<Cb16>(&cfg)?;
        // an order from the far past rests (or not) when the counter gets there
        for old in 0..3u64 {
            let mut s = root.clone();
            for k in 0..old { s = g.step::<Cb16>(i, &cfg, &s, &nt(bid, 3 * U, 3 + k, k).act::<Cb16>(k), c)?.0; }
            s = g.step::<Cb16>(i, &cfg, &s, &Act::Seq(n), c)?.0;
            for k in 0..3 { s = g.step::<Cb16>(i, &cfg, &s, &nt(bid, 3 * U, 4 + k, 1).act::<Cb16>(10 + k), c)?.0; }
            for l in 1..=old + 3 {
                let (s2, _) = g.step::<Cb16>(i, &cfg, &s, &nt(!bid, 3 * U, 1 << 20, 2).nopost().l(l).act::<Cb16>(20), c)?;
                g.step::<Cb16>(i, &cfg, &s2, &nt(bid, 3 * U, 2, 2).act::<Cb16>(21), c)?;
            }
            let ids: Vec<u128> = s.v.all().map(|o| o.id).collect();
            let mut scratch = vec![];
            for id in ids { g.probe::<Cb16>(i, &cfg, &s, &Act::Cancel(id), &mut scratch, c)?; for b in 0..64 { g.probe::<Cb16>(i, &cfg, &s, &Act::Cancel(id ^ 1 << b), &mut scratch, c)?; } }
        }
        Ok(())
    })
}

/// Accounts of every size: sides and queue take exactly as much as they have slots for, again and again.
fn capacity_grid(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let mut caps: Vec<usize> = (1..=(if deep { 130 } else { 40 })).collect();
    caps.extend([63, 64, 65, 127, 128, 129, 255, 256, 257]);
    if deep { caps.extend([258, 511, 512, 513, 1023, 1024, 1025]); }
    caps.sort();
    caps.dedup();
    run(prop, "grid-capacity", false, caps.len() * 2, st, |g, i, c| {
        let (cap, bid) = (caps[i / 2], i % 2 == 0);
        // sides: fill, refuse, evict, empty, fill again
        let cfg = Cfg { lay: lay(16, cap.max(3) + 2, if bid { cap } else { 1 }, if bid { 1 } else { cap }), tick: U, min: 2 };
        let mut s = g.start::<Cb16>(&cfg)?;
        let p = |k: u64| (if bid { 1000 + k } else { 9000 - k }) * U;
        for round in 0..2u64 {
            for k in 0..cap as u64 { s = g.step::<Cb16>(i, &cfg, &s, &nt(bid, p(2 + (k * 7 + round) % 11), 2 + k % 3, k % 2).act::<Cb16>(k), c)?.0; }
            if s.v.side(bid).len() != cap { return Err(g.fail::<Cb16>(i, &cfg, &s, None, if prop == 0 { 9 } else { prop }, format!("a side of {cap} slots holds {} orders after {cap} were posted", s.v.side(bid).len()))); }
            for k in 0..3 { s = g.step::<Cb16>(i, &cfg, &s, &nt(bid, p(2 + k), 5, 0).act::<Cb16>(900 + k), c)?.0; s = g.step::<Cb16>(i, &cfg, &s, &nt(bid, p(0), 5, 0).act::<Cb16>(910 + k), c)?.0; s = g.step::<Cb16>(i, &cfg, &s, &Act::Consume(M), c)?.0; }
            if cap > 60 || i % 16 < 2 { g.dump(&cfg, &s); }
            if round == 0 {
                // empty it by trading half and cancelling the rest
                s = g.step::<Cb16>(i, &cfg, &s, &nt(!bid, p(0), M, 3).nopost().l(cap as u64 / 2).act::<Cb16>(950), c)?.0;
                s = g.step::<Cb16>(i, &cfg, &s, &Act::Consume(M), c)?.0;
                let ids: Vec<u128> = s.v.all().map(|o| o.id).collect();
                for id in ids.iter().step_by(2) { s = g.step::<Cb16>(i, &cfg, &s, &Act::Cancel(*id), c)?.0; }
                if cap > 60 || i % 16 < 2 { g.dump(&cfg, &s); }
                s = g.step::<Cb16>(i, &cfg, &s, &Act::Mass(ids.iter().skip(1).step_by(2).copied().collect()), c)?.0;
            }
        }
        // queue: fill to the last slot, one more fails, consume some, fill again
        if cap < 5 { return Ok(()); }
        let cfg = Cfg { lay: lay(16, cap, 2, 2), tick: U, min: 2 };
        let mut s = g.start::<Cb16>(&cfg)?;
        s = g.step::<Cb16>(i, &cfg, &s, &nt(!bid, 9 * U, 1 << 40, 1).act::<Cb16>(1), c)?.0;
        let t = |k: u64| nt(bid, 9 * U, 2 + k % 5, k % 2).nopost().act::<Cb16>(k);
        for (round, eat) in [1u64, cap as u64 / 2, cap as u64 - 1, 3, cap as u64].into_iter().enumerate() {
            for k in 0..cap as u64 {
                let (n, out) = g.step::<Cb16>(i, &cfg, &s, &t(k + round as u64), c)?;
                s = n;
                if out == Out::Err(E_QFULL) { break; }
            }
            if s.v.q.len() != cap { return Err(g.fail::<Cb16>(i, &cfg, &s, None, if prop == 0 { 13 } else { prop }, format!("a queue of {cap} slots holds only {} events", s.v.q.len()))); }
            g.step::<Cb16>(i, &cfg, &s, &t(99), c)?;
            if cap > 60 || i % 16 < 2 { g.dump(&cfg, &s); }
            s = g.step::<Cb16>(i, &cfg, &s, &Act::Consume(eat), c)?.0;
        }
        Ok(())
    })
}

/// Prices of every magnitude which differ by every power of two: who is best, who crosses, who is evicted.
fn price_grid(prop: usize, deep: bool, st: &mut Stats) -> Option<Viol> {
    let mut ps = near(&powers((0..64).step_by(if deep { 1 } else { 5 })), 1);
    ps.extend(powers([32, 62, 63].into_iter()));
    ps.extend([3 * U + 7, 5 * U, 100 * U + 12345, M / 3, M - 1, M]);
    ps.retain(|p| *p > 0);
    let ps = uniq(ps);
    run(prop, "grid-price", false, ps.len() * 2, st, |g, i, c| {
        let (p, bid) = (ps[i / 2], i % 2 == 0);
        let cfg = Cfg { lay: lay(16, 6, 2, 2), tick: 1, min: 1 };
        let root = g.start::<Cb16>(&cfg)?;
        let mut scratch = vec![];
        // sizes which have a value at any price
        let sz = 1u64 << 33;
        for j in 0..64 {
            let d = 1u64 << j;
            let mut qs: Vec<u64> = [p.checked_add(d), p.checked_sub(d), if d > 1 { p.checked_add(d - 1) } else { None }, if d > 1 { p.checked_sub(d - 1) } else { None }].into_iter().flatten().filter(|q| *q > 0).collect();
            if j == 0 { qs.push(p); }
            for q in uniq(qs) {
                // two on one side, in both orders
                for flip in [false, true] {
                    let (x, y) = if flip { (q, p) } else { (p, q) };
                    let (s, _) = g.step::<Cb16>(i, &cfg, &root, &nt(bid, x, 5, 1).act::<Cb16>(1), c)?;
                    let (s, _) = g.step::<Cb16>(i, &cfg, &s, &nt(bid, y, 6, 2).act::<Cb16>(2), c)?;
                    let (lo, hi) = (p.min(q), p.max(q));
                    let mids = uniq(vec![lo, hi, lo.saturating_add(1).min(hi), (hi - 1).max(lo), lo / 2 + hi / 2, (lo - 1).max(1), hi.saturating_add(1)]);
                    for m in &mids {
                        // the side is full: evict or refuse; cross from the other side
                        g.probe::<Cb16>(i, &cfg, &s, &nt(bid, *m, 7, 0).act::<Cb16>(3), &mut scratch, c)?;
                        for b in [1u64, 5, 6, 11, 12] { g.probe::<Cb16>(i, &cfg, &s, &nt(!bid, *m, b, 0).act::<Cb16>(4), &mut scratch, c)?; }
                        g.probe::<Cb16>(i, &cfg, &s, &nt(!bid, *m, 12, 0).po().act::<Cb16>(4), &mut scratch, c)?;
                        g.probe::<Cb16>(i, &cfg, &s, &nt(!bid, *m, sz, 0).nopost().l(1).act::<Cb16>(4), &mut scratch, c)?;
                    }
                    let ids: Vec<u128> = s.v.all().map(|o| o.id).collect();
                    for id in &ids {
                        g.probe::<Cb16>(i, &cfg, &s, &Act::Cancel(*id), &mut scratch, c)?;
                        for b in [1u128 << (64 + j), 1u128 << j] { g.probe::<Cb16>(i, &cfg, &s, &Act::Cancel(id ^ b), &mut scratch, c)?; }
                    }
                }
            }
        }
        Ok(())
    })
}

/// More slots than 16 bits can count, all of them used, freed and used again.
fn large_grid(prop: usize, st: &mut Stats) -> Option<Viol> {
    let cap = 65_800usize;
    let n = cap as u64;
    run(prop, "grid-large", false, if matches!(prop, 9 | 10 | 12 | 13 | 14 | 18) { 2 } else { 4 }, st, |g, i, c| {
        let bid = i % 2 == 0;
        let queue = matches!(prop, 12 | 13) || i >= 2;
        let p = |k: u64| (if bid { 1000 + k } else { 200_000 - k }) * U;
        if queue {
            let cfg = Cfg { lay: lay(16, cap, 2, 2), tick: U, min: 2 };
            let mut s = g.start::<Cb16>(&cfg)?;
            s = g.step::<Cb16>(i, &cfg, &s, &nt(!bid, 9 * U, 1 << 40, 1).act::<Cb16>(1), c)?.0;
            let t = |k: u64| nt(bid, 9 * U, 2 + k % 5, k % 2).nopost().act::<Cb16>(k);
            for k in 0..n - 3 { g.bulk::<Cb16>(i, &cfg, &mut s, t(k), false, c)?; }
            s.v = view(&s.buf, &cfg.lay);
            let maker = s.g[0];
            for (k, e) in s.v.q.iter().enumerate() {
                let Act::New(a) = t(k as u64) else { unreachable!() };
                if !matches!(e, Ev::Fill { side, id, base, tcb, .. } if *id == maker && *base == a.base && *tcb == a.cb && *side == !bid as u8) { return Err(g.fail::<Cb16>(i, &cfg, &s, None, if prop == 0 { 12 } else { prop }, format!("event {k} of {} is {e:x?}, it belongs to {}", n - 3, show_act(&t(k as u64))))); }
            }
            if s.v.q.len() as u64 != n - 3 { return Err(g.fail::<Cb16>(i, &cfg, &s, None, if prop == 0 { 12 } else { prop }, format!("{} events are outstanding after {} trades", s.v.q.len(), n - 3))); }
            for k in 0..4 { s = g.step::<Cb16>(i, &cfg, &s, &t(k), c)?.0; }
            for (m, e) in [(65_535u64, 3), (65_536, 0), (1, 0), (7, 4)] {
                s = g.step::<Cb16>(i, &cfg, &s, &Act::Consume(m), c)?.0;
                for k in 0..e { s = g.step::<Cb16>(i, &cfg, &s, &t(k), c)?.0; }
            }
            g.dump(&cfg, &s);
            for k in 0..5 { s = g.step::<Cb16>(i, &cfg, &s, &t(k), c)?.0; }
            return Ok(());
        }
        let cfg = Cfg { lay: lay(16, 12, if bid { cap } else { 2 }, if bid { 2 } else { cap }), tick: U, min: 2 };
        let mut s = g.start::<Cb16>(&cfg)?;
        let o = |k: u64| nt(bid, p(2 + k * 7919 % 90_001), 2 + k % 7, k % 3).act::<Cb16>(k);
        let mut want = vec![];
        for k in 0..n {
            g.bulk::<Cb16>(i, &cfg, &mut s, o(k), true, c)?;
            if let Act::New(a) = o(k) { want.push(Ord { id: s.g[k as usize], qty: a.base, cb: a.cb }); }
        }
        s.v = view(&s.buf, &cfg.lay);
        want.sort_by_key(|o| o.id);
        let blame = if prop == 0 { 18 } else { prop };
        if *s.v.side(bid) != want { return Err(g.fail::<Cb16>(i, &cfg, &s, None, blame, format!("after posting {n} orders the side does not hold them"))); }
        let raw = |s: &St| -> Result<(), String> {
            if prop != 18 && prop != 0 { return Ok(()); }
            slab(bytemuck::cast_slice(&s.buf), &cfg.lay, bid).check().map_err(|e| g.fail::<Cb16>(i, &cfg, s, None, 18, e))
        };
        let ids = s.issued.clone();
        // free slots beyond 16 bits and around the boundary, in several orders, and use them again
        let groups: [&[usize]; 5] = [&[65_799, 65_798, 65_797], &[65_535, 65_536, 65_537, 65_534], &[0, 65_539, 1, 65_538], &[256, 65_533, 255], &[65_532, 2, 65_531, 3, 65_530]];
        for (r, gr) in groups.iter().enumerate() {
            if r % 2 == 0 { for k in gr.iter() { s = g.step::<Cb16>(i, &cfg, &s, &Act::Cancel(ids[*k]), c)?.0; } }
            else { s = g.step::<Cb16>(i, &cfg, &s, &Act::Mass(gr.iter().map(|k| ids[*k]).collect()), c)?.0; }
            raw(&s)?;
            for k in 0..gr.len() as u64 { s = g.step::<Cb16>(i, &cfg, &s, &o(100_000 + 10 * r as u64 + k), c)?.0; }
            raw(&s)?;
        }
        // all the highest slots at once, given back in both orders
        for rev in [false, true] {
            let mut ks: Vec<u128> = s.g[s.g.len() - 200..].to_vec();
            if rev { ks.reverse(); }
            s = g.step::<Cb16>(i, &cfg, &s, &Act::Mass(ks.clone()), c)?.0;
            raw(&s)?;
            for k in 0..ks.len() as u64 { g.bulk::<Cb16>(i, &cfg, &mut s, o(150_000 + 1000 * rev as u64 + k), true, c)?; }
            s.v = view(&s.buf, &cfg.lay);
            raw(&s)?;
            if s.v.side(bid).len() != cap { return Err(g.fail::<Cb16>(i, &cfg, &s, None, blame, format!("a side of {cap} slots shows {} orders after 200 of its orders were cancelled and 200 others posted", s.v.side(bid).len()))); }
        }
        // the side is full again
        for k in 0..3 { s = g.step::<Cb16>(i, &cfg, &s, &nt(bid, p(95_000 + k), 5, 0).act::<Cb16>(900 + k), c)?.0; s = g.step::<Cb16>(i, &cfg, &s, &nt(bid, p(0), 5, 0).act::<Cb16>(910 + k), c)?.0; }
        raw(&s)?;
        s = g.step::<Cb16>(i, &cfg, &s, &nt(!bid, p(0), M, 3).nopost().l(4).act::<Cb16>(950), c)?.0;
        raw(&s)?;
        for k in 0..4 { s = g.step::<Cb16>(i, &cfg, &s, &o(200_000 + k), c)?.0; }
        raw(&s)?;
        s = g.step::<Cb16>(i, &cfg, &s, &o(300_000), c)?.0;
        g.dump(&cfg, &s);
        Ok(())
    })
}
