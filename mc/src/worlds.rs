//! The bounded worlds: market parameters, seed histories and alphabets.
use crate::engine::*;
use crate::env::*;
use crate::spec::*;

pub const U: u64 = 1 << 32;

pub fn lay(cb: usize, eqc: usize, bidc: usize, askc: usize) -> Lay { Lay { cb, eqc, bidc, askc } }

/// sizes, quote budgets and match limits
fn amounts(prices: &[u64], bases: &[u64], quotes: &[u64], limits: &[u64], owner: u64) -> Vec<NT> {
    let mut v = vec![];
    for bid in [true, false] { for p in prices { for b in bases { for q in quotes { for l in limits { v.push(nt(bid, *p, *b, owner).q(*q).l(*l)); } } } } }
    v
}
fn selfs(prices: &[u64], bases: &[u64], limits: &[u64], owners: &[u64]) -> Vec<NT> {
    let mut v = vec![];
    for bid in [true, false] { for p in prices { for b in bases { for l in limits { for o in owners { for s in [1, 2] { v.push(nt(bid, *p, *b, *o).l(*l).s(s)); } } } } } }
    v
}
fn flags(prices: &[u64], bases: &[u64]) -> Vec<NT> {
    let mut v = vec![];
    for bid in [true, false] { for p in prices { for b in bases {
        v.push(nt(bid, *p, *b, 2).po());
        v.push(nt(bid, *p, *b, 2).nopost());
        v.push(nt(bid, *p, *b, 2).po().nopost());
        v.push(nt(bid, *p, *b, 2).l(0));
        v.push(nt(bid, *p, *b, 2).po().l(0));
    } } }
    v
}

/// What a property wants probed in every reached state.
pub struct Want { pub amounts: bool, pub selfs: bool, pub flags: bool, pub cancel: u8, pub mass: u8, pub consume: bool, pub hook: u32, pub ids: bool, pub large: bool }

fn probes(w: &Want, prices: &[u64], bases: &[u64], quotes: &[u64], limits: &[u64]) -> Alpha {
    let mut a = Alpha::default();
    let few = |x: &[u64]| -> Vec<u64> { if x.len() <= 2 { x.to_vec() } else { vec![x[0], x[x.len() - 1]] } };
    if w.amounts { a.news.extend(amounts(prices, bases, quotes, limits, 2)); }
    if w.selfs { a.news.extend(selfs(prices, &few(bases), &few(limits), &[0, 1])); }
    if w.flags { a.news.extend(flags(prices, &few(bases))); }
    a.cancel_live = w.cancel > 0;
    a.cancel_dead = w.cancel;
    a.mass = w.mass;
    if w.consume { a.consume = vec![CQ::N(0), CQ::N(1), CQ::N(2), CQ::Len(-1), CQ::Len(0), CQ::Len(1), CQ::N(5), CQ::N(1 << 32), CQ::N(1 << 63), CQ::N(M - 1), CQ::N(M)]; }
    a
}

pub fn worlds(w: &Want, deep: bool, cb: usize, prop: usize) -> Vec<World> {
    let d = |quick: usize, thorough: usize| if deep { thorough } else { quick };
    let _ = prop;
    let mut out = vec![];
    let mut add = |name: &str, lay: Lay, tick: u64, min: u64, prefix: Vec<P>, setup: Alpha, depth: usize, probes: Alpha| {
        out.push(World { name: name.into(), cfg: Cfg { lay, tick, min }, prefix, setup, depth, probes, track_ids: w.ids, entry: cb == 32, hook: w.hook, fast: false });
    };
    let flow = |news: Vec<NT>| Alpha { news, cancel_live: true, consume: vec![CQ::Len(0), CQ::N(1)], ..Default::default() };

    // ---- core: three whole price levels, minimum size 2, two owners
    let core = vec![nt(true, U, 3, 0), nt(true, 2 * U, 2, 1), nt(true, 2 * U, 5, 0), nt(false, 2 * U, 3, 1), nt(false, 3 * U, 4, 0), nt(false, 2 * U, 6, 0).l(1), nt(true, 3 * U, 3, 1).s(1)];
    add("core", lay(cb, 9, 3, 3), U, 2, vec![], flow(core.clone()), d(5, 6), probes(w, &[U, 2 * U, 3 * U], &[2, 4, 20], &[M, 7, 12], &[1, 2, M]));
    // a richer start: both sides populated, two levels each, time order different from size order
    let seed = vec![P::N(nt(true, U, 4, 1)), P::N(nt(true, 2 * U, 7, 0)), P::N(nt(true, 2 * U, 3, 1)), P::N(nt(true, 2 * U, 5, 0)), P::N(nt(false, 3 * U, 6, 0)), P::N(nt(false, 4 * U, 2, 1)), P::N(nt(false, 3 * U, 3, 1)), P::N(nt(false, 3 * U, 4, 0))];
    add("populated", lay(cb, 12, 6, 6), U, 2, seed.clone(), flow(vec![nt(true, 3 * U, 7, 1), nt(false, 2 * U, 8, 0).s(1), nt(true, 2 * U, 2, 0), nt(false, 3 * U, 5, 1)]), d(4, 5), probes(w, &[U, 2 * U, 3 * U, 4 * U], &[3, 9, 40], &[M, 11, 33], &[1, 2, 3, M]));
    // ---- fractional, tiny and odd prices; quote-bound orders; rounding
    let third = U / 3;
    let pf = [third, 3 * (U / 4), U + 7, 5 * (U / 2)];
    let frac = vec![nt(true, third, 10, 0), nt(true, pf[1], 3, 1), nt(true, pf[2], 7, 0).q(5), nt(false, pf[1], 4, 0), nt(false, third, 1, 1), nt(false, pf[3], 9, 1).q(8), nt(true, pf[3], 6, 1)];
    add("fraction", lay(cb, 9, 3, 3), 1, 1, vec![], flow(frac), d(4, 5), probes(w, &pf, &[1, 2, 3, 11], &[0, 1, 2, 3, 7, M], &[1, M]));
    // ---- full sides
    for (b, a) in [(1, 1), (2, 3), (3, 2)] {
        let ev = vec![nt(true, 2 * U, 3, 0), nt(true, 4 * U, 4, 1), nt(true, 3 * U, 5, 0), nt(false, 6 * U, 3, 0), nt(false, 8 * U, 4, 1), nt(false, 7 * U, 5, 1), nt(false, 3 * U, 2, 0)];
        add(&format!("full{b}{a}"), lay(cb, 10, b, a), U, 2, vec![], flow(ev), if b + a > 2 { d(4, 5) } else { d(4, 6) }, probes(w, &[2 * U, 3 * U, 4 * U, 6 * U, 7 * U, 8 * U], &[2, 7], &[M, 40], &[1, M]));
    }
    // a side that is full from the start, with ties at the worst price
    let mut full = vec![];
    for (p, q) in [(5, 3), (4, 2), (6, 4), (4, 5)] { full.push(P::N(nt(true, p * U, q, 0))); full.push(P::N(nt(false, (14 - p) * U, q, 1))); }
    add("full-ties", lay(cb, 10, 4, 4), U, 2, full, flow(vec![nt(true, 4 * U, 2, 1), nt(true, 5 * U, 2, 1), nt(false, 10 * U, 2, 0), nt(false, 9 * U, 2, 0), nt(true, 8 * U, 4, 1)]), d(3, 4), probes(w, &[3 * U, 4 * U, 5 * U, 8 * U, 9 * U, 10 * U, 11 * U], &[2, 9, 30], &[M, 60], &[1, M]));
    // ---- smallest event queue: full queue, wrap-around
    let qf = vec![nt(true, 2 * U, 6, 0), nt(false, 2 * U, 2, 1), nt(false, 2 * U, 5, 0).s(1), nt(true, 2 * U, 3, 0).s(1), nt(false, 3 * U, 2, 0)];
    add("queue5", lay(cb, 5, 4, 4), U, 2, vec![], Alpha { news: qf.clone(), consume: vec![CQ::N(1), CQ::N(2), CQ::N(3)], ..Default::default() }, d(6, 8), probes(w, &[U, 2 * U, 3 * U], &[2, 3, 30], &[M], &[1, 2, M]));
    // every head position of a 6-slot queue, several makers waiting
    for h in 0..6u64 {
        let mut pre = vec![];
        for _ in 0..h { pre.push(P::N(nt(true, 2 * U, 2, 0))); pre.push(P::N(nt(true, 2 * U, 3, 1))); pre.push(P::N(nt(false, 2 * U, 3, 1).l(1).nopost())); pre.push(P::X(true, 0)); pre.push(P::C(9)); }
        for k in 0..4 { pre.push(P::N(nt(true, 2 * U, 3, k % 2))); }
        // odd rotation
        if h % 2 == 1 { pre.push(P::N(nt(false, 2 * U, 1, 2).l(1).nopost())); pre.push(P::C(1)); }
        add(&format!("wrap{h}"), lay(cb, 6, 4, 4), U, 2, pre, Alpha { news: vec![nt(false, 2 * U, 3, 2).l(1).nopost(), nt(false, 2 * U, 4, 2).nopost(), nt(true, 2 * U, 4, 0), nt(false, 2 * U, 9, 0).s(1).nopost()], consume: vec![CQ::N(1), CQ::N(2)], ..Default::default() }, d(4, 6),
            probes(w, &[2 * U, 3 * U], &[3, 30], &[M], &[1, 2, M]));
    }
    // ---- sequence numbers across every power-of-two boundary that a narrower integer could hide behind
    for k in [1u32, 7, 8, 15, 16, 31, 32, 33, 47, 48, 61, 62] {
        let n = (1u64 << k).saturating_sub(2);
        let small = vec![nt(true, 2 * U, 3, 0), nt(true, 2 * U, 5, 1), nt(true, U, 3, 0), nt(false, 3 * U, 3, 1), nt(false, 3 * U, 5, 0), nt(false, 2 * U, 4, 1)];
        let mut a = flow(small);
        a.consume.truncate(1);
        // two orders from the far past are still resting
        add(&format!("seq2^{k}"), lay(cb, 8, 4, 4), U, 2, vec![P::N(nt(true, 2 * U, 3, 1)), P::N(nt(false, 3 * U, 4, 0)), P::Seq(n.max(2))], a, d(3, 4), probes(w, &[2 * U, 3 * U], &[2, 30], &[M], &[1, M]));
    }
    // ---- extreme values
    let pv = [1u64, 3, U - 1, U, U + 1, 1 << 63, M - 1, M];
    let bv = [1u64, U - 1, U, 1 << 63, M];
    let mut vals = vec![];
    for p in [1u64, U - 1, U + 1, (1 << 63) + 1, M] { for b in [1u64, U + 1, M] { for bid in [true, false] { vals.push(nt(bid, p, b, 0)); } } }
    add("values", lay(cb, 12, 4, 4), 1, 1, vec![], Alpha { news: vals, ..Default::default() }, 2, probes(w, &pv, &bv, &[1, 3, U, 1 << 63, M], &[1, M]));
    let mut vals2 = vec![];
    for p in [U, 2 * U, 1 << 62] { for b in [7u64, 1 << 31, 1 << 33] { for bid in [true, false] { vals2.push(nt(bid, p, b, (b & 1) as u64)); } } }
    add("values-min", lay(cb, 12, 4, 4), U, 7, vec![], Alpha { news: vals2, ..Default::default() }, d(2, 3), probes(w, &[U, 2 * U, 1 << 62, (1 << 63) + U, M - U + 1], &[6, 7, 8, 13, 14, 1 << 31, (1 << 33) - 6, (1 << 33) - 7], &[M, 1 << 33, 27], &[1, 2, M]));
    // huge tick / minimum
    add("ticks", lay(cb, 8, 3, 3), 3 * U, 1 << 40, vec![], flow(vec![nt(true, 3 * U, 1 << 41, 0), nt(false, 6 * U, (1 << 40) + 5, 1), nt(false, 3 * U, (1 << 41) + 9, 0), nt(true, 6 * U, 3 << 40, 1)]), d(4, 5), probes(w, &[0, 1, U, 3 * U - 1, 3 * U, 3 * U + 1, 4 * U, 6 * U], &[1, (1 << 40) - 1, 1 << 40, 1 << 42], &[M, 3 << 41, (3 << 40) - 1], &[1, M]));
    // ---- deep books: a chain-shaped tree and a wide one
    let mut chain = vec![];
    for k in 0..20u64 { chain.push(P::N(nt(true, U << (k % 10) , 3 + k % 4, k % 3))); chain.push(P::N(nt(false, (U << 12) + (U << (k % 10)), 3 + k % 5, k % 3))); }
    add("chain", lay(cb, 60, 24, 24), U, 2, chain, flow(vec![nt(true, U << 13, 30, 1), nt(false, U, 30, 0).s(1), nt(true, U << 3, 4, 2), nt(false, (U << 12) + U, 3, 0)]), d(2, 3), probes(w, &[U, U << 4, U << 9, (U << 12) + (U << 3), U << 13], &[3, 25, 200], &[M, 1 << 12], &[1, 3, 8, M]));
    // one-bit prices: as deep a tree as prices alone can make
    let mut tall = vec![];
    for k in (0..63).rev() { if k % 2 == 0 && k < 31 { tall.push(P::N(nt(true, 1 << k, 5 << (40 - k), k % 3))); } else if k > 32 { tall.push(P::N(nt(false, 1 << k, 3 + k, k % 3))); } }
    for k in 0..40u32 { tall.push(P::N(nt(false, 1 << 62, 4, 1))); tall.push(P::Seq(1 << (k + 8))); }
    add("tall", lay(cb, 40, 70, 90), 1, 2, tall, flow(vec![nt(true, 1 << 40, 400, 1), nt(false, 1 << 20, 1 << 22, 0).s(1), nt(true, 1 << 31, 9, 2), nt(false, 1 << 62, 3, 0)]), d(1, 2), probes(w, &[1, 1 << 20, 1 << 33, 1 << 62, (1 << 62) + 1], &[3, 25, 1 << 40], &[M, 1 << 12], &[1, 3, 8, M]));
    // ---- more than 255 and more than 65535 orders and events
    let mut many = |name: &str, n: u64, limits: &[u64], depth: usize| {
        let mut pre = vec![];
        for k in 0..n { pre.push(P::N(nt(true, (1 + (k * 7) % 5) * U, 2 + k % 3, k % 3))); pre.push(P::N(nt(false, (7 + (k * 3) % 5) * U, 2 + k % 4, k % 3))); }
        let sweep = |l: u64| nt(false, U, 1 << 40, 2).nopost().l(l);
        out.push(World { name: name.into(), cfg: Cfg { lay: lay(cb, 2 * n as usize + 20, n as usize + 3, n as usize + 3), tick: U, min: 2 }, prefix: pre,
            setup: Alpha { news: if n < 20000 { vec![sweep(M), sweep(n - 10), nt(true, 11 * U, 1 << 40, 1).s(1).l(n - 3).nopost()] } else { vec![sweep(M)] }, consume: vec![CQ::N(n + 1)], ..Default::default() }, depth,
            probes: if n < 20000 { probes(w, &[U, 5 * U, 7 * U, 11 * U], &[3, 1 << 40], &[M], limits) } else {
                let mut p = probes(&Want { amounts: false, selfs: false, flags: false, mass: w.mass.min(1), ..*w }, &[U], &[3], &[M], limits);
                for l in limits { for bid in [true, false] { p.news.push(nt(bid, if bid { 11 * U } else { U }, 1 << 40, 2).l(*l)); if w.selfs { p.news.push(nt(bid, if bid { 11 * U } else { U }, 1 << 40, 0).l(*l).s(1)); } } }
                p.news.push(nt(true, 6 * U, 3, 0)); p.news.push(nt(false, 6 * U, 3, 0)); p.news.push(nt(true, U, 3, 0)); p.news.push(nt(false, 11 * U, 5, 1));
                p.consume.truncate(6); if w.consume { p.consume.push(CQ::N(65535)); p.consume.push(CQ::N(65536)); }
                p }, track_ids: w.ids, entry: cb == 32, hook: w.hook, fast: true });
    };
    if cb != 24 { many("wide300", 300, &[1, 255, 256, 257, M], 2); }
    if cb == 16 && (deep || w.large) { many("wide66000", 66000, &[1, 65535, 65537], 2); }
    out
}

/// The same market with other callback types: 24 bytes with a two-word identifier, and the deployed program's
/// 32 bytes through its entry point.
pub fn other_callbacks(w: &Want, deep: bool, prop: usize) -> Vec<World> {
    let mut v = vec![];
    for cb in [24, 32] {
        for mut x in worlds(w, false, cb, prop) {
            let pick = if deep { true } else { ["core", "full11", "full-ties", "queue5", "wrap1", "wrap4", "fraction"].contains(&x.name.as_str()) };
            if !pick { continue; }
            if !deep { x.depth = x.depth.min(if x.name == "queue5" { 4 } else { 3 }); }
            x.name = format!("{}-cb{cb}", x.name);
            v.push(x);
        }
    }
    v
}

pub fn want(prop: usize) -> Option<Want> {
    let n = Want { amounts: true, selfs: false, flags: false, cancel: 0, mass: 0, consume: false, hook: 0, ids: false, large: true };
    Some(match prop {
        0 | 28 => Want { selfs: true, flags: true, cancel: 1, mass: 1, consume: true, hook: H_STRUCT | H_READ | H_CLOSE, ids: true, ..n },
        1 | 2 | 3 | 4 | 24 => Want { selfs: prop == 4, flags: prop >= 3, ..n },
        5 => Want { selfs: true, flags: true, cancel: 1, ..n },
        6 | 8 | 9 => Want { flags: true, selfs: prop == 8, ..n },
        7 => Want { amounts: true, selfs: true, ..n },
        10 => Want { amounts: false, cancel: 2, ..n },
        11 => Want { amounts: false, mass: 2, ..n },
        12 => Want { consume: true, cancel: 1, hook: H_READ, ..n },
        13 => Want { selfs: true, ..n },
        14 => Want { ids: true, ..n },
        16 => Want { selfs: true, flags: true, cancel: 1, mass: 1, consume: true, ..n },
        17 => Want { amounts: false, cancel: 1, mass: 1, consume: true, flags: true, hook: H_CLOSE, ..n },
        21 => Want { selfs: true, flags: true, cancel: 1, mass: 1, consume: true, hook: H_ENTRY, ..n },
        18 => Want { amounts: true, cancel: 1, hook: H_STRUCT | H_READ, ..n },
        19 => Want { amounts: true, selfs: true, cancel: 1, consume: true, hook: H_TWIN, ..n },
        20 => Want { selfs: true, flags: true, cancel: 2, mass: 1, consume: true, hook: H_CLOSE, ..n },
        22 => Want { amounts: false, hook: H_READ, ..n },
        26 => Want { amounts: false, hook: H_DUMP, large: false, ..n },
        25 => Want { selfs: true, cancel: 1, hook: H_READ, ..n },
        29 => Want { selfs: true, flags: true, cancel: 2, mass: 1, consume: true, hook: H_CLOSE, ..n },
        _ => return None,
    })
}

/// Key universes for the slab-level worlds.
pub fn slab_worlds(deep: bool) -> Vec<World> {
    let hi = |p: u64, l: u64| (p as u128) << 64 | l as u128;
    let u: Vec<(&str, Vec<u128>)> = vec![
        ("consecutive", (0..6).map(|k| hi(U, k)).collect()),
        ("consecutive-down", (0..6).map(|k| hi(U, !k)).collect()),
        ("nested-low-bits", vec![hi(U, 1), hi(U, 2), hi(U, 4), hi(U, 8), hi(U, 16), hi(U, 32)]),
        ("nested-all-bits", vec![hi(1, 0), hi(1 << 63, 0), hi(1, 1 << 63), hi(1 << 31, 1 << 31), hi(1, 1), hi(1 << 32, 1 << 32)]),
        ("prefix-127", vec![hi(M, M), hi(M, M - 1), hi(M, M - 2), hi(M >> 1, M), hi(M, M >> 1), hi(M, 0)]),
        ("mixed-levels", vec![hi(2, 5), hi(2, 6), hi(3, 1), hi(3, 9), hi(1, 7), hi(2, 4)]),
        ("word-boundary", vec![hi(1, M), hi(2, 0), hi(2, 1), hi(1, M - 1), hi(3, 0), hi(1, 0)]),
        ("alternating", vec![hi(0x5555_5555_5555_5555, 0x5555_5555_5555_5555), hi(0xAAAA_AAAA_AAAA_AAAA, 0xAAAA_AAAA_AAAA_AAAA), hi(0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA), hi(0x5555_5555_AAAA_AAAA, 0), hi(0xAAAA_AAAA_5555_5555, 0), hi(0x5555_5555_5555_5554, 1)]),
    ];
    let mut out: Vec<World> = vec![];
    // 128 keys, each branching off one bit earlier: the deepest possible tree; probed with every key of the chain
    let chain: Vec<u128> = (1..63u32).map(|k| hi(1 << k, 7)).chain((1..63).map(|k| hi(1 << 62, 1 << k))).collect();
    for bid in [false, true] {
        let some: Vec<(bool, u128)> = chain.iter().step_by(9).chain(chain.iter().rev().take(3)).chain(chain.iter().take(3)).map(|k| (bid, *k)).collect();
        // the same with every inner node on the path to the minimum, or to the maximum
        for (n, ks) in [("low", (1..127u32).filter(|k| *k != 64).map(|k| hi(1, 1) | 1 << k).collect::<Vec<_>>()), ("high", (1..127u32).map(|k| hi(M, M - 1) ^ (1 << k)).collect())] {
            out.push(World { name: format!("slab-spine127-{n}-{}", if bid { "bids" } else { "asks" }), cfg: Cfg { lay: lay(16, 5, if bid { 140 } else { 1 }, if bid { 1 } else { 140 }), tick: 1, min: 1 },
                prefix: ks.iter().enumerate().map(|(k, i)| P::Put(bid, *i, k as u64 + 1)).collect(), setup: Alpha { keys: ks.iter().step_by(18).map(|k| (bid, *k)).collect(), cap: 140, ..Default::default() }, depth: if deep { 3 } else { 2 },
                probes: Alpha { keys: ks.iter().map(|k| (bid, *k)).collect(), cap: 140, ..Default::default() }, track_ids: false, entry: false, hook: H_STRUCT | H_READ, fast: false });
        }
        for rev in [false, true] {
            let mut c: Vec<u128> = chain.clone();
            if rev { c.reverse(); }
            out.push(World { name: format!("slab-chain128-{}-{}", if bid { "bids" } else { "asks" }, if rev { "down" } else { "up" }), cfg: Cfg { lay: lay(16, 5, if bid { 140 } else { 1 }, if bid { 1 } else { 140 }), tick: 1, min: 1 },
                prefix: c.iter().enumerate().map(|(k, i)| P::Put(bid, *i, k as u64 + 1)).collect(), setup: Alpha { keys: some.clone(), cap: 140, ..Default::default() }, depth: if deep { 3 } else { 2 },
                probes: Alpha { keys: chain.iter().map(|k| (bid, *k)).collect(), cap: 140, ..Default::default() }, track_ids: false, entry: false, hook: H_STRUCT | H_READ, fast: false });
        }
    }
    for (n, ks) in u {
        for bid in [false, true] {
            let cap = if deep { 5 } else { 4 };
            let keys: Vec<(bool, u128)> = ks.iter().filter(|k| **k as u64 != if bid { 0 } else { M }).map(|k| (bid, *k)).collect();
            out.push(World { name: format!("slab-{n}-{}", if bid { "bids" } else { "asks" }), cfg: Cfg { lay: lay(16, 5, if bid { cap } else { 1 }, if bid { 1 } else { cap }), tick: 1, min: 1 }, prefix: vec![],
                setup: Alpha { keys, cap, ..Default::default() }, depth: if deep { 9 } else { 7 }, probes: Alpha::default(), track_ids: false, entry: false, hook: H_STRUCT | H_READ, fast: false });
        }
    }
    out
}
