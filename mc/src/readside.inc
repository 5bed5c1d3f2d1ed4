// The crate's read-side functions in every reached state; `aob` as in calls.inc.
use crate::decode::*;
use crate::engine::*;
use crate::env::*;
use crate::monitor::*;
use crate::spec::*;
use aob::state::critbit::Slab;
use aob::state::event_queue::{EventQueue, EventRef};
use aob::state::orderbook::{CallbackInfo, OrderBookState};
use asset_agnostic_orderbook::state::orderbook::CallbackInfo as Host;
use aob::state::{AccountTag, Side};
use solana_program::account_info::AccountInfo;

fn cbw<C: bytemuck::Pod>(c: &C) -> CbW {
    w_of(bytemuck::bytes_of(c))
}

/// Order ids are two words on the host and one number on the chain.
fn id128(b: &[u8]) -> u128 { u128::from_le_bytes(b.try_into().unwrap()) }

fn tree_depth(s: &RawSlab) -> usize {
    if s.count() == 0 { return 0; }
    let mut best = 0;
    let mut st = vec![(s.root(), 1)];
    while let Some((h, d)) = st.pop() {
        if h & (1 << 31) != 0 { let (_, _, c) = s.inner(!h as usize); st.push((c[0], d + 1)); st.push((c[1], d + 1)); } else { best = best.max(d) }
    }
    best
}

/// The crate's own read-side API against the raw contents.
pub fn read_side<C: CbT + CallbackInfo>(cfg: &Cfg, buf: &[u64], pre: &View, g: &Ghost, prices: &[u64], issued: &[u128], hook: u32, j: &mut Judge) -> Result<(), (Vec<usize>, String)>
where <C as CallbackInfo>::CallbackId: PartialEq, <C as Host>::CallbackId: PartialEq {
    let lay = cfg.lay;
    let raw: &[u8] = bytemuck::cast_slice(buf);
    j.rel[22] += 1;
    let both = vec![22usize, 18];
    let only = vec![22usize];
    macro_rules! g { ($what:expr, $e:expr) => { match guarded(|| $e) { Ok(x) => x, Err(p) => return Err((both.clone(), format!("{} aborted: {p}", $what))) } } }
    let bb = pre.bids.iter().map(|o| o.price()).max();
    let ba = pre.asks.iter().map(|o| o.price()).min();
    // utils::get_spread on accounts
    {
        let mut copy = buf.to_vec();
        let bytes: &mut [u8] = bytemuck::cast_slice_mut(&mut copy);
        let [_, _, b, k] = lay.parts_mut(bytes);
        let (kb, ka) = (key(K_BIDS), key(K_ASKS));
        let (mut l1, mut l2) = (1u64, 1u64);
        let ib = AccountInfo::new(&kb, false, true, &mut l1, b, &PROGRAM, false, 0);
        let ia = AccountInfo::new(&ka, false, true, &mut l2, k, &PROGRAM, false, 0);
        let s = g!("get_spread", aob::utils::get_spread::<C>(&ib, &ia));
        if s != (bb, ba) { return Err((only, format!("get_spread returned {s:?}; true best bid {bb:?}, best ask {ba:?}"))); }
        drop((ib, ia));
        if copy[..] != buf[..] { return Err((only, "get_spread modified the book".into())); }
    }
    let mut copy = buf.to_vec();
    let bytes: &mut [u8] = bytemuck::cast_slice_mut(&mut copy);
    let [_, _, b, k] = lay.parts_mut(bytes);
    {
        let bids = g!("Slab::from_buffer", Slab::<C>::from_buffer(b, AccountTag::Bids)).map_err(|e| (only.clone(), format!("bids account unreadable: {e}")))?;
        let asks = g!("Slab::from_buffer", Slab::<C>::from_buffer(k, AccountTag::Asks)).map_err(|e| (only.clone(), format!("asks account unreadable: {e}")))?;
        let ob = OrderBookState { bids, asks };
        let s = g!("OrderBookState::get_spread", ob.get_spread());
        if s != (bb, ba) { return Err((only, format!("OrderBookState::get_spread returned {s:?}; true {:?}", (bb, ba)))); }
        if g!("is_empty", ob.is_empty()) != (pre.bids.is_empty() && pre.asks.is_empty()) { return Err((only, "OrderBookState::is_empty is wrong".into())); }
        for bid in [true, false] {
            let best = g!("find_bbo", ob.find_bbo(if bid { Side::Bid } else { Side::Ask }));
            let want = priority(pre.side(bid), bid, g).first().map(|o| o.id);
            let slb = if bid { &ob.bids } else { &ob.asks };
            let ids: rustc_hash::FxHashSet<u128> = pre.side(bid).iter().map(|o| o.id).collect();
            let got = best.map(|h| slb.leaf_nodes[h as usize].order_id());
            if got.map(|i| i >> 64) != want.map(|i| i >> 64) { return Err((only, format!("find_bbo returned {got:x?}, the best order is {want:x?}"))); }
            let mut sorted = pre.side(bid).clone();
            sorted.sort_by_key(|o| o.id);
            let mn = g!("find_min", slb.find_min()).map(|h| slb.leaf_nodes[h as usize].order_id());
            let mx = g!("find_max", slb.find_max()).map(|h| slb.leaf_nodes[h as usize].order_id());
            if mn != sorted.first().map(|o| o.id) || mx != sorted.last().map(|o| o.id) { return Err((both, format!("minimum {mn:x?} / maximum {mx:x?} of [{}]", sorted.iter().map(show).collect::<Vec<_>>().join(", ")))); }
            for o in &sorted {
                let h = g!("find_by_key", slb.find_by_key(o.id));
                let ok = h.map_or(false, |h| { let l = &slb.leaf_nodes[h as usize]; l.order_id() == o.id && l.base_quantity == o.qty && l.price() == o.price() && cbw(slb.get_callback_info(h)) == o.cb });
                if !ok { return Err((both, format!("looking up {} found {:?}", show(o), h.map(|h| slb.leaf_nodes[h as usize])))); }
            }
            for a in gen::<C>(&Alpha { cancel_dead: 2, ..Default::default() }, pre, prices, issued) {
                if let Act::Cancel(id) = a {
                    if ids.contains(&id) { continue; }
                    if let Some(h) = g!("find_by_key", slb.find_by_key(id)) { return Err((both, format!("looking up {id:#x}, which does not rest, found leaf {h}"))); }
                }
            }
            let d = g!("get_depth", slb.get_depth());
            let t = tree_depth(&slab(raw, &lay, bid));
            if d != t { return Err((only, format!("get_depth returned {d}, the tree has depth {t}"))); }
        }
    }
    for bid in [true, false] {
        for asc in [true, false] {
            let buf2: &mut [u8] = if bid { &mut *b } else { &mut *k };
            let s = Slab::<C>::from_buffer(buf2, if bid { AccountTag::Bids } else { AccountTag::Asks }).map_err(|e| (only.clone(), format!("{e}")))?;
            let n = pre.side(bid).len();
            let got: Vec<(u128, u64)> = g!("iterating", s.into_iter(asc).take(n + 2).map(|l| (l.order_id(), l.base_quantity)).collect());
            let mut want: Vec<(u128, u64)> = pre.side(bid).iter().map(|o| (o.id, o.qty)).collect();
            want.sort();
            if !asc { want.reverse(); }
            if got != want { return Err((both, format!("iterating {} {} gives {got:x?} instead of {want:x?}", if bid { "bids" } else { "asks" }, if asc { "upwards" } else { "downwards" }))); }
        }
    }
    // event queue
    let mut qc: Vec<u64> = buf[lay.o_eq() / 8..lay.o_bids() / 8].to_vec();
    let qb: &mut [u8] = &mut bytemuck::cast_slice_mut(&mut qc)[..eq_len(lay.eqc, lay.cb)];
    let q = g!("EventQueue::from_buffer", EventQueue::<C>::from_buffer(qb, AccountTag::EventQueue)).map_err(|e| (only.clone(), format!("event queue unreadable: {e}")))?;
    let n = pre.q.len();
    let q22 = vec![22usize, 12];
    if q.len() != n as u64 || q.is_empty() != (n == 0) { return Err((q22, format!("the queue reports length {} with {n} unconsumed events", q.len()))); }
    let conv = |e: EventRef<C>| match e {
        EventRef::Fill(f) => Ev::Fill { side: f.event.taker_side, id: id128(bytemuck::bytes_of(&f.event.maker_order_id)), base: f.event.base_size, quote: f.event.quote_size, mcb: cbw(f.maker_callback_info), tcb: cbw(f.taker_callback_info) },
        EventRef::Out(o) => Ev::Out { side: o.event.side, id: id128(bytemuck::bytes_of(&o.event.order_id)), base: o.event.base_size, cb: cbw(o.callback_info) },
    };
    let it: Vec<Ev> = g!("queue iterator", q.iter().take(n + 2).map(conv).collect());
    if it != pre.q { return Err((q22, format!("iterating the queue gives {it:x?} instead of {:x?}", pre.q))); }
    for i in 0..n as u64 + 2 {
        let e = g!("peek_at", q.peek_at(i).map(conv));
        if e.as_ref() != pre.q.get(i as usize) { return Err((q22, format!("peek_at({i}) gives {e:x?} instead of {:x?}", pre.q.get(i as usize)))); }
    }
    for i in [lay.eqc as u64, lay.eqc as u64 + 1, 1 << 32, u64::MAX] {
        if i >= n as u64 && g!("peek_at", q.peek_at(i).is_some()) { return Err((q22, format!("peek_at({i}) finds an event; there are only {n}"))); }
    }
    let _ = hook;
    if q.iter().count() != n { return Err((q22, "iterator length".into())); }
    Ok(())
}
