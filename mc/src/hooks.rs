//! Checks made once in every reached state.
use crate::decode::*;
use crate::engine::*;
use crate::env::*;
use crate::monitor::*;
use crate::spec::*;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;

pub fn state_hook<C: CbT>(w: &World, buf: &[u64], pre: &View, g: &Ghost, prices: &[u64], issued: &[u128], j: &mut Judge)
where <C as CallbackInfo>::CallbackId: PartialEq {
    if w.hook & H_STRUCT != 0 {
        let b: &[u8] = bytemuck::cast_slice(buf);
        for bid in [true, false] {
            j.rel[18] += 1;
            if let Err(e) = slab(b, &w.cfg.lay, bid).check() { j.viol.push((18, format!("{}: {e}", if bid { "bids" } else { "asks" }))); return; }
        }
    }
    #[cfg(feature = "readers")]
    if w.hook & H_READ != 0 {
        #[cfg(feature = "chain")]
        crate::chain::readers::<C>(&w.cfg, buf, pre, g);
        if let Err((props, e)) = crate::readside::read_side::<C>(&w.cfg, buf, pre, g, prices, issued, w.hook, j) { for p in props { j.viol.push((p, e.clone())); } return; }
    }
    if w.hook & H_CLOSE != 0 {
        let probes = gen::<C>(&w.probes, pre, prices, issued);
        match crate::special::close_here::<C>(w, buf, pre, &probes) {
            Ok(n) => { j.rel[17] += n; j.rel[20] += n; }
            Err((ps, m)) => { for p in ps { j.viol.push((p, m.clone())); } return; }
        }
    }
    if w.hook & H_ENTRY != 0 && w.cfg.lay.cb == 32 {
        for act in gen::<C>(&w.probes, pre, prices, issued) {
            let (mut a, mut b) = (buf.to_vec(), buf.to_vec());
            let oa = exec::<C>(&mut a, &w.cfg.lay, &act, false);
            let ob = exec::<C>(&mut b, &w.cfg.lay, &act, true);
            j.rel[21] += 1;
            let same = match (&oa, &ob) { (Out::Panic(_), Out::Panic(_)) => true, (x, y) => x == y };
            if !same || (oa.is_ok() && a != b) { j.viol.push((21, format!("`{}` through the entry point ends with {ob}, the operation itself with {oa}{}", show_act(&act), if a != b { "; the accounts differ" } else { "" }))); return; }
        }
    }
    if w.hook & H_DUMP != 0 { crate::dump::state::<C>(w, buf, pre, prices, issued); }
    if w.hook & H_TWIN != 0 { twin::<C>(w, buf, pre, g, prices, issued, j); }
    if crate::causes::on() { if let Some(m) = crate::causes::take() { j.viol.push((29, m)); } }
    #[cfg(feature = "chain")]
    { j.rel[28] += 1; if let Some(m) = crate::chain::take() { j.viol.push((28, m)); } }
}

/// Build a freshly created market with the same visible state.
pub fn fresh_twin<C: CbT>(w: &World, pre: &View, g: &Ghost, src: &[u64]) -> Option<Vec<u64>> where <C as CallbackInfo>::CallbackId: PartialEq {
    let lay = w.cfg.lay;
    let mut t = create::<C>(&lay, w.cfg.tick, w.cfg.min).ok()?;
    for id in g {
        let bid = pre.bids.iter().any(|o| o.id == *id);
        let o = pre.find(*id)?;
        let low = *id as u64;
        exec::<C>(&mut t, &lay, &Act::Seq(if bid { !low } else { low }), false);
        let p = NewP { bid, price: o.price(), base: o.qty, quote: u64::MAX, limit: u64::MAX, post_only: true, post_allowed: true, stb: 0, cb: o.cb };
        match exec::<C>(&mut t, &lay, &Act::New(p), false) {
            Out::Ok(Some(Summ { id: Some(i), .. })) if i == *id => {}
            _ => return None,
        }
    }
    // unconsumed events, repacked to the front of a fresh queue; sequence number
    let s: &[u8] = bytemuck::cast_slice(src);
    let d: &mut [u8] = bytemuck::cast_slice_mut(&mut t);
    let (o, cb, cap) = (lay.o_eq(), lay.cb, lay.eqc);
    d[o + 16..o + 24].copy_from_slice(&pre.count.to_le_bytes());
    d[o + 24..o + 32].copy_from_slice(&pre.seq.to_le_bytes());
    for k in 0..pre.q.len() {
        let from = ((pre.head + k as u64) % cap as u64) as usize;
        let (a, b) = (o + 32 + 40 * k, o + 32 + 40 * from);
        d[a..a + 40].copy_from_slice(&s[b..b + 40]);
        let c0 = o + 32 + 40 * cap;
        let n = if matches!(pre.q[k], Ev::Out { .. }) { cb } else { 2 * cb };
        d[c0 + 2 * cb * k..c0 + 2 * cb * k + n].copy_from_slice(&s[c0 + 2 * cb * from..c0 + 2 * cb * from + n]);
    }
    let v = view(&t, &lay);
    if v.q != pre.q || v.seq != pre.seq { return None; }
    Some(t)
}

fn vis(v: &View) -> (Vec<Ord>, Vec<Ord>, Vec<Ev>, u64) {
    let s = |o: &Vec<Ord>| { let mut o = o.clone(); o.sort_by_key(|x| x.id); o };
    (s(&v.bids), s(&v.asks), v.q.clone(), v.seq)
}

fn twin<C: CbT>(w: &World, buf: &[u64], pre: &View, g: &Ghost, prices: &[u64], issued: &[u128], j: &mut Judge) where <C as CallbackInfo>::CallbackId: PartialEq {
    let lay = w.cfg.lay;
    if g.len() > 1000 { return; }
    let Some(tw) = fresh_twin::<C>(w, pre, g, buf) else { return };
    if vis(&view(&tw, &lay)) != vis(pre) { return; }
    let cmp = |a: &mut Vec<u64>, b: &mut Vec<u64>, act: &Act| -> Result<bool, String> {
        let (sa, sb) = (a.clone(), b.clone());
        let oa = exec::<C>(a, &lay, act, w.entry);
        let ob = exec::<C>(b, &lay, act, w.entry);
        if !oa.is_ok() { *a = sa; }
        if !ob.is_ok() { *b = sb; }
        let same = match (&oa, &ob) { (Out::Panic(_), Out::Panic(_)) => true, (x, y) => x == y };
        if !same { return Err(format!("`{}` ends with {oa}, but on a freshly created market with the same orders with {ob}", show_act(act))); }
        let (va, vb) = (view(a, &lay), view(b, &lay));
        if va.berr != vb.berr || va.qerr != vb.qerr || vis(&va) != vis(&vb) { return Err(format!("`{}` leaves another book or queue than on a freshly created market with the same orders", show_act(act))); }
        Ok(oa.is_ok())
    };
    for act in gen::<C>(&w.probes, pre, prices, issued) {
        j.rel[19] += 1;
        if let Err(e) = cmp(&mut buf.to_vec(), &mut tw.clone(), &act) { j.viol.push((19, e)); return; }
    }
    // one longer continuation: fill both sides beyond capacity, drain the queue, sweep, cancel
    let (mut a, mut b) = (buf.to_vec(), tw);
    let lo = prices.iter().min().copied().unwrap_or(w.cfg.tick);
    let hi = prices.iter().max().copied().unwrap_or(w.cfg.tick);
    let m = w.cfg.min;
    let mut script: Vec<NT> = vec![];
    for _ in 0..lay.bidc + 1 { script.push(nt(true, lo, m * 2, 0)); }
    for _ in 0..lay.askc + 1 { script.push(nt(false, hi, m * 2, 1)); }
    for round in 0..3 {
        for n in &script {
            let v = view(&a, &lay);
            j.rel[19] += 1;
            for act in [Act::Consume(2), n.act::<C>(v.seq << 8)] {
                if let Err(e) = cmp(&mut a, &mut b, &act) { j.viol.push((19, format!("after filling the market up: {e}"))); return; }
            }
        }
        for act in [nt(true, hi, m * 3, 2).nopost().l(3).act::<C>(77), nt(false, lo, m * 3, 3).nopost().l(3).act::<C>(78), Act::Consume(3 + round)] {
            if let Err(e) = cmp(&mut a, &mut b, &act) { j.viol.push((19, format!("after filling the market up: {e}"))); return; }
        }
        let v = view(&a, &lay);
        let ids: Vec<u128> = v.all().map(|o| o.id).collect();
        for id in ids.iter().step_by(2) { if let Err(e) = cmp(&mut a, &mut b, &Act::Cancel(*id)) { j.viol.push((19, format!("after filling the market up: {e}"))); return; } }
    }
}
