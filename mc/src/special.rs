//! Explorations over accounts, instruction data and plain functions: C15, C16, C17 (aftermath), C21, C23.
use crate::accts::*;
use crate::decode::*;
use crate::engine::*;
use crate::env::*;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use solana_program::pubkey::Pubkey;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub const U: u64 = 1 << 32;

pub fn sv(prop: usize, world: &str, msg: String) -> Viol {
    Viol { prop, special: Some(msg.clone()), msg, world: world.into(), cb: String::new(), cfg: None, entry: false, trace: vec![], fast: false }
}

/// Run `f` for every index on all cores; the violation of the smallest index wins.
/// A case that does not come back within the watchdog time is a violation as well.
pub fn par(prop: usize, world: &str, n: usize, st: &mut Stats, f: impl Fn(usize, &mut u64) -> Option<String> + Sync) -> Option<Viol> {
    *WHERE.lock().unwrap() = world.into();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let total = AtomicU64::new(0);
    let done = AtomicBool::new(false);
    let nt = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let cur: Vec<AtomicUsize> = (0..nt).map(|_| AtomicUsize::new(usize::MAX)).collect();
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..nt {
            let (next, stop, found, total, cur, f) = (&next, &stop, &found, &total, &cur, &f);
            hs.push(sc.spawn(move || {
                let mut c = 0u64;
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || stop.load(Ordering::Relaxed) { break; }
                    cur[t].store(i, Ordering::Relaxed);
                    let m = f(i, &mut c);
                    #[cfg(feature = "chain")]
                    let m = crate::chain::take().or(m);
                    let m = if crate::causes::on() { crate::causes::take() } else { m };
                    if let Some(m) = m { found.lock().unwrap().push((i, m)); stop.store(true, Ordering::Relaxed); break; }
                }
                cur[t].store(usize::MAX, Ordering::Relaxed);
                total.fetch_add(c, Ordering::Relaxed);
            }));
        }
        let (cur, done) = (&cur, &done);
        sc.spawn(move || {
            let mut last: Vec<(usize, std::time::Instant)> = cur.iter().map(|c| (c.load(Ordering::Relaxed), std::time::Instant::now())).collect();
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(5));
                for (t, c) in cur.iter().enumerate() {
                    let x = c.load(Ordering::Relaxed);
                    if x != last[t].0 || x == usize::MAX { last[t] = (x, std::time::Instant::now()); }
                    else if last[t].1.elapsed().as_secs() > 120 { crate::report::violation_exit(&sv(prop, world, format!("case {x} does not terminate"))); }
                }
            }
        });
        for h in hs { h.join().unwrap(); }
        done.store(true, Ordering::Relaxed);
    });
    let t = total.into_inner();
    st.transitions += t;
    st.relevant += t;
    st.states += n as u64;
    st.worlds.push(serde_json::json!({"world": world, "cases": n, "executions": t}));
    let mut v = found.into_inner().unwrap();
    if v.is_empty() {
        // a regular sample of the cases is executed a second time, on one thread, in order
        for i in (0..n).step_by((n / 16).max(1)) { if let Some(m) = f(i, &mut 0).filter(|_| !crate::causes::on()) { v.push((i, format!("only when run again: {m}"))); break; } st.validated += 1; }
    }
    v.sort();
    v.into_iter().next().map(|(i, m)| sv(prop, world, format!("case {i}: {m}")))
}

pub fn n16(bid: bool, price: u64, base: u64) -> NewP { NewP { bid, price, base, quote: u64::MAX, limit: u64::MAX, post_only: false, post_allowed: true, stb: 0, cb: <[u8; 32]>::mk(0, 0) } }
fn act(a: Act) -> Op { Op::Act(a) }
type B32 = [u8; 32];

/// Create a market on five accounts starting at `at` and check that it worked.
fn boot(accs: &mut [Acc], at: usize) -> Result<(), String> {
    let r: Vec<usize> = (at..at + 4).collect();
    match invoke::<B32>(accs, &r, &Op::Create { min: 2, tick: U }, Mode::Direct) { Out::Ok(_) => Ok(()), o => Err(format!("a well-formed market cannot be created: {o}")) }
}
fn run_ok(accs: &mut [Acc], at: usize, ops: &[Op]) -> Result<(), String> {
    for op in ops {
        let r: Vec<usize> = (at..at + op.nroles()).collect();
        let o = invoke::<B32>(accs, &r, op, Mode::Direct);
        if !o.is_ok() { return Err(format!("`{op:?}` on its own market ended with {o}")); }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C15

pub fn c15(st: &mut Stats, deep: bool) -> Option<Viol> {
    macro_rules! tr { ($e:expr) => { match $e { Ok(x) => x, Err(m) => return Some(sv(15, "accounts", m)) } } }
    let (eqc, n) = (6, 3);
    // A, B populated; E, F empty and drained; Z closed; U never created. Five accounts each (last: lamport target).
    let mut accs: Vec<Acc> = vec![];
    for k in 0..6u8 { accs.extend(fresh(10 + 10 * k, 32, eqc, n, n)); }
    let (a, b, e, f, z, u) = (0, 5, 10, 15, 20, 25);
    for m in [a, b, e, f, z] { tr!(boot(&mut accs, m)); }
    let fill = |accs: &mut Vec<Acc>, m: usize, q: u64| run_ok(accs, m, &[act(Act::New(n16(true, 2 * U, 9))), act(Act::New(n16(false, 4 * U, 5))), act(Act::New(n16(false, 2 * U, q))), act(Act::New(n16(true, U, 3)))]);
    tr!(fill(&mut accs, a, 2));
    tr!(fill(&mut accs, b, 3));
    tr!(run_ok(&mut accs, z, &[Op::Close]));
    accs[z].lam = rent_min(200);
    // look-alikes of A's and E's accounts: program-owned copies under another key, and the right key owned by someone else
    let other = Pubkey::new_from_array({ let mut p = PROGRAM.to_bytes(); p[31] ^= 1; p });
    let mut look: Vec<usize> = vec![];
    let mut alien: Vec<usize> = vec![];
    for m in [a, e] { for r in 0..4 {
        if r > 0 { let mut c = accs[m + r].clone(); c.key = key(200 + (m + r) as u8); look.push(accs.len()); accs.push(c); }
        let mut c = accs[m + r].clone(); c.owner = if r % 2 == 0 { other } else { Pubkey::default() }; alien.push(accs.len()); accs.push(c);
    } }
    let live_id = slab_first(accs[a + 2].b(), 32, n, true);
    let ask_id = slab_first(accs[a + 3].b(), 32, n, true);
    let ops = vec![act(Act::New(n16(true, 2 * U, 3))), act(Act::New(n16(false, 5 * U, 3))), act(Act::Cancel(live_id)), act(Act::Cancel(ask_id)), act(Act::Mass(vec![live_id])), act(Act::Mass(vec![ask_id])), act(Act::Mass(vec![ask_id, live_id])), act(Act::Mass(vec![])), act(Act::Consume(1)), act(Act::Consume(0)), Op::Close];
    let pool: Vec<usize> = (0..accs.len()).filter(|i| *i >= u + 5 || i % 5 != 4).collect();
    let np = pool.len();
    let target = 4usize;
    let base = accs;
    for mode in [Mode::Direct, Mode::Entry] {
        for op in &ops {
            let k = op.nroles().min(4);
            let markets = [a, b, e, f];
            if let Some(v) = par(15, &format!("{}-{mode:?}-product", op.name()), np * np, st, |i, c| {
                let mut accs = base.clone();
                let lim = if k == 2 { 1 } else { np * np };
                for j in 0..lim {
                    let mut roles = vec![pool[i / np], pool[i % np]];
                    if k == 4 { roles.extend([pool[j / np], pool[j % np]]); }
                    let own = markets.iter().any(|m| roles.iter().enumerate().all(|(r, x)| *x == m + r));
                    if let Op::Close = op {
                        // closing does not look at who owns the other three accounts: those combinations are not judged
                        let same_keys = markets.iter().any(|m| roles.iter().enumerate().all(|(r, x)| base[*x].key == base[m + r].key));
                        if same_keys && !own && roles[0] < u + 5 { continue; }
                        roles.push(target);
                    }
                    let o = invoke::<B32>(&mut accs, &roles, op, mode);
                    *c += 1;
                    let okay = own && match op { Op::Close => roles[0] == e || roles[0] == f, Op::Act(Act::Mass(v)) if v.is_empty() => true, Op::Act(Act::Cancel(_) | Act::Mass(_)) => roles[0] == a || roles[0] == b, _ => true };
                    if o.is_ok() != okay { return Some(format!("{} with accounts {} ended with {o}", op.name(), describe(&roles[..k], u))); }
                    if !own && o.is_ok() { return Some(format!("{} with accounts {} was accepted", op.name(), describe(&roles[..k], u))); }
                    if o.is_ok() { accs.clone_from(&base); }
                }
                None
            }) { return Some(v); }
        }
    }
    // every single-bit difference in key (queue, bids, asks) and owner, every value of the market's tag word, short account lists
    let modes = [Mode::Direct, Mode::Entry];
    if let Some(v) = par(15, "one-bit-neighbours", ops.len() * 2, st, |i, c| {
        let (op, mode) = (&ops[i / 2], modes[i % 2]);
        let m = if *op == Op::Close { e } else { a };
        let k = op.nroles().min(4);
        let mut roles: Vec<usize> = (m..m + k).collect();
        if *op == Op::Close { roles.push(target); }
        for r in 0..k {
            for bit in 0..256 {
                for what in 0..2 {
                    if what == 0 && r == 0 { continue; }
                    if what == 1 && r > 0 && *op == Op::Close { continue; }
                    let mut accs = base.clone();
                    let x = if what == 0 { &mut accs[m + r].key } else { &mut accs[m + r].owner };
                    let mut y = x.to_bytes();
                    y[bit / 8] ^= 1 << (bit % 8);
                    *x = Pubkey::new_from_array(y);
                    let o = invoke::<B32>(&mut accs, &roles, op, mode);
                    *c += 1;
                    if o.is_ok() { return Some(format!("{} accepts a wrong {} of account {r} (bit {bit} differs)", op.name(), if what == 0 { "key" } else { "owner" })); }
                }
            }
        }
        for t in (0..256u64).chain((8..64).flat_map(|s| [1u64 << s, 128 | 1 << s])) {
            let mut accs = base.clone();
            accs[m].data[0] = t;
            let o = invoke::<B32>(&mut accs, &roles, op, mode);
            *c += 1;
            if o.is_ok() != (t == 128) { return Some(format!("{} on a market account with tag {t:#x} ended with {o}", op.name())); }
        }
        if mode == Mode::Entry { for n in 0..roles.len() {
            let mut accs = base.clone();
            let o = invoke::<B32>(&mut accs, &roles[..n], op, mode);
            *c += 1;
            // with one account less the register stands in for the last account
            if o.is_ok() { return Some(format!("{} accepts {n} accounts", op.name())); }
        } }
        // through both states of the market: every role account of the right market but before creation
        None
    }) { return Some(v); }
    let _ = deep;
    None
}

fn describe(roles: &[usize], u: usize) -> String {
    let names = ["A", "B", "E(empty)", "F(empty)", "Z(closed)", "U(uninitialised)"];
    roles.iter().map(|r| if *r < u + 5 { format!("{}.{}", names[r / 5], ["market", "queue", "bids", "asks", "target"][r % 5]) } else { format!("look-alike {}", r - u - 5) }).collect::<Vec<_>>().join(", ")
}

fn slab_first(b: &[u8], cb: usize, cap: usize, max: bool) -> u128 {
    let s = RawSlab { b, cap, cb };
    let mut h = s.root();
    while h & (1 << 31) != 0 { h = s.inner(!h as usize).2[max as usize]; }
    s.leaf(h as usize).0
}

// ------------------------------------------------------------------------------------------------ C16

/// Is the freshly created market empty, exactly recorded and immediately usable?
fn usable<C: CbT>(accs: &mut Vec<Acc>, min: u64, tick: u64) -> Result<(), String> where <C as CallbackInfo>::CallbackId: PartialEq {
    let cb = std::mem::size_of::<C>();
    let m = accs[0].b();
    if m.len() != MARKET_LEN { return Err("created on a market account of the wrong size".into()); }
    let want: Vec<u8> = [&128u64.to_le_bytes()[..], &accs[1].key.to_bytes(), &accs[2].key.to_bytes(), &accs[3].key.to_bytes(), &min.to_le_bytes(), &tick.to_le_bytes()].concat();
    if m != want { return Err("the market account does not record exactly the given parameters and accounts".into()); }
    let keep = accs[0].clone();
    let cap = |len: usize| (len - 64 - cb) / (56 + cb) + 1;
    if accs[2].len < slab_len(1, cb) || accs[3].len < slab_len(1, cb) { return Err("created although a side cannot hold a single order".into()); }
    let (nb, na, nq) = (cap(accs[2].len), cap(accs[3].len), (accs[1].len - 32) / (40 + 2 * cb));
    for (i, n) in [(2, nb), (3, na)] { if (RawSlab { b: accs[i].b(), cap: n, cb }).count() != 0 { return Err("the new book is not empty".into()); } }
    if u64at(accs[1].b(), 16) != 0 { return Err("the new event queue is not empty".into()); }
    let roles = [0, 1, 2, 3];
    let mk = |bid: bool, k: u64, q: u64| NewP { bid, price: tick.wrapping_mul(k), base: q, quote: u64::MAX, limit: u64::MAX, post_only: false, post_allowed: true, stb: 0, cb: C::mk(0, k) };
    // prices that stay multiples of the tick and leave room for products
    let steps = (u64::MAX / tick).min(1000);
    let pb = 1u64;
    let pa = steps;
    if pb == pa { return Ok(()); } // only one price exists on this market: one side at a time
    let q = min;
    let fits = |p: u64| (p as u128 * tick as u128 * q as u128) >> 32 <= u64::MAX as u128 / 2;
    if !fits(pa) { return Ok(()); }
    let mut ids = vec![];
    for (bid, p) in [(true, pb), (false, pa)] {
        match invoke::<C>(accs, &roles, &Op::Act(Act::New(mk(bid, p, q))), Mode::Direct) {
            Out::Ok(Some(Summ { id: Some(i), posted, .. })) if posted == q => ids.push(i),
            o => return Err(format!("the new market does not accept a {}: {o}", if bid { "bid" } else { "ask" })),
        }
    }
    // both sides hold as many orders as they have room for, and the queue as many events as it has slots
    for (bid, p, n) in [(true, pb, nb), (false, pa, na)] { for k in 1..n {
        match invoke::<C>(accs, &roles, &Op::Act(Act::New(mk(bid, p, q))), Mode::Direct) {
            Out::Ok(Some(Summ { id: Some(i), .. })) => ids.push(i),
            o => return Err(format!("order {} of {n} is not accepted: {o}", k + 1)),
        }
    } }
    for i in &ids { match invoke::<C>(accs, &roles, &Op::Act(Act::Cancel(*i)), Mode::Direct) { Out::Ok(Some(s)) if s.base == q => {} o => return Err(format!("an order of the new market cannot be cancelled: {o}")) } }
    if fits(2) && nq <= 40 && q < 1 << 60 {
        for k in 0..nq / 2 {
            let mut t = mk(false, pb, q);
            t.post_allowed = false;
            for a in [mk(true, pb, q), t] {
                let o = invoke::<C>(accs, &roles, &Op::Act(Act::New(a)), Mode::Direct);
                if !o.is_ok() { return Err(format!("trade {k} does not fit in a queue of {nq} slots: {o}")); }
            }
        }
        for _ in 0..2 { let o = invoke::<C>(accs, &roles, &Op::Act(Act::Consume(nq as u64)), Mode::Direct); if !o.is_ok() { return Err(format!("consuming events: {o}")); } }
    }
    if accs[0] != keep { return Err("trading changed the market account".into()); }
    Ok(())
}

pub fn c16(st: &mut Stats, deep: bool) -> Option<Viol> {
    for (name, v) in [("Cb16", c16_t::<Cb16>(st, deep, "Cb16")), ("B32", c16_t::<B32>(st, deep, "B32")), ("Cb24", c16_t::<Cb24>(st, deep, "Cb24")),
        ("Cb0", c16_t::<Cb0>(st, deep, "Cb0")), ("Cb5", c16_t::<CbN<5>>(st, deep, "Cb5")), ("Cb40", c16_t::<CbN<40>>(st, deep, "Cb40"))] {
        let _ = name;
        if v.is_some() { return v; }
    }
    None
}

fn c16_t<C: CbT>(st: &mut Stats, deep: bool, nm: &str) -> Option<Viol> where <C as CallbackInfo>::CallbackId: PartialEq {
    let cb = std::mem::size_of::<C>();
    let roles = [0usize, 1, 2, 3];
    // expected outcome, then everything a successful creation promises
    let attempt = |accs: &mut Vec<Acc>, roles: &[usize], min: u64, tick: u64, expect: Option<bool>, c: &mut u64, what: &dyn Fn() -> String| -> Option<String> {
        let before = accs.clone();
        let o = invoke::<C>(accs, roles, &Op::Create { min, tick }, Mode::Direct);
        *c += 1;
        if expect == Some(false) && o.is_ok() { return Some(format!("creation succeeded {}", what())); }
        if expect == Some(true) && !o.is_ok() { return Some(format!("creation ended with {o} {}", what())); }
        if o.is_ok() {
            let lam: Vec<u64> = accs.iter().map(|a| a.lam).collect();
            if lam != before.iter().map(|a| a.lam).collect::<Vec<_>>() { return Some(format!("creation moved lamports {}", what())); }
            if let Err(e) = usable::<C>(accs, min, tick) { return Some(format!("creation succeeded {}, but: {e}", what())); }
        }
        None
    };
    // parameters
    let vals = [0u64, 1, 2, 3, 7, 1 << 31, U, U + 1, 1 << 63, u64::MAX];
    if let Some(v) = par(16, &format!("{nm}-parameters"), 100, st, |i, c| {
        let (min, tick) = (vals[i / 10], vals[i % 10]);
        attempt(&mut fresh(1, cb, 8, 3, 3), &roles, min, tick, Some(min > 0 && tick > 0), c, &|| format!("with minimum {min}, tick {tick}"))
    }) { return Some(v); }
    // account sizes, byte by byte
    let slot = 40 + 2 * cb;
    let qmax = eq_len(if deep { 16 } else { 9 }, cb) + 3;
    if let Some(v) = par(16, &format!("{nm}-queue-size"), qmax, st, |len, c| {
        let mut a = fresh(1, cb, 8, 3, 3);
        a[1] = Acc::zero(2, len);
        let ok = len >= 32 + 5 * slot && (len - 32) % slot == 0;
        attempt(&mut a, &roles, 2, U, Some(ok), c, &|| format!("with an event queue account of {len} bytes"))
    }) { return Some(v); }
    let smax = slab_len(if deep { 9 } else { 4 }, cb) + 3;
    for side in [2usize, 3] {
        if let Some(v) = par(16, &format!("{nm}-{}-size", ["bids", "asks"][side - 2]), smax, st, |len, c| {
            let mut a = fresh(1, cb, 8, 3, 3);
            a[side] = Acc::zero(side as u8 + 1, len);
            let exact = len >= slab_len(1, cb) && (len - slab_len(1, cb)) % (56 + cb) == 0;
            // other sizes may be accepted or not, but an accepted one must be usable
            attempt(&mut a, &roles, 2, U, if exact { Some(true) } else { None }, c, &|| format!("with a {} account of {len} bytes", ["bids", "asks"][side - 2]))
        }) { return Some(v); }
    }
    if let Some(v) = par(16, &format!("{nm}-market-size"), 260, st, |len, c| {
        let mut a = fresh(1, cb, 8, 3, 3);
        a[0] = Acc::zero(1, len);
        attempt(&mut a, &roles, 2, U, Some(len == MARKET_LEN), c, &|| format!("with a market account of {len} bytes"))
    }) { return Some(v); }
    // sizes in combination
    if let Some(v) = par(16, &format!("{nm}-capacities"), 6 * 6 * 6, st, |i, c| {
        let ns = [1usize, 2, 3, 5, 17, 64];
        let (q, b, k) = ([5usize, 6, 7, 8, 33, 40][i / 36], ns[i / 6 % 6], ns[i % 6]);
        attempt(&mut fresh(1, cb, q, b, k), &roles, 2, U, Some(true), c, &|| format!("with {q} event slots, {b} bids, {k} asks"))
    }) { return Some(v); }
    // accounts sized with the crate's own size functions hold exactly as many orders and events as asked for
    #[cfg(feature = "sizes")]
    if let Some(v) = par(16, &format!("{nm}-size-functions"), 96 + 6, st, |i, c| {
        let n = if i < 96 { i + 1 } else { [255, 256, 257, 1000, 65_536, 100_000][i - 96] };
        let (sl, ql) = match std::panic::catch_unwind(|| (asset_agnostic_orderbook::state::critbit::Slab::<C>::compute_allocation_size(n), asset_agnostic_orderbook::state::event_queue::EventQueue::<C>::compute_allocation_size(n))) { Ok(x) => x, Err(_) => return Some(format!("computing the sizes for {n} orders and events panicked")) };
        let m = n.max(5);
        let ql5 = asset_agnostic_orderbook::state::event_queue::EventQueue::<C>::compute_allocation_size(m);
        let (cs, cq) = (sl.saturating_sub(64 + cb) / (56 + cb) + (sl >= 64 + cb) as usize, ql.saturating_sub(32) / (40 + 2 * cb));
        if cs != n { return Some(format!("a slab account of the size computed for {n} orders ({sl} bytes) holds {cs}")); }
        if cq != n { return Some(format!("a queue account of the size computed for {n} events ({ql} bytes) holds {cq}")); }
        if n > 300 { return None; }
        let mut a = fresh(1, cb, 8, 3, 3);
        a[1] = Acc::zero(2, ql5);
        a[2] = Acc::zero(3, sl);
        a[3] = Acc::zero(4, sl);
        attempt(&mut a, &roles, 2, U, Some(true), c, &|| format!("with accounts of the sizes computed for {n} orders and {m} events"))
    }) { return Some(v); }
    // owner of queue, bids, asks: every single-bit change, and a few whole keys
    if let Some(v) = par(16, &format!("{nm}-owners"), 3 * 258, st, |i, c| {
        let (r, bit) = (1 + i / 258, i % 258);
        let mut a = fresh(1, cb, 8, 3, 3);
        let mut y = PROGRAM.to_bytes();
        match bit { 256 => y = [0; 32], 257 => y = key(1).to_bytes(), _ => y[bit / 8] ^= 1 << (bit % 8) }
        a[r].owner = Pubkey::new_from_array(y);
        attempt(&mut a, &roles, 2, U, Some(false), c, &|| format!("with account {r} owned by another program"))
    }) { return Some(v); }
    // balances around the rent-exempt minimum, each account alone and all together
    if let Some(v) = par(16, &format!("{nm}-rent"), 5 * 5 * 5 * 5, st, |i, c| {
        let mut a = fresh(1, cb, 8, 3, 3);
        let mut ok = true;
        for r in 0..4 {
            let k = i / 5usize.pow(r as u32) % 5;
            let min = rent_min(a[r].len);
            a[r].lam = [min, min - 1, 0, min + 1, min / 2][k];
            ok &= matches!(k, 0 | 3);
        }
        let l: Vec<u64> = a.iter().map(|x| x.lam).collect();
        attempt(&mut a, &roles, 2, U, Some(ok), c, &|| format!("with balances {l:?}"))
    }) { return Some(v); }
    // aliasing: every assignment of four accounts to the four roles (sizes made interchangeable)
    if let Some(v) = par(16, &format!("{nm}-aliasing"), 256, st, |i, c| {
        let r = [i / 64, i / 16 % 4, i / 4 % 4, i % 4];
        let mut a = fresh(1, cb, 8, 3, 3);
        for (place, x) in r.iter().enumerate() {
            let len = [MARKET_LEN, eq_len(8, cb), slab_len(3, cb), slab_len(3, cb)][place];
            if a[*x].len != len && r.iter().filter(|y| *y == x).count() == 1 { let k = a[*x].key; a[*x] = Acc { key: k, ..Acc::zero(1, len) }; }
        }
        let distinct = (0..4).all(|x| (0..x).all(|y| r[x] != r[y]));
        let before = a.clone();
        let o = invoke::<C>(&mut a, &r, &Op::Create { min: 2, tick: U }, Mode::Direct);
        *c += 1;
        if o.is_ok() != distinct { return Some(format!("creation with roles {r:?} ended with {o}")); }
        if o.is_ok() {
            let mut v: Vec<Acc> = r.iter().map(|x| a[*x].clone()).collect();
            if let Err(e) = usable::<C>(&mut v, 2, U) { return Some(format!("creation with roles {r:?} succeeded, but: {e}")); }
        } else if a != before { return Some("rejected creation changed an account".into()); }
        None
    }) { return Some(v); }
    // one queue-sized account that would fit in several roles: aliasing with equal sizes
    if let Some(v) = par(16, &format!("{nm}-aliasing-equal-size"), 64, st, |i, c| {
        let r = [0, 1 + (i / 16 % 4).min(2), 1 + (i / 4 % 4).min(2), 1 + (i % 4).min(2)];
        // a length that is right for a queue and usable for a side
        let len = (5..4000).map(|n| eq_len(n, cb)).find(|l| *l >= slab_len(2, cb) && (*l - slab_len(1, cb)) % (56 + cb) == 0).unwrap_or(eq_len(8, cb));
        let mut a = fresh(1, cb, 8, 3, 3);
        for k in 1..4 { a[k] = Acc::zero(k as u8 + 1, len); }
        let distinct = r[1] != r[2] && r[2] != r[3] && r[1] != r[3];
        let o = invoke::<C>(&mut a, &r, &Op::Create { min: 2, tick: U }, Mode::Direct);
        *c += 1;
        if o.is_ok() && !distinct { return Some(format!("creation with roles {r:?} succeeded")); }
        None
    }) { return Some(v); }
    // tags: the market's and the queue's tag word, the sides' tag byte
    if let Some(v) = par(16, &format!("{nm}-tags"), 4, st, |r, c| {
        let mut tags: Vec<u64> = (0..256).collect();
        if r < 2 { tags.extend((8..64).map(|s| 1u64 << s)); }
        for t in tags {
            let mut a = fresh(1, cb, 8, 3, 3);
            a[r].data[0] = t;
            if let Some(m) = attempt(&mut a, &roles, 2, U, Some(t == 0), c, &|| format!("with tag {t:#x} in account {r}")) { return Some(m); }
        }
        None
    }) { return Some(v); }
    // over an existing market, at any stage of its life: every non-empty subset of its accounts, the rest fresh
    if let Some(v) = par(16, &format!("{nm}-existing"), 5 * 15 * 2, st, |i, c| {
        let (stage, mask, same) = (i / 30, 1 + i / 2 % 15, i % 2 == 0);
        let mut old = fresh(1, cb, 8, 3, 3);
        let mk = |bid: bool, p: u64, q: u64| Op::Act(Act::New(NewP { cb: C::mk(0, p), ..n16(bid, p, q) }));
        let mut script = vec![Op::Create { min: 2, tick: U }];
        if stage >= 1 && stage < 4 { script.extend([mk(true, U, 5), mk(false, 3 * U, 4)]); }
        if stage >= 2 && stage < 4 { script.extend([mk(false, U, 5), mk(true, 3 * U, 4)]); }
        if stage >= 3 { script.push(Op::Act(Act::Consume(99))); }
        if stage == 4 { script.push(Op::Close); }
        for op in &script {
            let rr: Vec<usize> = (0..op.nroles()).collect();
            let o = invoke::<C>(&mut old, &rr, op, Mode::Direct);
            *c += 1;
            if !o.is_ok() { return Some(format!("setting up: {op:?} ended with {o}")); }
        }
        let mut a = fresh(if same { 1 } else { 60 }, cb, 8, 3, 3);
        for r in 0..4 { if mask >> r & 1 == 1 { a[r] = old[r].clone(); a[r].lam = rent_min(a[r].len); } }
        let o = invoke::<C>(&mut a, &roles, &Op::Create { min: 2, tick: U }, Mode::Direct);
        *c += 1;
        if o.is_ok() { return Some(format!("a market was created over accounts (mask {mask:#x}) of a market at stage {stage} (0 new, 1 orders, 2 events, 3 drained, 4 closed)")); }
        None
    }) { return Some(v); }
    None
}

// ------------------------------------------------------------------------------------------------ C17

/// Close in one state, under several balances and both ways of calling; afterwards nothing may ever work again.
pub fn close_here<C: CbT>(w: &World, buf: &[u64], pre: &View, probes: &[Act]) -> Result<u64, (Vec<usize>, String)> where <C as CallbackInfo>::CallbackId: PartialEq {
    let lay = w.cfg.lay;
    let mut n = 0;
    let empty = pre.bids.is_empty() && pre.asks.is_empty() && pre.q.is_empty();
    let roles = [0usize, 1, 2, 3, 4];
    let lams: [[u64; 5]; 4] = [[1, 10, 100, 1000, 10000], [rent_min(120), 0, 0, 1 << 40, 0], [0; 5], [(1 << 62) - 1, 1 << 61, 1 << 60, 1 << 59, 1 << 58]];
    let mut lams = lams.to_vec();
    for z in 1..32u64 { lams.push(std::array::from_fn(|k| if z >> k & 1 == 1 { 0 } else { 3 << (8 * k) })); }
    let modes: &[Mode] = if w.entry || lay.cb == 32 { &[Mode::Direct, Mode::Entry] } else { &[Mode::Direct] };
    for mode in modes {
        for l in if empty { &lams[..] } else { &lams[..1] } {
            let mut a = from_buf(buf, &lay);
            for k in 0..5 { a[k].lam = l[k]; }
            let before = a.clone();
            let mut reg = [0; REG_LEN];
            let o = invoke_raw::<C>(&mut a, &roles, &Op::Close, *mode, &mut reg);
            n += 1;
            if let Out::Panic(m) = &o { return Err((vec![17, 20], format!("closing aborted: {m}"))); }
            if !empty {
                if o != Out::Err(E_ACTIVE) { return Err((vec![17], format!("closing a market with {} bids, {} asks, {} events ended with {o}", pre.bids.len(), pre.asks.len(), pre.q.len()))); }
                if a != before { return Err((vec![17], "a refused closing changed an account".into())); }
                continue;
            }
            if !o.is_ok() { return Err((vec![17], format!("closing an empty, drained market ended with {o}"))); }
            let sum: u128 = l.iter().map(|x| *x as u128).sum();
            if a[..4].iter().any(|x| x.lam != 0) || a[4].lam as u128 != sum { return Err((vec![17], format!("balances {l:?} became {:?}", a.iter().map(|x| x.lam).collect::<Vec<_>>()))); }
            // nothing works any more
            for x in a.iter_mut() { x.lam = rent_min(x.len); }
            let closed = a.clone();
            // no reader takes any of them for a live account
            #[cfg(feature = "readers")]
            {
                use asset_agnostic_orderbook::state::{critbit::Slab, event_queue::EventQueue, market_state::MarketState, AccountTag};
                for (k, x) in closed[..4].iter().enumerate() {
                    let mut d = x.data.clone();
                    let b: &mut [u8] = &mut bytemuck::cast_slice_mut(&mut d)[..x.len];
                    let live = guarded(|| match k { 0 => MarketState::from_buffer(b, AccountTag::Market).is_ok(), 1 => EventQueue::<C>::from_buffer(b, AccountTag::EventQueue).is_ok(), 2 => Slab::<C>::from_buffer(b, AccountTag::Bids).is_ok(), _ => Slab::<C>::from_buffer(b, AccountTag::Asks).is_ok() });
                    if live == Ok(true) { return Err((vec![17], format!("after closing with the balances {l:?} the {} account still reads as a live one", ["market", "event queue", "bids", "asks"][k]))); }
                }
            }
            let mut ops: Vec<Op> = probes.iter().cloned().map(Op::Act).collect();
            ops.push(Op::Close);
            ops.push(Op::Create { min: 2, tick: U });
            for op in &ops {
                let o = invoke::<C>(&mut a, &roles[..op.nroles()], op, *mode);
                n += 1;
                if o.is_ok() { return Err((vec![17], format!("after closing, {} still succeeds: {o}", op.name()))); }
                if a != closed { return Err((vec![17], "a refused instruction changed a closed market".into())); }
            }
            // creation and instructions on any mixture of closed and fresh accounts
            for mask in 1..16usize {
                let mut m = fresh(60, lay.cb, lay.eqc, lay.bidc, lay.askc);
                for r in 0..4 { if mask >> r & 1 == 1 { m[r] = closed[r].clone(); } }
                let o = invoke::<C>(&mut m, &roles[..4], &Op::Create { min: 2, tick: U }, *mode);
                n += 1;
                if o.is_ok() { return Err((vec![17, 16], format!("a market can be created over accounts of a closed one (mask {mask:#x})"))); }
            }
        }
    }
    Ok(n)
}

// ------------------------------------------------------------------------------------------------ C23

#[cfg(not(feature = "rounding"))]
pub fn c23(_: &mut Stats, _: bool) -> Option<Viol> { unreachable!("built without the feature rounding") }
#[cfg(feature = "rounding")]
pub fn c23(st: &mut Stats, deep: bool) -> Option<Viol> {
    use asset_agnostic_orderbook::utils::round_price;
    let judge = |tick: u64, p: u64, c: &mut u64| -> Option<String> {
        for bid in [true, false] {
            let want = if bid { p as u128 / tick as u128 * tick as u128 } else { p.div_ceil(tick) as u128 * tick as u128 };
            if want > u64::MAX as u128 { continue; }
            *c += 1;
            match guarded(|| round_price(tick, p, to_side(bid))) {
                Ok(x) if x as u128 == want => {}
                Ok(x) => return Some(format!("price {p} with tick {tick} is rounded to {x} for a{}; the right multiple is {want}", if bid { " bid" } else { "n ask" })),
                Err(m) => return Some(format!("rounding price {p} with tick {tick} for a{} aborted: {m}", if bid { " bid" } else { "n ask" })),
            }
        }
        None
    };
    let t_max = if deep { 20000 } else { 2000 };
    let p_max = if deep { 65600u64 } else { 20000 };
    if let Some(v) = par(23, "small-grid", t_max, st, |i, c| { for p in 0..p_max { if let Some(m) = judge(i as u64 + 1, p, c) { return Some(m); } } None }) { return Some(v); }
    // ticks and prices around every power of two and the ends of the range
    let mut bs: Vec<u64> = vec![];
    for k in 0..64 { for d in -2i64..=2 { bs.push((1u64 << k).wrapping_add(d as u64)); } }
    for d in 0..40u64 { bs.push(u64::MAX - d); bs.push(d); bs.push(u64::MAX / 3 + d); bs.push(u64::MAX / 10 * 7 - d); }
    bs.push(21474836480); bs.push(2147483648); bs.push(42949672); bs.push(429496729600);
    bs.sort();
    bs.dedup();
    let ticks: Vec<u64> = bs.iter().cloned().filter(|t| *t > 0).collect();
    if let Some(v) = par(23, "boundary-grid", ticks.len(), st, |i, c| {
        let t = ticks[i];
        for p in &bs { if let Some(m) = judge(t, *p, c) { return Some(m); } }
        // neighbourhoods of multiples of this tick
        for k in [1u64, 2, 3, 5, 1000, u64::MAX / t / 2, (u64::MAX / t).saturating_sub(1), u64::MAX / t] {
            let Some(m0) = k.checked_mul(t) else { continue };
            for d in -3i64..=3 { if let Some(m) = judge(t, m0.wrapping_add(d as u64), c) { return Some(m); } }
        }
        None
    }) { return Some(v); }
    // the program takes every rounded price on a market with that tick
    let tk: Vec<u64> = vec![1, 2, 3, 7, 10, 1000, U - 1, U, U + 1, 3 * U, 21474836480, 1 << 62, 1 << 63, u64::MAX / 2, u64::MAX];
    if let Some(v) = par(23, "accepted-by-the-program", tk.len(), st, |i, c| {
        let t = tk[i];
        let mut a = fresh(1, 16, 8, 3, 3);
        let o = invoke::<Cb16>(&mut a, &[0, 1, 2, 3], &Op::Create { min: 1, tick: t }, Mode::Direct);
        if !o.is_ok() { return Some(format!("market with tick {t}: {o}")); }
        for p in &bs { for bid in [true, false] {
            if !bid && p.div_ceil(t) as u128 * t as u128 > u64::MAX as u128 { continue; }
            let Ok(r) = guarded(|| round_price(t, *p, to_side(bid))) else { return Some(format!("rounding {p} with tick {t} aborted")) };
            let n = NewP { bid, price: r, base: 1, quote: 1, limit: 1, post_only: true, post_allowed: false, stb: 0, cb: Cb16::mk(0, 0) };
            let o = invoke::<Cb16>(&mut a, &[0, 1, 2, 3], &Op::Act(Act::New(n)), Mode::Direct);
            *c += 1;
            if !o.is_ok() { return Some(format!("the program rejects {r}, the rounded price of {p} with tick {t}: {o}")); }
            match guarded(|| round_price(t, r, to_side(bid))) { Ok(x) if x == r => {} x => return Some(format!("rounding the valid price {r} with tick {t} again gives {x:?}")) }
        } }
        None
    }) { return Some(v); }
    None
}

// ------------------------------------------------------------------------------------------------ C21

#[cfg(not(feature = "builders"))]
pub fn c21(_: &mut Stats, _: bool) -> Option<Viol> { unreachable!("built without the feature builders") }
#[cfg(feature = "builders")]
fn build(op: &Op, a: &[Acc], reg: &Pubkey) -> solana_program::instruction::Instruction {
    use asset_agnostic_orderbook::instruction as ix;
    let k = |i: usize| &a[i].key;
    match op {
        Op::Create { min, tick } => ix::create_market(ix::create_market::Accounts { market: k(0), event_queue: k(1), bids: k(2), asks: k(3) }, *reg, ix::create_market::Params { min_base_order_size: *min, tick_size: *tick }),
        Op::Close => ix::close_market(ix::close_market::Accounts { market: k(0), event_queue: k(1), bids: k(2), asks: k(3), lamports_target_account: k(4) }, *reg, ix::close_market::Params {}),
        Op::Act(Act::New(p)) => ix::new_order::<Pubkey>(ix::new_order::Accounts { market: k(0), event_queue: k(1), bids: k(2), asks: k(3) }, *reg, asset_agnostic_orderbook::instruction::new_order::Params {
            max_base_qty: p.base, max_quote_qty: p.quote, limit_price: p.price, side: to_side(p.bid), match_limit: p.limit,
            // the same 32 bytes on the wire as the entry point's callback information
            callback_info: Pubkey::new_from_array(B32::from_w(&p.cb)), post_only: p.post_only, post_allowed: p.post_allowed, self_trade_behavior: to_stb(p.stb),
        }),
        Op::Act(Act::Cancel(id)) => ix::cancel_order(ix::cancel_order::Accounts { market: k(0), event_queue: k(1), bids: k(2), asks: k(3) }, *reg, ix::cancel_order::Params { order_id: *id }),
        Op::Act(Act::Mass(v)) => ix::mass_cancel_orders(ix::mass_cancel_orders::Accounts { market: k(0), event_queue: k(1), bids: k(2), asks: k(3) }, *reg, ix::mass_cancel_orders::Params { order_ids: v.clone() }),
        Op::Act(Act::Consume(n)) => ix::consume_events(ix::consume_events::Accounts { market: k(0), event_queue: k(1) }, *reg, ix::consume_events::Params { number_of_entries_to_consume: *n }),
        _ => unreachable!(),
    }
}

#[cfg(feature = "builders")]
fn run_data(accs: &[Acc], order: &[usize], reg: &mut Acc, data: &[u8]) -> (Out, Vec<Acc>) {
    let mut a = accs.to_vec();
    let r = with_infos(&mut a, Some(reg), |i| {
        let v: Vec<_> = order.iter().map(|r| i[if *r == usize::MAX { i.len() - 1 } else { *r }].clone()).collect();
        asset_agnostic_orderbook::entrypoint::process_instruction(&PROGRAM, &v, data)
    });
    let o = match r { Ok(Ok(())) => Out::Ok(None), Ok(Err(e)) => Out::Err(err_code(e)), Err(p) => Out::Panic(p) };
    (o, a)
}

#[cfg(feature = "builders")]
fn summ_bytes(s: &Option<Summ>) -> Vec<u8> {
    let mut d = vec![];
    match s {
        None => d.push(0),
        Some(s) => {
            d.push(1);
            match s.id { None => d.push(0), Some(i) => { d.push(1); d.extend(i.to_le_bytes()) } }
            d.extend(s.base.to_le_bytes());
            d.extend(s.quote.to_le_bytes());
            d.extend(s.posted.to_le_bytes());
        }
    }
    d
}

#[cfg(feature = "builders")]
fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) { (Out::Ok(_), Out::Ok(_)) => true, (Out::Err(x), Out::Err(y)) => x == y, (Out::Panic(_), Out::Panic(_)) => true, _ => false }
}

#[cfg(feature = "builders")]
pub fn c21(st: &mut Stats, deep: bool) -> Option<Viol> {
    // base states: untouched accounts, empty market, a market with orders and events, a market whose sides are full
    let mut states: Vec<(&str, Vec<Acc>)> = vec![("untouched", fresh(1, 32, 7, 3, 3))];
    let mut a = fresh(1, 32, 7, 3, 3);
    for x in a.iter_mut() { x.lam += 100 * x.key.to_bytes()[0] as u64; }
    if let Err(m) = boot(&mut a, 0) { return Some(sv(21, "states", m)); }
    states.push(("empty", a.clone()));
    let o = |b: bool, p: u64, q: u64| act(Act::New(n16(b, p * U, q)));
    let mut p = a.clone();
    if let Err(m) = run_ok(&mut p, 0, &[o(true, 2, 9), o(false, 4, 5), o(false, 2, 2), o(true, 1, 3), o(false, 5, 6)]) { return Some(sv(21, "states", m)); }
    states.push(("populated", p.clone()));
    let mut f = p.clone();
    if let Err(m) = run_ok(&mut f, 0, &[o(true, 1, 4), o(false, 6, 6)]) { return Some(sv(21, "states", m)); }
    states.push(("full", f.clone()));
    let ids = vec![slab_first(f[2].b(), 32, 3, true), slab_first(f[2].b(), 32, 3, false), slab_first(f[3].b(), 32, 3, false), slab_first(f[3].b(), 32, 3, true)];
    let mut ops: Vec<Op> = vec![Op::Close];
    let vals = [0u64, 1, 2, 255, 256, U, U + 1, 0x0102_0304_0506_0708, 1 << 63, u64::MAX];
    for m in vals { for t in vals { ops.push(Op::Create { min: m, tick: t }); } }
    for n in vals { ops.push(act(Act::Consume(n))); }
    let mut dead = vec![0u128, 1, u128::MAX, 0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10];
    dead.extend(ids.iter().map(|i| i.swap_bytes()));
    dead.extend(ids.iter().map(|i| i.rotate_left(64)));
    for i in ids.iter().chain(&dead) { ops.push(act(Act::Cancel(*i))); ops.push(act(Act::Mass(vec![*i]))); }
    ops.push(act(Act::Mass(vec![])));
    for x in &ids { for y in &ids { ops.push(act(Act::Mass(vec![*x, *y]))); } }
    ops.push(act(Act::Mass(ids.clone())));
    ops.push(act(Act::Mass([ids.clone(), dead.clone()].concat())));
    ops.push(act(Act::Mass((0..300).map(|k| ids[k % 4]).collect())));
    let bs: &[u64] = if deep { &[0, 2, 5, 300, 1 << 40, u64::MAX] } else { &[0, 2, 7, u64::MAX] };
    for bid in [true, false] { for price in [0, U, 2 * U, 4 * U, 9 * U, U + 1] { for base in bs { for quote in [0u64, 9, u64::MAX - 1] { for limit in [0u64, 1, 3, 1 << 33, u64::MAX] {
        for fl in 0..4 { for stb in 0..3u8 {
            for owner in [0u64, 2] {
                ops.push(act(Act::New(NewP { bid, price, base: *base, quote, limit, post_only: fl & 1 == 1, post_allowed: fl & 2 == 2, stb, cb: if owner == 0 { B32::mk(0, 0) } else { [0x0102_0304_0506_0708, 0x1112_1314_1516_1718, 0x2122_2324_2526_2728, 0x3132_3334_3536_3738] } })));
            }
        } }
    } } } } }
    let regkey = key(99);
    // a market with many orders, and lists of every length
    let nb = if deep { 1100u64 } else { 300 };
    let mut m = fresh(1, 32, 7, nb as usize, 3);
    for x in m.iter_mut() { x.lam += 100 * x.key.to_bytes()[0] as u64; }
    let posts: Vec<Op> = (0..nb).map(|k| o(true, 1 + k % 9, 2 + k)).collect();
    if let Err(e) = boot(&mut m, 0).and_then(|_| run_ok(&mut m, 0, &posts)) { return Some(sv(21, "states", e)); }
    let mids: Vec<u128> = { RawSlab { b: m[2].b(), cap: nb as usize, cb: 32 }.orders().unwrap_or_default().iter().map(|o| o.id).collect() };
    if mids.len() != nb as usize { return Some(sv(21, "states", format!("{} of {nb} posted orders rest", mids.len()))); }
    let mut many: Vec<Op> = (0..=if deep { nb as usize } else { 130 }).chain([255, 256, 257, 300]).map(|n| act(Act::Mass(mids[..n].to_vec()))).collect();
    for n in [1usize, 50, 100, 128, 255, 256, 299] { for k in [0, n / 2, n - 1] { let mut l = mids[..n].to_vec(); l[k] ^= 1 << 64; many.push(act(Act::Mass(l))); let mut l = mids[..n].to_vec(); l[k] = mids[n]; many.push(act(Act::Mass(l))); } }
    let ns = states.len();
    let small = ns * ops.len();
    if let Some(v) = par(21, "builders-and-dispatch", small + many.len(), st, |i, c| {
        let ((sname, s), op) = if i < small { ((states[i % ns].0, &states[i % ns].1), &ops[i / ns]) } else { (("crowded", &m), &many[i - small]) };
        let roles: Vec<usize> = (0..op.nroles()).collect();
        let mut d = s.clone();
        let od = invoke::<B32>(&mut d, &roles, op, Mode::Direct);
        *c += 1;
        let ixn = match guarded(|| build(op, s, &regkey)) { Ok(x) => x, Err(m) => return Some(format!("building {op:?} aborted: {m}")) };
        if ixn.program_id != asset_agnostic_orderbook::id() { return Some(format!("the builder of {} addresses program {}", op.name(), ixn.program_id)); }
        let mut order = vec![];
        let mut src = s.clone();
        let mut reg_w = false;
        for m in &ixn.accounts {
            if m.is_signer { return Some(format!("the builder of {} demands a signature of {}, which the operation does not need", op.name(), m.pubkey)); }
            if m.pubkey == regkey { order.push(usize::MAX); reg_w = m.is_writable; continue; }
            match s.iter().position(|x| x.key == m.pubkey) { Some(k) => { order.push(k); src[k].writable = m.is_writable; } None => return Some(format!("the builder of {} names an unknown account {}", op.name(), m.pubkey)) }
        }
        let hand = roles.iter().cloned().chain([usize::MAX]).collect::<Vec<_>>();
        // the register holds the longest possible summary, or any more
        for (what, order, data, rl) in [("built", &order, &ixn.data, REG_LEN), ("hand-encoded", &hand, &op.wire(32), [42, 43, 48, 64, 128, 1000][i / ns % 6])] {
            let mut reg = Acc { key: regkey, owner: PROGRAM, lam: 0, data: vec![0xEEEE_EEEE_EEEE_EEEE; rl.div_ceil(8)], len: rl, writable: true };
            let (oe, after) = run_data(&src, order, &mut reg, data);
            *c += 1;
            if !same_out(&od, &oe) { return Some(format!("{op:?} ({what}) on the {sname} market ended with {oe}; the operation itself ends with {od}")); }
            if !oe.is_ok() { continue; }
            for k in 0..s.len() {
                if after[k].data != d[k].data || after[k].lam != d[k].lam { return Some(format!("{op:?} ({what}) on the {sname} market leaves another {} account than the operation itself", ["market", "event queue", "bids", "asks", "target"][k])); }
                if what == "built" && !src[k].writable && (after[k].data != s[k].data || after[k].lam != s[k].lam) { return Some(format!("the builder of {} marks account {k} read-only although the operation changes it", op.name())); }
                if what == "built" && !order.contains(&k) && (after[k].data != s[k].data || after[k].lam != s[k].lam) { return Some("an account that was not passed changed".into()); }
            }
            if what == "built" && !reg_w { return Some(format!("the builder of {} marks the register read-only", op.name())); }
            if let Out::Ok(sum) = &od {
                let want = summ_bytes(sum);
                if reg.b()[..want.len()] != want[..] { return Some(format!("{op:?} ({what}) leaves {:x?} in the register instead of {want:x?}", &reg.b()[..want.len()])); }
            }
        }
        None
    }) { return Some(v); }
    // malformed data: every one must be refused without any effect
    let mut seeds: Vec<(usize, Op)> = vec![(0, Op::Create { min: 2, tick: U }), (2, act(Act::Consume(1))), (2, act(Act::Cancel(ids[0]))), (2, act(Act::Mass(vec![]))), (2, act(Act::Mass(vec![ids[0]]))), (2, act(Act::Mass(ids.clone())))];
    for bid in [true, false] { for fl in 0..4 { for stb in 0..3 { seeds.push((2, act(Act::New(NewP { bid, price: 3 * U, base: 4, quote: 100, limit: 3, post_only: fl & 1 == 1, post_allowed: fl & 2 == 2, stb, cb: B32::mk(2, 0) })))); } } }
    if let Some(v) = par(21, "malformed-data", seeds.len(), st, |i, c| {
        let (si, op) = &seeds[i];
        let s = &states[*si].1;
        let good = op.wire(32);
        let mut bad: Vec<(String, Vec<u8>)> = vec![];
        for n in 0..good.len() { bad.push((format!("{} data cut to {n} of {} bytes", op.name(), good.len()), good[..n].to_vec())); }
        for t in [vec![0u8], vec![1], vec![255], vec![0; 2], vec![0; 3], vec![0; 8], vec![0; 16], vec![7; 33]] { let n = t.len(); bad.push((format!("{} data with {n} trailing bytes", op.name()), [good.clone(), t].concat())); }
        for b in 6..=255u8 { let mut g = good.clone(); g[0] = b; bad.push((format!("operation code {b}"), g)); }
        if let Op::Act(Act::New(_)) = op {
            let n = good.len();
            for (pos, max, what) in [(25usize, 1u8, "side"), (n - 3, 1, "post-only flag"), (n - 2, 1, "post-allowed flag"), (n - 1, 2, "self-trade behaviour")] {
                for b in max + 1..=255 { let mut g = good.clone(); g[pos] = b; bad.push((format!("{what} byte {b}"), g)); }
            }
        }
        if let Op::Act(Act::Mass(v)) = op {
            for l in [0u32, 1, 2, 3, 4, 5, 6, 255, 256, 1 << 16, 1 << 24, 1 << 28, u32::MAX] { if l as usize != v.len() { let mut g = good.clone(); g[1..5].copy_from_slice(&l.to_le_bytes()); bad.push((format!("list of {} ids announced as {l}", v.len()), g)); } }
        }
        for (what, d) in bad {
            let order: Vec<usize> = (0..op.nroles()).chain([usize::MAX]).collect();
            let mut reg = Acc { key: regkey, owner: PROGRAM, lam: 0, data: vec![0; REG_LEN / 8], len: REG_LEN, writable: true };
            let (o, _) = run_data(s, &order, &mut reg, &d);
            *c += 1;
            if o.is_ok() { return Some(format!("{what} was accepted")); }
            if crate::causes::on() { if let Out::Err(c) = &o { if *c != u64::from(crate::causes::MALFORMED) { crate::causes::report(format!("{what} ended with {o}, not with an error about the instruction data")); } } }
        }
        None
    }) { return Some(v); }
    None
}
