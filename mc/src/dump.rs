//! Writes every explored state, with what the program's own data says is in it, for the JavaScript decoders.
use crate::decode::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use serde_json::{json, Value};
use std::io::Write;
use std::sync::Mutex;

pub static SINK: Mutex<Option<std::io::BufWriter<std::fs::File>>> = Mutex::new(None);
pub static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { s.push_str(&format!("{x:02x}")); } s }
fn cbh(c: &CbW, n: usize) -> String { hex(&(0..n).map(|k| if k < 32 { bytemuck::bytes_of(c)[k] } else { tail(c, k) }).collect::<Vec<u8>>()) }

/// `tags`: market, queue, bids, asks
pub fn record(world: &str, cfg: &Cfg, parts: [&[u8]; 4], keys: [&[u8]; 3], tags: [u64; 4], v: &View, probes: &[u128]) -> Value {
    let cb = cfg.lay.cb;
    let side = |s: &Vec<Ord>| { let mut s = s.clone(); s.sort_by_key(|o| o.id); s.iter().map(|o| json!([o.id.to_string(), o.qty.to_string(), cbh(&o.cb, cb)])).collect::<Vec<_>>() };
    let evs: Vec<Value> = v.q.iter().map(|e| match e {
        Ev::Fill { side, id, base, quote, mcb, tcb } => json!(["f", side, id.to_string(), base.to_string(), quote.to_string(), cbh(mcb, cb), cbh(tcb, cb)]),
        Ev::Out { side, id, base, cb: c } => json!(["o", side, id.to_string(), base.to_string(), cbh(c, cb)]),
        Ev::Bad(t) => json!(["bad", t]),
    }).collect();
    json!({"world": world, "cb": cb, "tick": cfg.tick.to_string(), "min": cfg.min.to_string(), "eqc": cfg.lay.eqc, "bidc": cfg.lay.bidc, "askc": cfg.lay.askc,
        "market": hex(parts[0]), "eq": hex(parts[1]), "bids": hex(parts[2]), "asks": hex(parts[3]), "keys": keys.iter().map(|k| hex(k)).collect::<Vec<_>>(), "tags": tags,
        "seq": v.seq.to_string(), "exp": {"bids": side(&v.bids), "asks": side(&v.asks), "q": evs}, "probes": probes.iter().map(|p| p.to_string()).collect::<Vec<_>>()})
}

pub fn write(v: &Value) {
    let s = v.to_string();
    let mut g = SINK.lock().unwrap();
    if let Some(w) = g.as_mut() { w.write_all(s.as_bytes()).unwrap(); w.write_all(b"\n").unwrap(); }
    COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

/// A state of a value grid.
pub fn plain(world: &str, cfg: &Cfg, buf: &[u64], v: &View, probes: &[u128]) {
    let (ke, kb, ka) = (key(K_EQ), key(K_BIDS), key(K_ASKS));
    write(&record(world, cfg, cfg.lay.parts(bytemuck::cast_slice(buf)), [ke.as_ref(), kb.as_ref(), ka.as_ref()], [128, 129, 130, 131], v, probes));
}

pub fn state<C: CbT>(w: &World, buf: &[u64], pre: &View, prices: &[u64], issued: &[u128]) where <C as asset_agnostic_orderbook::state::orderbook::CallbackInfo>::CallbackId: PartialEq {
    let lay = w.cfg.lay;
    let b: &[u8] = bytemuck::cast_slice(buf);
    let parts = lay.parts(b);
    let mut pr: Vec<u128> = gen::<C>(&Alpha { cancel_dead: 1, ..Default::default() }, pre, prices, issued).into_iter().filter_map(|a| if let Act::Cancel(i) = a { Some(i) } else { None }).collect();
    if pr.len() > 64 { pr = pr.iter().step_by(pr.len() / 48).copied().collect(); }
    let (ke, kb, ka) = (key(K_EQ), key(K_BIDS), key(K_ASKS));
    write(&record(&w.name, &w.cfg, parts, [ke.as_ref(), kb.as_ref(), ka.as_ref()], [128, 129, 130, 131], pre, &pr));
}

/// Static cases: keys with distinct bytes, extreme parameters, a closed market, the sizes the program computes.
fn statics() -> Vec<Value> {
    use crate::accts::*;
    let mut out = vec![];
    for (cb, eqc, bidc, askc, min, tick) in [(32usize, 5usize, 1usize, 2usize, u64::MAX, 1u64 << 63), (16, 7, 2, 1, 1, 0x0102_0304_0506_0708), (24, 6, 3, 3, 0x8877_6655_4433_2211, 3)] {
        let mut a = fresh(60, cb, eqc, bidc, askc);
        for (k, x) in a.iter_mut().enumerate().take(5) { for i in 0..32 { x.key.as_mut()[i] = (i * 7 + k * 41 + 3) as u8; } }
        let cfg = Cfg { lay: Lay { cb, eqc, bidc, askc }, tick, min };
        let run = |a: &mut [Acc], roles: &[usize], op: &Op| match cb { 32 => invoke::<[u8; 32]>(a, roles, op, Mode::Direct), 24 => invoke::<Cb24>(a, roles, op, Mode::Direct), _ => invoke::<Cb16>(a, roles, op, Mode::Direct) };
        for close in [false, true] {
            let o = if close { run(&mut a, &[0, 1, 2, 3, 4], &Op::Close) } else { run(&mut a, &[0, 1, 2, 3], &Op::Create { min, tick }) };
            if !o.is_ok() { continue; }
            let v = View { seq: u64::from_le_bytes(a[1].b()[24..32].try_into().unwrap()), ..View::default() };
            let t = if close { [132; 4] } else { [128, 129, 130, 131] };
            out.push(record(if close { "closed" } else { "created" }, &cfg, [a[0].b(), a[1].b(), a[2].b(), a[3].b()], [a[1].key.as_ref(), a[2].key.as_ref(), a[3].key.as_ref()], t, &v, &[0, 1, u128::MAX]));
            for x in a.iter_mut() { x.lam = rent_min(x.len); }
        }
    }
    use asset_agnostic_orderbook::state::market_state::MarketState;
    #[cfg(feature = "sizes")]
    use asset_agnostic_orderbook::state::{critbit::Slab, event_queue::EventQueue};
    #[allow(unused_mut)]
    let mut sizes: Vec<Value> = vec![];
    #[cfg(feature = "sizes")]
    for n in [1usize, 2, 3, 4, 5, 7, 8, 16, 100, 255, 256, 257, 1000, 65535, 65536, 100000] {
        sizes.push(json!([n, 16, Slab::<Cb16>::compute_allocation_size(n), EventQueue::<Cb16>::compute_allocation_size(n)]));
        sizes.push(json!([n, 24, Slab::<Cb24>::compute_allocation_size(n), EventQueue::<Cb24>::compute_allocation_size(n)]));
        sizes.push(json!([n, 32, Slab::<[u8; 32]>::compute_allocation_size(n), EventQueue::<[u8; 32]>::compute_allocation_size(n)]));
    }
    out.push(json!({"world": "sizes", "sizes": sizes, "market_len": 8 + std::mem::size_of::<MarketState>()}));
    out
}

fn root() -> String { std::env::var("AOBMC_HOME").unwrap_or("/verif".into()) }

/// Runs the decoders over the records of `file`. Ok(counters) or Err((message, record)).
fn node(bundle: &str, file: &str) -> Result<Value, (String, String)> {
    let o = std::process::Command::new("timeout").args(["-s", "KILL", "400", "node", "--max-old-space-size=4096", &format!("{}/js/check.js", root()), bundle, file]).output().expect("node");
    let s = String::from_utf8_lossy(&o.stdout);
    let last = s.lines().last().unwrap_or("");
    match serde_json::from_str::<Value>(last) {
        Ok(v) if v.get("ok").is_some() => Ok(v["ok"].clone()),
        Ok(v) => Err((v["violation"].as_str().unwrap_or("?").into(), v["record"].to_string())),
        Err(_) if o.status.code() == Some(137) || { use std::os::unix::process::ExitStatusExt; o.status.signal() == Some(9) } => Err(("a function of the library does not return".into(), "null".into())),
        Err(_) => { eprintln!("engine error: the decoder check gave no answer: {s}{}", String::from_utf8_lossy(&o.stderr)); std::process::exit(3) }
    }
}
fn bundle(dir: &str) -> Result<String, String> {
    let b = format!("{dir}/bundle.cjs");
    let o = std::process::Command::new("node").args([&format!("{}/js/bundle.js", root()), "/repo/js/src", &b]).output().expect("node");
    if o.status.success() { Ok(b) } else { Err(String::from_utf8_lossy(&o.stderr).lines().take(6).collect::<Vec<_>>().join(" | ")) }
}
fn dir() -> String {
    let d = format!("{}/scratch/c26-{}", crate::report::out_dir(), std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn c26(st: &mut Stats, deep: bool, run: &dyn Fn(&World, usize, &mut Stats) -> Option<Viol>) -> Option<Viol> {
    let d = dir();
    let r = (|| {
        let b = match bundle(&d) { Ok(b) => b, Err(e) => return Some(crate::special::sv(26, "bundle", format!("the library does not build: {e}"))) };
        let f = format!("{d}/states.jsonl");
        *SINK.lock().unwrap() = Some(std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(&f).unwrap()));
        for s in statics() { write(&s); }
        for w in crate::all_worlds(26, deep) { run(&w, 26, st); }
        crate::grid::grids(26, deep, st);
        SINK.lock().unwrap().take().unwrap().flush().unwrap();
        match node(&b, &f) {
            Ok(c) => {
                st.relevant += c["comparisons"].as_u64().unwrap_or(0);
                st.extra.insert("decoder_comparisons".into(), c);
                None
            }
            Err((m, rec)) => { let mut v = crate::special::sv(26, "decoders", m); v.special = Some(rec); Some(v) }
        }
    })();
    let _ = std::fs::remove_dir_all(&d);
    r
}

pub fn replay26(rec: &str) -> i32 {
    let d = dir();
    let r = match bundle(&d) { Err(e) => { println!("   !! {e}"); 1 } Ok(b) => {
        let f = format!("{d}/states.jsonl");
        std::fs::write(&f, format!("{rec}\n")).unwrap();
        match node(&b, &f) { Ok(_) => { println!("holds"); 0 } Err((m, _)) => { println!("   !! C26: {m}"); 1 } }
    } };
    let _ = std::fs::remove_dir_all(&d);
    r
}
