mod accts;
mod calls;
mod causes;
#[cfg(feature = "chain")]
mod calls_chain;
#[cfg(feature = "chain")]
mod chain;
mod decode;
mod dump;
mod engine;
mod env;
mod grid;
mod hooks;
#[cfg(feature = "readers")]
mod readside;
#[cfg(all(feature = "chain", feature = "readers"))]
mod readside_chain;
mod monitor;
mod report;
mod special;
mod spec;
mod worlds;
use engine::*;
use env::*;

fn run(w: &World, prop: usize, st: &mut Stats) -> Option<Viol> {
    match w.cfg.lay.cb { 32 => explore::<[u8; 32]>(w, prop, st), 24 => explore::<Cb24>(w, prop, st), _ => explore::<Cb16>(w, prop, st) }
}

fn all_worlds(prop: usize, deep: bool) -> Vec<World> {
    let Some(want) = worlds::want(prop) else { return vec![] };
    let mut ws = worlds::worlds(&want, deep, if prop == 21 { 32 } else { 16 }, prop);
    if prop == 21 { for w in ws.iter_mut() { w.entry = false; } } else { ws.extend(worlds::other_callbacks(&want, deep, prop)); }
    if prop == 26 {
        ws.extend(worlds::slab_worlds(false));
        for w in ws.iter_mut() { w.depth = w.depth.min(match w.prefix.len() { 0 => if deep { 5 } else { 4 }, 1..=20 => if deep { 4 } else { 3 }, _ => if deep { 2 } else if w.name.starts_with("wrap") { 3 } else { 1 } }); w.probes = Default::default(); w.hook = H_DUMP; }
    }
    if [0, 18, 22, 28].contains(&prop) { ws.extend(worlds::slab_worlds(deep)); }
    ws
}

/// Host and chain side by side: all worlds, all grids, market creation.
#[cfg(not(feature = "chain"))]
fn chain(_: bool, _: Option<&str>, _: &mut Stats) -> Option<Viol> { eprintln!("not built with the chain's side"); std::process::exit(3) }
#[cfg(feature = "chain")]
fn chain(deep: bool, only: Option<&str>, st: &mut Stats) -> Option<Viol> {
    // only a difference counts here; whatever host and chain do alike is the matter of other properties
    let diff = |v: Option<Viol>| v.and_then(|mut v| if v.msg.contains(chain::MARK) { v.prop = 28; Some(v) } else { None });
    for w in &mut all_worlds(28, deep) {
        if let Some(o) = only { if !w.name.contains(o) { continue; } }
        if w.name.contains("66000") { continue; }
        if !deep { w.depth = w.depth.min(match w.prefix.len() { 0 if w.name.starts_with("slab") => 6, 0 => 4, 1..=20 => 3, _ => w.depth.min(2) }); }
        if let Some(v) = diff(run(w, 28, st)) { return Some(v); }
    }
    if only.map_or(true, |o| o == "grid") { if let Some(v) = diff(grid::grids(28, deep, st)) { return Some(v); } }
    if only.map_or(true, |o| o == "accounts") { if let Some(v) = diff(special::c16(st, deep)).or_else(|| diff(special::c21(st, deep))).or_else(|| if deep { diff(special::c15(st, deep)) } else { None }) { return Some(v); } }
    None
}

/// Every refusal is asked for its cause: all worlds, all grids, wrong accounts, market creation, malformed data.
fn refusals(deep: bool, only: Option<&str>, st: &mut Stats) -> Option<Viol> {
    causes::ON.store(true, std::sync::atomic::Ordering::Relaxed);
    let mine = |v: Option<Viol>| v.and_then(|mut v| if v.prop == 29 || v.msg.contains(causes::MARK) { v.prop = 29; Some(v) } else { None });
    for w in &mut all_worlds(29, deep) {
        if let Some(o) = only { if !w.name.contains(o) { continue; } }
        if w.name.contains("66000") { continue; }
        if !deep { w.depth = w.depth.min(match w.prefix.len() { 0 => 4, 1..=20 => 3, _ => 2 }); }
        if let Some(v) = mine(run(w, 29, st)) { return Some(v); }
    }
    if only.map_or(true, |o| o == "grid") { if let Some(v) = mine(grid::grids(29, deep, st)) { return Some(v); } }
    if only.map_or(true, |o| o == "accounts") { if let Some(v) = mine(special::c16(st, deep)).or_else(|| if cfg!(feature = "builders") { mine(special::c21(st, deep)) } else { None }).or_else(|| mine(special::c15(st, deep))) { return Some(v); } }
    st.extra.insert("refusals_of_whole_instructions_judged".into(), causes::JUDGED.load(std::sync::atomic::Ordering::Relaxed).into());
    None
}

fn check(prop: usize, tier: &str, only: Option<&str>) -> (Option<Viol>, Stats) {
    let mut st = Stats::default();
    let deep = tier == "thorough";
    let sp = match prop {
        0 => {
            // development aid: everything at once, at reduced depth
            for w in &mut all_worlds(0, false) {
                if let Some(o) = only { if !w.name.contains(o) { continue; } }
                if w.name.contains("66000") { continue; }
                w.depth = w.depth.min(match w.prefix.len() { 0 if w.name.starts_with("slab") => 6, 0 => 4, 1..=20 => 3, _ => w.depth.min(2) });
                if let Some(v) = run(w, 0, &mut st) { return (Some(v), st); }
            }
            grid::grids(0, false, &mut st).or_else(|| special::c16(&mut st, deep)).or_else(|| special::c21(&mut st, deep)).or_else(|| special::c23(&mut st, deep)).or_else(|| special::c15(&mut st, deep))
        }
        29 => return (refusals(deep, only, &mut st), st),
        28 => return (chain(deep, only, &mut st), st),
        15 => special::c15(&mut st, deep),
        16 => special::c16(&mut st, deep),
        21 => special::c21(&mut st, deep),
        23 => special::c23(&mut st, deep),
        26 => return (dump::c26(&mut st, deep, &run), st),
        _ => None,
    };
    if sp.is_some() || prop == 0 { return (sp, st); }
    for w in &all_worlds(prop, deep) {
        if let Some(o) = only { if !w.name.contains(o) { continue; } }
        if let Some(v) = run(w, prop, &mut st) { return (Some(v), st); }
    }
    if only.map_or(true, |o| o == "grid") { if let Some(v) = grid::grids(prop, deep, &mut st) { return (Some(v), st); } }
    (None, st)
}

fn replay(path: &str) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    if j["property"] == "C26" { return dump::replay26(j["special"].as_str().unwrap_or("")); }
    let cfg = report::parse_cfg(&j["config"]);
    let entry = j["entry"].as_bool().unwrap();
    let acts: Vec<Act> = j["actions"].as_array().unwrap().iter().map(report::act_parse).collect();
    let fast = if j["continues_prefix_of_world"].as_bool() == Some(true) { all_worlds(j["property"].as_str().unwrap().trim_start_matches('C').parse().unwrap(), true).into_iter().find(|w| w.name == j["world"].as_str().unwrap()) } else { None };
    macro_rules! go { ($t:ty) => { replay_t::<$t>(&cfg, entry, &acts, fast) } }
    with_cb!(cfg.lay.cb, go)
}
fn replay_t<C: CbT>(cfg: &spec::Cfg, entry: bool, acts: &[Act], fast: Option<World>) -> i32 where <C as asset_agnostic_orderbook::state::orderbook::CallbackInfo>::CallbackId: PartialEq {
    let mut buf = create::<C>(&cfg.lay, cfg.tick, cfg.min).unwrap();
    let mut g = vec![];
    if let Some(w) = fast { match fast_prefix::<C>(&w) { Ok((b, gg, _)) => { buf = b; g = gg; } Err((_, m)) => { println!("   !! {m}"); return 1; } } }
    let mut issued = vec![];
    let mut bad = 0;
    for (k, a) in acts.iter().enumerate() {
        // of a very long history only the end is judged step by step
        if acts.len() > 5000 && k + 60 < acts.len() {
            if let Out::Ok(Some(Summ { id: Some(i), .. })) = exec::<C>(&mut buf, &cfg.lay, a, entry) { issued.push(i); g.push(i); }
            continue;
        }
        let pre = decode::view(&buf, &cfg.lay);
        let snap = buf.clone();
        let out = exec::<C>(&mut buf, &cfg.lay, a, entry);
        if !out.is_ok() { buf = snap; }
        let post = decode::view(&buf, &cfg.lay);
        let j = monitor::judge::<C>(&monitor::Step { cfg, pre: &pre, g: &g, act: a, out: &out, post: &post, issued: Some(&issued) });
        println!("{} -> {out}", show_act(a));
        for e in &post.q[pre.q.len().min(post.q.len())..] { println!("      event {e:x?}"); }
        for o in post.all().take(200) { println!("      {} {}", if post.bids.contains(o) { "bid" } else { "ask" }, monitor::show(o)); }
        for (p, m) in j.viol { println!("   !! {}: {m}", report::pid(p)); bad = 1; }
        if let Out::Ok(Some(Summ { id: Some(i), .. })) = out { issued.push(i); }
        g = next_ghost(&g, &pre, &post, &out);
    }
    bad
}

fn main() {
    env::init();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop: usize = args[2].trim_start_matches('C').parse().unwrap();
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let t0 = std::time::Instant::now();
            env::watch_calls(130, move || {
                let w = WHERE.lock().map(|w| w.clone()).unwrap_or_default();
                report::violation_exit(&special::sv(if prop == 0 { 20 } else { prop }, &w, format!("an instruction or query does not terminate (in {w})")));
            });
            let (v, st) = check(prop, &tier, args.get(3).map(|s| s.as_str()));
            report::evidence(prop, &st, &tier, seed, t0.elapsed().as_secs_f64(), v.is_some() as usize, &[]);
            if let Some(v) = v { report::violation_exit(&v); }
            println!("{} held: {} states, {} transitions, {} judged, {} traces replayed, {:.1}s", report::pid(prop), st.states, st.transitions, st.relevant, st.validated, t0.elapsed().as_secs_f64());
        }
        Some("replay") => std::process::exit(replay(&args[2])),
        _ => { eprintln!("usage: aobmc check Cnn | replay FILE"); std::process::exit(2) }
    }
}
