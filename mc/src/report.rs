//! Evidence and replay files.
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use serde_json::{json, Value};

pub fn out_dir() -> String { std::env::var("AOBMC_OUT").unwrap_or("/verif".into()) }

pub fn act_json(a: &Act) -> Value {
    match a {
        Act::New(p) => json!({"new": {"bid": p.bid, "price": p.price, "base": p.base, "quote": p.quote, "limit": p.limit, "post_only": p.post_only, "post_allowed": p.post_allowed, "stb": p.stb, "cb": p.cb}}),
        Act::Cancel(i) => json!({"cancel": format!("{i:x}")}),
        Act::Mass(v) => json!({"mass": v.iter().map(|i| format!("{i:x}")).collect::<Vec<_>>()}),
        Act::Consume(n) => json!({"consume": n}),
        Act::Seq(n) => json!({"seq": n}),
        Act::Put(b, i, q) => json!({"put": [b, format!("{i:x}"), q]}),
        Act::Del(b, i) => json!({"del": [b, format!("{i:x}")]}),
    }
}
pub fn act_parse(v: &Value) -> Act {
    let id = |v: &Value| u128::from_str_radix(v.as_str().unwrap(), 16).unwrap();
    if let Some(n) = v.get("new") {
        let u = |k: &str| n[k].as_u64().unwrap();
        let b = |k: &str| n[k].as_bool().unwrap();
        let mut cb = [0u64; 4];
        for k in 0..4 { cb[k] = n["cb"][k].as_u64().unwrap(); }
        Act::New(NewP { bid: b("bid"), price: u("price"), base: u("base"), quote: u("quote"), limit: u("limit"), post_only: b("post_only"), post_allowed: b("post_allowed"), stb: u("stb") as u8, cb })
    } else if let Some(i) = v.get("cancel") { Act::Cancel(id(i)) }
    else if let Some(l) = v.get("mass") { Act::Mass(l.as_array().unwrap().iter().map(id).collect()) }
    else if let Some(n) = v.get("consume") { Act::Consume(n.as_u64().unwrap()) }
    else if let Some(n) = v.get("seq") { Act::Seq(n.as_u64().unwrap()) }
    else if let Some(p) = v.get("put") { Act::Put(p[0].as_bool().unwrap(), id(&p[1]), p[2].as_u64().unwrap()) }
    else if let Some(p) = v.get("del") { Act::Del(p[0].as_bool().unwrap(), id(&p[1])) }
    else { panic!("bad action {v}") }
}

pub fn pid(p: usize) -> String { format!("C{p:02}") }

pub fn write_replay(v: &Viol) -> String {
    let dir = format!("{}/replays", out_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.json", pid(v.prop));
    let cfg = v.cfg.map(|c| json!({"cb": c.lay.cb, "eqc": c.lay.eqc, "bidc": c.lay.bidc, "askc": c.lay.askc, "tick": c.tick, "min": c.min}));
    let j = json!({"property": pid(v.prop), "message": v.msg, "world": v.world, "callback": v.cb, "entry": v.entry, "continues_prefix_of_world": v.fast, "config": cfg, "special": v.special,
        "actions": v.trace.iter().map(act_json).collect::<Vec<_>>(), "readable": v.trace.iter().map(show_act).collect::<Vec<_>>()});
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    path
}

pub fn print_violation(v: &Viol) {
    let path = write_replay(v);
    println!("property {} is violated in world {}: {}", pid(v.prop), v.world, v.msg);
    for (i, a) in v.trace.iter().enumerate() { println!("  {:3} {}", i + 1, show_act(a)); }
    println!("VIOLATION property={} replay={}", pid(v.prop), path);
}

pub fn violation_exit(v: &Viol) -> ! {
    print_violation(v);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

pub fn evidence(prop: usize, st: &Stats, tier: &str, seed: u64, wall: f64, violations: usize, assumptions: &[&str]) {
    let mut cov = json!({
        "states": st.states, "transitions": st.transitions, "traces_validated_against_impl": st.validated, "samples": st.samples,
        "transitions_judged_by_this_property": st.relevant, "distinct_outcomes": st.outcomes.len(), "outcomes": st.outcomes, "worlds": st.worlds,
        "deviations_from_reference": st.deviations, "max_depth": st.max_depth, "exhaustive": true,
    });
    for (k, v) in &st.extra { cov[k] = v.clone(); }
    let j = json!({"property": pid(prop), "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": violations});
    let dir = format!("{}/evidence", out_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", pid(prop)), serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

pub fn parse_cfg(v: &Value) -> Cfg {
    let u = |k: &str| v[k].as_u64().unwrap();
    Cfg { lay: Lay { cb: u("cb") as usize, eqc: u("eqc") as usize, bidc: u("bidc") as usize, askc: u("askc") as usize }, tick: u("tick"), min: u("min") }
}
