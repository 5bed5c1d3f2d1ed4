#!/usr/bin/env python3
"""Development aid: small systematic source changes ("mutants") of /repo/program, each built and explored in scratch copies.
usage: mutate.py list | run WORKERS CORES_PER_WORKER OUT [start [step]] | edits WORKERS CORES OUT FILE.py (a dict R: name -> [(file, old, new)...], e.g. refactorings)
For each mutant: compiles? passes the stable tests? found by which check (or survives)? Results go to OUT (one JSON a line)."""
import atexit, re, sys, os, subprocess, json, shutil, threading, queue
# /repo as committed: a planted bug applied there meanwhile must not get in
SNAP = f"/tmp/mutsnap.{os.getpid()}"
SRC = f"{SNAP}/program/src"
os.makedirs(SNAP); subprocess.run(f"git -C /repo archive HEAD | tar x -C {SNAP}", shell=True, check=True)
atexit.register(shutil.rmtree, SNAP)
FILES = ["state/orderbook.rs", "state/critbit.rs", "state/event_queue.rs", "state/market_state.rs", "state.rs", "utils.rs", "entrypoint.rs", "instruction.rs", "processor.rs"] + ["processor/%s.rs" % x for x in ("cancel_order", "close_market", "consume_events", "create_market", "mass_cancel_orders", "new_order")]
SUBS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
        (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\.min\(', '.max('), (r'cmp::min', 'cmp::max'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\bBid\b', 'Ask'), (r'\bAsk\b', 'Bid'), (r'\bbids\b', 'asks'), (r'\basks\b', 'bids'), (r'find_min\b', 'find_max'), (r'find_max\b', 'find_min'),
        (r'fp32_mul_ceil', 'fp32_mul_floor'), (r'fp32_mul_floor', 'fp32_mul_ceil'), (r'<<', '>>'), (r'>>', '<<'), (r'(?<![=!<>&(])!(?=[a-z(])', ''), (r'u64::MAX', '0'), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '),
        (r'leaf_', 'inner_'), (r'inner_', 'leaf_'), (r'wrapping_add', 'wrapping_sub'), (r'\bBids\b', 'Asks'), (r'\bAsks\b', 'Bids'), (r'\.opposite\(\)', ''), (r'checked_add', 'wrapping_add'), (r'crit_bit == 0', 'crit_bit == 1'),
        (r'base_qty', 'quote_qty'), (r'quote_qty', 'base_qty'), (r'Some\(', 'None.or('), (r'as u64', 'as u32 as u64'), (r'as usize', 'as u8 as usize'), (r'as u128', 'as u32 as u128'), (r'as u32', 'as u16 as u32'), (r'is_none', 'is_some'), (r'is_some', 'is_none')]
def mutants():
    out = []
    for f in FILES:
        L = open(f"{SRC}/{f}").read().split("\n")
        skip_next = False
        for i, l in enumerate(L):
            if "#[cfg(test)]" in l: break
            s = l.strip()
            if 'target_os = "solana"' in s and "not(" not in s: skip_next = True; continue
            if skip_next: skip_next = False; continue
            if not s or s.startswith(("//", "#[", "use ", "msg!", "pub use", "pub fn", "fn ", "impl", "where", "pub struct", "type ")): continue
            for a, b in SUBS:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + b + l[m.end():]
                    if n != l: out.append((f, i, n))
            if s.endswith(";") and not s.startswith(("let", "return", "break", "continue", "}", ")", ".", "type")) and l.count("(") == l.count(")"): out.append((f, i, re.match(r"\s*", l).group() + ";"))
            if s in ("break;", "continue;"): out.append((f, i, ""))
    seen, r = set(), []
    for m in out:
        if m not in seen: seen.add(m); r.append(m)
    return r
def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 999, ""
def worker(w, cores, q, out, lock):
    d = f"/tmp/mut/{w}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(f"mkdir {d}/repo && cp -a {SNAP}/program {d}/repo/program && cp -a {SNAP}/Cargo.* {d}/repo/ 2>/dev/null; rm -rf {d}/repo/program/target; cp -a /verif/mc {d}/mc; sed -i 's#/repo/program#{d}/repo/program#' {d}/mc/Cargo.toml", shell=True)
    env = dict(os.environ, CARGO_TARGET_DIR=f"{d}/target", AOBMC_OUT=d, AOBMC_HOME=d, VERIF_TIER="quick")
    os.makedirs(f"{d}/evidence", exist_ok=True); os.makedirs(f"{d}/replays", exist_ok=True); os.makedirs(f"{d}/scratch", exist_ok=True)
    cpus = ",".join(str(w * cores + k) for k in range(cores))
    pre = f". /verif/tools/env.sh; export CARGO_TARGET_DIR={d}/target; ulimit -v 20000000; exec taskset -c {cpus} "
    pre = "bash -c '" + pre
    while True:
        try: k, (f, i, n) = q.get_nowait()
        except queue.Empty: return
        touched, r = {}, None
        if isinstance(f, list):
            r = dict(k=k)
            for p, a, b in f:
                p = p.replace("program/src/", "")
                t = touched.get(p) or open(f"{SRC}/{p}").read()
                if t.count(a) != 1: r["res"] = f"edit matches {t.count(a)} times: {a[:60]}"
                touched[p] = t.replace(a, b)
        else:
            L = open(f"{SRC}/{f}").read().split("\n"); old = L[i]; L[i] = n
            touched[f] = "\n".join(L)
            r = dict(k=k, file=f, line=i + 1, old=old.strip(), new=n.strip())
        for p, t in touched.items(): open(f"{d}/repo/program/src/{p}", "w").write(t)
        rc, o = sh(pre + "cargo build --release --offline --locked'", f"{d}/mc", env, 300)
        if "res" in r: pass
        elif rc: r["res"] = "no-build"; r["log"] = o[-600:] if len(touched) and isinstance(f, list) else ""
        else:
            rc, o = sh(pre + f"{d}/target/release/aobmc check C0'", d, env, 1800)
            m = re.search(r"VIOLATION property=(\S+)", o); r["res"] = "killed:" + m.group(1) if m else ("survives" if rc == 0 else f"rc{rc}")
            pm = re.search(r"violated in world ([^:]*): (.*)", o)
            if pm: r["why"] = pm.group(1) + ": " + pm.group(2)[:120]
        for p in touched: shutil.copy(f"{SRC}/{p}", f"{d}/repo/program/src/{p}")
        with lock: open(out, "a").write(json.dumps(r) + "\n")
if __name__ == "__main__":
    M = mutants()
    if sys.argv[1] == "list":
        for k, m in enumerate(M): print(k, m)
    else:
        W, C, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        a = int(sys.argv[5]) if len(sys.argv) > 5 and sys.argv[1] == "run" else 0; st = int(sys.argv[6]) if len(sys.argv) > 6 else 1
        done = {json.loads(l)["k"] for l in open(out)} if os.path.exists(out) else set()
        q = queue.Queue()
        if sys.argv[1] == "edits":
            g = {}; exec(open(sys.argv[5]).read(), g)
            M = [(k, (v, 0, 0)) for k, v in g["R"].items()]; st, a = 1, 0
        else: M = list(enumerate(M))[a::st]
        for k, m in M:
            if k not in done: q.put((k, m))
        lock = threading.Lock()
        T = [threading.Thread(target=worker, args=(w, C, q, out, lock)) for w in range(W)]
        [t.start() for t in T]; [t.join() for t in T]
