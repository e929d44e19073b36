#!/usr/bin/env python3
"""check.py <property> [--keep]: decides one property.

1. builds the harness from /repo's working tree (hooks on),
2. records traces of the real code under systematically chosen schedules / inputs,
3. has TLC check every trace against the specification,
4. has TLC check the specification's own invariants exhaustively within small constants,
5. writes evidence/<property>.json; exit 0 held, 1 violated (VIOLATION line), 2 error of the check.
"""
import json, os, re, subprocess, sys, time, shutil, signal, concurrent.futures as cf
from collections import Counter
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from registry import CHECKS, SUITES
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = max(2, min(8, os.cpu_count() or 4))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

class ToolError(Exception): pass

def log(*a): print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)

def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(V, "target"), CARGO_TERM_COLOR="never",
               RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"))
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    for flags in ("--cfg futures_verif -Awarnings", "-Awarnings"):
        env["RUSTFLAGS"] = flags
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(V, "harness/Cargo.toml")],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            log("built", "with hooks" if "futures_verif" in flags else "WITHOUT hooks (hooked build failed)")
            return os.path.join(V, "target/debug/harness"), "futures_verif" in flags
        err = p.stdout
    sys.stdout.write(err[-4000:])
    raise ToolError("harness does not build")

def run_shard(args):
    exe, suite, opts, i, n, w = args
    out, st, status = f"{w}/{suite}.{i}.nd", f"{w}/{suite}.{i}.st", f"{w}/{suite}.{i}.status"
    cmd = [exe, SUITES[suite]["run"], f"out={out}", f"stats={st}", f"seed={SEED}", f"tier={TIER}", f"shard={i}/{n}"] + [f"{k}={v}" for k, v in opts.items()]
    limit = float(opts.get("limit", 30))
    env = dict(os.environ, STATUS=status)
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit * 2 + 180)
        rc, txt = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, txt = "timeout", ""
    return dict(suite=suite, i=i, rc=rc, txt=txt[-2000:], out=out, st=st, cmd=cmd,
                scenario=open(status).read() if os.path.exists(status) else "?")

def tlc(mod, cfg, env=None, workers=4, mem="3g", timeout=1500, tag="", depth=None):
    md = os.path.join(W, "md_" + re.sub(r"\W", "_", mod + tag))
    shutil.rmtree(md, ignore_errors=True)
    cmd = ["java", f"-Djava.io.tmpdir={W}", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", f"{V}/spec/{cfg}.cfg", f"{V}/spec/{mod}.tla"]
    e = dict(os.environ, TRACE="/dev/null", TDEBUG="0"); e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=W)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {mod}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    return p.returncode, p.stdout, (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

BASE = {"blocked": "wake", "race": "hb", "drops": "drop", "corrupt": "drop", "moved": "moved", "panic": "panic", "stuck": "hang", "livelock": "hang", "hang": "hang",
        "wakechk": "wake", "hint": "hint", "term": "fused"}
def klass(ev, seq=False, before=()):
    """What kind of statement the first unexplainable event contradicts ("a+b": either)."""
    cl = BASE.get(ev.get("e"), ev.get("c", "val"))
    if not seq and ev.get("e") == "ret": cl += {"isterm": "+fused", "hint": "+hint"}.get(ev.get("op"), "")
    if seq and ev.get("e") == "wake": cl = "wake"
    if seq and ev.get("e") == "ret" and ev.get("r") == "pend": cl = "val+wake"
    if seq and ev.get("r") == "after": cl += "+fused"      # something finished was polled again
    # something that a panic of user code led to
    if any(e.get("e") == "ipanic" or (seq and e.get("r") == "panic") for e in before) or (seq and ev.get("e") == "panic"): cl += "+upanic"
    return cl

def chunks(traces, size):
    """Contiguous chunks bounded by total number of events."""
    cur, n = [], 0
    for t in traces:
        k = t.count('"e":')
        if cur and n + k > size: yield cur; cur, n = [], 0
        cur.append(t); n += k
    if cur: yield cur

def validate(spec, lines, tag, counts):
    """Returns the indices of rejected traces."""
    size = max(20000, sum(l.count('"e":') for l in lines) // NCPU * 2 + 1)
    size = min(size, 400000)
    cs = list(chunks(lines, size))
    par = min(len(cs), max(1, NCPU // 2))
    def one(k):
        f = f"{W}/{spec}.{tag}.{k}.nd"
        with open(f, "w") as fh: fh.write("\n".join(cs[k]) + "\n")
        rc, out, st = tlc(spec, spec, {"TRACE": f}, workers=max(1, NCPU // par), mem="4g", tag=f"{tag}{k}", timeout=2400)
        if "Model checking completed. No error has been found." not in out:
            tail = "\n".join(l for l in out.splitlines() if "ACCEPT" not in l and "KNOWN" not in l)[-3000:]
            raise ToolError(f"TLC failed on {spec} traces: {tail}")
        acc = set(int(x) for x in re.findall(r'"ACCEPT", (\d+)', out))
        ids = {k["id"] for k in known()}
        for x, kf in re.findall(r'"KNOWN", (\d+), "([^"]+)"', out):
            if kf in ids and int(x) not in acc: acc.add(int(x)); counts["known_finding_traces"] += 1
        os.unlink(f)
        return [i for i in range(len(cs[k])) if i + 1 not in acc], st
    rej, base = [], 0
    with cf.ThreadPoolExecutor(par) as ex:
        for k, (r, st) in enumerate(ex.map(one, range(len(cs)))):
            counts["states"] += st[1]; counts["transitions"] += st[0]
            rej += [base + i for i in r]
            base += len(cs[k])
    return rej

def locate(spec, lines, n):
    """Where do rejected traces stop being explainable? (one TLC run for all)"""
    f = f"{W}/rej.{n}.nd"
    with open(f, "w") as fh: fh.write("\n".join(lines) + "\n")
    rc, out, _ = tlc(spec, spec, {"TRACE": f, "TDEBUG": "1"}, workers=4, mem="4g", tag=f"loc{n}", timeout=400)
    at = [1] * len(lines)
    for t, l in re.findall(r'"AT", (\d+), (\d+)', out): at[int(t) - 1] = max(at[int(t) - 1], int(l))
    return at

def known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)).get("findings", []) if os.path.exists(p) else []

def main():
    global W
    pid = sys.argv[1]
    if pid == "--setup":
        build(); return
    chk = CHECKS[pid]
    W = os.path.join(V, "work", f"{pid}.{os.getpid()}")
    os.makedirs(W, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    viol = []
    counts = Counter()
    cov = {"suites": {}, "models": {}}
    samples = []
    exe, hooked = build()
    # --- model checking of the specification itself (in the background) -------------------
    def mc(m):
        try: rc, out, st = tlc(m["mod"], m["cfg"][TIER] if isinstance(m["cfg"], dict) else m["cfg"], workers=2, mem="3g", tag="mc", timeout=m.get("timeout", 500))
        except ToolError as x: return m, 124, str(x), (0, 0)   # the model is the same on every tree: running out of time says nothing about the code
        return m, rc, out, st
    ex = cf.ThreadPoolExecutor(4)
    mcs = [ex.submit(mc, m) for m in chk.get("mc", [])]
    # --- traces of the real code -----------------------------------------------------------
    jobs = []
    for s in chk["suites"]:
        su = SUITES[s]
        if su.get("hooked") and not hooked:
            cov["suites"][s] = {"skipped": "needs hooks"}
            continue
        opts = dict(su.get(TIER, {}))
        opts.update(chk.get("opts", {}).get(TIER + ("_seq" if su.get("seq") else ""), {}))
        n = su.get("shards", NCPU)
        jobs += [(exe, s, opts, i, n, W) for i in range(n)]
    with cf.ThreadPoolExecutor(NCPU) as pool: res = list(pool.map(run_shard, jobs))
    lines = {}
    # a crash or hang of the code under test ends the harness process: confirmed by running one such part of each suite again
    first = {}
    for j, r in zip(jobs, res):
        if r["rc"] != 0: first.setdefault(r["suite"], j)
    with cf.ThreadPoolExecutor(NCPU) as pool: again = list(pool.map(run_shard, first.values()))
    for r2 in again:
        if r2["rc"] == 2: raise ToolError(f"harness error in {r2['suite']}: {r2['txt']}")
        if r2["rc"] == 0: continue
        f = f"{V}/work/replay_{pid}_crash_{r2['suite']}.json"
        json.dump({"kind": "crash", "rc": r2["rc"], "cmd": r2["cmd"], "scenario": r2["scenario"], "output": r2["txt"]}, open(f, "w"), indent=1)
        viol.append((f, f"process {'hangs' if r2['rc'] in (77, 'timeout') else 'died'} (rc={r2['rc']}) in scenario {r2['scenario']}"))
    for r in again + [r for j, r in zip(jobs, res) if j not in first.values()]:
        if os.path.exists(r["out"]):
            good = []
            for l in open(r["out"]):
                l = l.rstrip("\n")
                if l.endswith("]}"): good.append(l)
            lines.setdefault(r["suite"], []).extend(good)
            os.unlink(r["out"])
        if os.path.exists(r["st"]):
            st = json.load(open(r["st"]))
            c = cov["suites"].setdefault(r["suite"], Counter())
            c["executions"] += st["execs"]; c["steps"] += st["steps"]
            c["scenarios"] += len(st["scenarios"]); c["scenarios_exhausted_within_bound"] += sum(1 for x in st["scenarios"] if x.get("exhausted"))
            c["nondeterministic_replays"] += sum(1 for x in st["scenarios"] if x.get("nondet"))
    log("recorded", {s: len(v) for s, v in lines.items()})
    # --- trace validation ------------------------------------------------------------------
    total = 0
    byspec = {}
    for s, ls in lines.items():
        uniq = list(dict.fromkeys(ls))
        if chk.get("only"): uniq = [l for l in uniq if re.search(chk["only"], l[7:l.index('"', 7)])]
        cov["suites"].setdefault(s, Counter())["traces"] = len(uniq)
        for k in (0, len(uniq) // 2):
            if uniq and len(samples) < 6: samples.append(json.loads(uniq[k]))
        total += len(uniq)
        byspec.setdefault(SUITES[s]["spec"], []).extend((s, l) for l in uniq)
    for spec, sl in byspec.items():
        rej = validate(spec, [l for _, l in sl], pid, counts)
        log(spec, "traces", len(sl), "rejected", len(rej))
        # a few representatives per scenario, shortest first
        seen, reps = Counter(), []
        for i in sorted(rej, key=lambda i: len(sl[i][1])):
            sid = json.loads(sl[i][1])["id"]
            seen[sid] += 1
            if seen[sid] <= 12 and len(reps) < 240: reps.append(i)
        shown = Counter()
        if reps:
            for i, at in zip(reps, locate(spec, [sl[i][1] for i in reps], spec)):
                t = json.loads(sl[i][1])
                ev = t["ev"][at - 1] if at - 1 < len(t["ev"]) else {"e": "?"}
                cl = klass(ev, SUITES[sl[i][0]].get("seq", False), t["ev"][:at - 1])
                if t["cfg"].get("weak"): cl = cl + "+weak"
                hit = any(c in chk["classes"] for c in cl.split("+")) if chk.get("classes") else True
                hit = hit and not any(re.search(p, t["id"]) for p in chk.get("exclude", []))
                if chk.get("only"): hit = hit and re.search(chk["only"], t["id"]) is not None
                desc = f"{t['id']} event {at} {json.dumps(ev)} class {cl}"
                shown[t["id"] + cl] += 1
                if shown[t["id"] + cl] > 2: continue
                if not hit: log("not this property:", desc); continue
                f = f"{V}/work/replay_{pid}_{len(viol)}.json"
                json.dump({"kind": "trace", "spec": spec, "suite": sl[i][0], "rejected_at_event": at, "event": ev, "class": cl, "trace": t,
                           "rerun": f"VERIF_SEED={SEED} {exe} {SUITES[sl[i][0]]['run']} only='{t['id']}' out=/dev/stdout seed={SEED}"}, open(f, "w"), indent=1)
                viol.append((f, desc))
    for fu in mcs:
        m, rc, out, st = fu.result()
        counts["states"] += st[1]; counts["transitions"] += st[0]
        cov["models"][m["cfg"] if isinstance(m["cfg"], str) else m["cfg"][TIER]] = {"distinct_states": st[1], "states_generated": st[0], "result": "ok" if "No error has been found" in out else "out of time" if rc == 124 else "error"}
        if rc != 124 and "No error has been found" not in out:
            raise ToolError(f"model {m['mod']}/{m['cfg']} fails: {out[-3000:]}")
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": counts["states"], "transitions": counts["transitions"], "traces_validated_against_impl": total, "samples": samples,
                       "traces_showing_a_known_finding": counts["known_finding_traces"], "suites": {k: dict(v) for k, v in cov["suites"].items()}, "models": cov["models"], "hooks_compiled_in": hooked,
                       "executions_of_real_code": sum(v.get("executions", 0) for v in cov["suites"].values())},
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    shutil.rmtree(W, ignore_errors=True)
    for k in known():
        if pid in k["properties"]: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if total == 0 and not viol: raise ToolError("no trace was recorded")
    for f, d in viol[:10]: print(f"VIOLATION property={pid} replay={f}\n  {d}")
    log("done", "violations", len(viol), "traces", total, "states", counts["states"])
    sys.exit(1 if viol else 0)

if __name__ == "__main__":
    try: main()
    except ToolError as e:
        print("CHECK ERROR:", e); shutil.rmtree(W, ignore_errors=True) if "W" in globals() else None
        sys.exit(2)
