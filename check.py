#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's working tree.

Builds llsym (the symbolic executor) and the harness crates, executes each
harness of the property symbolically, replays every failing input against the
native build of the same code, and writes evidence/ID.json.
Exit: 0 held on everything explored, 1 VIOLATION, 2 error of the check.
"""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import PROPS  # noqa: E402

OUT = os.environ.get("LLSYM_OUT", os.path.join(V, ".build"))
os.environ["LLSYM_OUT"] = OUT
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
LIMIT = {"quick": 820, "thorough": 6 * 3600}[TIER]


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


def build_engine():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(OUT, "t-engine"), RUSTFLAGS="-Awarnings",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
    r = run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"), env=env)
    if r.returncode:
        die("engine build failed\n" + r.stderr[-4000:])
    return os.path.join(OUT, "t-engine/release/llsym")


def build_harness(crate, entries):
    r = run(["bash", os.path.join(V, "harness/build.sh"), crate] + entries)
    if r.returncode:
        die(f"harness {crate} build failed\n" + r.stderr[-4000:])


def native(crate, entry, inputs, show=False, timeout=600):
    """Replays inputs; one result string per input."""
    if not inputs:
        return []
    cmd = [os.path.join(OUT, crate), entry] + (["--show"] if show else [])
    try:
        o = run(cmd, input="".join(i + "\n" for i in inputs), timeout=timeout).stdout
    except subprocess.TimeoutExpired:
        die("native replay timed out")
    b = [x.strip() for x in o.split("END\n")]
    return b[: len(inputs)]


def demangle(names):
    if not names:
        return []
    o = run(["/usr/bin/llvm-cxxfilt"], input="\n".join(names)).stdout.split("\n")
    return o[: len(names)]


def known():
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def main():
    pid = sys.argv[1]
    only = sys.argv[2:]
    if pid not in PROPS:
        die("unknown property " + pid)
    P = PROPS[pid]
    entries = [e for e in P["entries"] if TIER == "thorough" or not e.get("thorough")]
    if only:
        entries = [e for e in P["entries"] if e["entry"] in only]
    llsym = build_engine()
    for c in sorted({e["crate"] for e in entries}):
        build_harness(c, [e["entry"] for e in entries if e["crate"] == c])
    t_build = time.time() - T0
    kf = [k for k in known() if k["property"] == pid]
    seen_kf = {}
    violations, notes = [], []
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], infeasible_paths=0,
               solver=dict(queries=0, sat_by_byte_sets=0, unsat_by_certified_byte_sets=0, cached=0, z3_sat=0, z3_unsat=0, z3_unknown=0, z3_s=0.0),
               ir_steps=0, harnesses=[], functions_encoded=[])
    funcs, exhaustive = set(), True
    for n, e in enumerate(entries):
        left = LIMIT - (time.time() - T0)
        if left < 15:
            notes.append(f"{e['entry']}: not run, out of time")
            exhaustive = False
            continue
        budget = min(left - 10, e.get("time", 240) if TIER == "quick" else e.get("ttime", 3600))
        out = os.path.join(OUT, f"{pid}-{e['crate']}-{e['entry']}.json")
        cmd = [llsym, "--bc", os.path.join(OUT, e["crate"] + ".bc"), "--entry", e["entry"],
               "--threads", str(os.cpu_count() or 4), "--time", str(int(budget)), "--records", "200",
               "--max-fail", str(e.get("max_fail", 100000 if kf else 40)), "--out", out]
        cmd += e.get("args", [])
        if os.path.exists(out):
            os.remove(out)
        r = run(cmd)
        try:
            d = json.load(open(out))
        except Exception:
            die(f"{e['entry']}: engine gave no result (rc={r.returncode})\n" + r.stderr[-3000:])
        s = d["solver"]
        if d["errors_total"]:
            x = d["errors"][0]
            die(f"{e['entry']}: engine error {x['msg']} on input {x['input']}\n  " + "\n  ".join(demangle(x["trace"][:12])))
        # failing inputs: replay on the native build
        fails = d["failures"]
        res = native(e["crate"], e["entry"], [f["input"] for f in fails])
        for f, b in zip(fails, res):
            last = b.split("\n")[-1] if b else ""
            bad = last.startswith(("FAIL", "PANIC", "SIGNAL"))
            if not bad:
                # the native build seeds its hash maps at random: iteration orders differ between runs
                for b in native(e["crate"], e["entry"], [f["input"]] * 64):
                    last = b.split("\n")[-1]
                    bad = last.startswith(("FAIL", "PANIC", "SIGNAL"))
                    if bad:
                        break
            if not bad:
                die(f"{e['entry']}: engine failure {f['kind']} {f['msg']} on {f['input']} does not reproduce natively: {b!r}")
            k = next((k for k in kf if k["entry"] == e["entry"] and re.search(k["match"], b)), None)
            if k:
                seen_kf.setdefault(k["id"], (k, b))
            else:
                violations.append((e, f, b))
        # the oracle met something it cannot read: no verdict from these inputs
        unread = [v for v in violations if "UNSUPPORTED" in v[2]]
        violations = [v for v in violations if "UNSUPPORTED" not in v[2]]
        if unread and not violations:
            die(f"{e['entry']}: the oracle cannot read {unread[0][2][:600]}")
        if d["failures_total"] > len(fails) and not violations:
            die(f"{e['entry']}: {d['failures_total']} failures, only {len(fails)} kept")
        # translation validation: completed paths replayed on the native build
        recs = d["records"]
        res = native(e["crate"], e["entry"], [x["input"] for x in recs])
        for x, b in zip(recs, res):
            if b.split("\n")[-1] != "DONE " + x["emit"]:
                die(f"{e['entry']}: encoding disagrees with the native build on {x['input']}: {b!r} expected {x['emit']}")
        if not d["complete"] and not d["failures_total"]:
            exhaustive = False
            notes.append(f"{e['entry']}: stopped ({d['stopped']}) after {d['paths']} paths, not exhaustive")
        # vacuity: declared situations must have been reached
        if d["complete"]:
            for c in e.get("cover", []):
                if not d["covers"].get(c):
                    if not violations:
                        die(f"{e['entry']}: vacuous, '{c}' never reached")
        if not d["done"] and not d["failures_total"]:
            die(f"{e['entry']}: no path completed")
        cov["states"] += d["done"] + d["failures_total"]
        cov["infeasible_paths"] += d["infeasible"]
        cov["transitions"] += s["queries"]
        cov["traces_validated_against_impl"] += len(recs) + len(fails)
        cov["ir_steps"] += d["steps"]
        S = cov["solver"]
        S["queries"] += s["queries"]
        S["sat_by_byte_sets"] += s["sat_by_sets"]
        S["unsat_by_certified_byte_sets"] += s["unsat_by_sets"]
        S["cached"] += s["sat_cached"] + s["unsat_cached"]
        for k in ("z3_sat", "z3_unsat", "z3_unknown"):
            S[k] += s[k]
        S["z3_s"] = round(S["z3_s"] + s["z3_s"], 2)
        S["version"] = "z3 " + d["z3"]
        funcs.update(f for f in d["functions"] if re.search(r"stylist|hmacros", f))
        cov["harnesses"].append(dict(entry=e["entry"], bound=e["bound"], exhaustive=d["complete"], paths=d["paths"],
                                     failing_paths=d["failures_total"], max_symbolic_bytes=d["max_input_bytes"],
                                     max_branches_on_a_path=d["max_branches"], max_ir_steps_on_a_path=d["max_steps"],
                                     covered=d["covers"], wall_s=round(d["wall_s"], 1)))
        for x in recs[:: max(1, len(recs) // 3)][:3]:
            cov["samples"].append(dict(harness=e["entry"], input=x["input"], emitted=x["out"][:300]))
        print(f"{e['entry']}: {d['paths']} paths, {s['queries']} queries, complete={d['complete']}, "
              f"{d['failures_total']} failing, {d['wall_s']:.1f}s", flush=True)
        if violations:
            break
    cov["functions_encoded"] = sorted(set(demangle(sorted(funcs))))
    cov["functions_encoded_count"] = len(cov["functions_encoded"])
    cov["exhaustive"] = bool(exhaustive and not violations)
    cov["notes"] = notes
    cov["known_findings"] = sorted(seen_kf)
    cov["build_s"] = round(t_build, 1)
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
              assumptions=P.get("assumptions", []) + [
                  "the optimised LLVM IR that rustc emits for the harness and /repo's crates means what the native build does (checked by replaying completed paths)",
                  "allocation succeeds; the hash function of std maps has no collisions (the Hash implementations are encoded)",
                  "bounds: " + "; ".join(f"{e['entry']}: {e['bound']}" for e in entries)],
              wall_s=round(time.time() - T0, 2), violations=len(violations))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for i in sorted(seen_kf):
        k, b = seen_kf[i]
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for x in notes:
        print("INCOMPLETE " + x)
    if violations:
        rep = os.path.join(OUT, "replay")
        os.makedirs(rep, exist_ok=True)
        for i, (e, f, b) in enumerate(violations[:5]):
            path = os.path.join(rep, f"{pid}-{i}.txt")
            with open(path, "w") as o:
                o.write(f"harness {e['crate']} {e['entry']}\ninput {f['input']}\nengine {f['kind']} {f['msg']}\nnative {b}\n"
                        f"replay: echo {f['input']} | {OUT}/{e['crate']} {e['entry']} --show\n")
            print(b[:1500])
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        sys.exit(1)
    print(f"{pid}: held on everything explored ({cov['states']} path classes, {time.time()-T0:.0f}s)")


main()
