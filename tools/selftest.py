#!/usr/bin/env python3
"""Checks llsym against native execution: every completed path of the programs
in harness/selftest is replayed natively, and must print the same output."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("LLSYM_OUT", V + "/.build")
env = dict(os.environ, CARGO_TARGET_DIR=OUT + "/t-engine", LLSYM_OUT=OUT,
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=V + "/engine", env=env, check=True)
subprocess.run(["bash", V + "/harness/build.sh", "selftest"], env=env, check=True)
bad = 0
for e in sys.argv[1:] or subprocess.run([OUT + "/selftest"], capture_output=True, text=True).stdout.split():
    o = f"{OUT}/selftest_{e}.json"
    subprocess.run([OUT + "/t-engine/release/llsym", "--bc", OUT + "/selftest.bc", "--entry", e, "--time", "120",
                    "--records", "100000", "--max-fail", "100000", "--out", o])
    d = json.load(open(o))
    os.remove(o)
    def native(v):
        return [x.strip() for x in subprocess.run([OUT + "/selftest", e], input="".join(i["input"] + "\n" for i in v),
                                                  capture_output=True, text=True).stdout.split("END\n")][:len(v)]
    r = d["records"]
    wrong = [(x["input"], x["emit"], y) for x, y in zip(r, native(r)) if y != "DONE " + x["emit"]]
    f = d["failures"]
    wrong += [(x["input"], x, y) for x, y in zip(f, native(f)) if y.startswith("DONE")]
    ok = d["complete"] and not wrong and not d["errors_total"]
    bad += not ok
    print("ok " if ok else "BAD", e, d["paths"], "paths", len(r), "replayed", len(f), "panics", d["stopped"], wrong[:2], d["errors"][:1])
sys.exit(bad > 0)
