#!/bin/bash
# Makes an ordinary crate root out of the procedural-macro crate's lib.rs: the
# modules are used in place, the entry functions lose their attributes, and
# `proc_macro` is proc_macro2.
set -euo pipefail
mkdir -p "$1/gen"
python3 - "$1/gen/macros_root.rs.new" <<'P'
import os, re, sys
src = "/repo/packages/stylist-macros/src"
t = open(src + "/lib.rs").read()
t = re.sub(r"(?m)^#!\[.*\]\n", "", t)
t = re.sub(r"(?m)^#\[proc_macro(_error|_attribute)?\]\n", "", t)
t = re.sub(r"(?m)^use proc_macro_error::proc_macro_error;\n", "", t)

def mod(m):
    n = m.group(2)
    p = f"{src}/{n}.rs"
    if not os.path.exists(p):
        p = f"{src}/{n}/mod.rs"
    return f'#[path = "{p}"]\n{m.group(1)}mod {n};'

t = re.sub(r"(?m)^((?:pub(?:\([a-z]+\))? )?)mod (\w+);", mod, t)
t = "extern crate proc_macro2 as proc_macro;\n" + t
open(sys.argv[1], "w").write(t)
P
cmp -s "$1/gen/macros_root.rs.new" "$1/gen/macros_root.rs" || cp "$1/gen/macros_root.rs.new" "$1/gen/macros_root.rs"
