#!/usr/bin/env python3
"""Writes harness/<v>/run/reg.go: the native registry of the harness functions;
and the v4 harnesses."""
import re, glob, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# the reader of JSON is shared
t = open(f"{root}/harness/v6/h/json.go").read()
open(f"{root}/harness/v5/h/json.go", "w").write("// Code generated by tools/reg.py from harness/v6. DO NOT EDIT.\n\n" + t)
# v4's harnesses are v5's, with a version.go of their own
for f in sorted(glob.glob(f"{root}/harness/v5/h/*.go")):
    b = os.path.basename(f)
    if b == "version.go": continue
    t = open(f).read().replace("/v5/", "/v4/").replace("v5/cmd", "v4/cmd").replace("H_C6", "H_C8").replace("H_C7", "H_C9")
    if not t.startswith("// Code"): t = "// Code generated by tools/reg.py from harness/v5. DO NOT EDIT.\n\n" + t
    open(f"{root}/harness/v4/h/{b}", "w").write(t)
for v in ("v4", "v5", "v6"):
    fs = sorted(glob.glob(f"{root}/harness/{v}/h/*.go"))
    if not fs: continue
    ns = []
    for f in fs: ns += re.findall(r"^func (H_\w+)\(\)", open(f).read(), re.M)
    o = "// Code generated by tools/reg.py from the harness functions. DO NOT EDIT.\npackage main\n\nimport \"verif/h/%s/h\"\n\nvar reg = map[string]func(){\n" % v
    w = max(len(n) for n in ns) + 3
    for n in sorted(ns): o += "\t" + ('"%s":' % n).ljust(w) + " h.%s,\n" % n
    open(f"{root}/harness/{v}/run/reg.go", "w").write(o + "}\n")
