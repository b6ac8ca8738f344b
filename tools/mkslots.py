#!/usr/bin/env python3
"""Run by hand: freezes the classes of the syntax tree and their parts into mc/ast_slots.inc."""
import re, glob, os
R = "/repo/"
out = {}
for f in sorted(glob.glob(R + "include/mizugaki/ast/**/*.h", recursive=True)):
    t = re.sub(r"/\*.*?\*/", "", open(f).read(), flags=re.S)
    t = re.sub(r"//.*", "", t)
    ns = re.search(r"namespace ([\w:]+)", t)
    for m in re.finditer(r"(?:^|\n)class (\w+)\s*(final)?\s*(?::\s*public ([\w:<>]+))?\s*\{(.*?)\n\};", t, re.S):
        cls, base, body = m.group(1), m.group(3), m.group(4)
        if cls in ("regioned", "clone_wrapper", "compilation_unit", "element", "node", "special") or base is None: continue
        if "virtual ~" in body or base == "node": continue
        acc = re.findall(r"\[\[nodiscard\]\]\s*(?!.*const&)([\w:<>,\s\*]+?)& (\w+)\(\) noexcept\s*[;{]", body)
        out[ns.group(1) + "::" + cls] = (base, [a[1] for a in acc])
for k in ("null", "empty", "default_"): out["mizugaki::ast::literal::" + k] = ("literal", [])
out.pop("mizugaki::ast::literal::special", None)
nodes = {k: v for k, v in out.items() if v[0] != "element"}
elems = {k: v for k, v in out.items() if v[0] == "element"}
with open("/verif/mc/ast_slots.inc", "w") as o:
    for name, d in (("AST_NODE", nodes), ("AST_ELEMENT", elems)):
        for k, (b, s) in sorted(d.items()):
            b = k.rsplit("::", 1)[0] + "::" + b
            o.write("%s(::%s, ::%s, %s)\n" % (name, k, b, " ".join("S(%s)" % x for x in s)))
