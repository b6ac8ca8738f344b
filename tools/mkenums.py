#!/usr/bin/env python3
"""Run by hand: freezes the texts of the enumeration constants of /repo into checks/enums.inc."""
import re, glob, os
R = "/repo/"
inc, body = [], []
SKIP = {"name_kind", "query_scope_feature"}
for root in ("include", "src"):
    for f in sorted(glob.glob(R + root + "/**/*.h", recursive=True)):
        t = re.sub(r"/\*.*?\*/", "", open(f).read(), flags=re.S)
        t = re.sub(r"//.*", "", t)
        ns = re.search(r"namespace ([\w:]+)", t)
        for m in re.finditer(r"enum class (\w+)\s*(?::\s*[\w:]+\s*)?\{(.*?)\}", t, re.S):
            if m.group(1) in SKIP: continue
            if root == "src" and m.group(1) != "value_context_kind": continue
            names = [re.match(r"\s*(\w+)", x).group(1) for x in m.group(2).split(",") if x.strip()]
            cases = dict(re.findall(r"case \w+::(\w+): return \"(.*?)\"sv", t))
            h = "#include <%s>" % os.path.relpath(f, R + root)
            if h not in inc: inc.append(h)
            T = "::" + ns.group(1) + "::" + m.group(1)
            sets = re.findall(r"using (\w+) = ::takatori::util::enum_set<\s*(\w+)", t)
            body.append("{ using T = %s; Enum<T> e(w, \"%s\");" % (T, T[2:]))
            for n in names: body.append("  e.add(T::%s, \"%s\");" % (n, cases[n]))
            body.append("  e.judge();")
            for s, of in sets:
                if of == m.group(1): body.append("  e.set<::%s::%s>();" % (ns.group(1), s))
            body.append("}")
open("/verif/checks/enums_includes.inc", "w").write("\n".join(inc) + "\n")
open("/verif/checks/enums.inc", "w").write("\n".join(body) + "\n")
