#!/usr/bin/env python3
"""Writes model/sql_model.txt: the pushdown automaton of the reference grammar, from the reviewed revision
of the grammar file. Run by hand when the reference grammar is revised; never by a check."""
import re, subprocess, sys, tempfile, os
import xml.etree.ElementTree as ET

yy, ll, out = sys.argv[1:4]
with tempfile.TemporaryDirectory() as d:
    subprocess.run(["bison", "-x" + d + "/g.xml", "-Wall", "-Werror", "--output=" + d + "/x.cpp", yy], check=True)
    root = ET.parse(d + "/g.xml").getroot()
scan = {}
for m in re.finditer(r'^"((?:[^"\\]|\\.)+)"\s*\{ TRACE_RETURN parser_type::make_(\w+)\(location', open(ll).read(), re.M):
    scan[m.group(2)] = m.group(1).replace('\\"', '"')
named = {}
for m in re.finditer(r'^%token\s*(?:<[^>]*>)?\s*(\w+)(?:\s+\d+)?\s+"((?:[^"\\]|\\.)+)"', open(yy).read(), re.M):
    named['"' + m.group(2) + '"'] = m.group(1)
special = {
    "UNION_JOIN": "UNION JOIN", "OUTER_APPLY": "OUTER APPLY", "DOT_ASTERISK": ".*",
    "REGULAR_IDENTIFIER": "x", "DELIMITED_IDENTIFIER": '"y"', "UNSIGNED_INTEGER": "1", "EXACT_NUMERIC_LITERAL": "1.5",
    "APPROXIMATE_NUMERIC_LITERAL": "1E2", "CHARACTER_STRING_LITERAL": "'s'", "HEX_STRING_LITERAL": "X'00'",
    "HOST_PARAMETER_NAME": ":h",
}
g = root.find("grammar")
term, nont = [], []
for t in g.find("terminals"):
    n = t.attrib["name"]
    token = named.get(n, n)
    lex = special.get(token) or scan.get(token) or "-"
    if lex == "-" and re.match(r'^"[A-Z_]+"$', n):
        lex = n[1:-1]
    if token in ("QUOTE", "DOUBLE_QUOTE"):
        lex = "-"  # only scanned where the literal is not closed
    if token == "MINUS_SIGN":
        lex = "\\-"
    if token == "QUESTION_MARK":
        lex = "?"
    term.append((n, token, lex))
for t in g.find("nonterminals"):
    nont.append(t.attrib["name"])
idx = {n: i for i, (n, _, _) in enumerate(term)}
for i, n in enumerate(nont):
    idx[n] = len(term) + i
rules = []
for r in g.find("rules"):
    rules.append((idx[r.find("lhs").text], [idx[s.text] for s in r.find("rhs") if s.tag == "symbol"]))
with open(out, "w") as f:
    f.write("# reference grammar automaton; written by tools/mkmodel.py\n")
    for n, tok, lex in term:
        show = n[1:-1].replace('\\"', '"').replace("\\\\", "\\") if n.startswith('"') else n
        f.write("T\t%s\t%s\t%s\n" % (tok, show, lex))
    for n in nont:
        f.write("N\t%s\n" % n)
    for l, rhs in rules:
        f.write("R %d %s\n" % (l, " ".join(map(str, rhs))))
    for s in root.find("automaton"):
        items = [(int(i.attrib["rule-number"]), int(i.attrib["dot"])) for i in s.find("itemset")]
        # kernel: dot > 0 or the start rule
        k = [(a, b) for a, b in items if b > 0] or items[:1]
        tr = [(idx[t.attrib["symbol"]], int(t.attrib["state"])) for t in s.find("actions").find("transitions")]
        red, dflt = [], -1
        for x in s.find("actions").find("reductions"):
            if x.attrib["enabled"] != "true":
                continue
            rule = -2 if x.attrib["rule"] == "accept" else int(x.attrib["rule"])
            if x.attrib["symbol"] == "$default":
                dflt = rule
            else:
                red.append((idx[x.attrib["symbol"]], rule))
        assert not list(s.find("actions").find("errors"))
        f.write("S %s | %s | %s | %d\n" % (" ".join("%d.%d" % x for x in k), " ".join("%d:%d" % x for x in tr),
                                            " ".join("%d:%d" % x for x in red), dflt))
print(len(term), len(nont), len(rules))
print("no lexeme:", [t[1] for t in term if t[2] == "-"])
