#!/usr/bin/env python3
"""The properties, and what MANIFEST.json says of their checks. Run by hand: rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.registry import CHECKS

SHIM = "Compiled against stand-ins for the takatori/yugawara headers, which are not installed here."
P = []

def p(id, title, statement, over, quant, tests, files, mech, observe, technique, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = state
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
               "why_tests_cant": tests, "anchors": a}, technique, note))

YY = "src/mizugaki/parser/sql_parser.yy"
LL = "src/mizugaki/parser/sql_scanner.ll"

p("C01", "A statement is parsed into exactly the tree its syntax denotes",
  "Every SQL statement of the supported language yields a syntax tree with exactly the parts that were written: each clause, operand, operator, qualifier and option at its place, nothing lost, added, reordered or exchanged. Operators bind by the documented precedence and associativity, whatever expressions they are nested in. Forms that are written twice or in places where they may not stand are rejected instead of silently dropped.",
  ["inputs"], "every sentence the SQL grammar derives: all statement kinds, all combinations of optional clauses, operators and nested expressions",
  "The tests parse one or two examples of each form; combinations of optional parts and of nested operators are unbounded, and a swapped or dropped part shows only in the combination that has it.",
  [YY, "src/mizugaki/parser/sql_driver.cpp", "include/mizugaki/ast"],
  [("grammar rules and their actions", YY), ("node construction and sign folding", "src/mizugaki/parser/sql_driver.cpp")],
  ["compilation unit returned by the parser"],
  "bounded exhaustive model checking: all derivations of a reference grammar up to a deviation bound, each replayed on the real parser and its tree compared",
  "Every derivation within the deviation bound is run on the real scanner and parser and its whole tree compared with the tree the derivation stands for. Trusts the reference grammar (mc/refgrammar.h, written from the documented syntax) and the tree reader. " + SHIM)

p("C02", "Every node's source region covers exactly the text it was parsed from",
  "Each located element of a syntax tree reports the byte range of the source text it was parsed from: from the first byte of its first token to the last byte of its last token. A parent's range covers its children's, and optional parts that were not written widen no range.",
  ["inputs"], "every sentence the grammar derives, and every node of its tree",
  "Tests compare the regions of a few nodes in a few sentences; each rule computes its own region, and a wrong one shows only in the sentence with the right optional parts.",
  [YY, "include/mizugaki/ast/node_region.h", "src/mizugaki/ast/node_region.cpp"],
  [("region expressions of the grammar actions", YY), ("union of regions", "src/mizugaki/ast/node_region.cpp")],
  ["region() of every node of the compilation unit"],
  "bounded exhaustive model checking: all derivations of a reference grammar up to a deviation bound, regions predicted by the derivation and compared on the real parser",
  "Same exploration as C01; expected regions come from token positions recorded during derivation. " + SHIM)

p("C03", "The parser accepts exactly the language of the grammar and pinpoints errors",
  "A token sequence is accepted if and only if the SQL grammar derives it. Otherwise the parser reports one error, located at the first token that cannot continue any statement (or at the end of the text), and every token it suggests there does continue the text. The number of suggestions is bounded by the configured maximum, and a longer list is marked as cut.",
  ["inputs", "programs"], "all token sequences reached by changing one token of a derivable sentence at every position, and all prefixes",
  "Rejection has no finite sample: tests hold a handful of wrong texts, while each grammar change moves the boundary somewhere else.",
  [YY, LL, "src/mizugaki/parser/sql_driver.cpp"],
  [("LALR(1) automaton", YY), ("error reporting and candidate collection", YY)],
  ["parser result, diagnostic code, location and message"],
  "explicit-state model checking of a frozen LR automaton and context rules against the real parser: every single-token edit of every covered sentence",
  "The oracle is a frozen copy of the grammar's automaton with its context rules (model/sql_model.txt), its traces replayed on the real parser. Bound: single-token deletions, insertions, substitutions and truncations at every position of a covering sentence set. " + SHIM)

p("C04", "Tokens are split off by longest match exactly as the lexical rules say",
  "Every byte sequence is split into tokens by the documented lexical rules: longest match, keywords in any letter case, contextual keywords, delimited identifiers, literals with escapes, host parameters, operators, comments and white space. Each token reports its kind, text and exact byte range, comments are reported where they stand, and bytes that start no token are reported as erroneous instead of being skipped.",
  ["inputs"], "all byte strings up to a length over an alphabet with a representative of every lexical class, and all pairs of tokens with and without space between",
  "Longest match is about what follows: an error shows only for a particular neighbour, and tests check tokens one at a time.",
  [LL, "src/mizugaki/parser/sql_scanner.cpp", "src/mizugaki/parser/sql_scanner.h"],
  [("scanner rules", LL)], ["token stream and comment list of a document"],
  "exhaustive enumeration of all short byte strings against an executable model of the lexical rules",
  "Every string over the alphabet up to the stated length is scanned by the real scanner and by an independent longest-match model (mc/reflex.h). " + SHIM)

p("C05", "Layout, comments and letter case of keywords never change the meaning",
  "Rewriting a statement with other white space, comments, line ends or keyword letter case between the same tokens yields the same tree, with only the regions moved accordingly. Comments are collected with their ranges, in order; a documentation comment is attached to the declaration it precedes and to nothing else.",
  ["inputs", "programs"], "every sentence in a covering set, with every gap replaced by every kind of separator",
  "Tests use one layout per sentence.",
  [LL, YY, "src/mizugaki/parser/sql_driver.cpp"],
  [("white space and comment rules", LL), ("description lookup", "src/mizugaki/parser/sql_driver.cpp")],
  ["compilation unit: statements, comments, descriptions"],
  "bounded exhaustive model checking: every gap of every covered sentence with every separator, and pairs of gaps, replayed on the real parser",
  "Oracle: the tree of the plain layout with its regions moved token by token. " + SHIM)

p("C06", "Any input is answered with a tree or an error, without undefined behaviour",
  "For every byte sequence the parser terminates and returns either a compilation unit or exactly one diagnostic with a non-empty message and a location inside the text, never both or neither. No input makes it crash, read or write out of bounds, throw, or behave differently when it is asked again.",
  ["inputs", "configurations"], "all short byte strings over lexical classes, all short token sequences, all truncations and byte edits of covered sentences",
  "Tests feed mostly valid text; the hostile inputs are the rest of the input space.",
  ["src/mizugaki/parser", "src/mizugaki/ast"],
  [("parser entry", "src/mizugaki/parser/sql_parser.cpp"), ("scanner", LL)],
  ["parser result"],
  "exhaustive enumeration of all short byte and token strings on the real parser under address and undefined-behaviour sanitizers",
  "Exhaustive within the stated lengths and alphabets; undefined behaviour detected by ASan/UBSan. Very deep nesting (stack exhaustion) is outside the bound. " + SHIM)

p("C07", "Names, literals, sizes and parameters keep their exact value",
  "The value of every name, literal, size, sign, placeholder and host parameter in the tree is the one written: delimited names and strings decoded, letter case and digits kept, signs folded into the number they precede, placeholders numbered by position over the whole text. Values that are not representable or that are reserved are rejected rather than altered.",
  ["inputs"], "all short spellings of each kind of value, at every place of the grammar that takes one",
  "The space of spellings is infinite and boundary values (overflow, escapes, reserved prefixes) are the ones samples miss.",
  [YY, LL, "src/mizugaki/parser/sql_driver.cpp"],
  [("name and literal conversion", "src/mizugaki/parser/sql_driver.cpp"), ("size conversion", "src/mizugaki/parser/sql_driver.cpp")],
  ["leaf values of the compilation unit"],
  "exhaustive enumeration of all short spellings against a reference conversion, replayed on the real parser",
  "All spellings up to the stated lengths over per-kind alphabets. " + SHIM)

p("C08", "Limits reject exactly the documents that exceed them",
  "With a limit on the number of elements of some kind, on the number of tree nodes or on the tree depth, a document is accepted exactly if it stays within every limit; zero means unlimited. A rejected document is reported with the limit's own error code, and the reported node count and depth are those of the tree.",
  ["inputs", "configurations"], "every covered sentence with every limit value around its true counts, for every kind of limit",
  "Off-by-one errors at each of twenty kinds of limit need a document exactly at the boundary of that kind.",
  ["src/mizugaki/parser/sql_tree_validator.cpp", YY, "src/mizugaki/parser/sql_driver.cpp", "include/mizugaki/parser/sql_parser_options.h"],
  [("element counting in list rules", YY), ("tree validator", "src/mizugaki/parser/sql_tree_validator.cpp")],
  ["parser result, diagnostic code, tree_node_count, max_tree_depth"],
  "bounded exhaustive model checking: every covered sentence under every limit configuration around its predicted counts",
  "Counts come from the derivation's own tree. " + SHIM)

p("C09", "A document is the sequence of its statements, each independent of the rest",
  "Each statement of a document means exactly what it means alone, wherever it stands and whatever surrounds it, up to the position of regions and of placeholder numbers. Empty statements are kept between separators, and a document with a wrong statement fails with exactly the error this statement has alone. A parser that is used again keeps nothing from earlier documents.",
  ["programs", "histories"], "all ordered pairs of covered statements, short runs with empty statements and comments, and error positions",
  "Tests parse single statements; carried-over state (comments, placeholders, lists) needs a particular sequence.",
  [YY, "src/mizugaki/parser/sql_driver.cpp", "src/mizugaki/parser/sql_parser.cpp"],
  [("statement list rules", YY), ("driver state", "src/mizugaki/parser/sql_driver.h")],
  ["compilation unit and diagnostics of multi-statement documents"],
  "exhaustive enumeration of statement sequences (all pairs, all short runs) on the real parser against composition of single-statement trees",
  "Exhaustive over ordered pairs of the covering set and quadruples of its heads. " + SHIM)

p("C10", "Every enumeration constant prints and is looked up by its own fixed name",
  "Each constant of every public enumeration converts to its documented text, prints as exactly that text, and shares it with no other constant of the enumeration. The sets declared for an enumeration can hold every one of its constants and iterate exactly the members put in. Looking up an element kind by name finds the kind with exactly that name and nothing else.",
  ["inputs"], "all constants of all enumerations, all subsets (or all small and all nearly full ones), all names and all texts one edit away from a name",
  "Tests print one table and look up a few names; a wrong entry among several hundred goes unseen.",
  ["include/mizugaki", "src/mizugaki/ast/statement/identity_column_restart_option.cpp"],
  [("text conversion functions", "include/mizugaki/**/*.h"), ("lookup by name", "include/mizugaki/parser/sql_parser_element_kind.h")],
  ["to_string_view, operator<<, enumeration sets, find by name"],
  "exhaustive enumeration of the finite domains: all constants, subsets and near-miss names against a frozen table",
  "Complete over the constants known when the table was frozen. " + SHIM)

p("C11", "Parser options are independent, remember what was set, and default as documented",
  "Every option of the parser starts with its documented default, and after any sequence of writes through any way of access each option reads back the last value written to it and no other option has changed. The per-kind limits are twenty independent entries, reachable equally by compile-time and run-time kind, and print in declaration order.",
  ["histories", "configurations"], "all histories of option writes, moves and copies up to a depth",
  "Tests set one option once; aliasing between entries needs two writes to particular entries and a read of a third.",
  ["include/mizugaki/parser/sql_parser_options.h", "src/mizugaki/parser/sql_parser_options.cpp", "include/mizugaki/parser/sql_parser_element_kind.h"],
  [("option accessors", "src/mizugaki/parser/sql_parser_options.cpp"), ("per-kind table", "include/mizugaki/parser/sql_parser_element_kind.h")],
  ["accessors of the options and of the per-kind table"],
  "explicit-state exploration of all operation histories up to a depth on the real objects against a record model",
  "All histories of 3 (thorough 4) operations over the complete operation alphabet. " + SHIM)

AST = "include/mizugaki/ast"
p("C12", "Syntax tree nodes are values: deep copies, and equality of exactly their parts",
  "A copy of a syntax tree node has exactly the parts, options and regions of the original and shares no part with it, so that changing one leaves the other as it was; taking a tree over by move keeps all of it. Two nodes compare equal if and only if all their parts are equal, whatever their regions and descriptions, and every single difference anywhere below is noticed. Equality and inequality are consistent, symmetric and hold between a node and itself.",
  ["inputs"], "all trees of covered sentences of every statement kind, hand-made trees of classes SQL text does not reach, every change of one part of them, and all pairs of nodes of each base class",
  "The tests copy and compare one instance of a class against a handful of others; a part left out of a copy or of a comparison shows only for the pair of trees that differ in it alone.",
  [AST, "src/mizugaki/ast"],
  [("clone constructors and equality operators of the node classes", "src/mizugaki/ast/**/*.cpp"), ("comparison helpers", "src/mizugaki/ast/compare_utils.h"), ("copying of lists", "include/mizugaki/ast/common/vector.h")],
  ["clone(), operator==, operator!= of nodes, and their accessors"],
  "exhaustive enumeration of trees and of all single-part changes of them, each operation run on the real classes and judged on a model tree read back through the accessors",
  "Complete over the parts in a frozen table of the node classes, for every tree of derivations with at most 2 deviations. " + SHIM)

p("C13", "A printed syntax tree shows every part of the tree, once, under its name",
  "Serializing a node yields a well-formed sequence of events: one structure for each node, with one property for each of its parts under the part's name, holding exactly the part's value, whatever the node holds. Printing a node as text yields that same structure, without changing the node and the same each time. A document also prints its comments and where it came from.",
  ["inputs"], "all trees of covered sentences of every statement kind, every distinct part of them, and hand-made trees",
  "Tests print nodes and look at the output by eye or not at all; a part that is not printed, printed under another name or unbalanced events show only with the right optional part present.",
  [AST, "src/mizugaki/ast", "src/mizugaki/ast/common/serializers.h"],
  [("serialize() of the node classes", "src/mizugaki/ast/**/*.cpp"), ("serialization helpers", "src/mizugaki/ast/common/serializers.h")],
  ["events received by an object acceptor, and text written to a stream"],
  "exhaustive enumeration of trees, the event sequence of each checked by a protocol automaton and against the tree's parts",
  "Compares events and re-read text with the parts found through accessors. The text writer is a stand-in; the events are the code's own. " + SHIM)

p("C14", "Dispatch hands a node to the handler of exactly its own class",
  "Dispatching on a node calls the handler exactly once, with that very object as its most derived class, with the constness it came with and the extra arguments unchanged, and returns what the handler returned. This holds for every class of every family of nodes.",
  ["inputs"], "every node of all trees of covered sentences, through every base class it has, const and not",
  "A wrong entry in a dispatch table shows only for the one class it is about, and most classes are never dispatched on by tests.",
  [AST + "/scalar/dispatch.h", AST + "/statement/dispatch.h", AST + "/query/dispatch.h", AST + "/table/dispatch.h", AST + "/type/dispatch.h", AST + "/literal/dispatch.h", AST + "/name/dispatch.h"],
  [("dispatch functions", AST + "/*/dispatch.h"), ("class tags", AST)],
  ["the object, type and arguments the handler receives"],
  "exhaustive enumeration of all node classes reached by covered trees and by hand-made ones, through every dispatch function",
  "Complete over the node classes; the number of distinct classes reached is reported. " + SHIM)

p("C15", "Regions, located values, copying holders and parse results behave as values",
  "The union of two regions is the smallest region that covers both, and a missing region adds nothing. Located values compare, hash and print as their value and keep their own region; holders and documents copy deeply, never share an element and lose nothing when moved or assigned. A parse result holds a tree or a diagnostic, which stay valid together with their source text after the parser and its input are gone.",
  ["histories", "inputs"], "all triples of small regions, all values with all regions, all operation histories of two holders or documents up to a depth, and all parse results of a set of right and wrong texts",
  "Tests touch these carriers in passing; sharing and stale state need a particular sequence of copies, moves and changes.",
  [AST + "/node_region.h", "src/mizugaki/ast/node_region.cpp", AST + "/common", AST + "/compilation_unit.h", "src/mizugaki/ast/compilation_unit.cpp", "src/mizugaki/parser/sql_parser_result.cpp", "src/mizugaki/parser/sql_parser_diagnostic.cpp"],
  [("union and sub region", "src/mizugaki/ast/node_region.cpp"), ("located values", AST + "/common/regioned.h"), ("copying holders", AST + "/common/clone_wrapper.h"), ("results", "src/mizugaki/parser/sql_parser_result.cpp")],
  ["the values' own accessors and operators"],
  "exhaustive enumeration of small values and explicit-state exploration of all operation histories up to a depth on the real objects, under address and undefined-behaviour checking, against plain models",
  "All histories of 5 holder operations (thorough 6), all region triples over positions 0-6 and none (thorough 0-9). " + SHIM)

exec(open(os.path.join(V, "tools/props_more.py")).read()) if os.path.exists(os.path.join(V, "tools/props_more.py")) else None

NA = []

def main():
    P.sort(key=lambda x: x[0]["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for o, _, _ in P:
            assert len(o["title"]) <= 80, (o["id"], len(o["title"]))
            f.write(json.dumps(o) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": NA,
         "notes": "run.py builds from /repo's working tree with ninja into /verif/build (ignored by git). No hooks are needed in /repo."}
    for o, t, n in P:
        i = o["id"]
        if i not in CHECKS:
            if i not in [x["property"] for x in NA]:
                NA.append({"property": i, "reason": "check under construction"})
            continue
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    ids = [o["id"] for o, _, _ in P]
    assert all(i in ids for i in CHECKS), [i for i in CHECKS if i not in ids]
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for o, _, _ in P: jsonschema.validate(o, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(P), "properties,", len(m["checks"]), "checks")

main()
