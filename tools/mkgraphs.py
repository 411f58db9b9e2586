#!/usr/bin/env python3
"""Writes mc/graphs/graphs.go: every type graph of the family C13 explores, as Go types."""
import itertools, os
out = ["// Code generated by tools/mkgraphs.py; DO NOT EDIT.", "package graphs", ""]
vals = []
def kind(k, t):
    return {"p": "*" + t, "s": "[]" + t, "m": "map[string]" + t, "q": "[]*" + t, "n": "map[string]*" + t, "e": "*" + t}[k]
def node(name, edges):
    fs = ["X int"]
    for i, e in enumerate(edges):
        if e is None: fs.append("E%d string" % i)
        elif e[0] == "e": fs.append(kind(*e))
        else: fs.append("E%d %s" % (i, kind(*e)))
    out.append("type %s struct { %s }" % (name, "; ".join(fs)))
def emit(names): vals.append("\t{%s}," % ", ".join(n + "{}" for n in names))
n = 0
# one node, up to two edges of six kinds
for e in itertools.product([None, "p", "s", "m", "q", "n", "e"], repeat=2):
    if e.count("e") > 1: continue
    name = "A%d" % n; n += 1
    node(name, [x and (x, name) for x in e]); emit([name])
# two nodes, two edges each: pointer or slice to either node
n = 0
for es in itertools.product([None, ("p", 0), ("p", 1), ("s", 0), ("s", 1)], repeat=4):
    if all(e is None or e[1] == 0 for e in es[:2]): continue
    names = ["B%da" % n, "B%db" % n]; n += 1
    for k in range(2): node(names[k], [e and (e[0], names[e[1]]) for e in es[2*k:2*k+2]])
    emit(names)
# two nodes, one embedded pointer each way or by map
n = 0
for es in itertools.product([None, ("p", 1), ("e", 1), ("m", 1), ("n", 1)], [None, ("p", 0)], [("p", 0), ("e", 0), ("m", 0), ("p", 1), ("e", 1)], [None, ("q", 0), ("n", 1)]):
    names = ["C%da" % n, "C%db" % n]; n += 1
    node(names[0], [e and (e[0], names[e[1]]) for e in es[:2]])
    node(names[1], [e and (e[0], names[e[1]]) for e in es[2:]])
    emit(names)
# three nodes, two pointers each
n = 0
for es in itertools.product(range(3), repeat=6):
    if es[0] == 0 and es[1] == 0 or n > 10**6: continue
    if tuple(sorted(es[0:2])) != es[0:2] or tuple(sorted(es[2:4])) != es[2:4]: continue
    names = ["D%d%s" % (n, c) for c in "abc"]; n += 1
    for k in range(3): node(names[k], [("p", names[es[2*k]]), ("p", names[es[2*k+1]])])
    emit(names)
out += ["", "// All lists every graph by its nodes.", "var All = [][]interface{}{"] + vals + ["}"]
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "graphs"); os.makedirs(p, exist_ok=True)
open(p + "/graphs.go", "w").write("\n".join(out) + "\n")
print(len(vals), "graphs")
