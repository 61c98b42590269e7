#!/usr/bin/env python3
"""Writes harness/drive/eventtypes_test.go, the event types of the events driver."""
import os, random

K = {  # name -> Go type
    "s": "string", "i": "int", "f": "float64", "t": "time.Time", "d": "time.Duration",
    "ps": "*string", "pi": "*int", "pt": "*time.Time", "st": "evIn", "pst": "*evIn",
    "sl": "[]string", "sd": "[]time.Duration", "ar": "[2]string", "m": "map[string]string", "mf": "map[string]float64",
}
MORE = {
    "b": "bool", "i8": "int8", "i16": "int16", "i32": "int32", "i64": "int64", "u": "uint", "u8": "uint8", "u16": "uint16", "u32": "uint32",
    "u64": "uint64", "f32": "float32", "pb": "*bool", "pd": "*time.Duration", "pf": "*float32", "lv": "evLevel", "plv": "*evLevel",
    "slt": "[]time.Time", "sli": "[]int64", "by": "[]byte", "slf": "[]float32", "slb": "[]bool", "ai": "[3]int8", "at": "[1]time.Time",
    "mi": "map[string]int", "mt": "map[string]time.Time", "md": "map[string]time.Duration", "mb": "map[string]bool", "mu": "map[string]uint16",
    "de": "evDeep", "pde": "*evDeep", "pm": "*map[string]string", "psl": "*[]string",
    "mk": "map[evKey]string", "ml": "map[string]evLevel", "sv": "[]evLevel",
}
PATS = [("A", "AB"), ("A", "A-"), ("B", "A"), ("A B", "A")]

out = ["// Code generated by bin/gen_events.py. DO NOT EDIT.", "", "package drive", "", 'import (', '\t"time"', "", '\t"sourcegraph.com/sourcegraph/appdash"', ")", "",
       "var eventTypes = map[string]appdash.Event{}", ""]
names = []


def ident(n):
    return "F_" + "".join(c if c.isalnum() else "_" for c in n)


def emit(name, fields):
    fs, seen = [], set()
    for n, t in fields:
        if n.isidentifier() and 'A' <= n[0] <= 'Z':
            fs.append("%s %s" % (n, t))
        else:
            i = ident(n)
            while i in seen:
                i += "_"
            seen.add(i)
            fs.append('%s %s `trace:"%s"`' % (i, t, n))
    out.append("type %s struct { %s }" % (name, "; ".join(fs)))
    out.append('func (%s) Schema() string { return "%s" }' % (name, name))
    names.append(name)


for p, (a, b) in enumerate(PATS):
    for k in K:
        for j in K:
            emit("ev_%s_%s_%d" % (k, j, p + 1), [(a, K[k]), (b, K[j])])
r = random.Random(7)
ALL = dict(K, **MORE)
POOL = ["A", "AB", "A-", "A B", "A+", "ABC", "B", "a", "Z", "A~", "A_", "A/B", "0", "1", "B.C", "B.D", "X", "Name", "Msg", "Time"]
for i in range(160):
    ns = r.sample(POOL, r.randint(1, 7))
    if "B" in ns:
        ns = [n for n in ns if not n.startswith("B.")]
    emit("evr%d" % i, [(n, ALL[r.choice(sorted(ALL))]) for n in ns])
# types whose keys differ from each other's
for i in range(24):
    base = ["K", "Ka", "K-", "K a", "Kab", "L"][i % 6]
    ns = ["%s%s%d" % (base, x, i // 6) for x in ("", "x", "_", "+")][:r.randint(1, 4)]
    emit("evm%d" % i, [(n, ALL[r.choice(sorted(ALL))]) for n in ns])
out += ["", "func init() {"] + ['\teventTypes["%s"] = %s{}' % (n, n) for n in names] + ["}", ""]
open(os.path.join(os.path.dirname(__file__), "..", "harness", "drive", "eventtypes_test.go"), "w").write("\n".join(out))
os.system("gofmt -w " + os.path.join(os.path.dirname(__file__), "..", "harness", "drive", "eventtypes_test.go"))
