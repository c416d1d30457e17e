#!/usr/bin/env python3
"""Writes harness/core/events_test.go: event types with all kinds of fields, for
C16/C17. Run by hand; the output is committed."""
import random, os
R = random.Random(20240601)
SCAL = ["bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "string",
        "time.Time", "time.Duration", "nBool", "nInt", "nInt8", "nUint32", "nFloat", "nStr", "nStr"]
names = []
out = []
def scalar(): return R.choice(SCAL)
def ftype(depth, n):
    k = R.randrange(14)
    if k < 5: return scalar()
    if k == 5: return "*" + scalar()
    if k == 6: return "[]" + scalar()
    if k == 7: return "[%d]%s" % (R.choice([0, 1, 2, 3, 12]), scalar())
    if k == 8: return "map[%s]%s" % (R.choice(["string", "string", "nStr"]), scalar())
    if k == 9: return R.choice(["*[]", "*map[string]", "*[2]"]) + scalar()
    if k == 10: return R.choice(["nSlice", "nMap", "nArr"])
    if depth <= 0: return scalar()
    return ("*" if R.randrange(3) == 0 else "") + struct(depth - 1, n)
FN = ["A", "B", "Ab", "AB", "A1", "Z", "Name", "Value", "X", "Y", "Éa", "S0", "S1", "LongFieldName"]
TAGS = ["{p}", "{p}.T", "a-{p}", "{p}_x", "{p} y", "{p}.U.V", "0{p}", "ü{p}", "{p}:{p}"]
def struct(depth, n):
    fs = R.sample(FN, R.randrange(0, 6)) if R.randrange(12) else R.sample(FN, len(FN))
    body = []
    used = []
    for f in fs:
        key = f
        tag = ""
        if R.randrange(4) == 0:
            key = R.choice(TAGS).format(p=f)
            tag = ' `trace:"%s"`' % key
        if any(key == u or key.startswith(u + ".") or u.startswith(key + ".") for u in used):
            continue
        used.append(key)
        body.append("\t%s %s%s\n" % (f, ftype(depth, n), tag))
    if R.randrange(5) == 0: body.append("\tunexp int\n")
    return "struct {\n" + "".join(body) + "}"
N = 48
for i in range(N):
    if i % 3 == 0:  # several events on one span: all keys under a prefix of their own
        out.append('type ev%d struct {\n\tE %s `trace:"Ev%d"`\n}\n\nfunc (ev%d) Schema() string { return "verif%d" }\n' % (i, struct(2, i), i, i, i))
    else:
        s = struct(3, i)
        out.append('type ev%d %s\n\nfunc (ev%d) Schema() string { return "verif%d" }\n' % (i, s, i, i))
# Fields that may have no values, next to fields whose keys begin alike.
FRAGILE = ["*time.Time", "*int", "*string", "*bool", "*float64", "map[string]int", "map[nStr]time.Time", "[]string", "[]time.Duration", "[0]int", "*[]int", "*map[string]string",
           "*struct {\n\tA *time.Time\n\tB []int\n}", "struct {\n\tA *int\n\tB map[string]string\n}", "struct {\n\tZ []string\n}", "*time.Duration", "nSlice", "nMap"]
for k in FRAGILE:
    s = "struct {\n\tA %s\n\tAb time.Time\n\tA1 %s\n\tAB map[string]int\n\tLow string `trace:\"A-b\"`\n\tB %s\n\tBa []int\n\tB1 *time.Time\n\tZ bool\n}" % (k, R.choice(FRAGILE), R.choice(FRAGILE))
    i = N
    N += 1
    if i % 3 == 0:
        out.append('type ev%d struct {\n\tE %s `trace:"Ev%d"`\n}\n\nfunc (ev%d) Schema() string { return "verif%d" }\n' % (i, s, i, i, i))
    else:
        out.append('type ev%d %s\n\nfunc (ev%d) Schema() string { return "verif%d" }\n' % (i, s, i, i))
head = '''// Code generated by tools/gen_events.py; DO NOT EDIT.

package core

import (
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

type (
	nBool   bool
	nInt    int
	nInt8   int8
	nUint32 uint32
	nFloat  float64
	nStr    string
	nSlice  []int
	nMap    map[string]string
	nArr    [2]bool
)

var _ time.Time

'''
tail = "var userEvents = []appdash.Event{" + ", ".join("ev%d{}" % i for i in range(N)) + "}\n\n"
tail += "func init() {\n\tfor _, e := range userEvents {\n\t\tappdash.RegisterEvent(e)\n\t}\n}\n"
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "core", "events_test.go")
open(p, "w").write(head + "\n".join(out) + "\n" + tail)
