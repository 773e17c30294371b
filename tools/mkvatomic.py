#!/usr/bin/env python3
"""Writes harness/_internal/vatomic/vatomic.go, which stands in for sync/atomic in the instrumented copy of the library."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['''// Package vatomic stands in for package sync/atomic in the instrumented copy of the library: other threads may run before
// each operation, even between two operations of one statement.
//
// Written by tools/mkvatomic.py.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/zzverif/zzsched"
)
''']
def w(s): out.append(s)
def typ(name, t, recv=None, inner=None, nums=False, cas=True):
    recv, inner = recv or name, inner or "atomic." + name
    w("type %s struct{ v %s }\n" % (name if recv == name else "Pointer[T any]", inner))
    w("func (x *%s) Load() %s { zzsched.Point(); return x.v.Load() }" % (recv, t))
    w("func (x *%s) Store(v %s) { zzsched.Point(); x.v.Store(v) }" % (recv, t))
    w("func (x *%s) Swap(v %s) %s { zzsched.Point(); return x.v.Swap(v) }" % (recv, t, t))
    w("func (x *%s) CompareAndSwap(a, b %s) bool { zzsched.Point(); return x.v.CompareAndSwap(a, b) }" % (recv, t))
    if nums:
        w("func (x *%s) Add(v %s) %s { zzsched.Point(); return x.v.Add(v) }" % (recv, t, t))
        w("func (x *%s) And(v %s) %s { zzsched.Point(); return x.v.And(v) }" % (recv, t, t))
        w("func (x *%s) Or(v %s) %s { zzsched.Point(); return x.v.Or(v) }" % (recv, t, t))
    w("")
N = ["Int32", "Int64", "Uint32", "Uint64", "Uintptr"]
for n in N: typ(n, n.lower(), nums=True)
typ("Bool", "bool"); typ("Value", "any"); typ("Pointer", "*T", "Pointer[T]", "atomic.Pointer[T]")
for n in N + ["Pointer"]:
    t = "unsafe.Pointer" if n == "Pointer" else n.lower()
    w("func Load%s(p *%s) %s { zzsched.Point(); return atomic.Load%s(p) }" % (n, t, t, n))
    w("func Store%s(p *%s, v %s) { zzsched.Point(); atomic.Store%s(p, v) }" % (n, t, t, n))
    w("func Swap%s(p *%s, v %s) %s { zzsched.Point(); return atomic.Swap%s(p, v) }" % (n, t, t, t, n))
    w("func CompareAndSwap%s(p *%s, a, b %s) bool { zzsched.Point(); return atomic.CompareAndSwap%s(p, a, b) }" % (n, t, t, n))
    if n != "Pointer":
        for op in ("Add", "And", "Or"):
            w("func %s%s(p *%s, v %s) %s { zzsched.Point(); return atomic.%s%s(p, v) }" % (op, n, t, t, t, op, n))
    w("")
p = V + "/harness/_internal/vatomic/vatomic.go"
open(p, "w").write("\n".join(out))
subprocess.run(["gofmt", "-w", p], check=True)
