"""Assumed contracts of library functions (NGSolve/libstdc++), the trusted dependencies of the code under contract."""
import re, z3
import irparse
from execu import Obj, Ptr, Lin, Unsupported, ZERO, zi, NULL
I8, I32, I64, F64 = irparse.INT(8), irparse.INT(32), irparse.INT(64), irparse.DOUBLE
ETY = {"i": I32, "j": I32, "m": I64, "l": I64, "d": F64, "b": I8}

# functions whose bodies are dropped before inlining; each has an assumed contract below
OPAQUE = [r"^_ZN6ngcore9LocalHeap5AllocI.*", r"^_ZN6ngcore9LocalHeap5AllocEm$", r"^_ZN6ngcore5ArrayI.*E6ReSizeEm$", r"^_ZN6ngcore9LocalHeapD.Ev$", r"^_ZN6ngcore9HeapResetC.*", r"^_ZN6ngcore9HeapResetD.Ev$",
          r"^_ZN6ngcore9LocalHeap7CleanUpE.*", r"^_ZN6ngcore12MemoryTracer.*", r"^_ZN6ngcore9LocalHeap10GetPointerE.*", r"^_ZN6ngcore9LocalHeapC[12]EPc.*"]

def alloc(ex, st, I, tag):
    k = ("lh", I.res); st.cnt[k] = st.cnt.get(k, 0) + 1
    return Obj(f"{tag}{I.res}#{st.cnt[k]}", "raw")

def localheap(ex, st, name, args, I):
    m = re.match(r"^_ZN6ngcore9LocalHeap5AllocI(.*)EEPT_m$", name)
    if m:
        o = alloc(ex, st, I, "lh"); ty = ETY.get(m.group(1)); n = args[1]
        if ty is None:
            if m.group(1).startswith("P"): ty = irparse.PTR
            else: raise Unsupported("LocalHeap block of " + m.group(1))
        if ty.k == "ptr": raise Unsupported("LocalHeap block of pointers")
        o.kind, o.stride, o.fields, o.length = "arr", ex.mod.size(ty), {0: ty}, n
        ex.oblige(st, "size", "requested block size is not negative", zi(n) >= 0)
        ex.typed(st, o, None)
        return Ptr(o)
    if name == "_ZN6ngcore9LocalHeap5AllocEm":
        o = alloc(ex, st, I, "lh"); o.bytes = args[1]; return Ptr(o)
    if name.startswith(("_ZN6ngcore9LocalHeap", "_ZN6ngcore9HeapReset", "_ZN6ngcore12MemoryTracer", "_ZNK6ngcore12MemoryTracer")):
        return None if I.ty.k == "void" else NULL if I.ty.k == "ptr" else 0
    return NotImplemented

def array_resize(ex, st, name, args, I):
    m = re.match(r"^_ZN6ngcore5ArrayI(.*?)mE6ReSizeEm$", name)
    if not m: return NotImplemented
    this, n = args
    ty = ETY.get(m.group(1))
    if ty is None: raise Unsupported("Array of " + m.group(1))
    P = irparse.PTR
    d = ex.load(st, Ptr(this.o, this.off.add(1, 8)), P)
    a0 = ex.load(st, Ptr(this.o, this.off.add(1, 16)), I64)
    cap = z3.FreshInt("cap")
    off = this.off.const()
    if off is None: raise Unsupported("array object at symbolic offset")
    st.path.append(z3.And(cap >= zi(n), cap >= zi(a0), cap >= 0))
    if d.o is None:
        o = Obj(f"data@{this.o.key}+{off}", "arr", stride=ex.mod.size(ty), fields={0: ty}, length=None)
        o.lencell = (this.o, off + 16)
        d = Ptr(o); ex.typed(st, o, None)
    else:
        o = d.o
        if o.kind == "raw": ex.typed(st, o, ty)
        elif o.kind == "cells": ex.retype(st, o, ty)
        if o.lencell is None: o.lencell = (this.o, off + 16)
        elif o.lencell != (this.o, off + 16) : raise Unsupported("array storage moved between arrays")
    ex.store(st, Ptr(this.o, this.off.add(1, 16)), I64, cap)
    ex.store(st, Ptr(this.o, this.off.add(1, 8)), P, d)
    ex.store(st, Ptr(this.o, this.off.add(1, 24)), P, d)
    return None

DEFAULT = [localheap, array_resize]
