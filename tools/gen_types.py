#!/usr/bin/env python3
"""Generates Rust type definitions deriving SlabItem, together with an independent reference codec
(`Shape`) for each, from one abstract definition.

  gen_types.py --catalog OUT        the fixed catalogue linked into the harness
  gen_types.py --seed S -n N OUT    N random definitions (plus the hand-picked hard ones)
"""
import random, re, sys, argparse

PRIMS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "f32", "f64", "bool"]
GLAM = ["glam::Vec2", "glam::Vec3", "glam::Vec4", "glam::Quat", "glam::UVec2", "glam::UVec3", "glam::UVec4", "glam::Mat4"]

class Ty:
    def __init__(s, text, copy=True, user=None): s.t, s.copy, s.user = text, copy, user
def prim(n): return Ty(n)
def opt(t): return Ty(f"Option<{t.t}>", t.copy)
def arr(t, n): return Ty(f"[{t.t}; {n}]", t.copy)
def tup(ts): return Ty("(" + "".join(t.t + ", " for t in ts) + ")", all(t.copy for t in ts))
def idt(t): return Ty(f"crabslab::Id<{t.t}>")
def arrt(t): return Ty(f"crabslab::Array<{t.t}>")
def ph(t): return Ty(f"std::marker::PhantomData<{t.t}>")

class Def:
    """kind: 'named' | 'tuple' | 'unit' | 'enum'.  fields: [(name, Ty)].
    variants: [(name, kind, fields, discr)].  generics: [(param, bound, concrete Ty)]."""
    def __init__(s, name, kind, fields=(), variants=(), generics=(), offsets=False, default=0, copy=False, where="", extra=""):
        s.name, s.kind, s.fields, s.variants, s.generics = name, kind, list(fields), list(variants), list(generics)
        s.offsets, s.default, s.copy = offsets, default, copy
        # a where clause of the definition; further items
        s.where, s.extra = where, extra
    def concrete(s):
        return s.name + ("<" + ", ".join(g[2].t for g in s.generics) + ">" if s.generics else "")
    def ty(s): return Ty(s.concrete(), s.copy and all(g[2].copy for g in s.generics), s)

def esc(n): return n

def params(d, bound=None):
    """(decl generics, use generics) ; bound overrides the declared bounds"""
    if not d.generics: return "", ""
    def one(g):
        if g[0].startswith("const"): return g[0]
        b = " + ".join(x for x in (bound, g[1]) if x)
        # the bounds of the definition may have defaults
        return g[0] + (": " + b if b else "")
    return "<" + ", ".join(map(one, d.generics)) + ">", "<" + ", ".join(g[0].removeprefix("const ").split(":")[0] for g in d.generics) + ">"

def flds(kind, fields, vis=""):
    if kind == "named": return "{ " + ", ".join(f"{vis}{n}: {t.t}" for n, t in fields) + " }"
    if kind == "tuple": return "(" + ", ".join(f"{vis}{t.t}" for _, t in fields) + ")"
    return ""

def build(kind, path, exprs):
    """exprs: [(name, expr)]"""
    if kind == "named": return path + " { " + ", ".join(f"{n}: {e}" for n, e in exprs) + " }"
    if kind == "tuple": return path + "(" + ", ".join(e for _, e in exprs) + ")"
    return path

def sizesum(fields):
    return "0" + "".join(f" + <{t.t} as Shape>::REF_SIZE" for _, t in fields)

def emit(d):
    o = []
    decl, use = params(d)
    bdecl, _ = params(d, "Shape")
    der = ["Debug_"] if False else []
    clone = "Clone, Copy" if d.copy else "Clone"
    if d.kind != "enum":
        o.append(f"#[derive({clone}, SlabItem)]")
        if d.offsets: o.append("#[offsets]")
        body = flds(d.kind, d.fields, "pub ")
        w = " where " + d.where + " " if d.where else ""
        o.append(f"pub struct {d.name}{decl} " + (w + body if d.kind == "named" else body + w + ";"))
        db, _ = params(d, "Default")
        o.append(f"impl{db} Default for {d.name}{use}{w} {{ fn default() -> Self {{ "
                 + build(d.kind, d.name, [(n, "Default::default()") for n, _ in d.fields]) + " } }")
        o.append(f"impl{bdecl} Shape for {d.name}{use}{w} {{")
        o.append(f"    const REF_SIZE: usize = {sizesum(d.fields)};")
        o.append("    fn gen(r: &mut Rng) -> Self { let _ = &r; " + build(d.kind, d.name, [(n, "Shape::gen(r)") for n, _ in d.fields]) + " }")
        o.append("    fn enc(&self, out: &mut Vec<W>) { let _ = &out; " + " ".join(f"self.{n}.enc(out);" for n, _ in d.fields) + " }")
        o.append("    #[allow(unused_assignments, unused_mut)] fn norm(w: &[u32], out: &mut Vec<W>) { let _ = (&w, &out); let mut __o = 0usize; "
                 + " ".join(f"<{t.t} as Shape>::norm(&w[__o..], out); __o += <{t.t} as Shape>::REF_SIZE;" for _, t in d.fields) + " let _ = __o; }")
        o.append("}")
        if d.extra: o.append(d.extra)
        return "\n".join(o)
    # enum
    o.append(f"#[derive({clone}, SlabItem)]")
    vs = []
    for (n, k, fs, disc) in d.variants:
        vs.append(n + flds(k, fs) + (f" = {disc}" if disc is not None else ""))
    w = " where " + d.where + " " if d.where else ""
    o.append(f"pub enum {d.name}{decl}{w} {{ " + ", ".join(vs) + " }")
    dn, dk, dfs, _ = d.variants[d.default]
    db = ""
    if d.generics:
        db = decl
    o.append(f"impl{db} Default for {d.name}{use}{w} {{ fn default() -> Self {{ "
             + build(dk, f"{d.name}::{dn}", [(n, "Default::default()") for n, _ in dfs]) + " } }")
    mx = "0"
    for (_, _, fs, _) in d.variants:
        if fs: mx = f"cmax({mx}, {sizesum(fs)})"
    o.append(f"impl{bdecl} Shape for {d.name}{use}{w} {{")
    o.append(f"    const REF_SIZE: usize = 1 + {mx};")
    o.append(f"    fn gen(r: &mut Rng) -> Self {{ match r.below({len(d.variants)}) {{ "
             + " ".join(f"{i} => " + build(k, f"{d.name}::{n}", [(fn, "Shape::gen(r)") for fn, _ in fs]) + "," for i, (n, k, fs, _) in enumerate(d.variants))
             + " _ => unreachable!() } }")
    arms = []
    for i, (n, k, fs, _) in enumerate(d.variants):
        pat = build(k, f"{d.name}::{n}", [(fn, f"__v{j}") for j, (fn, _) in enumerate(fs)])
        arms.append(f"{pat} => {{ out.push(Some({i})); " + " ".join(f"__v{j}.enc(out);" for j in range(len(fs))) + " }")
    o.append("    fn enc(&self, out: &mut Vec<W>) { let __s = out.len(); match self { " + " ".join(arms) + " } while out.len() < __s + Self::REF_SIZE { out.push(None); } }")
    arms = []
    for i, (n, k, fs, _) in enumerate(d.variants):
        arms.append(f"{i} => {{ out.push(Some({i})); " + " ".join(f"<{t.t} as Shape>::norm(&w[__o..], out); __o += <{t.t} as Shape>::REF_SIZE;" for _, t in fs) + " }")
    o.append("    #[allow(unused_assignments, unused_mut, unused_variables)] fn norm(w: &[u32], out: &mut Vec<W>) { let __s = out.len(); let mut __o = 1usize; match w[0] { "
             + " ".join(arms) + " _ => Self::default().enc(out), } while out.len() < __s + Self::REF_SIZE { out.push(None); } }")
    o.append("}")
    if d.extra: o.append(d.extra)
    return "\n".join(o)

def upper(n):
    if n.startswith("r#"): n = n[2:]
    return n.upper()

def emit_offsets(d, defs_by_concrete):
    c = d.concrete()
    path = d.name + ("::<" + ", ".join(g[2].t for g in d.generics) + ">" if d.generics else "")
    o = [f"fn offsets_{d.name.lower()}(r: &mut Rng, ck: &mut OffCk) {{", f"    ck.begin::<{c}>(r);"]
    gm = {g[0].removeprefix("const ").split(":")[0]: g[2].t for g in d.generics}
    acc = "0usize"
    for n, t in d.fields:
        ft = re.sub(r"\b(" + "|".join(gm or ["-"]) + r")\b", lambda m: gm[m[1]], t.t)
        o.append(f"    ck.field::<{c}, {ft}>(r, \"{n}\", {path}::OFFSET_OF_{upper(n)}, {path}::SLAB_SIZE_OF_{upper(n)}, {acc}, |s| s.{n}.clone(), |s, x| s.{n} = x);")
        u = t.user
        if u is not None and u.offsets and u.kind in ("named", "tuple"):
            up = u.name + ("::<" + ", ".join(g[2].t for g in u.generics) + ">" if u.generics else "")
            ugm = {g[0]: g[2].t for g in u.generics}
            acc2 = acc
            for n2, t2 in u.fields:
                ft2 = ugm.get(t2.t, t2.t)
                o.append(f"    ck.nested::<{c}, {u.concrete()}, {ft2}>(r, \"{n}.{n2}\", {path}::OFFSET_OF_{upper(n)}, {up}::OFFSET_OF_{upper(n2)}, {acc2}, |s| s.{n}.{n2}.clone(), |s, x| s.{n}.{n2} = x);")
                acc2 += f" + <{ft2} as Shape>::REF_SIZE"
        acc += f" + <{ft} as Shape>::REF_SIZE"
    o.append("}")
    return "\n".join(o)

NAMES = ["a", "b", "c", "x", "y", "z", "id", "len", "value", "position", "size", "kind", "data", "self_", "item", "next", "parent", "color", "offset", "count", "inner", "name2", "longer_field_name", "t1", "w0"]
HARD = ["index", "slab", "hash", "slab_size", "original_index", "__hash", "__size", "r#type", "r#fn", "__0", "__1", "__field_size", "default"]

def handpicked(hard):
    """definitions the random generator reaches rarely"""
    u = prim("u32"); D = []
    P = prim
    D.append(Def("HNamed", "named", [("a", P("u32")), ("b", P("u64")), ("c", P("f32"))], offsets=True, copy=True))
    D.append(Def("HTuple", "tuple", [("0", P("u128")), ("1", P("u8")), ("2", opt(P("u16")))], offsets=True, copy=True))
    D.append(Def("HOne", "named", [("only", P("i64"))], offsets=True, copy=True))
    D.append(Def("HNest", "named", [("p", D[0].ty()), ("q", opt(D[1].ty())), ("r", arr(D[0].ty(), 3)), ("s", D[1].ty()), ("t", D[2].ty())], offsets=True))
    D.append(Def("HNest2", "tuple", [("0", prim("bool")), ("1", D[3].ty()), ("2", prim("f64"))], offsets=True))
    D.append(Def("HZst", "named", [("m", ph(P("u32"))), ("n", P("u32")), ("o", ph(P("u64"))), ("p", P("u16"))], offsets=True, copy=True))
    D.append(Def("HGen", "named", [("x", Ty("T")), ("y", P("u32")), ("z", Ty("U"))], generics=[("T", "SlabItem", tup([P("u64"), P("i8")])), ("U", "SlabItem", prim("glam::Vec3"))], offsets=True, copy=True))
    D.append(Def("HUnitEnum", "enum", variants=[("A", "unit", [], 5), ("B", "unit", [], 0), ("C", "unit", [], 9)], default=1, copy=True))
    D.append(Def("HEnum", "enum", variants=[("One", "unit", [], None), ("Two", "named", [("a", u), ("b", u)], None), ("Three", "tuple", [("0", P("u64")), ("1", u), ("2", opt(P("u64")))], None), ("Four", "tuple", [("0", D[0].ty())], None), ("Five", "named", [("m", ph(u))], None)], default=2, copy=True))
    D.append(Def("HEnumNest", "enum", variants=[("L", "tuple", [("0", D[8].ty()), ("1", P("i128"))], None), ("R", "named", [("e", opt(D[8].ty())), ("f", arr(D[8].ty(), 2))], None), ("N", "unit", [], None), ("Q", "tuple", [("0", D[7].ty()), ("1", D[7].ty())], None)], default=3))
    D.append(Def("HGenEnum", "enum", variants=[("E", "unit", [], None), ("V", "tuple", [("0", Ty("T")), ("1", P("u32"))], None), ("W", "named", [("t", Ty("T")), ("u", Ty("T"))], None)], generics=[("T", "", P("u64"))], default=0, copy=True))
    big = [(f"V{i}", "unit", [], None) for i in range(300)]
    big[137] = ("V137", "tuple", [("0", P("u64"))], None)
    big[299] = ("V299", "named", [("a", u), ("b", arr(P("u16"), 5))], None)
    D.append(Def("HBigEnum", "enum", variants=big, default=260, copy=True))
    D.append(Def("HWide", "named", [(f"f{i}", P(PRIMS[i % len(PRIMS)])) for i in range(40)], offsets=True, copy=True))
    D.append(Def("HArrs", "named", [("a0", arr(u, 0)), ("a1", arr(P("u64"), 32)), ("a2", arr(opt(P("u8")), 7)), ("a3", arr(arr(P("i16"), 3), 4))], offsets=True, copy=True))
    D.append(Def("HPtr", "named", [("id", idt(D[3].ty())), ("arr", arrt(D[8].ty())), ("m", prim("glam::Mat4")), ("q", prim("glam::Quat"))], offsets=True))
    if hard:
        D.append(Def("XUnit", "unit", copy=True))
        D.append(Def("XEmptyNamed", "named", [], copy=True))
        D.append(Def("XEmptyTuple", "tuple", [], copy=True))
        D.append(Def("XHardStruct", "named", [(n, prim(PRIMS[i])) for i, n in enumerate(["index", "slab", "hash", "slab_size", "original_index", "__hash", "r#type", "r#fn"])], offsets=True))
        D.append(Def("XHardEnum", "enum", variants=[("A", "named", [("index", u), ("slab", P("u64"))], None), ("B", "named", [("slab", u), ("index", P("f64")), ("slab_size", P("u16"))], None), ("C", "named", [("original_index", u), ("__hash", P("u64")), ("hash", u)], None), ("D", "named", [("r#type", u), ("r#fn", P("u64"))], None), ("E", "tuple", [], None), ("F", "named", [], None)], default=1))
        D.append(Def("XGenNoBound", "named", [("x", Ty("T")), ("y", P("u32")), ("z", Ty("U"))], generics=[("T", "", P("u64")), ("U", "", P("bool"))], offsets=True, copy=True))
        deep = lambda c: [("o", Ty("Option<T>")), ("a", Ty("[T; 3]")), ("i", Ty("crabslab::Id<U>")), ("t", Ty("(T, U, u8)")), ("p", Ty("std::marker::PhantomData<U>")),
                          ("r", Ty("crabslab::Array<T>")), ("n", Ty("HGenEnum<U>"))]
        dg = [("T", "SlabItem + Copy + Default", D[0].ty()), ("U", "SlabItem + Default", P("u64"))]
        D.append(Def("XGenDeep", "named", deep(0), generics=dg, offsets=True, copy=True))
        D.append(Def("XGenDeepTuple", "tuple", [(str(j), t) for j, (_, t) in enumerate(deep(0))], generics=dg, offsets=True))
        D.append(Def("XGenDeepEnum", "enum", variants=[("A", "unit", [], None), ("B", "named", deep(0), None), ("C", "tuple", [("0", Ty("T")), ("1", Ty("XGenDeep<T, U>"))], None)], generics=dg))
        D.append(Def("XWhere", "named", [("x", Ty("T")), ("y", Ty("Option<U>"))], generics=[("T", "", P("u128")), ("U", "", P("i16"))], where="T: SlabItem, U: Default,", offsets=True))
        D.append(Def("XWhereTuple", "tuple", [("0", Ty("T")), ("1", u)], generics=[("T", "", P("f64"))], where="T: Clone", offsets=True))
        D.append(Def("XWhereEnum", "enum", variants=[("A", "tuple", [("0", u)], None), ("B", "named", [("t", Ty("Option<T>"))], None)], generics=[("T", "", P("i128"))], where="T: Default"))
        D.append(Def("XConst", "named", [("k", P("u8")), ("a", Ty("[u64; N]")), ("b", Ty("[T; N]"))], generics=[("T", "SlabItem + Copy + Default", P("u16")), ("const N: usize", "", Ty("5"))],
                     where="[u64; N]: Default, [T; N]: Default + Shape, [u64; N]: Shape", offsets=True, copy=True))
        # offsets of more than 16 bits
        cube = lambda n: arr(arr(arr(u, 32), 32), n)
        D.append(Def("XHuge", "named", [("a", cube(16)), ("b", P("u8")), ("c", cube(32)), ("d", P("u16")), ("e", cube(20)), ("f", P("u64"))], offsets=True))
        # names that are used by the generated code
        inh = lambda n: (f"impl {n} {{ pub const SLAB_SIZE: usize = 77; pub fn write_slab(&self, index: usize, _: &mut [u32]) -> usize {{ index }} "
                         "pub fn read_slab(_: usize, _: &[u32]) -> Self { Default::default() } }")
        D.append(Def("XInherent", "named", [("a", u), ("b", P("u64"))], offsets=True, copy=True, extra=inh("XInherent")))
        D.append(Def("XInherentEnum", "enum", variants=[("A", "tuple", [("0", u)], None), ("B", "named", [("t", P("u64"))], None), ("C", "unit", [], None)], copy=True, extra=inh("XInherentEnum")))
        xi, xe = D[-2].ty(), D[-1].ty()
        D.append(Def("XInherentUser", "named", [("a", xi), ("b", xe), ("c", arr(xi, 2)), ("d", opt(xe)), ("e", tup([xi, xe]))], offsets=True))
        D.append(Def("XInherentUserTuple", "tuple", [("0", xe), ("1", xi), ("2", u)], offsets=True))
        D.append(Def("XInherentUserEnum", "enum", variants=[("A", "named", [("x", xi), ("e", xe)], None), ("B", "tuple", [("0", xe), ("1", xi)], None)]))
    return D

def random_defs(rng, n):
    D = []
    def rty(depth, copy=False):
        c = rng.random()
        users = [d for d in D if (not copy or d.ty().copy)]
        if depth <= 0 or c < 0.35: return prim(rng.choice(PRIMS))
        if c < 0.45: return prim(rng.choice(GLAM))
        if c < 0.55: return opt(rty(depth - 1, copy))
        if c < 0.63: return arr(rty(depth - 1, True), rng.choice([0, 1, 2, 3, 4, 5, 8, 32]))
        if c < 0.72: return tup([rty(depth - 1, copy) for _ in range(rng.choice([1, 2, 2, 3, 4, 7, 12]))])
        if c < 0.76: return idt(rty(depth - 1, True))
        if c < 0.80: return arrt(rty(depth - 1, True))
        if c < 0.83: return ph(rty(depth - 1, True))
        if users: return rng.choice(users).ty()
        return prim(rng.choice(PRIMS))
    def names(k):
        pool = NAMES + rng.sample(HARD, 5)
        rng.shuffle(pool)
        out = pool[:k]
        while len(out) < k: out.append(f"extra{len(out)}")
        return out
    for i in range(n):
        name = f"G{i}"
        copy = rng.random() < 0.6
        style = rng.choice(["named", "named", "tuple", "enum", "enum", "generic", "unit", "genum"] if i % 9 == 0 else ["named", "named", "tuple", "enum", "enum", "generic", "genum"])
        k = rng.choice([1, 1, 2, 3, 4, 5, 6, 9, 14])
        if style == "unit":
            D.append(Def(name, rng.choice(["unit", "named", "tuple"]), [], copy=copy)); continue
        if style == "named":
            D.append(Def(name, "named", [(f, rty(2, copy)) for f in names(k)], offsets=rng.random() < 0.7, copy=copy)); continue
        if style == "tuple":
            D.append(Def(name, "tuple", [(str(j), rty(2, copy)) for j in range(k)], offsets=rng.random() < 0.7, copy=copy)); continue
        if style == "generic":
            gs = [("T", rng.choice(["", "SlabItem", "SlabItem + Clone"]), rty(1, copy))]
            if rng.random() < 0.4: gs.append(("U", rng.choice(["", "SlabItem"]), rty(1, copy)))
            fs = [(f, rty(1, copy)) for f in names(k)]
            for g in gs: fs.insert(rng.randrange(len(fs) + 1), (f"g{g[0].lower()}", Ty(g[0])))
            if rng.random() < 0.5:
                D.append(Def(name, "named", fs, generics=gs, offsets=rng.random() < 0.7, copy=copy))
            else:
                D.append(Def(name, "tuple", [(str(j), t) for j, (_, t) in enumerate(fs)], generics=gs, offsets=rng.random() < 0.7, copy=copy))
            continue
        nv = rng.choice([1, 2, 3, 4, 6, 10, 24])
        vs = []
        for j in range(nv):
            vk = rng.choice(["unit", "named", "tuple", "tuple"])
            kk = rng.choice([1, 1, 2, 3, 5]) if rng.random() > 0.07 else 0
            if vk == "unit": vs.append((f"V{j}", "unit", [], None))
            elif vk == "named": vs.append((f"V{j}", "named", [(f, rty(2, copy)) for f in names(kk)], None))
            else: vs.append((f"V{j}", "tuple", [(str(q), rty(2, copy)) for q in range(kk)], None))
        if style == "genum":
            vs.insert(0, ("Unit", "unit", [], None))
            vs.append(("Gen", "named", [("g", Ty("T")), ("h", prim("u16"))], None))
            D.append(Def(name, "enum", variants=vs, generics=[("T", "", rty(1, copy))], default=0, copy=copy))
        else:
            if all(v[1] == "unit" for v in vs) and rng.random() < 0.7:
                vs = [(v[0], "unit", [], d) for v, d in zip(vs, rng.sample(range(1000), len(vs)))]
            D.append(Def(name, "enum", variants=vs, default=rng.randrange(len(vs)), copy=copy))
    return D

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--catalog", action="store_true")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-n", type=int, default=40)
    ap.add_argument("--prefix", default="crate")
    ap.add_argument("out")
    a = ap.parse_args()
    defs = handpicked(hard=not a.catalog)
    if not a.catalog:
        defs += random_defs(random.Random(a.seed), a.n)
    o = ["// @generated by tools/gen_types.py", "#![allow(non_camel_case_types, non_snake_case, dead_code, clippy::all)]"] if False else ["// @generated by tools/gen_types.py"]
    o.append(f"use {a.prefix}::offck::OffCk;")
    o.append(f"use {a.prefix}::rng::Rng;")
    o.append(f"use {a.prefix}::shape::{{cmax, Shape, Visitor, W}};")
    o.append("use crabslab::SlabItem;")
    for d in defs: o.append(emit(d))
    for d in defs:
        if d.offsets: o.append(emit_offsets(d, None))
    o.append("pub fn visit<V: Visitor>(v: &mut V) {")
    for d in defs: o.append(f"    v.visit::<{d.concrete()}>();")
    o.append("}")
    o.append("pub fn offset_checks() -> Vec<(&'static str, fn(&mut Rng, &mut OffCk))> { vec![")
    for d in defs:
        if d.offsets: o.append(f"    (\"{d.name}\", offsets_{d.name.lower()}),")
    o.append("] }")
    o.append("pub const TYPES: usize = %d;" % len(defs))
    o.append("pub const VARIANTS: usize = %d;" % sum(len(d.variants) for d in defs))
    o.append("pub const FIELDS: usize = %d;" % sum(len(d.fields) + sum(len(v[2]) for v in d.variants) for d in defs))
    open(a.out, "w").write("\n".join(o) + "\n")

main()
