#!/usr/bin/env python3
"""Write the sample definitions of the derive macros (derived/samples.rs) and, from the documentation's account of
the layouts and not from the macros, their contracts (contracts/95_derived.vc) and round-trip theorems (contracts/96_derived_theorems.vc).  The fields of the samples have
types F0..F9 nothing is known about but the contract of Encode and Decode, so what is proved of a sample holds
for every choice of field types.  Run by hand after changing the table below; both outputs are committed."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class S:
    """a structure: fields are (name, type, attribute)"""

    def __init__(self, name, structure, fields, tag=None, starts=None, skips=(), tuple_=False, split=False, plain=False):
        self.name, self.structure, self.fields, self.tag, self.starts, self.skips = name, structure, fields, tag, starts, skips
        self.tuple, self.split, self.plain = tuple_, split, plain


class E:
    """an enumeration: variants are (name, kind, fields, cbortype); kind unit, named or tuple"""

    def __init__(self, name, enumtype, variants, starts=None, skips=(), plain=False):
        self.name, self.enumtype, self.variants, self.starts, self.skips, self.plain = name, enumtype, variants, starts, skips, plain


def f(names, types, attrs=None):
    return [(n, t, (attrs or {}).get(n)) for n, t in zip(names.split(), types.split())]


OPT = lambda t: f"Option<{t}>"
MANY = lambda n: [(f"f{k}", f"F{k % 3}", None) for k in range(n)]
TABLE = [
    S("FlatOne", "flat", f("x", "F0"), plain=True),
    S("FlatThree", "flat", f("x y z", "F0 F1 F2")),
    S("FlatTag", "flat", f("x", "F0"), tag=5),
    S("FlatTagBig", "flat", f("x", "F0"), tag=4294967296),
    S("FlatTuple", "flat", f("0 1", "F0 F1"), tuple_=True),
    S("FlatTagTuple", "flat", f("0", "F0"), tag=0, tuple_=True),
    S("FlatTagEdge", "flat", f("x", "F0"), tag=23),
    S("FlatTagMax", "flat", f("x", "F0"), tag=18446744073709551615),
    S("ArrNone", "array", []),
    S("ArrOne", "array", f("x", "F0")),
    S("ArrThree", "array", f("x y z", "F0 F1 F2")),
    S("ArrTuple", "array", f("0 1 2", "F0 F1 F2"), tuple_=True),
    S("ArrTag", "array", f("x y", "F0 F1"), tag=300),
    S("ArrTagSplit", "array", f("x y", "F0 F1"), tag=24, split=True),
    S("ArrTagTuple", "array", f("0 1", "F0 F1"), tag=255, tuple_=True),
    S("ArrMany", "array", MANY(25)),
    S("OptEdge", "array_lastopt", MANY(23) + f("last", OPT("F0")), tag=65536),
    S("OptOne", "array_lastopt", f("x", OPT("F0"))),
    S("OptThree", "array_lastopt", f("x y z", "F0 F1 Option<F2>")),
    S("OptTag", "array_lastopt", f("x y", "F0 Option<F1>"), tag=70000),
    S("MapTwo", "mapint", f("x y", "F0 F1", {"x": "mandatory", "y": "mandatory"})),
    S("MapMix", "mapint", f("x y z", "F0 Option<F1> F2", {"x": "mandatory", "z": "mandatory"})),
    S("MapOpts", "mapint", f("x y", "Option<F0> Option<F1>")),
    S("MapStart", "mapint", f("x y", "Option<F0> F1", {"y": "mandatory"}), starts=5),
    S("MapSkip", "mapint", f("x y z", "Option<F0> F1 Option<F2>", {"y": "mandatory"}), skips=(1, 2, 4)),
    S("MapSkipFirst", "mapint", f("x", "F0", {"x": "mandatory"}), skips=(0,)),
    S("MapTag", "mapint", f("x y", "Option<F0> F1", {"y": "mandatory"}), tag=1000, starts=22, skips=(22, 24)),
    S("MapHigh", "mapint", f("x y", "F0 Option<F1>", {"x": "mandatory"}), starts=4294967295),
    S("MapOrder", "mapint", f("x y z", "F0 Option<F1> F2", {"x": "mandatory", "z": "mandatory"}), starts=1, skips=(4, 2, 2)),
    S("MapBelow", "mapint", f("x y", "Option<F0> F1", {"y": "mandatory"}), starts=5, skips=(0, 1, 6)),
    S("MapTop", "mapint", f("x y", "Option<F0> F1", {"y": "mandatory"}), starts=18446744073709551613, skips=(18446744073709551614,)),
    S("MapEdge", "mapint", f("x y z", "Option<F0> Option<F1> Option<F2>"), starts=254, skips=(256,)),
    E("Code", "enumint", [(n, "unit", [], None) for n in "A B C".split()]),
    E("CodeStart", "enumint", [(n, "unit", [], None) for n in "A B C".split()], starts=3),
    E("CodeSkip", "enumint", [(n, "unit", [], None) for n in "A B C D".split()], starts=22, skips=(22, 24, 25)),
    E("CodeSkipTwo", "enumint", [(n, "unit", [], None) for n in "A B C".split()], skips=(1, 3)),
    E("CodeMany", "enumint", [(f"V{n}", "unit", [], None) for n in range(27)], skips=(23,)),
    E("CodeHigh", "enumint", [(n, "unit", [], None) for n in "A B C".split()], starts=4294967295),
    E("CodeEdge", "enumint", [(n, "unit", [], None) for n in "A B C".split()], starts=255, skips=(1, 256)),
    E("VarHigh", "tagvariant", [("A", "tuple", f("0", "F0"), None), ("B", "unit", [], None), ("C", "named", f("x y z w", "F1 F2 F3 F4"), None)], starts=65535),
    E("VarEdge", "tagvariant", [("A", "unit", [], None), ("B", "tuple", f("0 1 2", "F0 F0 F1"), None)], starts=22, skips=(22, 24)),
    E("Var", "tagvariant", [("A", "unit", [], None), ("B", "tuple", f("0", "F0"), None), ("C", "named", f("x y", "F1 F2"), None), ("D", "tuple", f("0 1", "F3 F4"), None)]),
    E("VarPlain", "tagvariant", [("A", "tuple", f("0", "F0"), None), ("B", "tuple", f("0", "F1"), None)], plain=True),
    E("VarSkip", "tagvariant", [("A", "tuple", f("0", "F0"), None), ("B", "unit", [], None), ("C", "named", f("x", "F1"), None)], starts=2, skips=(3, 5, 6)),
    E("VarVec", "tagvariant", [("A", "tuple", f("0 1", "Vec<F0> F1"), None), ("B", "tuple", f("0", "Vec<u8>"), None), ("C", "tuple", f("0", "Vec<u8>", {"0": 'variant = "vec"'}), None)]),
    E("TyTwo", "enumtype", [("N", "unit", [], "null"), ("P", "tuple", f("0", "F0"), "positive")]),
    E("TyAll", "enumtype", [("P", "tuple", f("0", "F0"), "positive"), ("G", "tuple", f("0", "F1"), "negative"), ("A", "tuple", f("0", "F2"), "array"), ("M", "tuple", f("0", "F3"), "map"),
                           ("T", "tuple", f("0", "F4"), "tag"), ("B", "tuple", f("0", "F5"), "bytes"), ("S", "named", f("w", "F6"), "text"), ("N", "unit", [], "null")]),
]
NF = 7


def numbers(start, skips, n):
    """counting up from the start, passing over the skipped numbers"""
    out, k = [], start or 0
    while len(out) < n:
        if k not in skips:
            out.append(k)
        k += 1
    return out


# ------------------------------------------------------------------ the definitions
def samples():
    o = ["//! Sample definitions for the derive macros; written by tools/gen_derive.py.", "#![allow(unused)]",
         "// the texts of errors are of no interest", "macro_rules! format { ($($t:tt)*) => { format_any() } }",
         "pub fn format_any() -> String { String::new() }", "use cbored::CborRepr;"]
    for k in range(NF):
        o.append(f"pub struct F{k};\nimpl cbored::Encode for F{k} {{ fn encode(&self, _: &mut cbored::Writer) {{}} }}\n"
                 f"impl cbored::Decode for F{k} {{ fn decode<'a>(_: &mut cbored::Reader<'a>) -> Result<Self, cbored::DecodeError> {{ Ok(F{k}) }} }}")
    for t in TABLE:
        at = []
        if isinstance(t, S):
            if not t.plain:
                at.append(f'structure = "{t.structure}"')
            if t.tag is not None and not t.split:
                at.append(f"tag = {t.tag}")
            if t.starts is not None:
                at.append(f"map_starts_at = {t.starts}")
        else:
            if not t.plain:
                at.append(f'enumtype = "{t.enumtype}"')
            if t.starts is not None:
                at.append(f"variant_starts_at = {t.starts}")
        at += [f"skipkey = {k}" for k in t.skips]
        o.append("#[derive(CborRepr)]")
        if isinstance(t, S) and t.split:
            o.append(f"#[cborrepr(tag = {t.tag})]")
        if at:
            o.append(f"#[cborrepr({', '.join(at)})]")
        ax = lambda a: f"#[cborrepr({a})] " if a else ""
        if isinstance(t, S):
            if t.tuple:
                o.append(f"pub struct {t.name}({', '.join(ax(a) + 'pub ' + ty for _, ty, a in t.fields)});")
            else:
                o.append(f"pub struct {t.name} {{ {', '.join(ax(a) + 'pub ' + n + ': ' + ty for n, ty, a in t.fields)} }}")
        else:
            vs = []
            for n, kind, fs, ct in t.variants:
                c = ax(f'cbortype = "{ct}"' if ct else None)
                if kind == "unit":
                    vs.append(c + n)
                elif kind == "tuple":
                    vs.append(f"{c}{n}({', '.join(ax(a) + ty for _, ty, a in fs)})")
                else:
                    vs.append(f"{c}{n} {{ {', '.join(ax(a) + m + ': ' + ty for m, ty, a in fs)} }}")
            o.append(f"pub enum {t.name} {{ {', '.join(vs)} }}")
    return "\n".join(o) + "\n"


# ------------------------------------------------------------------ the contracts
def inner(t):
    return t[7:-1] if t.startswith("Option<") else t[4:-1] if t.startswith("Vec<") else t


def as_list(ty, a):
    """is a field of this type and attribute an array of its elements"""
    return (ty.startswith("Vec<") and ty != "Vec<u8>") or a == 'variant = "vec"'


def fenc(x, ty, a):
    return f"vec_enc({x}@)" if as_list(ty, a) else f"{x}.enc()"


def fenc_ok(x, ty, a):
    return f"encs_ok({x}@)" if as_list(ty, a) else f"{x}.enc_ok()"


def fall(e, ty, a):
    return f"vec_all::<{inner(ty)}>({e})" if as_list(ty, a) else f"dec_all::<{q(ty)}>({e})"


def frel(e, ty, a, v):
    return f"elems_rel(el({e}, 0), {v}@)" if as_list(ty, a) else f"{qq(ty)}::dec_rel({e}, 0, {v})"


def q(ty):
    return ty


def qq(ty):
    return f"<{ty} as crate::Decode>"


RE = "e is ReaderError && "
ARRAY, MAP = "crate::types::Type::Array", "crate::types::Type::Map"


def ferr(e, ty, a):
    """the error for the bytes of a field; of a field that is a list only that it is one"""
    return "true" if as_list(ty, a) else f"all_rerr::<{q(ty)}>(e, {e})"


def chain(cases, last):
    """the first of these that holds decides"""
    return "".join(f"if {c} {{ {x} }} else " for c, x in cases) + f"{{ {last} }}"


def led(ty, *tail):
    """the context of a reader's failure to read a field, and what is added to it; the same of whole bytes"""
    return f"led{len(tail)}::<{ty}>(c{''.join(', ' + x for x in tail)})"


def wled(ty, *tail):
    return f"w{led(ty, *tail)}"


def alts(xs):
    return " || ".join(dict.fromkeys(xs))


MINE, ONLY = "name_of::<Self>()", "c == seq![name_of::<Self>()]"


def conj(xs):
    return " && ".join(xs) if xs else "true"


def cat(xs):
    return "(" + " + ".join(xs) + ")" if xs else "Seq::<u8>::empty()"


class Out:
    def __init__(self):
        self.o = []

    def __call__(self, *ls):
        self.o += ls


def contracts():
    o = Out()
    o("# What the derive macros generate for the sample definitions; written by tools/gen_derive.py", "FILE derived.rs")
    for k in range(NF):
        o(f"DROPITEM F{k}", "  a type of which nothing is known but the contract of the traits")
    o("PRELUDE", *PRELUDE.strip("\n").split("\n"))
    o("PRELUDE")
    for k in range(NF):
        o(f"  #[verifier::external_body] pub struct F{k};",
          f"  impl crate::Encode for F{k} {{ uninterp spec fn enc_ok(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; #[verifier::external_body] fn encode(&self, writer: &mut crate::Writer) {{ unimplemented!() }} }}",
          f"  impl crate::Decode for F{k} {{ uninterp spec fn dec_ok(s: Seq<u8>, i: int) -> bool; uninterp spec fn dec_end(s: Seq<u8>, i: int) -> int; uninterp spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool; uninterp spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool; uninterp spec fn dec_ctx(c: Seq<Seq<char>>) -> bool;",
          f"      #[verifier::external_body] fn decode<'a>(reader: &mut crate::Reader<'a>) -> Result<Self, crate::DecodeError> {{ unimplemented!() }} }}")
    for t in TABLE:
        (struct if isinstance(t, S) else enum)(o, t)
    return "\n".join(o.o) + "\n"


def tagwrap(t, x):
    return x if t.tag is None else f"hv_enc(6, canon_hv({t.tag})) + ({x})"


def struct(o, t):
    T = t.name
    tags = "C18 C04" + (" C20" if t.structure == "mapint" else "")
    n = len(t.fields)
    me = lambda nm: f"self.{nm}"
    S_, I_ = ("s", "i") if t.tag is None else ("tag_at(s, i).data", "0")
    pre = [] if t.tag is None else [f"tagged(s, i, {t.tag})"]
    end = "eoi(item(s, i))"
    o(f"PRELUDE", f"  impl {T} {{")
    if t.structure == "flat":
        ok = [fenc_ok(me(nm), ty, a) for nm, ty, a in t.fields]
        body = cat([fenc(me(nm), ty, a) for nm, ty, a in t.fields])
        es, dok, drel = "i", [], []
        if t.tag is None:
            for nm, ty, a in t.fields:
                dok.append(f"{qq(ty)}::dec_ok(s, {es})")
                drel.append(f"{qq(ty)}::dec_rel(s, {es}, v.{nm})")
                es = f"{qq(ty)}::dec_end(s, {es})"
            end = es
        else:
            (nm, ty, a), = t.fields
            dok = pre + [f"dec_all::<{ty}>({S_})"]
            drel = [f"{qq(ty)}::dec_rel({S_}, 0, v.{nm})"]
        content = body
    elif t.structure == "array":
        ok = [fenc_ok(me(nm), ty, a) for nm, ty, a in t.fields]
        body = cat([fenc(me(nm), ty, a) for nm, ty, a in t.fields])
        content = f"hv_enc(4, canon_hv({n})) + {body}"
        dok = pre + [f"arr({S_}, {I_})", f"el({S_}, {I_}).len() == {n}"] + [fall(f"el({S_}, {I_})[{k}]", ty, a) for k, (nm, ty, a) in enumerate(t.fields)]
        drel = [frel(f"el({S_}, {I_})[{k}]", ty, a, f"v.{nm}") for k, (nm, ty, a) in enumerate(t.fields)]
    elif t.structure == "array_lastopt":
        init, (ln, lt, la) = t.fields[:-1], t.fields[-1]
        li = inner(lt)
        ok = [fenc_ok(me(nm), ty, a) for nm, ty, a in init] + [f"match self.{ln} {{ Some(x) => x.enc_ok(), None => true }}"]
        es = [fenc(me(nm), ty, a) for nm, ty, a in init]
        body = f"match self.{ln} {{ Some(x) => {cat(es + ['x.enc()'])}, None => {cat(es)} }}"
        content = f"hv_enc(4, canon_hv(if self.{ln} is Some {{ {n} }} else {{ {n - 1} }})) + self.body()"
        dok = pre + [f"arr({S_}, {I_})", f"(el({S_}, {I_}).len() == {n} || el({S_}, {I_}).len() == {n - 1})"] + [fall(f"el({S_}, {I_})[{k}]", ty, a) for k, (nm, ty, a) in enumerate(init)] \
            + [f"(el({S_}, {I_}).len() == {n} ==> dec_all::<{li}>(el({S_}, {I_})[{n - 1}]))"]
        drel = [frel(f"el({S_}, {I_})[{k}]", ty, a, f"v.{nm}") for k, (nm, ty, a) in enumerate(init)] \
            + [f"(v.{ln} is Some <==> el({S_}, {I_}).len() == {n})", f"(v.{ln} is Some ==> {qq(li)}::dec_rel(el({S_}, {I_})[{n - 1}], 0, v.{ln}->Some_0))"]
    else:
        keys = numbers(t.starts, t.skips, n)
        ok, parts, cnt, fixed = [], [], [], 0
        for (nm, ty, a), k in zip(t.fields, keys):
            if a == "mandatory":
                ok.append(f"self.{nm}.enc_ok()")
                parts.append(f"(hv_enc(0, canon_hv({k})) + self.{nm}.enc())")
                fixed += 1
            else:
                ok.append(f"(self.{nm} is Some ==> self.{nm}->Some_0.enc_ok())")
                parts.append(f"(match self.{nm} {{ Some(x) => hv_enc(0, canon_hv({k})) + x.enc(), None => Seq::empty() }})")
                cnt.append(f"(if self.{nm} is Some {{ 1int }} else {{ 0 }})")
        body = cat(parts)
        o(f"      pub open spec fn count(&self) -> int {{ {' + '.join([str(fixed) + 'int'] + cnt)} }}")
        content = "hv_enc(5, canon_hv(self.count() as u64)) + self.body()"
        ks = f"mkeys({S_}, {I_})"
        dok = pre + [f"mapp({S_}, {I_})", f"keys_ok(me({S_}, {I_}), seq![{', '.join(str(k) + 'int' for k in keys)}])"]
        drel = []
        for (nm, ty, a), k in zip(t.fields, keys):
            b = inner(ty) if a != "mandatory" else ty
            dok.append(f"val_ok::<{b}>(me({S_}, {I_}), {k})")
            if a == "mandatory":
                dok.append(f"has_key(me({S_}, {I_}), {k})")
                drel.append(f"val_rel::<{b}>(me({S_}, {I_}), {k}, Some(v.{nm}))")
            else:
                drel.append(f"val_rel::<{b}>(me({S_}, {I_}), {k}, v.{nm})")
    es_ = [] if t.tag is None else [(f"!tagged(s, i, {t.tag})", RE + f"tag_err(e->ReaderError_0, s, i, {t.tag}u64)")]
    cs, last = [ONLY], "false"
    nmd = lambda nm: f'"field{nm}"@' if t.tuple else f'"{nm}"@'
    if t.structure == "flat":
        if t.tag is None:
            es, cs = "i", []
            for nm, ty, a in t.fields:
                es_.append((f"!{qq(ty)}::dec_ok(s, {es})", f"{qq(ty)}::dec_err(s, {es}, e)"))
                cs.append(led(ty, nmd(nm)))
                es = f"{qq(ty)}::dec_end(s, {es})"
        else:
            (nm, ty, a), = t.fields
            last = f"all_rerr::<{ty}>(e, {S_})"
            cs.append(led(ty, nmd(nm)))
    elif t.structure in ("array", "array_lastopt"):
        es_.append((f"!arr({S_}, {I_})", RE + f"contcause(e->ReaderError_0, {S_}, {I_}, {ARRAY})"))
        lens = f"el({S_}, {I_}).len() != {n}" + (f" && el({S_}, {I_}).len() != {n - 1}" if t.structure == "array_lastopt" else "")
        es_.append((lens, "e is Custom"))
        for k, (nm, ty, a) in enumerate(t.fields):
            b, x = (inner(ty), f"el({S_}, {I_}).len() == {n} && ") if t.structure == "array_lastopt" and k == n - 1 else (ty, "")
            es_.append((f"{x}!{fall(f'el({S_}, {I_})[{k}]', b, a)}", ferr(f"el({S_}, {I_})[{k}]", b, a)))
            cs += [f"{q(ty)[4:-1]}::dec_ctx(c)"] if as_list(ty, a) else [wled(b, nmd(nm), *([] if t.tuple else [MINE]))]
    else:
        es_.append((f"!mapp({S_}, {I_})", RE + f"contcause(e->ReaderError_0, {S_}, {I_}, {MAP})"))
        M = f"me({S_}, {I_})"
        ent = [f"!<u64 as crate::Decode>::dec_ok({M}[j].0, 0) && <u64 as crate::Decode>::dec_err({M}[j].0, 0, e)"]
        cs.append(led("u64", MINE))
        for (nm, ty, a), k in zip(t.fields, keys):
            b = inner(ty) if a != "mandatory" else ty
            ent.append(f"<u64 as crate::Decode>::dec_ok({M}[j].0, 0) && key_of({M}[j]) == {k} && !{qq(b)}::dec_ok({M}[j].1, 0) && {qq(b)}::dec_err({M}[j].1, 0, e)")
            cs.append(led(b, nmd(nm), MINE))
        last = f"e is Custom || exists|j: int| 0 <= j < {M}.len() && #[trigger] entry_at({M}, j) && ({' || '.join(f'({x})' for x in ent)})"
    err, ctx = chain(es_, last), alts(cs) or "false"
    o(f"      pub open spec fn body(&self) -> Seq<u8> {{ {body} }}",
      f"      pub open spec fn content(&self) -> Seq<u8> {{ {content} }}", "  }")
    o(f"IMPL crate::Encode for {T}", f"  open spec fn enc_ok(&self) -> bool {{ {conj(ok)} }}", f"  open spec fn enc(&self) -> Seq<u8> {{ {tagwrap(t, 'self.content()')} }}")
    # ---- encode
    o(f"FN crate::Encode for {T}::encode", f"TAGS {tags}")
    o("ENTRY", f"  proof {{ lemma_canon(); }}")
    c = 0
    listed = [(nm, ty, a) for nm, ty, a in t.fields if t.structure == "array" and as_list(ty, a)]
    if t.tag is not None:
        o(f"CLOSURE {c}", "PARAMS |writer: &mut crate::Writer|", "CENS", "  final(writer).data@ =~= old(writer).data@ + self.content()")
        c += 1
    if t.structure != "flat":
        o(f"CLOSURE {c}", "PARAMS |writer: &mut crate::Writer|", "CENS", "  final(writer).data@ =~= old(writer).data@ + self.body()")
        c += 1
    for k, (nm, ty, a) in enumerate(listed):
        vec_closure(o, c, k, f"self.{nm}@")
        c += 1
    # ---- decode
    o(f"IMPL crate::Decode for {T}", f"  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool {{ {conj(dok)} }}",
      f"  open spec fn dec_end(s: Seq<u8>, i: int) -> int {{ {end} }}",
      f"  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool {{ {err} }}",
      f"  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool {{ {ctx} }}",
      f"  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool {{ {conj(drel)} }}")
    o(f"FN crate::Decode for {T}::decode", f"TAGS {tags} C25")
    o("ENTRY", "  proof { lemma_ats_derived(); }")
    c = 0
    if t.tag is not None and t.structure in ("array", "array_lastopt", "mapint"):
        kind, ty, enc, v = ("Map", "Map", "mv_enc", "mv_wf") if t.structure == "mapint" else ("Array", "Array", "av_enc", "av_wf")
        o(f"CLOSURE {c}", "PARAMS |reader: &mut crate::Reader<'a>|", f"CRET (q: Result<crate::types::{ty}<'a>, crate::ReaderError>)", "CREQ", "  old(reader).inv()",
          "CENS", f"  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is {kind}, item(old(reader).s(), old(reader).i()))",
          "CENS [C23]", f"  q is Err ==> contcause(q->Err_0, old(reader).s(), old(reader).i(), crate::types::Type::{kind})",
          "CENS", f"  q is Ok ==> {v}(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), {enc}(q->Ok_0.v()))")
        c += 1
    for k, (nm, ty, a) in enumerate(listed):
        dec_closure(o, c, inner(ty))
        c += 1
    if t.structure == "mapint":
        fs = [(nm, inner(ty) if a != "mandatory" else ty, k) for (nm, ty, a), k in zip(t.fields, keys)]
        ksq = f"seq![{', '.join(str(k) + 'int' for k in keys)}]"
        o("LOOP 0", "DESUGAR it", "LPRE", "  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;",
          "INV", "  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())",
          "INV", "  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)",
          "INV", f"  keys_ok(e.take(n), {ksq})")
        for nm, ty, k in fs:
            o("INV", f"  val_ok::<{ty}>(e.take(n), {k}) && val_rel::<{ty}>(e.take(n), {k}, {nm})")
        rd = "reader" if True else ""
        o("INV", "  e == map.v().elems && " + ("e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))" if t.tag is None
          else f"e == me(tag_at(old($p0).s(), old($p0).i()).data, 0) && tagged(old($p0).s(), old($p0).i(), {t.tag}) && mapp(tag_at(old($p0).s(), old($p0).i()).data, 0) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))"))
        o("LENS", "  n == e.len() && e.take(n) =~= e", "LDEC", "  e.len() - n",
          "LSTART", f"  proof {{ assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, {ksq}); let keys = {ksq}; " + " ".join(f"assert(keys[{x}] == {k});" for x, (nm, ty, k) in enumerate(fs)) + " " + " ".join(f"lemma_val_step::<{ty}>(e, n, {k});" for nm, ty, k in fs) + " n = n + 1; }")


def vec_closure(o, c, k, v):
    o(f"CLOSURE {c}", "PARAMS |writer: &mut crate::Writer|", "CENS", f"  final(writer).data@ =~= old(writer).data@ + cat(encs({v}))")
    o(f"LOOP {k}", "ITER it", "INV", f"  encs_ok({v}) && it.seq().len() == {v}.len() && forall|k: int| 0 <= k < {v}.len() ==> *(#[trigger] it.seq()[k]) == {v}[k]",
      "INV", f"  writer.data@ =~= old(writer).data@ + cat(encs({v}.take(it.index@)))", "LSTART", f"  proof {{ lemma_encs({v}, it.index@); }}",
      "LPRE", f"  proof {{ assert(encs({v}.take(0)) =~= Seq::<Seq<u8>>::empty()); }}", "LAFTER", f"  proof {{ assert({v}.take({v}.len() as int) =~= {v}); }}")


def dec_closure(o, c, ty):
    o(f"CLOSURE {c}", "PARAMS |p0__: crate::Reader<'_>|", f"CRET (q: Result<{ty}, crate::DecodeError>)", "CREQ", "  p0__.inv()",
      "CENS", f"  q is Ok <==> {qq(ty)}::dec_ok(p0__.s(), p0__.i())", "CENS", f"  q is Ok ==> {qq(ty)}::dec_rel(p0__.s(), p0__.i(), q->Ok_0)",
      "CENS [C24]", f"  q is Err ==> {qq(ty)}::dec_ctx(places(q->Err_0))")


CT = {"positive": "Positive", "negative": "Negative", "array": "Array", "map": "Map", "tag": "Tag", "bytes": "Bytes", "text": "Text"}


def enum(o, t):
    T = t.name
    nums = numbers(t.starts, t.skips, len(t.variants))
    pat = lambda n, kind, fs: f"{T}::{n}" if kind == "unit" else f"{T}::{n}({', '.join('field' + m for m, _, _ in fs)})" if kind == "tuple" else f"{T}::{n} {{ {', '.join(m for m, _, _ in fs)} }}"
    fn = lambda kind, m: "field" + m if kind == "tuple" else m
    ok, body, content, dok, drel = [], [], [], [], []
    for (n, kind, fs, ct), num in zip(t.variants, nums):
        p = pat(n, kind, fs)
        ok.append(f"{p} => {conj([fenc_ok(fn(kind, m), ty, a) for m, ty, a in fs])}")
        if t.enumtype == "enumint":
            body.append(f"{p} => hv_enc(0, canon_hv({num}))")
            content = body
            drel.append(f"{p} => num_at(s, i) == {num}")
        elif t.enumtype == "tagvariant":
            body.append(f"{p} => {cat([f'hv_enc(0, canon_hv({num}))'] + [fenc(fn(kind, m), ty, a) for m, ty, a in fs])}")
            content.append(f"{p} => hv_enc(4, canon_hv({len(fs) + 1})) + self.body()")
            dok.append(f"(num_at(el(s, i)[0], 0) == {num} && el(s, i).len() == {len(fs) + 1}"
                       + "".join(" && " + fall(f"el(s, i)[{k + 1}]", ty, a) for k, (m, ty, a) in enumerate(fs)) + ")")
            drel.append(f"{p} => num_at(el(s, i)[0], 0) == {num}" + "".join(" && " + frel(f"el(s, i)[{k + 1}]", ty, a, fn(kind, m)) for k, (m, ty, a) in enumerate(fs)))
        else:
            if ct == "null":
                if kind == "unit":
                    body.append(f"{p} => seq![0xf6u8]")
                    dok.append("kind_is(s, i, crate::types::Type::Null)")
                    drel.append(f"{p} => kind_is(s, i, crate::types::Type::Null)")
                    continue
            (m, ty, a), = fs
            body.append(f"{p} => {fenc(fn(kind, m), ty, a)}")
            dok.append(f"(kind_is(s, i, crate::types::Type::{CT[ct]}) && {qq(ty)}::dec_ok(s, i))")
            drel.append(f"{p} => kind_is(s, i, crate::types::Type::{CT[ct]}) && {qq(ty)}::dec_rel(s, i, {fn(kind, m)})")
            content = body
    if not content:
        content = body
    m = lambda xs: "match self { " + ", ".join(xs) + " }"
    o("PRELUDE", f"  impl {T} {{", f"      pub open spec fn body(&self) -> Seq<u8> {{ {m(body)} }}", "  }")
    o(f"IMPL crate::Encode for {T}", f"  open spec fn enc_ok(&self) -> bool {{ {m(ok)} }}", f"  open spec fn enc(&self) -> Seq<u8> {{ {m(content)} }}")
    o(f"FN crate::Encode for {T}::encode", "TAGS C19 C04", "ENTRY", "  proof { lemma_canon(); }")
    c = lk = 0
    if t.enumtype == "tagvariant":
        for n, kind, fs, ct in t.variants:
            o(f"CLOSURE {c}", "PARAMS |writer: &mut crate::Writer|", "CENS", "  final(writer).data@ =~= old(writer).data@ + self.body()")
            c += 1
            for mm, ty, a in fs:
                if as_list(ty, a):
                    vec_closure(o, c, lk, f"field{mm}@")
                    c, lk = c + 1, lk + 1
    if t.enumtype == "enumint":
        d1, end = f"hd(s, i) is End && hdr_at(s, i) is Positive && ({' || '.join(f'num_at(s, i) == {k}' for k in nums)})", "eoi(hd(s, i))"
    elif t.enumtype == "tagvariant":
        d1, end = f"arr(s, i) && el(s, i).len() >= 1 && dec_all::<u64>(el(s, i)[0]) && ({' || '.join(dok)})", "eoi(item(s, i))"
    else:
        d1 = " || ".join(dok)
        ends = [f"if kind_is(s, i, crate::types::Type::{CT[ct]}) {{ {qq(fs[0][1])}::dec_end(s, i) }}" for n, kind, fs, ct in t.variants if ct != "null"]
        end = " else ".join(ends) + " else { i + 1 }"
    es_, cs, last = [], [ONLY], "e is Custom"
    if t.enumtype == "enumint":
        es_ = [("!<u64 as crate::Decode>::dec_ok(s, i)", "<u64 as crate::Decode>::dec_err(s, i, e)")] + [(f"num_at(s, i) == {k}", "false") for k in nums]
        cs.append("<u64 as crate::Decode>::dec_ctx(c)")
    elif t.enumtype == "tagvariant":
        es_ = [("!arr(s, i)", RE + f"contcause(e->ReaderError_0, s, i, {ARRAY})"), ("el(s, i).len() == 0", "e is Custom"),
               ("!dec_all::<u64>(el(s, i)[0])", "all_rerr::<u64>(e, el(s, i)[0])")]
        cs.append("wled0::<u64>(c)")
        for (n, kind, fs, ct), num in zip(t.variants, nums):
            sub = [(f"el(s, i).len() != {len(fs) + 1}", "e is Custom")]
            for k, (mm, ty, a) in enumerate(fs):
                sub.append(("!" + fall(f"el(s, i)[{k + 1}]", ty, a), ferr(f"el(s, i)[{k + 1}]", ty, a)))
                b = base(ty, a)
                cs.append(f"<{b} as crate::Decode>::dec_ctx(c)" if as_list(ty, a) else wled(ty, f'"{fn(kind, mm)}"@', f'"{n}"@', MINE))
            es_.append((f"num_at(el(s, i)[0], 0) == {num}", chain(sub, "false")))
    else:
        es_ = [("!(i < s.len() && lead_ok(s[i]))", RE + "hcause(e->ReaderError_0, s, i)")]
        for n, kind, fs, ct in t.variants:
            if ct == "null":
                es_.append(("kind_is(s, i, crate::types::Type::Null)", "e is ReaderError"))
                cs.append(f'c == seq!["{n}"@].push({MINE})')
                continue
            (mm, ty, a), = fs
            es_.append((f"kind_is(s, i, crate::types::Type::{CT[ct]})", f"!{qq(ty)}::dec_ok(s, i) && {qq(ty)}::dec_err(s, i, e)"))
            cs.append(led(ty, f'"{n}"@', MINE))
    o(f"IMPL crate::Decode for {T}", f"  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool {{ {chain(es_, last)} }}",
      f"  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool {{ {alts(cs)} }}", f"  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool {{ {d1} }}", f"  open spec fn dec_end(s: Seq<u8>, i: int) -> int {{ {end} }}",
      f"  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool {{ match v {{ {', '.join(drel)} }} }}")
    o(f"FN crate::Decode for {T}::decode", "TAGS C19 C04 C25", "ENTRY", "  proof { lemma_ats_derived(); }")
    c = 0
    for n, kind, fs, ct in t.variants:
        for mm, ty, a in fs:
            if t.enumtype == "tagvariant" and as_list(ty, a):
                dec_closure(o, c, inner(ty))
                c += 1


# ------------------------------------------------------------------ the theorems
def eq_of(a, x, y, ty, at):
    """are two values of a field equal, given equality of its type parameter"""
    return f"eq_vec({a}, {x}@, {y}@)" if as_list(ty, at) else f"eq_opt({a}, {x}, {y})" if ty.startswith("Option<") else f"{a}({x}, {y})"


def base(ty, at):
    return "u8" if at == 'variant = "vec"' else inner(ty) if ty.startswith("Option<") or as_list(ty, at) else ty


def pre_of(a, x, ty, at):
    if as_list(ty, at):
        return f"(forall|k: int| 0 <= k < {x}@.len() ==> codec(#[trigger] {x}@[k], {a})) && {x}@.len() <= u64::MAX"
    return f"({x} is Some ==> codec({x}->Some_0, {a}))" if ty.startswith("Option<") else f"codec({x}, {a})"


def lem_of(a, x, ty, at):
    return f"lemma_vec({x}@, {a});" if as_list(ty, at) else f"lemma_codec({x}, {a});"


def seqp(parts, fn="lemma_cat_push"):
    """a literal sequence and what makes its concatenation known"""
    out, cur = [], "Seq::empty()"
    for p in parts:
        out.append(f"{fn}({cur}, {p if isinstance(p, str) else ', '.join(p)});")
        cur = f"{cur}.push({p if isinstance(p, str) else '(' + ', '.join(p) + ')'})"
    return (cur if parts else ("Seq::<Seq<u8>>::empty()" if fn == "lemma_cat_push" else "Seq::<(Seq<u8>, Seq<u8>)>::empty()")), " ".join(out)


def th_struct(o, t):
    T, n = t.name, len(t.fields)
    ps = [f"e{k}: spec_fn({base(ty, a)}, {base(ty, a)}) -> bool" for k, (nm, ty, a) in enumerate(t.fields)]
    es = [f"e{k}" for k in range(n)]
    eqs = [eq_of(f"e{k}", f"a.{nm}", f"b.{nm}", ty, a) for k, (nm, ty, a) in enumerate(t.fields)]
    flat = t.structure == "flat" and t.tag is None and n != 1
    pid = "c20" if t.structure == "mapint" else "c18"
    o(f"  pub open spec fn eq_{T}({', '.join(ps + [f'a: {T}', f'b: {T}'])}) -> bool {{ {conj(eqs)} }}")
    req = [pre_of(f"e{k}", f"v.{nm}", ty, a) for k, (nm, ty, a) in enumerate(t.fields)]
    body = []
    # one case per choice of the optional fields that are there
    opts = [k for k, (nm, ty, a) in enumerate(t.fields) if ty.startswith("Option<")]
    cases = [{}]
    for k in opts:
        cases = [dict(c, **{str(k): b}) for c in cases for b in (True, False)]
    for c in cases:
        fs = [(k, nm, ty, a) for k, (nm, ty, a) in enumerate(t.fields) if c.get(str(k), True)]
        val = lambda nm, ty: f"v.{nm}->Some_0" if ty.startswith("Option<") else f"v.{nm}"
        b = [lem_of(f"e{k}", val(nm, ty), ty, a) for k, nm, ty, a in fs]
        encs = [fenc(val(nm, ty), ty, a) for k, nm, ty, a in fs]
        at = []
        S_, I_ = ("v.content()", "0") if t.tag is not None else ("s", "i")
        if t.structure == "flat":
            if t.tag is None:
                for k in range(len(encs) - 1, 0, -1):
                    at.append(f"lemma_at(s, i, {cat(encs[:k])}, {encs[k]});")
            b.append(f"assert(v.content() =~= {cat(encs)});")
            inn = ""
        elif t.structure == "mapint":
            keys = numbers(t.starts, t.skips, n)
            parts = [(f"hv_enc(0, canon_hv({keys[k]}))", e) for (k, nm, ty, a), e in zip(fs, encs)]
            lit, pf = seqp(parts, "lemma_catp_push")
            b += [f"lemma_num({keys[k]});" for k, *_ in fs] + [pf, f"let e = {lit};", f"assert(catp(e) =~= v.body());", f"assert(v.count() == {len(fs)});",
                  "assert(v.content() =~= " + f"hv_enc(5, canon_hv({len(fs)})) + catp(e));"]
            b += [f"assert(e[{j}].0 == hv_enc(0, canon_hv({keys[k]})) && e[{j}].1 == {encs[j]} && key_of(e[{j}]) == {keys[k]});" for j, (k, *_) in enumerate(fs)]
            ks = f"seq![{', '.join(str(k) + 'int' for k in keys)}]"
            b += [f"let keys = {ks};"] + [f"assert(keys[{j}] == {k}int); assert(among(keys, {k}int));" for j, k in enumerate(keys)]
            inn = f"lemma_map({S_}, {I_}, {len(fs)}, e);"
        else:
            lit, pf = seqp(encs)
            m = len(encs)
            b += [pf, f"let e = {lit};", "assert(cat(e) =~= v.body());", f"assert(v.content() =~= hv_enc(4, canon_hv({m})) + cat(e));"] + [f"assert(e[{j}] == {x});" for j, x in enumerate(encs)]
            inn = f"lemma_arr({S_}, {I_}, {m}, e);"
        if t.tag is not None:
            b += ["lemma_whole_at(v.content());", inn]
            at.append(f"lemma_tag(s, i, {t.tag}, v.content());")
        else:
            at.append(inn)
        item = "" if flat else "item(s, i) == R::End(i + v.enc().len()) && 0 <= i && "
        b.append(f"assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies {item}{T}::dec_ok(s, i) && {T}::dec_end(s, i) == i + v.enc().len() "
                 f"&& forall|w: {T}| #[trigger] {T}::dec_rel(s, i, w) ==> eq_{T}({', '.join(es + ['v', 'w'])}) by {{ {' '.join(at)} }}")
        cond = [f"v.{t.fields[int(k)][0]} is " + ("Some" if x else "None") for k, x in c.items()]
        body.append("      " + (f"if {conj(cond)} {{ {' '.join(b)} }}" if cond else " ".join(b)))
    gen = ", ".join([f"v: {T}"] + ps)
    o(f"  proof fn {pid}_{T}({gen})")
    if req:
        o(f"      requires {', '.join(req)}")
    o(f"      ensures {'codec_flat' if flat else 'codec'}(v, |a: {T}, b: {T}| eq_{T}({', '.join(es + ['a', 'b'])}))", "  {", *body, "  }")


def th_enum(o, t):
    T = t.name
    nums = numbers(t.starts, t.skips, len(t.variants))
    ps, es, arms, req, cases = [], [], [], [], []
    np = 0
    for (n, kind, fs, ct), num in zip(t.variants, nums):
        nm = lambda m, pre: pre + m
        def pat(pre):
            if kind == "unit":
                return f"{T}::{n}"
            if kind == "tuple":
                return f"{T}::{n}({', '.join(pre + m for m, _, _ in fs)})"
            return f"{T}::{n} {{ {', '.join(f'{m}: {pre}{m}' for m, _, _ in fs)} }}"
        mine = []
        for m, ty, a in fs:
            ps.append(f"e{np}: spec_fn({base(ty, a)}, {base(ty, a)}) -> bool")
            mine.append(f"e{np}")
            np += 1
        arms.append(f"({pat('a')}, {pat('b')}) => {conj([eq_of(e, 'a' + m, 'b' + m, ty, at) for e, (m, ty, at) in zip(mine, fs)])}")
        rq = [pre_of(e, "f" + m, ty, at) for e, (m, ty, at) in zip(mine, fs)]
        if t.enumtype == "enumtype" and fs:
            rq.append(f"kind_is(f{fs[0][0]}.enc(), 0, Type::{CT[ct]})")
        req.append(f"{pat('f')} => {conj(rq)}")
        b = [lem_of(e, "f" + m, ty, at) for e, (m, ty, at) in zip(mine, fs)]
        if t.enumtype == "enumint":
            at = [f"lemma_num_at(s, i, {num});"]
        elif t.enumtype == "tagvariant":
            encs = [f"hv_enc(0, canon_hv({num}))"] + [fenc("f" + m, ty, a) for m, ty, a in fs]
            lit, pf = seqp(encs)
            b += [f"lemma_num({num});", pf, f"let e = {lit};", "assert(cat(e) =~= v.body());", f"assert(v.enc() =~= hv_enc(4, canon_hv({len(encs)})) + cat(e));"] + [f"assert(e[{j}] == {x});" for j, x in enumerate(encs)]
            at = [f"lemma_arr(s, i, {len(encs)}, e);"]
        elif not fs:
            at = ["lemma_at_byte(s, i, 0xf6u8);"]
        else:
            (m, ty, a), = fs
            at = [f"lemma_kind(s, i, f{m}.enc(), Type::{CT[ct]});"]
        b.append(f"assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && {T}::dec_ok(s, i) && {T}::dec_end(s, i) == i + v.enc().len() "
                 f"&& forall|w: {T}| #[trigger] {T}::dec_rel(s, i, w) ==> eq_{T}(@ES@, v, w) by {{ {' '.join(at)} }}")
        cases.append(f"          {pat('f')} => {{ {' '.join(b)} }},")
    es = ", ".join(f"e{k}" for k in range(np))
    j = lambda *x: ", ".join(y for y in x if y)
    o(f"  pub open spec fn eq_{T}({j(', '.join(ps), f'a: {T}', f'b: {T}')}) -> bool {{ match (a, b) {{ {', '.join(arms)}, _ => false }} }}")
    o(f"  proof fn c19_{T}({j(f'v: {T}', ', '.join(ps))})")
    if np:
        o(f"      requires match v {{ {', '.join(req)} }}")
    o(f"      ensures codec(v, |a: {T}, b: {T}| eq_{T}({j(es, 'a', 'b')}))", "  {", "      match v {")
    o(*[c.replace("@ES@, ", es + ", " if es else "") for c in cases], "      }", "  }")


def theorems():
    o = Out()
    o("# What is written by the generated code is read back by it; written by tools/gen_derive.py", "FILE @end_derived", "PRELUDE", *THPRE.strip("\n").split("\n"))
    for t in TABLE:
        (th_struct if isinstance(t, S) else th_enum)(o, t)
    o("  }", "  }")
    return "\n".join(o.o) + "\n"


PRELUDE = open(os.path.join(HERE, "derived", "prelude.vc")).read()
THPRE = open(os.path.join(HERE, "derived", "theorems.vc")).read()

if __name__ == "__main__":
    open(f"{HERE}/derived/samples.rs", "w").write(samples())
    open(f"{HERE}/contracts/95_derived.vc", "w").write(contracts())
    open(f"{HERE}/contracts/96_derived_theorems.vc", "w").write(theorems())
