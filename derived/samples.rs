//! Sample definitions for the derive macros; written by tools/gen_derive.py.
#![allow(unused)]
// the texts of errors are of no interest
macro_rules! format { ($($t:tt)*) => { format_any() } }
pub fn format_any() -> String { String::new() }
use cbored::CborRepr;
pub struct F0;
impl cbored::Encode for F0 { fn encode(&self, _: &mut cbored::Writer) {} }
impl cbored::Decode for F0 { fn decode<'a>(_: &mut cbored::Reader<'a>) -> Result<Self, cbored::DecodeError> { Ok(F0) } }
pub struct F1;
impl cbored::Encode for F1 { fn encode(&self, _: &mut cbored::Writer) {} }
impl cbored::Decode for F1 { fn decode<'a>(_: &mut cbored::Reader<'a>) -> Result<Self, cbored::DecodeError> { Ok(F1) } }
pub struct F2;
impl cbored::Encode for F2 { fn encode(&self, _: &mut cbored::Writer) {} }
impl cbored::Decode for F2 { fn decode<'a>(_: &mut cbored::Reader<'a>) -> Result<Self, cbored::DecodeError> { Ok(F2) } }
pub struct F3;
impl cbored::Encode for F3 { fn encode(&self, _: &mut cbored::Writer) {} }
impl cbored::Decode for F3 { fn decode<'a>(_: &mut cbored::Reader<'a>) -> Result<Self, cbored::DecodeError> { Ok(F3) } }
pub struct F4;
impl cbored::Encode for F4 { fn encode(&self, _: &mut cbored::Writer) {} }
impl cbored::Decode for F4 { fn decode<'a>(_: &mut cbored::Reader<'a>) -> Result<Self, cbored::DecodeError> { Ok(F4) } }
pub struct F5;
impl cbored::Encode for F5 { fn encode(&self, _: &mut cbored::Writer) {} }
impl cbored::Decode for F5 { fn decode<'a>(_: &mut cbored::Reader<'a>) -> Result<Self, cbored::DecodeError> { Ok(F5) } }
pub struct F6;
impl cbored::Encode for F6 { fn encode(&self, _: &mut cbored::Writer) {} }
impl cbored::Decode for F6 { fn decode<'a>(_: &mut cbored::Reader<'a>) -> Result<Self, cbored::DecodeError> { Ok(F6) } }
#[derive(CborRepr)]
pub struct FlatOne { pub x: F0 }
#[derive(CborRepr)]
#[cborrepr(structure = "flat")]
pub struct FlatThree { pub x: F0, pub y: F1, pub z: F2 }
#[derive(CborRepr)]
#[cborrepr(structure = "flat", tag = 5)]
pub struct FlatTag { pub x: F0 }
#[derive(CborRepr)]
#[cborrepr(structure = "flat", tag = 4294967296)]
pub struct FlatTagBig { pub x: F0 }
#[derive(CborRepr)]
#[cborrepr(structure = "flat")]
pub struct FlatTuple(pub F0, pub F1);
#[derive(CborRepr)]
#[cborrepr(structure = "flat", tag = 0)]
pub struct FlatTagTuple(pub F0);
#[derive(CborRepr)]
#[cborrepr(structure = "flat", tag = 23)]
pub struct FlatTagEdge { pub x: F0 }
#[derive(CborRepr)]
#[cborrepr(structure = "flat", tag = 18446744073709551615)]
pub struct FlatTagMax { pub x: F0 }
#[derive(CborRepr)]
#[cborrepr(structure = "array")]
pub struct ArrNone {  }
#[derive(CborRepr)]
#[cborrepr(structure = "array")]
pub struct ArrOne { pub x: F0 }
#[derive(CborRepr)]
#[cborrepr(structure = "array")]
pub struct ArrThree { pub x: F0, pub y: F1, pub z: F2 }
#[derive(CborRepr)]
#[cborrepr(structure = "array")]
pub struct ArrTuple(pub F0, pub F1, pub F2);
#[derive(CborRepr)]
#[cborrepr(structure = "array", tag = 300)]
pub struct ArrTag { pub x: F0, pub y: F1 }
#[derive(CborRepr)]
#[cborrepr(tag = 24)]
#[cborrepr(structure = "array")]
pub struct ArrTagSplit { pub x: F0, pub y: F1 }
#[derive(CborRepr)]
#[cborrepr(structure = "array", tag = 255)]
pub struct ArrTagTuple(pub F0, pub F1);
#[derive(CborRepr)]
#[cborrepr(structure = "array")]
pub struct ArrMany { pub f0: F0, pub f1: F1, pub f2: F2, pub f3: F0, pub f4: F1, pub f5: F2, pub f6: F0, pub f7: F1, pub f8: F2, pub f9: F0, pub f10: F1, pub f11: F2, pub f12: F0, pub f13: F1, pub f14: F2, pub f15: F0, pub f16: F1, pub f17: F2, pub f18: F0, pub f19: F1, pub f20: F2, pub f21: F0, pub f22: F1, pub f23: F2, pub f24: F0 }
#[derive(CborRepr)]
#[cborrepr(structure = "array_lastopt", tag = 65536)]
pub struct OptEdge { pub f0: F0, pub f1: F1, pub f2: F2, pub f3: F0, pub f4: F1, pub f5: F2, pub f6: F0, pub f7: F1, pub f8: F2, pub f9: F0, pub f10: F1, pub f11: F2, pub f12: F0, pub f13: F1, pub f14: F2, pub f15: F0, pub f16: F1, pub f17: F2, pub f18: F0, pub f19: F1, pub f20: F2, pub f21: F0, pub f22: F1, pub last: Option<F0> }
#[derive(CborRepr)]
#[cborrepr(structure = "array_lastopt")]
pub struct OptOne { pub x: Option<F0> }
#[derive(CborRepr)]
#[cborrepr(structure = "array_lastopt")]
pub struct OptThree { pub x: F0, pub y: F1, pub z: Option<F2> }
#[derive(CborRepr)]
#[cborrepr(structure = "array_lastopt", tag = 70000)]
pub struct OptTag { pub x: F0, pub y: Option<F1> }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint")]
pub struct MapTwo { #[cborrepr(mandatory)] pub x: F0, #[cborrepr(mandatory)] pub y: F1 }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint")]
pub struct MapMix { #[cborrepr(mandatory)] pub x: F0, pub y: Option<F1>, #[cborrepr(mandatory)] pub z: F2 }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint")]
pub struct MapOpts { pub x: Option<F0>, pub y: Option<F1> }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 5)]
pub struct MapStart { pub x: Option<F0>, #[cborrepr(mandatory)] pub y: F1 }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", skipkey = 1, skipkey = 2, skipkey = 4)]
pub struct MapSkip { pub x: Option<F0>, #[cborrepr(mandatory)] pub y: F1, pub z: Option<F2> }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", skipkey = 0)]
pub struct MapSkipFirst { #[cborrepr(mandatory)] pub x: F0 }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", tag = 1000, map_starts_at = 22, skipkey = 22, skipkey = 24)]
pub struct MapTag { pub x: Option<F0>, #[cborrepr(mandatory)] pub y: F1 }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 4294967295)]
pub struct MapHigh { #[cborrepr(mandatory)] pub x: F0, pub y: Option<F1> }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 1, skipkey = 4, skipkey = 2, skipkey = 2)]
pub struct MapOrder { #[cborrepr(mandatory)] pub x: F0, pub y: Option<F1>, #[cborrepr(mandatory)] pub z: F2 }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 5, skipkey = 0, skipkey = 1, skipkey = 6)]
pub struct MapBelow { pub x: Option<F0>, #[cborrepr(mandatory)] pub y: F1 }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 18446744073709551613, skipkey = 18446744073709551614)]
pub struct MapTop { pub x: Option<F0>, #[cborrepr(mandatory)] pub y: F1 }
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 254, skipkey = 256)]
pub struct MapEdge { pub x: Option<F0>, pub y: Option<F1>, pub z: Option<F2> }
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumint")]
pub enum Code { A, B, C }
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumint", variant_starts_at = 3)]
pub enum CodeStart { A, B, C }
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumint", variant_starts_at = 22, skipkey = 22, skipkey = 24, skipkey = 25)]
pub enum CodeSkip { A, B, C, D }
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumint", skipkey = 1, skipkey = 3)]
pub enum CodeSkipTwo { A, B, C }
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumint", skipkey = 23)]
pub enum CodeMany { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26 }
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumint", variant_starts_at = 4294967295)]
pub enum CodeHigh { A, B, C }
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumint", variant_starts_at = 255, skipkey = 1, skipkey = 256)]
pub enum CodeEdge { A, B, C }
#[derive(CborRepr)]
#[cborrepr(enumtype = "tagvariant", variant_starts_at = 65535)]
pub enum VarHigh { A(F0), B, C { x: F1, y: F2, z: F3, w: F4 } }
#[derive(CborRepr)]
#[cborrepr(enumtype = "tagvariant", variant_starts_at = 22, skipkey = 22, skipkey = 24)]
pub enum VarEdge { A, B(F0, F0, F1) }
#[derive(CborRepr)]
#[cborrepr(enumtype = "tagvariant")]
pub enum Var { A, B(F0), C { x: F1, y: F2 }, D(F3, F4) }
#[derive(CborRepr)]
pub enum VarPlain { A(F0), B(F1) }
#[derive(CborRepr)]
#[cborrepr(enumtype = "tagvariant", variant_starts_at = 2, skipkey = 3, skipkey = 5, skipkey = 6)]
pub enum VarSkip { A(F0), B, C { x: F1 } }
#[derive(CborRepr)]
#[cborrepr(enumtype = "tagvariant")]
pub enum VarVec { A(Vec<F0>, F1), B(Vec<u8>), C(#[cborrepr(variant = "vec")] Vec<u8>) }
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumtype")]
pub enum TyTwo { #[cborrepr(cbortype = "null")] N, #[cborrepr(cbortype = "positive")] P(F0) }
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumtype")]
pub enum TyAll { #[cborrepr(cbortype = "positive")] P(F0), #[cborrepr(cbortype = "negative")] G(F1), #[cborrepr(cbortype = "array")] A(F2), #[cborrepr(cbortype = "map")] M(F3), #[cborrepr(cbortype = "tag")] T(F4), #[cborrepr(cbortype = "bytes")] B(F5), #[cborrepr(cbortype = "text")] S { w: F6 }, #[cborrepr(cbortype = "null")] N }
