"""Generates the harness crate: one `root_*` function per analysed entry point.

Roots only call the public API of ethnum; they exist so that the extractor has
monomorphic entry points.  They are compiled (never run) on every check.
"""

PRELUDE = r'''
#![no_std]
#![allow(unused, deprecated, clippy::all)]
use ethnum::*;
use core::cmp::Ordering;
use core::ops::*;
pub struct W(pub u128, pub u128);
pub struct S(pub u128, pub u128);
pub trait Enc { type O; fn enc(self) -> Self::O; }
impl Enc for U256 { type O = W; #[inline] fn enc(self) -> W { let (h, l) = self.into_words(); W(h, l) } }
impl Enc for I256 { type O = S; #[inline] fn enc(self) -> S { let (h, l) = self.into_words(); S(h as u128, l as u128) } }
macro_rules! prim { ($($t:ty)*) => {$( impl Enc for $t { type O = $t; #[inline] fn enc(self) -> $t { self } } )*} }
prim! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool f32 f64 }
impl<const N: usize> Enc for [u8; N] { type O = [u8; N]; #[inline] fn enc(self) -> Self { self } }
impl Enc for Ordering { type O = i8; #[inline] fn enc(self) -> i8 { match self { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } } }
impl Enc for () { type O = (); #[inline] fn enc(self) {} }
pub trait Dflt { const D: Self; }
impl Dflt for W { const D: W = W(0, 0); }
impl Dflt for S { const D: S = S(0, 0); }
macro_rules! dprim { ($($t:ty)*) => {$( impl Dflt for $t { const D: $t = 0; } )*} }
dprim! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }
impl Dflt for bool { const D: bool = false; }
impl Dflt for () { const D: () = (); }
impl<A: Dflt, B: Dflt> Dflt for (A, B) { const D: (A, B) = (A::D, B::D); }
impl<T: Enc> Enc for Option<T> where T::O: Dflt { type O = (u8, T::O); #[inline] fn enc(self) -> Self::O { match self { Some(x) => (1, x.enc()), None => (0, Dflt::D) } } }
impl<T: Enc> Enc for Result<T, core::num::TryFromIntError> where T::O: Dflt { type O = (u8, T::O); #[inline] fn enc(self) -> Self::O { match self { Ok(x) => (1, x.enc()), Err(_) => (0, Dflt::D) } } }
impl<T: Enc> Enc for Result<T, core::num::ParseIntError> where T::O: Dflt { type O = (u8, T::O); #[inline] fn enc(self) -> Self::O { match self { Ok(x) => (0, x.enc()), Err(e) => (match e.kind() {
    core::num::IntErrorKind::Empty => 1, core::num::IntErrorKind::InvalidDigit => 2, core::num::IntErrorKind::PosOverflow => 3,
    core::num::IntErrorKind::NegOverflow => 4, core::num::IntErrorKind::Zero => 5, _ => 6 }, Dflt::D) } } }
impl<A: Enc, B: Enc> Enc for (A, B) { type O = (A::O, B::O); #[inline] fn enc(self) -> Self::O { (self.0.enc(), self.1.enc()) } }
impl<A: Enc, B: Enc, C: Enc> Enc for (A, B, C) { type O = (A::O, B::O, C::O); #[inline] fn enc(self) -> Self::O { (self.0.enc(), self.1.enc(), self.2.enc()) } }
pub struct It<T>(T, T, T, u8, u8);
impl<T: Copy> Iterator for It<T> { type Item = T; #[inline] fn next(&mut self) -> Option<T> { if self.3 == self.4 { return None; } let r = if self.3 == 0 { self.0 } else if self.3 == 1 { self.1 } else { self.2 }; self.3 += 1; Some(r) } }
pub struct ItR<'a, T>(&'a T, &'a T, &'a T, u8, u8);
impl<'a, T> Iterator for ItR<'a, T> { type Item = &'a T; #[inline] fn next(&mut self) -> Option<&'a T> { if self.3 == self.4 { return None; } let r = if self.3 == 0 { self.0 } else if self.3 == 1 { self.1 } else { self.2 }; self.3 += 1; Some(r) } }
/// What a hasher was given.
pub struct Rec { n: usize, b: [u8; 48] }
impl core::hash::Hasher for Rec {
    fn write(&mut self, s: &[u8]) { let mut i = 0; while i < s.len() { if self.n < 48 { self.b[self.n] = s[i]; } self.n += 1; i += 1; } }
    fn finish(&self) -> u64 { 0 }
}
fn rec<T: core::hash::Hash>(x: &T) -> Rec { let mut r = Rec { n: 0, b: [0; 48] }; x.hash(&mut r); r }
fn same(a: &Rec, b: &Rec) -> bool { if a.n != b.n { return false; } let mut i = 0; while i < 48 { if a.b[i] != b.b[i] { return false; } i += 1; } true }
#[inline(always)] fn e<T: Enc>(t: T) -> T::O { t.enc() }
'''

SERDE_PRELUDE = r'''
pub mod sb {
use core::fmt;
use serde::{de, ser, Serializer, Deserializer, Deserialize};
pub struct SE;
impl fmt::Debug for SE { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl fmt::Display for SE { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl core::error::Error for SE {}
impl ser::Error for SE { fn custom<T: fmt::Display>(_: T) -> Self { SE } }
impl de::Error for SE { fn custom<T: fmt::Display>(_: T) -> Self { SE }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { SE }
    fn invalid_value(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self { SE }
    fn invalid_type(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self { SE } }
impl<T: super::Enc> super::Enc for Result<T, SE> where T::O: super::Dflt { type O = (u8, T::O); #[inline] fn enc(self) -> Self::O { match self { Ok(x) => (0, x.enc()), Err(_) => (1, super::Dflt::D) } } }
impl<const N: usize> super::Dflt for [u8; N] { const D: Self = [0; N]; }
/// What a serializer was given: 1 = bytes, 2 = text; its length and bytes.
pub struct Out(pub u8, pub usize, pub [u8; 80]);
impl super::Enc for Out { type O = (u8, (usize, [u8; 80])); #[inline] fn enc(self) -> Self::O { (self.0, (self.1, self.2)) } }
pub struct Cap;
fn cap(k: u8, v: &[u8]) -> Result<Out, SE> { let mut o = [0u8; 80]; let mut i = 0; while i < v.len() { o[i] = v[i]; i += 1; } Ok(Out(k, v.len(), o)) }
macro_rules! no { ($($m:ident($($t:ty),*))*) => {$( fn $m(self, $(_: $t),*) -> Result<Out, SE> { Err(SE) } )*} }
impl Serializer for Cap {
    type Ok = Out; type Error = SE;
    type SerializeSeq = ser::Impossible<Out, SE>; type SerializeTuple = ser::Impossible<Out, SE>; type SerializeTupleStruct = ser::Impossible<Out, SE>;
    type SerializeTupleVariant = ser::Impossible<Out, SE>; type SerializeMap = ser::Impossible<Out, SE>; type SerializeStruct = ser::Impossible<Out, SE>;
    type SerializeStructVariant = ser::Impossible<Out, SE>;
    fn serialize_bytes(self, v: &[u8]) -> Result<Out, SE> { cap(1, v) }
    fn serialize_str(self, v: &str) -> Result<Out, SE> { cap(2, v.as_bytes()) }
    fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<Out, SE> { Err(SE) }
    no! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64)
        serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_none() serialize_unit() serialize_unit_struct(&'static str) serialize_unit_variant(&'static str, u32, &'static str) }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<Out, SE> { Err(SE) }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<Out, SE> { Err(SE) }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Out, SE> { Err(SE) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, SE> { Err(SE) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, SE> { Err(SE) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, SE> { Err(SE) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, SE> { Err(SE) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SE> { Err(SE) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SE> { Err(SE) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, SE> { Err(SE) }
}
pub struct Seq<'a> { pub s: &'a [u8], pub i: usize, pub hint: Option<usize>, pub fail: usize }
impl<'de, 'a> de::SeqAccess<'de> for Seq<'a> { type Error = SE;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SE> {
        if self.i == self.fail { return Err(SE); }
        if self.i >= self.s.len() { return Ok(None); }
        let b = self.s[self.i]; self.i += 1;
        match seed.deserialize(de::value::U8Deserializer::<SE>::new(b)) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) } }
    fn size_hint(&self) -> Option<usize> { self.hint } }
pub struct DeBytes<'a>(pub &'a [u8]);
impl<'de, 'a> Deserializer<'de> for DeBytes<'a> { type Error = SE;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, SE> { v.visit_bytes(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any } }
pub struct DeSeq<'a>(pub Seq<'a>);
impl<'de, 'a> Deserializer<'de> for DeSeq<'a> { type Error = SE;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, SE> { v.visit_seq(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any } }
pub struct DeStr<'a>(pub &'a str);
impl<'de, 'a> Deserializer<'de> for DeStr<'a> { type Error = SE;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, SE> { v.visit_str(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any } }
/// A deserializer offering one number.
pub struct DeNum<T>(pub T);
macro_rules! denum { ($($t:ty, $m:ident;)*) => {$( impl<'de> Deserializer<'de> for DeNum<$t> { type Error = SE;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, SE> { v.$m(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any } } )*} }
denum! { u8, visit_u8; u16, visit_u16; u32, visit_u32; u64, visit_u64; u128, visit_u128; i8, visit_i8; i16, visit_i16; i32, visit_i32; i64, visit_i64; i128, visit_i128; f32, visit_f32; f64, visit_f64; }
}
'''

PRIMS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]


class Roots:
    def __init__(self):
        self.items = {}
        self.raw = []
        self.variant = ""

    def add(self, name, params, ret, expr, pre=""):
        """params: "a:U,b:U,n:u32"; ret: Rust type before encoding."""
        ps = []
        binds = []
        args = []
        for p in [x for x in params.split(",") if x]:
            n, t = p.split(":", 1)
            args.append((n, t))
            if t == "U":
                ps += [n + "_1: u128", n + "_0: u128"]
                binds.append("let %s = U256::from_words(%s_1, %s_0);" % (n, n, n))
            elif t == "I":
                ps += [n + "_1: u128", n + "_0: u128"]
                binds.append("let %s = I256::from_words(%s_1 as i128, %s_0 as i128);" % (n, n, n))
            else:
                ps.append("%s: %s" % (n, t))
        r = ret.replace("U256", "U256")
        body = "pub fn root_%s(%s) -> <%s as Enc>::O { %s %s let r: %s = %s; r.enc() }" % (
            name, ", ".join(ps), r, " ".join(binds), pre, r, expr)
        assert name not in self.items, name
        self.items[name] = (args, ret, body)

    def prelude(self):
        return (PRELUDE + (SERDE_PRELUDE if self.variant == "serde" else "")).strip("\n")

    def text(self):
        return self.prelude() + "\n" + "\n".join(x[2] for x in self.items.values()) + "\n" + "\n".join(self.raw) + "\n"


def build(variant=""):
    R = Roots()
    R.variant = variant
    R.add("selftest_good", "a:u128,b:u128", "u128", "a.wrapping_add(b)")
    R.add("selftest_bad", "a:u128,b:u128", "u128", "{ let r = a.wrapping_add(b); if a == 0x1234_5678_9abc_def0_1234_5678_9abc_def1 { r ^ 1 } else { r } }")
    for T, X, O in (("U256", "U", "I"), ("I256", "I", "U")):
        x = X.lower()
        OT = "I256" if X == "U" else "U256"
        prim = "u128" if X == "U" else "i128"
        # binary operators, all variants
        for op, sym in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("rem", "%"), ("and", "&"), ("or", "|"), ("xor", "^")):
            R.add("%s_%s" % (x, op), "a:%s,b:%s" % (X, X), T, "&a %s &b" % sym)
            R.add("%s_%s_rv" % (x, op), "a:%s,b:%s" % (X, X), T, "&a %s b" % sym)
            R.add("%s_%s_vr" % (x, op), "a:%s,b:%s" % (X, X), T, "a %s &b" % sym)
            R.add("%s_%s_vv" % (x, op), "a:%s,b:%s" % (X, X), T, "a %s b" % sym)
            R.add("%s_%s_as" % (x, op), "a:%s,b:%s" % (X, X), T, "{ let mut r = a; r %s= b; r }" % sym)
            R.add("%s_%s_asr" % (x, op), "a:%s,b:%s" % (X, X), T, "{ let mut r = a; r %s= &b; r }" % sym)
            for i, (l, r) in enumerate((("a", "b"), ("&a", "b"), ("a", "&b"), ("&a", "&b"))):
                R.add("%s_%s_p%d" % (x, op, i), "a:%s,b:%s" % (X, prim), T, "%s %s %s" % (l, sym, r))
                R.add("%s_%s_q%d" % (x, op, i), "a:%s,b:%s" % (prim, X), T, "%s %s %s" % (l, sym, r))
            R.add("%s_%s_asp" % (x, op), "a:%s,b:%s" % (X, prim), T, "{ let mut r = a; r %s= b; r }" % sym)
            R.add("%s_%s_aspr" % (x, op), "a:%s,b:%s" % (X, prim), T, "{ let mut r = a; r %s= &b; r }" % sym)
        R.add("%s_not" % x, "a:%s" % X, T, "!a")
        R.add("%s_not_r" % x, "a:%s" % X, T, "!&a")
        if X == "I":
            R.add("i_neg", "a:I", T, "-a")
            R.add("i_neg_r", "a:I", T, "-&a")
        for op, sym in (("shl", "<<"), ("shr", ">>")):
            for i, (l, r) in enumerate((("a", "n"), ("&a", "n"), ("a", "&n"), ("&a", "&n"))):
                R.add("%s_%s_%d" % (x, op, i), "a:%s,n:u32" % X, T, "%s %s %s" % (l, sym, r))
            R.add("%s_%s_as" % (x, op), "a:%s,n:u32" % X, T, "{ let mut r = a; r %s= n; r }" % sym)
            R.add("%s_%s_asr" % (x, op), "a:%s,n:u32" % X, T, "{ let mut r = a; r %s= &n; r }" % sym)
            for p in PRIMS:
                if p == "u32":
                    continue
                R.add("%s_%s_%s" % (x, op, p), "a:%s,n:%s" % (X, p), T, "a %s n" % sym)
                R.add("%s_%s_%s_rr" % (x, op, p), "a:%s,n:%s" % (X, p), T, "&a %s &n" % sym)
                R.add("%s_%s_%s_rv" % (x, op, p), "a:%s,n:%s" % (X, p), T, "&a %s n" % sym)
                R.add("%s_%s_%s_vr" % (x, op, p), "a:%s,n:%s" % (X, p), T, "a %s &n" % sym)
                R.add("%s_%s_%s_as" % (x, op, p), "a:%s,n:%s" % (X, p), T, "{ let mut r = a; r %s= n; r }" % sym)
                R.add("%s_%s_%s_asr" % (x, op, p), "a:%s,n:%s" % (X, p), T, "{ let mut r = a; r %s= &n; r }" % sym)
            for p in ("U", "I"):
                R.add("%s_%s_%s" % (x, op, p), "a:%s,n:%s" % (X, p), T, "a %s n" % sym)
                R.add("%s_%s_%s_as" % (x, op, p), "a:%s,n:%s" % (X, p), T, "{ let mut r = a; r %s= n; r }" % sym)
        # api, two operands
        for m in ("add", "sub", "mul", "div", "rem", "div_euclid", "rem_euclid"):
            R.add("%s_checked_%s" % (x, m), "a:%s,b:%s" % (X, X), "Option<%s>" % T, "a.checked_%s(b)" % m)
            R.add("%s_wrapping_%s" % (x, m), "a:%s,b:%s" % (X, X), T, "a.wrapping_%s(b)" % m)
            R.add("%s_overflowing_%s" % (x, m), "a:%s,b:%s" % (X, X), "(%s, bool)" % T, "a.overflowing_%s(b)" % m)
        for m in ("add", "sub", "mul", "div"):
            R.add("%s_saturating_%s" % (x, m), "a:%s,b:%s" % (X, X), T, "a.saturating_%s(b)" % m)
        R.add("%s_div_euclid" % x, "a:%s,b:%s" % (X, X), T, "a.div_euclid(b)")
        R.add("%s_rem_euclid" % x, "a:%s,b:%s" % (X, X), T, "a.rem_euclid(b)")
        for m in ("div_rem", "div_rem_euclid"):
            R.add("%s_%s" % (x, m), "a:%s,b:%s" % (X, X), "(%s, %s)" % (T, T), "a.%s(b)" % m)
            R.add("%s_checked_%s" % (x, m), "a:%s,b:%s" % (X, X), "Option<(%s, %s)>" % (T, T), "a.checked_%s(b)" % m)
            R.add("%s_saturating_%s" % (x, m), "a:%s,b:%s" % (X, X), "(%s, %s)" % (T, T), "a.saturating_%s(b)" % m)
            R.add("%s_wrapping_%s" % (x, m), "a:%s,b:%s" % (X, X), "(%s, %s)" % (T, T), "a.wrapping_%s(b)" % m)
            R.add("%s_overflowing_%s" % (x, m), "a:%s,b:%s" % (X, X), "(%s, %s, bool)" % (T, T), "a.overflowing_%s(b)" % m)
        R.add("%s_abs_diff" % x, "a:%s,b:%s" % (X, X), "U256", "a.abs_diff(b)")
        R.add("%s_checked_neg" % x, "a:%s" % X, "Option<%s>" % T, "a.checked_neg()")
        R.add("%s_wrapping_neg" % x, "a:%s" % X, T, "a.wrapping_neg()")
        R.add("%s_overflowing_neg" % x, "a:%s" % X, "(%s, bool)" % T, "a.overflowing_neg()")
        for m in ("shl", "shr"):
            R.add("%s_checked_%s" % (x, m), "a:%s,n:u32" % X, "Option<%s>" % T, "a.checked_%s(n)" % m)
            R.add("%s_wrapping_%s" % (x, m), "a:%s,n:u32" % X, T, "a.wrapping_%s(n)" % m)
            R.add("%s_overflowing_%s" % (x, m), "a:%s,n:u32" % X, "(%s, bool)" % T, "a.overflowing_%s(n)" % m)
        for m in ("rotate_left", "rotate_right"):
            R.add("%s_%s" % (x, m), "a:%s,n:u32" % X, T, "a.%s(n)" % m)
        for m in ("count_ones", "count_zeros", "leading_zeros", "trailing_zeros", "leading_ones", "trailing_ones"):
            R.add("%s_%s" % (x, m), "a:%s" % X, "u32", "a.%s()" % m)
        for m in ("swap_bytes", "reverse_bits", "to_be", "to_le"):
            R.add("%s_%s" % (x, m), "a:%s" % X, T, "a.%s()" % m)
        for m in ("from_be", "from_le"):
            R.add("%s_%s" % (x, m), "a:%s" % X, T, "%s::%s(a)" % (T, m))
        for m in ("be", "le", "ne"):
            R.add("%s_to_%s_bytes" % (x, m), "a:%s" % X, "[u8; 32]", "a.to_%s_bytes()" % m)
            R.add("%s_from_%s_bytes" % (x, m), "a:[u8; 32]", T, "%s::from_%s_bytes(a)" % (T, m))
        # pow
        for m, r in (("pow", T), ("checked_pow", "Option<%s>" % T), ("saturating_pow", T), ("wrapping_pow", T), ("overflowing_pow", "(%s, bool)" % T)):
            R.add("%s_%s" % (x, m), "a:%s,n:u32" % X, r, "a.%s(n)" % m)
        # comparison
        for m, r in (("eq", "bool"), ("ne", "bool"), ("lt", "bool"), ("le", "bool"), ("gt", "bool"), ("ge", "bool")):
            R.add("%s_%s" % (x, m), "a:%s,b:%s" % (X, X), r, "a.%s(&b)" % m)
            R.add("%s_%s_p" % (x, m), "a:%s,b:%s" % (X, prim), r, "a.%s(&b)" % m)
            R.add("%s_%s_q" % (x, m), "a:%s,b:%s" % (prim, X), r, "a.%s(&b)" % m)
        R.add("%s_cmp" % x, "a:%s,b:%s" % (X, X), "Ordering", "a.cmp(&b)")
        R.add("%s_partial_cmp" % x, "a:%s,b:%s" % (X, X), "Ordering", "a.partial_cmp(&b).unwrap()")
        R.add("%s_partial_cmp_p" % x, "a:%s,b:%s" % (X, prim), "Ordering", "a.partial_cmp(&b).unwrap()")
        R.add("%s_partial_cmp_q" % x, "a:%s,b:%s" % (prim, X), "Ordering", "a.partial_cmp(&b).unwrap()")
        R.add("%s_max" % x, "a:%s,b:%s" % (X, X), T, "a.max(b)")
        R.add("%s_min" % x, "a:%s,b:%s" % (X, X), T, "a.min(b)")
        R.add("%s_clamp" % x, "a:%s,b:%s,c:%s" % (X, X, X), T, "a.clamp(b, c)")
        # representation
        R.add("%s_id" % x, "a:%s" % X, T, "a")
        R.add("%s_low" % x, "a:%s" % X, prim, "*a.low()")
        R.add("%s_high" % x, "a:%s" % X, prim, "*a.high()")
        R.add("%s_set_low" % x, "a:%s,b:%s" % (X, prim), T, "{ let mut r = a; *r.low_mut() = b; r }")
        R.add("%s_set_high" % x, "a:%s,b:%s" % (X, prim), T, "{ let mut r = a; *r.high_mut() = b; r }")
        R.add("%s_new" % x, "b:%s" % prim, T, "%s::new(b)" % T)
        R.add("%s_words" % x, "a:%s" % X, "(%s, %s)" % (prim, prim), "a.into_words()")
        R.add("%s_default" % x, "", T, "Default::default()")
        R.add("%s_clone" % x, "a:%s" % X, T, "a.clone()")
        R.add("%s_hash" % x, "a:%s" % X, "bool", "{ let b = [a; 3]; same(&rec(&a), &rec(&b[1])) }")
        R.add("%s_hash_def" % x, "", "bool", "{ let d: %s = Default::default(); same(&rec(&d), &rec(&%s::ZERO)) }" % (T, T))
        for c in ("MIN", "MAX", "ZERO", "ONE"):
            R.add("%s_const_%s" % (x, c), "", T, "%s::%s" % (T, c))
        if X == "I":
            R.add("i_const_MINUS_ONE", "", T, "I256::MINUS_ONE")
        R.add("%s_const_BITS" % x, "", "u32", "%s::BITS" % T)
        # iterators
        for m in ("sum", "product"):
            for k in range(4):
                ps = ",".join("%s:%s" % (n, X) for n in "abc"[:k])
                vs = ", ".join("abc"[i] if i < k else "z" for i in range(3))
                R.add("%s_%s%d" % (x, m, k), ps, T, "{ let z = %s::new(0); It(%s, 0, %d).%s::<%s>() }" % (T, vs, k, m, T))
                R.add("%s_%s%dr" % (x, m, k), ps, T, "{ let z = %s::new(0); ItR(&%s, 0, %d).%s::<%s>() }" % (T, vs.replace(", ", ", &"), k, m, T))
        # integer conversions
        for p in PRIMS:
            R.add("%s_as_%s" % (x, p), "a:%s" % X, p, "a.as_%s()" % p)
            R.add("%s_from_as_%s" % (x, p), "a:%s" % p, T, "As%s::as_%s256(a)" % (T, x))
            R.add("%s_tryinto_%s" % (x, p), "a:%s" % X, "Result<%s, core::num::TryFromIntError>" % p, "%s::try_from(a)" % p)
            if X == "U" and p in ("u8", "u16", "u32", "u64", "u128") or X == "I" and p not in ("usize", "isize"):
                R.add("%s_from_%s" % (x, p), "a:%s" % p, T, "%s::from(a)" % T)
            elif X == "U":
                R.add("%s_tryfrom_%s" % (x, p), "a:%s" % p, "Result<%s, core::num::TryFromIntError>" % T, "%s::try_from(a)" % T)
        R.add("%s_as_%s256" % (x, O.lower()), "a:%s" % X, OT, "a.as_%s256()" % O.lower())
        R.add("%s_asself" % x, "a:%s" % X, T, "As%s::as_%s256(a)" % (T, x))
        R.add("%s_from_as_%s256" % (x, O.lower()), "a:%s" % O, T, "As%s::as_%s256(a)" % (T, x))
        R.add("%s_tryfrom_%s256" % (x, O.lower()), "a:%s" % O, "Result<%s, core::num::TryFromIntError>" % T, "%s::try_from(a)" % T)
        R.add("%s_from_bool" % x, "a:bool", T, "%s::from(a)" % T)
        R.add("%s_from_as_bool" % x, "a:bool", T, "As%s::as_%s256(a)" % (T, x))
        for f in ("f32", "f64"):
            R.add("%s_as_%s" % (x, f), "a:%s" % X, f, "a.as_%s()" % f)
            R.add("%s_into_%s" % (x, f), "a:%s" % X, f, "%s::from(a)" % f)
            R.add("%s_from_as_%s" % (x, f), "a:%s" % f, T, "As%s::as_%s256(a)" % (T, x))
        # parsing
        R.add("%s_from_str_radix" % x, "s:&str,radix:u32", "Result<%s, core::num::ParseIntError>" % T, "%s::from_str_radix(s, radix)" % T)
        R.add("%s_from_str_prefixed" % x, "s:&str", "Result<%s, core::num::ParseIntError>" % T, "%s::from_str_prefixed(s)" % T)
        R.add("%s_from_str_hex" % x, "s:&str", "Result<%s, core::num::ParseIntError>" % T, "%s::from_str_hex(s)" % T)
        R.add("%s_from_str" % x, "s:&str", "Result<%s, core::num::ParseIntError>" % T, "s.parse::<%s>()" % T)
        R.add("%s_const_str" % x, "s:&str", T, "%s::const_from_str_prefixed(s)" % T)
        # formatting
        for tr in ("Display", "Debug", "LowerHex", "UpperHex", "Binary", "Octal", "LowerExp", "UpperExp"):
            R.raw.append("pub fn root_%s_fmt_%s(a_1: u128, a_0: u128, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { let a = %s::from_words(a_1 as %s, a_0 as %s); core::fmt::%s::fmt(&a, f) }" % (x, tr, T, prim, prim, tr))
    # unsigned only
    R.add("u_is_power_of_two", "a:U", "bool", "a.is_power_of_two()")
    R.add("u_next_power_of_two", "a:U", "U256", "a.next_power_of_two()")
    R.add("u_checked_next_power_of_two", "a:U", "Option<U256>", "a.checked_next_power_of_two()")
    for m, r in (("checked", "Option<U256>"), ("saturating", "U256"), ("wrapping", "U256"), ("overflowing", "(U256, bool)")):
        R.add("u_%s_add_signed" % m, "a:U,b:I", r, "a.%s_add_signed(b)" % m)
    for m, r in (("checked", "Option<I256>"), ("saturating", "I256"), ("wrapping", "I256"), ("overflowing", "(I256, bool)")):
        for o in ("add", "sub"):
            R.add("i_%s_%s_unsigned" % (m, o), "a:I,b:U", r, "a.%s_%s_unsigned(b)" % (m, o))
    # signed only
    R.add("i_abs", "a:I", "I256", "a.abs()")
    R.add("i_unsigned_abs", "a:I", "U256", "a.unsigned_abs()")
    R.add("i_checked_abs", "a:I", "Option<I256>", "a.checked_abs()")
    R.add("i_saturating_abs", "a:I", "I256", "a.saturating_abs()")
    R.add("i_saturating_neg", "a:I", "I256", "a.saturating_neg()")
    R.add("i_wrapping_abs", "a:I", "I256", "a.wrapping_abs()")
    R.add("i_overflowing_abs", "a:I", "(I256, bool)", "a.overflowing_abs()")
    R.add("i_signum", "a:I", "I256", "a.signum()")
    R.add("i_signum128", "a:I", "i128", "a.signum128()")
    R.add("i_is_positive", "a:I", "bool", "a.is_positive()")
    R.add("i_is_negative", "a:I", "bool", "a.is_negative()")
    # intrinsics (public module)
    I = "ethnum::intrinsics::"
    for n, sg in (("uaddc", "U"), ("iaddc", "I"), ("usubc", "U"), ("isubc", "I"), ("umulc", "U"), ("imulc", "I")):
        T = "U256" if sg == "U" else "I256"
        R.add("in_%s" % n, "a:%s,b:%s" % (sg, sg), "(%s, bool)" % T, "{ let mut r = core::mem::MaybeUninit::uninit(); let o = %s%s(&mut r, &a, &b); (unsafe { r.assume_init() }, o) }" % (I, n))
    for sgn, names in (("", (("add3", "U"), ("sub3", "U"), ("mul3", "U"), ("udiv3", "U"), ("urem3", "U"), ("idiv3", "I"), ("irem3", "I"))),
                       ("signed::", (("uadd3", "U"), ("iadd3", "I"), ("usub3", "U"), ("isub3", "I"), ("umul3", "U"), ("imul3", "I")))):
        for n, sg in names:
            T = "U256" if sg == "U" else "I256"
            R.add("in_%s" % n, "a:%s,b:%s" % (sg, sg), T, "{ let mut r = core::mem::MaybeUninit::uninit(); %s%s%s(&mut r, &a, &b); unsafe { r.assume_init() } }" % (I, sgn, n))
    for sgn, names in (("", (("add2", "U"), ("sub2", "U"), ("mul2", "U"), ("udiv2", "U"), ("urem2", "U"), ("idiv2", "I"), ("irem2", "I"))),
                       ("signed::", (("uadd2", "U"), ("iadd2", "I"), ("usub2", "U"), ("isub2", "I"), ("umul2", "U"), ("imul2", "I")))):
        for n, sg in names:
            T = "U256" if sg == "U" else "I256"
            R.add("in_%s" % n, "a:%s,b:%s" % (sg, sg), T, "{ let mut r = a; %s%s%s(&mut r, &b); r }" % (I, sgn, n))
    for sgn, names in (("", (("shl3", "U"), ("shr3", "U"), ("sar3", "I"), ("rol3", "U"), ("ror3", "U"))),
                       ("signed::", (("ushl3", "U"), ("ishl3", "I"), ("ushr3", "U"), ("isar3", "I"), ("irol3", "I"), ("iror3", "I")))):
        for n, sg in names:
            T = "U256" if sg == "U" else "I256"
            R.add("in_%s" % n, "a:%s,n:u32" % sg, T, "{ let mut r = core::mem::MaybeUninit::uninit(); %s%s%s(&mut r, &a, n); unsafe { r.assume_init() } }" % (I, sgn, n))
    for sgn, names in (("", (("shl2", "U"), ("shr2", "U"), ("sar2", "I"))), ("signed::", (("ushl2", "U"), ("ishl2", "I"), ("ushr2", "U"), ("isar2", "I")))):
        for n, sg in names:
            T = "U256" if sg == "U" else "I256"
            R.add("in_%s" % n, "a:%s,n:u32" % sg, T, "{ let mut r = a; %s%s%s(&mut r, n); r }" % (I, sgn, n))
    for n in ("ctlz", "cttz"):
        R.add("in_%s" % n, "a:U", "u32", "%s%s(&a)" % (I, n))
        R.add("in_i%s" % n, "a:I", "u32", "%ssigned::i%s(&a)" % (I, n))
    R.add("in_udivmod4", "a:U,b:U", "(U256, U256)", "{ let mut q = core::mem::MaybeUninit::uninit(); let mut r = core::mem::MaybeUninit::uninit(); %sudivmod4(&mut q, &a, &b, Some(&mut r)); unsafe { (q.assume_init(), r.assume_init()) } }" % I)
    R.add("in_divsame", "a:U,b:U", "(U256, U256)", "{ let mut q = core::mem::MaybeUninit::uninit(); let mut r = core::mem::MaybeUninit::uninit(); %sudivmod4(&mut q, &a, &b, Some(&mut r)); %sudivmod4(&mut r, &a, &b, None); unsafe { (q.assume_init(), r.assume_init()) } }" % (I, I))
    R.add("in_idivmod4", "a:I,b:I", "(I256, I256)", "{ let mut q = core::mem::MaybeUninit::uninit(); let mut r = core::mem::MaybeUninit::uninit(); %sidivmod4(&mut q, &a, &b, Some(&mut r)); unsafe { (q.assume_init(), r.assume_init()) } }" % I)
    if variant == "serde":
        for x, T in (("u", "U256"), ("i", "I256")):
            X = x.upper()
            for mod in ("bytes", "compressed_bytes"):
                for en in ("le", "be", "ne"):
                    q = "ethnum::serde::%s::%s" % (mod, en)
                    k = "%s_%s_%s" % (x, "fix" if mod == "bytes" else "min", en)
                    R.add("sd_ser_" + k, "a:" + X, "Result<sb::Out, sb::SE>", "%s::serialize::<%s, _>(&a, sb::Cap)" % (q, T))
                    R.add("sd_deb_" + k, "s:&[u8]", "Result<%s, sb::SE>" % T, "%s::deserialize::<%s, _>(sb::DeBytes(s))" % (q, T))
                    R.add("sd_des_" + k, "s:&[u8],known:bool,hint:usize,fail:usize", "Result<%s, sb::SE>" % T,
                          "%s::deserialize::<%s, _>(sb::DeSeq(sb::Seq { s, i: 0, hint: if known { Some(hint) } else { None }, fail }))" % (q, T))
            for k, q in (("str", None), ("decimal", "decimal"), ("prefixed", "prefixed"), ("permissive", "permissive")):
                f = "ethnum::serde::%s::%%s::<%s, _>" % (q, T) if q else "<%s as ::serde::%%s" % T
                R.add("sd_text_%s_%s" % (x, k), "a:" + X, "Result<sb::Out, sb::SE>", (f % "serialize" if q else f % "Serialize>::serialize") + "(&a, sb::Cap)")
                g = f % "deserialize" if q else f % "Deserialize>::deserialize"
                R.add("sd_parse_%s_%s" % (x, k), "s:&str", "Result<%s, sb::SE>" % T, g + "(sb::DeStr(s))")
                R.add("sd_parseb_%s_%s" % (x, k), "s:&[u8]", "Result<%s, sb::SE>" % T, g + "(sb::DeBytes(s))")
                for p in [y for y in PRIMS if "size" not in y] + ["f32", "f64"]:
                    R.add("sd_num_%s_%s_%s" % (x, k, p), "a:%s" % p, "Result<%s, sb::SE>" % T, g + "(sb::DeNum(a))")
    return R


if __name__ == "__main__":
    print(build().text())
