//! Entries over decoding: each decodes a document into one Rust type and compares with `schema`.
use crate::astcmp::*;
use crate::diag::{self, Diag};
use crate::refkdl::{self, Sp};
use crate::schema::{self, *};
use crate::sup::*;
use knuffel::ast::{Literal, SpannedNode, TypeName, Value};
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::traits::DecodeChildren;
use knuffel::{Decode, DecodeScalar};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;

// ---------------------------------------------------------------- canonical values of Rust values
pub trait D { fn d(&self) -> V; }
macro_rules! ints { ($($t:ty)*) => { $(impl D for $t { fn d(&self) -> V { V::Int(*self as i128) } })* } }
ints!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);
impl D for f64 { fn d(&self) -> V { V::F64(self.to_bits()) } }
impl D for f32 { fn d(&self) -> V { V::F32(self.to_bits()) } }
impl D for bool { fn d(&self) -> V { V::Bool(*self) } }
impl D for str { fn d(&self) -> V { V::S(self.as_bytes().to_vec()) } }
impl D for String { fn d(&self) -> V { (**self).d() } }
impl D for Path { fn d(&self) -> V { V::S(std::os::unix::ffi::OsStrExt::as_bytes(self.as_os_str()).to_vec()) } }
impl D for PathBuf { fn d(&self) -> V { (**self).d() } }
impl<T: D + ?Sized> D for Arc<T> { fn d(&self) -> V { (**self).d() } }
impl<T: D + ?Sized> D for Rc<T> { fn d(&self) -> V { (**self).d() } }
impl<T: D + ?Sized> D for Box<T> { fn d(&self) -> V { (**self).d() } }
impl<T: D> D for Option<T> { fn d(&self) -> V { match self { None => V::None, Some(x) => x.d() } } }
impl<T: D> D for Vec<T> { fn d(&self) -> V { V::List(self.iter().map(|x| x.d()).collect()) } }
impl<T: D> D for BTreeMap<String, T> { fn d(&self) -> V { V::Map(self.iter().map(|(k, x)| (k.as_bytes().to_vec(), x.d())).collect()) } }
impl<T: D> D for Spanned<T, Span> { fn d(&self) -> V { let s = self.span(); V::At(Sp(s.0, s.1), Box::new((**self).d())) } }
impl<T: D> D for Spanned<T, LineSpan> { fn d(&self) -> V { let s = self.span(); V::At(Sp(s.0.offset, s.1.offset), Box::new((**self).d())) } }
impl D for LineSpan { fn d(&self) -> V { V::At(Sp(self.0.offset, self.1.offset), Box::new(V::Unit)) } }
impl D for Span { fn d(&self) -> V { V::At(Sp(self.0, self.1), Box::new(V::Unit)) } }
impl D for TypeName { fn d(&self) -> V { self.as_str().d() } }
impl D for Literal {
    fn d(&self) -> V {
        match self {
            Literal::Null => V::None, Literal::Bool(b) => V::Bool(*b), Literal::String(s) => s.d(),
            Literal::Int(i) => V::Num(i64::try_from(i).ok(), u64::try_from(i).ok().filter(|i| *i != 0)), // the sign of 0 does not matter
            Literal::Decimal(x) => V::F64(f64::try_from(x).map(|f| f.to_bits()).unwrap_or(0)),
        }
    }
}
pub struct Bs(pub Vec<u8>);
impl From<Vec<u8>> for Bs { fn from(v: Vec<u8>) -> Bs { Bs(v) } }
impl D for Bs { fn d(&self) -> V { V::S(self.0.clone()) } }
#[macro_export]
macro_rules! rec { ($($t:ident { $($f:ident),* })*) => { $(impl D for $t { fn d(&self) -> V { V::Rec(stringify!($t), vec![$((stringify!($f), self.$f.d())),*]) } })* } }
#[macro_export]
macro_rules! tup { ($($t:ident ( $($f:tt),* ))*) => { $(impl D for $t { fn d(&self) -> V { V::Rec(stringify!($t), vec![$((stringify!($f), self.$f.d())),*]) } })* } }

/// Letters a-m only, at least one.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Low(pub String);
impl FromStr for Low {
    type Err = String;
    fn from_str(s: &str) -> Result<Low, String> { if low(s).is_some() { Ok(Low(s.to_string())) } else { Err("not low".to_string()) } }
}
pub fn low(s: &str) -> Option<V> { if !s.is_empty() && s.bytes().all(|b| b >= b'a' && b <= b'm') { any(s) } else { None } }
impl D for Low { fn d(&self) -> V { self.0.d() } }
pub fn any(s: &str) -> Option<V> { Some(V::S(s.as_bytes().to_vec())) }

// ---------------------------------------------------------------- comparison
/// `mode` 0: whether it decodes and to what; 1: what the errors say.
pub fn judge<T: DecodeChildren<Span> + D>(mode: u64, i: &Input, r: &Root) { judge_s::<Span, T>(mode, i, r) }
pub fn judge_s<S: knuffel::traits::Span, T: DecodeChildren<S> + D>(mode: u64, i: &Input, r: &Root) {
    let t = &i.text[..];
    let got = knuffel::parse_with_context::<T, S, _>("f", t, |_| {});
    let doc = match refkdl::parse(t) { Some(d) => d, None => { check(got.is_err(), "decoded a text the KDL grammar rejects"); reach(3); return } };
    let mut out = vec![];
    unsafe { schema::EITHER = false }
    let want = schema::root(r, &doc, &mut out);
    if unsafe { schema::EITHER } { return }
    match got {
        Ok(v) => {
            if let Some(x) = out.first() { fail(complain(x)) }
            reach(0);
            if mode == 0 { check(schema::eq(&v.d(), &want), "decoded to another value") }
            observe(doc.len() as u64);
        }
        Err(e) => {
            check(!out.is_empty(), "rejected a document that fits the type");
            reach(1);
            if mode == 0 { return }
            let ds = diag::sane(t, "f", &e);
            observe(ds.len() as u64);
            for x in &ds { blamed(x, &out) }
            if let Root::List(_) = r {
                let (mut k, mut wrong) = (0, 0);
                for n in &doc {
                    let inside = |s: Sp| n.sp.0 <= s.0 && s.1 <= n.sp.1;
                    if out.iter().any(|x| inside(x.sp)) {
                        wrong += 1;
                        if ds.iter().any(|x| x.labels.iter().any(|l| inside(Sp(l.off, l.off + l.len)))) { k += 1 }
                    }
                }
                check(k == wrong, "a wrong node in a list of nodes is not reported");
                if k > 1 { reach(2) }
            }
        }
    }
}
pub fn complain(x: &Viol) -> &'static str {
    match x.label {
        "unexpected type name" => "decoded in spite of an unexpected type name",
        "unexpected argument" => "decoded in spite of an unexpected argument",
        "unexpected property" => "decoded in spite of an unexpected property",
        "unexpected node" => "decoded in spite of an unexpected or duplicate node",
        "node starts here" | "" => "decoded in spite of something missing",
        "invalid value" => "decoded in spite of an invalid value",
        _ => "decoded in spite of a scalar of another kind",
    }
}
/// A diagnostic has to be about one of the ways in which the document does not fit.
fn has(s: &str, n: &str) -> bool { n.is_empty() || s.as_bytes().windows(n.len()).any(|w| w == n.as_bytes()) }
fn plain(s: &str) -> bool { s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_') }
pub fn blamed(x: &Diag, out: &[Viol]) {
    check(x.labels.len() <= 1, "a decode error with several labels");
    let ok = out.iter().any(|v| match x.labels.first() {
        None => v.label.is_empty(),
        Some(l) => l.text == v.label && l.off == v.sp.0 && l.off + l.len == v.sp.1 && match v.msg {
            None => true,
            Some((want, found)) => x.msg == format!("expected {} scalar, found {}", want, found),
        },
    } && v.about.as_ref().map(|n| if plain(n) { has(&x.msg, n) } else { has(&x.msg, n) || has(&x.msg, &n.escape_default().to_string()) || has(&x.msg, &n.escape_debug().to_string()) }).unwrap_or(true)
    && has(&x.msg, v.says[0]) && has(&x.msg, v.says[1]));
    check(ok, "a decode error does not point at what is wrong");
}
#[macro_export]
macro_rules! entry { ($($name:ident : $t:ty = $root:expr;)*) => { $(#[no_mangle] pub extern "C" fn $name(p: u64) { static R: Root = $root; judge::<$t>(p, &input(), &R) })* } }

// ---------------------------------------------------------------- shared parts of the types
pub const U8: Sc = Sc::Int("u8", 0, 255);
pub const I8: Sc = Sc::Int("i8", -128, 127);
pub const U16: Sc = Sc::Int("u16", 0, 65535);
pub const I16: Sc = Sc::Int("i16", -32768, 32767);
pub const U32: Sc = Sc::Int("u32", 0, u32::MAX as i128);
pub const I32: Sc = Sc::Int("i32", i32::MIN as i128, i32::MAX as i128);
pub const U64: Sc = Sc::Int("u64", 0, u64::MAX as i128);
pub const I64: Sc = Sc::Int("i64", i64::MIN as i128, i64::MAX as i128);
pub const USIZE: Sc = Sc::Int("usize", 0, usize::MAX as i128);
pub const ISIZE: Sc = Sc::Int("isize", isize::MIN as i128, isize::MAX as i128);
pub const STR: Sc = Sc::Str;

pub const fn po(f: &'static str, sc: &'static Sc) -> Prop { Prop::One { f, key: f, sc, opt: true, def: None } }
pub const fn pr(f: &'static str, sc: &'static Sc) -> Prop { Prop::One { f, key: f, sc, opt: false, def: None } }
pub const fn ar(f: &'static str, sc: &'static Sc) -> Arg { Arg { f, sc, opt: false, def: None } }
pub const fn ao(f: &'static str, sc: &'static Sc) -> Arg { Arg { f, sc, opt: true, def: None } }
pub fn zero() -> V { V::Int(0) }
pub fn seven() -> V { V::Int(7) }
pub fn three() -> V { V::Int(3) }
pub fn def_x() -> V { V::S(b"x".to_vec()) }
pub fn empty() -> V { V::S(vec![]) }
pub fn none() -> V { V::None }
impl D for [u8] { fn d(&self) -> V { V::S(self.to_vec()) } }
#[derive(Decode, Default)] pub struct Leaf { #[knuffel(argument)] pub v: u8, pub skipped: u16 }
rec!(Leaf { v, skipped });
pub static S_LEAF: St = St { name: "Leaf", args: &[ar("v", &U8)], extra: &[("skipped", zero)], ..ST };
pub static LEAF: Sch = Sch::St(&S_LEAF);
pub const fn k1(f: &'static str, name: &'static str, sch: &'static Sch) -> Kid { Kid::One { f, name, sch, opt: false, def: None } }
pub const fn ko(f: &'static str, name: &'static str, sch: &'static Sch) -> Kid { Kid::One { f, name, sch, opt: true, def: None } }
pub const fn km(f: &'static str, name: &'static str, sch: &'static Sch) -> Kid { Kid::Many { f, name, sch, opt: false, def: None } }
pub static LOW: Sc = Sc::Parse(low);
#[derive(Decode)] pub struct Nothing;
tup!(Nothing());
pub static S_NOTHING: St = St { name: "Nothing", ..ST };
