//! Scalar types.
use crate::astcmp::*;
use crate::refkdl::Sp;
use crate::dec::*;
use crate::refkdl;
use crate::schema::{self, *};
use crate::sup::*;
use crate::{entry, rec, tup};
use knuffel::ast::{Literal, SpannedNode, TypeName, Value};
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::{Decode, DecodeScalar};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

#[derive(DecodeScalar)]
enum Word { Red, DarkBlue, X11Color, r#Type, ABC }
const WORD: Sc = Sc::Enum(&[("red", "Red"), ("dark-blue", "DarkBlue"), ("x11-color", "X11Color"), ("type", "Type"), ("abc", "ABC")]);
impl D for Word { fn d(&self) -> V { V::Rec(match self { Word::Red => "Red", Word::DarkBlue => "DarkBlue", Word::X11Color => "X11Color", Word::r#Type => "Type", Word::ABC => "ABC" }, vec![]) } }
#[derive(DecodeScalar)]
enum Two { On, Off }
const TWO: Sc = Sc::Enum(&[("on", "On"), ("off", "Off")]);
impl D for Two { fn d(&self) -> V { V::Rec(match self { Two::On => "On", Two::Off => "Off" }, vec![]) } }

/// One node type with a single argument of each scalar type.
macro_rules! holders { ($($name:ident $h:ident $t:ty, $sc:expr, $opt:expr;)*) => { $(
    #[derive(Decode)] #[knuffel(span_type=Span)] struct $h { #[knuffel(argument)] v: $t }
    rec!($h { v });
    #[no_mangle] pub extern "C" fn $name(p: u64) {
        static SC: Sc = $sc;
        static S: St = St { name: stringify!($h), args: &[Arg { f: "v", sc: &SC, opt: $opt, def: None }], ..ST };
        static R: Root = Root::List(&Sch::St(&S));
        judge::<Vec<$h>>(p, &input(), &R)
    }
)* } }
holders! {
    d_u8 HU8 u8, U8, false; d_i8 HI8 i8, I8, false; d_u16 HU16 u16, U16, false; d_i16 HI16 i16, I16, false;
    d_u32 HU32 u32, U32, false; d_i32 HI32 i32, I32, false; d_u64 HU64 u64, U64, false; d_i64 HI64 i64, I64, false;
    d_usize HUsize usize, USIZE, false; d_isize HIsize isize, ISIZE, false;
    d_f64 HF64 f64, Sc::F64, false; d_f32 HF32 f32, Sc::F32, false; d_bool HBool bool, Sc::Bool, false;
    d_string HString String, STR, false; d_pathbuf HPathBuf PathBuf, STR, false; d_arcpath HArcPath Arc<Path>, STR, false; d_arcstr HArcStr Arc<str>, STR, false;
    d_boxu8 HBoxU8 Box<u8>, U8, false; d_arci16 HArcI16 Arc<i16>, I16, false; d_rcstr HRcString Rc<String>, STR, false;
    d_spanu8 HSpU8 Spanned<u8, Span>, Sc::At(&U8), false; d_spanstr HSpStr Spanned<String, Span>, Sc::At(&STR), false;
    d_lit HLit Literal, Sc::Lit, false; d_word HWord Word, WORD, false; d_two HTwo Two, TWO, false;
    d_boxopt HBoxOpt Box<Option<bool>>, Sc::Opt(&Sc::Bool), false; d_spanopt HSpOpt Spanned<Option<i8>, Span>, Sc::At(&Sc::Opt(&I8)), false;
}
#[derive(Decode)] struct HOpt { #[knuffel(argument)] v: Option<u8>, #[knuffel(argument)] w: Option<String> }
rec!(HOpt { v, w });
static S_HOPT: St = St { name: "HOpt", args: &[Arg { f: "v", sc: &U8, opt: true, def: None }, Arg { f: "w", sc: &STR, opt: true, def: None }], ..ST };
#[derive(Decode)] struct HOptX { #[knuffel(property)] a: Option<Box<i8>>, #[knuffel(property)] b: Option<Arc<str>>, #[knuffel(property)] c: Option<Word>, #[knuffel(property)] d: Option<f64>, #[knuffel(property)] e: Option<bool> }
rec!(HOptX { a, b, c, d, e });
static S_HOPTX: St = St { name: "HOptX", props: &[po("a", &I8), po("b", &STR), po("c", &WORD), po("d", &Sc::F64), po("e", &Sc::Bool)], ..ST };
entry! {
    d_opt: Vec<HOpt> = Root::List(&Sch::St(&S_HOPT));
    d_optx: Vec<HOptX> = Root::List(&Sch::St(&S_HOPTX));
}

