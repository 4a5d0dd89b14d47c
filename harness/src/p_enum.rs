//! Enums, newtypes, node names, type names, spans.
use crate::astcmp::*;
use crate::refkdl::Sp;
use crate::dec::*;
use crate::refkdl;
use crate::schema::{self, *};
use crate::sup::*;
use crate::{entry, rec, tup};
use knuffel::ast::{Literal, SpannedNode, TypeName, Value};
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::{Decode, DecodeScalar};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Decode)] enum En {
    Create(#[knuffel(argument)] String),
    PrintString(Leaf),
    Finish,
    #[knuffel(skip)] #[allow(dead_code)] InternalAction,
    HTTPGet(#[knuffel(property(name="k"))] Option<u8>, #[knuffel(arguments)] Vec<u8>, u16),
    OptLeaf(Option<Leaf>),
    r#Loop(#[knuffel(argument)] Option<u8>, #[knuffel(children)] Vec<En>),
    Typed(#[knuffel(type_name)] Option<Low>, #[knuffel(argument)] Option<u8>),
}
impl D for En {
    fn d(&self) -> V {
        match self {
            En::Create(a) => V::Rec("Create", vec![("0", a.d())]), En::PrintString(l) => V::Rec("PrintString", vec![("0", l.d())]), En::Finish => V::Rec("Finish", vec![]),
            En::InternalAction => V::Rec("InternalAction", vec![]), En::HTTPGet(a, b, c) => V::Rec("HTTPGet", vec![("0", a.d()), ("1", b.d()), ("2", c.d())]),
            En::OptLeaf(l) => V::Rec("OptLeaf", vec![("0", l.d())]), En::r#Loop(a, b) => V::Rec("Loop", vec![("0", a.d()), ("1", b.d())]),
            En::Typed(a, b) => V::Rec("Typed", vec![("0", a.d()), ("1", b.d())]),
        }
    }
}
static EN: Sch = Sch::En(&[("create", "Create", Var::Tup(&St { args: &[ar("0", &STR)], ..ST })), ("print-string", "PrintString", Var::Nest(&LEAF)), ("finish", "Finish", Var::Unit),
    ("http-get", "HTTPGet", Var::Tup(&St { rest_args: Some(("1", &U8)), props: &[Prop::One { f: "0", key: "k", sc: &U8, opt: true, def: None }], extra: &[("2", zero)], ..ST })),
    ("opt-leaf", "OptLeaf", Var::OptNest(&LEAF)), ("loop", "Loop", Var::Tup(&St { args: &[ao("0", &U8)], rest_kids: Some(("1", &EN)), ..ST })),
    ("typed", "Typed", Var::Tup(&St { ty: Ty::Opt("0", low), args: &[ao("1", &U8)], ..ST }))]);
#[derive(Decode)] struct Holder { #[knuffel(child)] first: Option<Leaf>, #[knuffel(children(name="finish"))] ends: Vec<En>, #[knuffel(children)] rest: Vec<En> }
rec!(Holder { first, ends, rest });
static S_HOLDER: St = St { name: "Holder", kids: &[ko("first", "first", &LEAF), km("ends", "finish", &EN)], rest_kids: Some(("rest", &EN)), ..ST };
#[derive(Decode)] struct MaybeLeaf(Option<Leaf>);
tup!(MaybeLeaf(0));
#[derive(Decode)] struct JustLeaf(Leaf);
tup!(JustLeaf(0));
static MAYBE: Sch = Sch::OptNew("MaybeLeaf", &LEAF);
static JUST: Sch = Sch::New("JustLeaf", &LEAF);
#[derive(Decode)] struct News { #[knuffel(child)] a: Option<MaybeLeaf>, #[knuffel(children(name="b"))] b: Vec<MaybeLeaf>, #[knuffel(child)] c: Option<JustLeaf> }
rec!(News { a, b, c });
static S_NEWS: St = St { name: "News", kids: &[ko("a", "a", &MAYBE), km("b", "b", &MAYBE), ko("c", "c", &JUST)], ..ST };
entry! {
    d_en: Vec<En> = Root::List(&EN);
    d_holder: Holder = Root::St(&S_HOLDER);
    d_news: News = Root::St(&S_NEWS);
    d_maybe: Vec<MaybeLeaf> = Root::List(&MAYBE);
}


// ---------------------------------------------------------------- type name, node name, span
#[derive(Decode)] #[knuffel(span_type=Span)] struct Special { #[knuffel(span)] sp: Span, #[knuffel(node_name)] nn: String, #[knuffel(type_name)] tn: Option<TypeName>, #[knuffel(argument)] a: Option<Spanned<u8, Span>>, #[knuffel(children)] k: Vec<Special> }
rec!(Special { sp, nn, tn, a, k });
static S_SPECIAL: St = St { name: "Special", span: Some("sp"), node_name: Some(("nn", any)), ty: Ty::Opt("tn", any), args: &[ao("a", &Sc::At(&U8))], rest_kids: Some(("k", &Sch::St(&S_SPECIAL))), ..ST };
#[derive(Decode)] struct Checked { #[knuffel(node_name)] nn: Low, #[knuffel(type_name)] tn: Low }
rec!(Checked { nn, tn });
static S_CHECKED: St = St { name: "Checked", node_name: Some(("nn", low)), ty: Ty::Req("tn", low), ..ST };
#[derive(Decode)] struct OptTyped { #[knuffel(type_name)] tn: Option<Low>, #[knuffel(property)] p: Option<u8> }
rec!(OptTyped { tn, p });
static S_OPTTYPED: St = St { name: "OptTyped", ty: Ty::Opt("tn", low), props: &[po("p", &U8)], ..ST };
entry! {
    d_special: Vec<Special> = Root::List(&Sch::St(&S_SPECIAL));
    d_checked: Vec<Checked> = Root::List(&Sch::St(&S_CHECKED));
    d_opttyped: Vec<OptTyped> = Root::List(&Sch::St(&S_OPTTYPED));
}


#[derive(Decode)] #[knuffel(span_type=LineSpan)] struct SpecialL { #[knuffel(span)] sp: LineSpan, #[knuffel(node_name)] nn: String, #[knuffel(type_name)] tn: Option<TypeName>, #[knuffel(argument)] a: Option<Spanned<u8, LineSpan>>, #[knuffel(children)] k: Vec<SpecialL> }
rec!(SpecialL { sp, nn, tn, a, k });
static S_SPECIALL: St = St { name: "SpecialL", span: Some("sp"), node_name: Some(("nn", any)), ty: Ty::Opt("tn", any), args: &[ao("a", &Sc::At(&U8))], rest_kids: Some(("k", &Sch::St(&S_SPECIALL))), ..ST };
#[no_mangle] pub extern "C" fn d_speciall(p: u64) { static R: Root = Root::List(&Sch::St(&S_SPECIALL)); judge_s::<LineSpan, Vec<SpecialL>>(p, &input(), &R) }
#[derive(Decode)] #[knuffel(span_type=Span)] struct NewSpan(Special);
tup!(NewSpan(0));
#[derive(Decode)] #[knuffel(span_type=Span)] struct NewGen<T: Decode<Span>>(T);
impl<T: Decode<Span> + D> D for NewGen<T> { fn d(&self) -> V { V::Rec("NewGen", vec![("0", self.0.d())]) } }
#[derive(Decode)] #[knuffel(span_type=Span)] struct NewOpt<T: Decode<Span>>(Option<T>);
impl<T: Decode<Span> + D> D for NewOpt<T> { fn d(&self) -> V { V::Rec("NewOpt", vec![("0", self.0.d())]) } }
static NEWSPAN: Sch = Sch::New("NewSpan", &Sch::St(&S_SPECIAL));
static NEWGEN: Sch = Sch::New("NewGen", &NEWSPAN);
static NEWOPT: Sch = Sch::OptNew("NewOpt", &Sch::New("JustLeaf", &LEAF));
#[derive(Decode)] #[knuffel(span_type=Span)] enum Sv<T: Decode<Span>> {
    Where(#[knuffel(span)] Span, #[knuffel(node_name)] String, #[knuffel(type_name)] Low, #[knuffel(argument)] u8),
    Lists(#[knuffel(children(name="a"))] Vec<T>, #[knuffel(children(name="b"), unwrap(argument))] Option<Vec<u8>>, #[knuffel(children)] Vec<Sv<T>>),
    PropOnly(#[knuffel(property(name="p"), default=7)] i8, #[knuffel(properties)] BTreeMap<String, u8>),
    Gen(T),
    Maybe(Option<Special>),
    Plain,
}
impl<T: Decode<Span> + D> D for Sv<T> {
    fn d(&self) -> V {
        match self {
            Sv::Where(a, b, c, d) => V::Rec("Where", vec![("0", a.d()), ("1", b.d()), ("2", c.d()), ("3", d.d())]), Sv::Lists(a, b, c) => V::Rec("Lists", vec![("0", a.d()), ("1", b.d()), ("2", c.d())]),
            Sv::PropOnly(a, b) => V::Rec("PropOnly", vec![("0", a.d()), ("1", b.d())]), Sv::Gen(a) => V::Rec("Gen", vec![("0", a.d())]), Sv::Maybe(a) => V::Rec("Maybe", vec![("0", a.d())]), Sv::Plain => V::Rec("Plain", vec![]),
        }
    }
}
static SV: Sch = Sch::En(&[
    ("where", "Where", Var::Tup(&St { span: Some("0"), node_name: Some(("1", any)), ty: Ty::Req("2", low), args: &[ar("3", &U8)], ..ST })),
    ("lists", "Lists", Var::Tup(&St { kids: &[km("0", "a", &LEAF), Kid::Many { f: "1", name: "b", sch: &Sch::Un(&St { args: &[ar("_", &U8)], ..ST }), opt: true, def: None }], rest_kids: Some(("2", &SV)), ..ST })),
    ("prop-only", "PropOnly", Var::Tup(&St { props: &[Prop::One { f: "0", key: "p", sc: &I8, opt: false, def: Some(seven) }], rest_props: Some(("1", &U8)), ..ST })),
    ("gen", "Gen", Var::Nest(&LEAF)), ("maybe", "Maybe", Var::OptNest(&Sch::St(&S_SPECIAL))), ("plain", "Plain", Var::Unit)]);
entry! {
    d_newspan: Vec<NewSpan> = Root::List(&NEWSPAN);
    d_newgen: Vec<NewGen<NewSpan>> = Root::List(&NEWGEN);
    d_newopt: Vec<NewOpt<JustLeaf>> = Root::List(&NEWOPT);
    d_sv: Vec<Sv<Leaf>> = Root::List(&SV);
}
// ---------------------------------------------------------------- asked for more than once
#[derive(Decode)] #[knuffel(span_type=Span)] struct Twice { #[knuffel(node_name)] n2: PathBuf, #[knuffel(span)] sp: Span, #[knuffel(type_name)] t2: Option<String>, #[knuffel(span)] s2: Span, #[knuffel(node_name)] nn: String, #[knuffel(type_name)] tn: Option<TypeName>, #[knuffel(children)] k: Vec<Twice> }
impl D for Twice {
    fn d(&self) -> V {
        check(self.sp == self.s2, "two span fields differ");
        check(self.n2.to_str() == Some(&self.nn[..]), "two node name fields differ");
        check(match (&self.t2, &self.tn) { (None, None) => true, (Some(a), Some(b)) => a[..] == **b, _ => false }, "two type name fields differ");
        V::Rec("Twice", vec![("sp", self.sp.d()), ("nn", self.nn.d()), ("tn", self.tn.d()), ("k", self.k.d())])
    }
}
static S_TWICE: St = St { name: "Twice", span: Some("sp"), node_name: Some(("nn", any)), ty: Ty::Opt("tn", any), rest_kids: Some(("k", &Sch::St(&S_TWICE))), ..ST };
#[derive(Decode)] #[knuffel(span_type=Span)] struct TupSpec(#[knuffel(type_name)] Option<Low>, #[knuffel(argument)] Option<u8>, #[knuffel(node_name)] Low, #[knuffel(span)] Span, #[knuffel(children(name="a"))] Vec<TupSpec>);
tup!(TupSpec(0, 1, 2, 3, 4));
static S_TUPSPEC: St = St { name: "TupSpec", span: Some("3"), node_name: Some(("2", low)), ty: Ty::Opt("0", low), args: &[ao("1", &U8)], kids: &[km("4", "a", &Sch::St(&S_TUPSPEC))], ..ST };
entry! {
    d_twice: Vec<Twice> = Root::List(&Sch::St(&S_TWICE));
    d_tupspec: Vec<TupSpec> = Root::List(&Sch::St(&S_TUPSPEC));
}
