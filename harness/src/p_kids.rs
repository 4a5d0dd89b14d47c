//! Children, unwrap, flatten.
use crate::astcmp::*;
use crate::refkdl::Sp;
use crate::dec::*;
use crate::refkdl;
use crate::schema::{self, *};
use crate::sup::*;
use crate::{entry, rec, tup};
use knuffel::ast::{Literal, SpannedNode, TypeName, Value};
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::{Decode, DecodeScalar};
use std::collections::{BTreeMap, BTreeSet, LinkedList, VecDeque};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

fn leaf0() -> V { V::Rec("Leaf", vec![("v", V::Int(0)), ("skipped", V::Int(0))]) }
fn leaf9() -> V { V::Rec("Leaf", vec![("v", V::Int(9)), ("skipped", V::Int(1))]) }
fn nil() -> V { V::List(vec![]) }
fn leaves9() -> V { V::List(vec![leaf9()]) }
#[derive(Decode)] struct Kids {
    #[knuffel(child)] one: Leaf,
    #[knuffel(child)] two_x: Option<Leaf>,
    #[knuffel(child)] flag_it: bool,
    #[knuffel(child, default)] dflt: Leaf,
    #[knuffel(child, default=Leaf { v: 9, skipped: 1 })] nine: Leaf,
    #[knuffel(children(name="m"))] many: Vec<Leaf>,
    #[knuffel(children(name="o"))] opt: Option<Vec<Leaf>>,
    #[knuffel(children(name="w"), default=vec![Leaf { v: 9, skipped: 1 }])] with: Vec<Leaf>,
}
rec!(Kids { one, two_x, flag_it, dflt, nine, many, opt, with });
static S_KIDS: St = St { name: "Kids", kids: &[k1("one", "one", &LEAF), ko("two_x", "two-x", &LEAF), Kid::Flag { f: "flag_it", name: "flag-it" },
    Kid::One { f: "dflt", name: "dflt", sch: &LEAF, opt: false, def: Some(leaf0) }, Kid::One { f: "nine", name: "nine", sch: &LEAF, opt: false, def: Some(leaf9) },
    km("many", "m", &LEAF), Kid::Many { f: "opt", name: "o", sch: &LEAF, opt: true, def: None }, Kid::Many { f: "with", name: "w", sch: &LEAF, opt: false, def: Some(leaves9) }], ..ST };
#[derive(Decode)] struct Deep { #[knuffel(argument)] a: Option<u8>, #[knuffel(child)] kids: Option<KidsS>, #[knuffel(children)] rest: Vec<Deep> }
rec!(Deep { a, kids, rest });
#[derive(Decode)] struct KidsS { #[knuffel(property)] p: Option<u8>, #[knuffel(child)] b: Option<Box<Leaf>>, #[knuffel(child)] c: bool, #[knuffel(children(name="d"))] d: Vec<Arc<Leaf>>, #[knuffel(children(name="e"))] e: Vec<Rc<Nothing>> }
rec!(KidsS { p, b, c, d, e });
static S_KIDSS: St = St { name: "KidsS", props: &[po("p", &U8)], kids: &[ko("b", "b", &LEAF), Kid::Flag { f: "c", name: "c" }, km("d", "d", &LEAF), km("e", "e", &Sch::St(&S_NOTHING))], ..ST };
static S_DEEP: St = St { name: "Deep", args: &[ao("a", &U8)], kids: &[ko("kids", "kids", &Sch::St(&S_KIDSS))], rest_kids: Some(("rest", &Sch::St(&S_DEEP))), ..ST };

#[derive(Decode)] struct Wraps {
    #[knuffel(child, unwrap(argument))] a: u8,
    #[knuffel(child, unwrap(argument))] b: Option<String>,
    #[knuffel(child, unwrap(argument))] t_f: Option<bool>,
    #[knuffel(child, unwrap(arguments))] c: Option<Vec<u8>>,
    #[knuffel(child, unwrap(property(name="v")))] d: Option<u8>,
    #[knuffel(child, unwrap(properties))] e: Option<BTreeMap<String, u8>>,
    #[knuffel(child, unwrap(child))] f: Option<Leaf>,
    #[knuffel(child, unwrap(children(name="x")))] g: Option<Vec<Leaf>>,
    #[knuffel(child, unwrap(children))] h: Option<Vec<Leaf>>,
    #[knuffel(child, unwrap(child, unwrap(argument)))] i: Option<u8>,
    #[knuffel(children(name="j"), unwrap(argument))] j: Vec<u8>,
    #[knuffel(child, unwrap(argument), default=7)] k: i8,
    #[knuffel(child, unwrap(argument, default=3))] l: Option<u8>,
}
rec!(Wraps { a, b, t_f, c, d, e, f, g, h, i, j, k, l });
macro_rules! un { ($($f:tt)*) => { &Sch::Un(&St { $($f)*, ..ST }) } }
static S_WRAPS: St = St { name: "Wraps", kids: &[
    k1("a", "a", un!(args: &[ar("_", &U8)])), ko("b", "b", un!(args: &[ar("_", &STR)])), ko("t_f", "t-f", un!(args: &[ar("_", &Sc::Bool)])),
    ko("c", "c", un!(rest_args: Some(("_", &U8)))), ko("d", "d", un!(props: &[pr("v", &U8)])), ko("e", "e", un!(rest_props: Some(("_", &U8)))),
    ko("f", "f", un!(kids: &[k1("_", "f", &LEAF)])), ko("g", "g", un!(kids: &[km("_", "x", &LEAF)])), ko("h", "h", un!(rest_kids: Some(("_", &LEAF)))),
    ko("i", "i", un!(kids: &[k1("_", "i", un!(args: &[ar("_", &U8)]))])), km("j", "j", un!(args: &[ar("_", &U8)])),
    Kid::One { f: "k", name: "k", sch: un!(args: &[ar("_", &I8)]), opt: false, def: Some(seven) },
    ko("l", "l", un!(args: &[Arg { f: "_", sc: &U8, opt: false, def: Some(three) }])),
], ..ST };
#[derive(Decode)] struct WrapRest { #[knuffel(child, unwrap(argument))] a: Option<u8>, #[knuffel(children, unwrap(arguments))] rest: Vec<Vec<u8>> }
rec!(WrapRest { a, rest });
static S_WRAPREST: St = St { name: "WrapRest", kids: &[ko("a", "a", un!(args: &[ar("_", &U8)]))], rest_kids: Some(("rest", un!(rest_args: Some(("_", &U8))))), ..ST };

#[derive(Decode, Default)] struct Common { #[knuffel(child, unwrap(argument))] name: Option<u8>, #[knuffel(child)] on: bool, #[knuffel(child)] leaf: Option<Leaf>, #[knuffel(flatten(child))] more: More }
#[derive(Decode, Default)] struct More { #[knuffel(child, unwrap(argument))] deep: Option<u8> }
rec!(Common { name, on, leaf, more } More { deep });
static S_MORE: St = St { name: "More", kids: &[ko("deep", "deep", un!(args: &[ar("_", &U8)]))], ..ST };
static S_COMMON: St = St { name: "Common", kids: &[ko("name", "name", un!(args: &[ar("_", &U8)])), Kid::Flag { f: "on", name: "on" }, ko("leaf", "leaf", &LEAF), Kid::Flat("more", &S_MORE)], ..ST };
#[derive(Decode)] struct Flat { #[knuffel(child, unwrap(argument))] url: u8, #[knuffel(flatten(child))] common: Common, #[knuffel(child)] last: bool }
rec!(Flat { url, common, last });
static S_FLAT: St = St { name: "Flat", kids: &[k1("url", "url", un!(args: &[ar("_", &U8)])), Kid::Flat("common", &S_COMMON), Kid::Flag { f: "last", name: "last" }], ..ST };
#[derive(Decode)] struct FlatBox { #[knuffel(flatten(child))] common: Box<More>, #[knuffel(children)] rest: Vec<Leaf> }
rec!(FlatBox { common, rest });
static S_FLATBOX: St = St { name: "FlatBox", kids: &[Kid::Flat("common", &S_MORE)], rest_kids: Some(("rest", &LEAF)), ..ST };
#[derive(Decode, Default)] struct CommonP { #[knuffel(property)] a_b: Option<u8>, #[knuffel(property, str)] s: Option<Low>, #[knuffel(flatten(property))] in_: MoreP }
#[derive(Decode, Default)] struct MoreP { #[knuffel(property(name="zz"))] z: Option<i8> }
rec!(CommonP { a_b, s, in_ } MoreP { z });
static S_MOREP: St = St { name: "MoreP", props: &[Prop::One { f: "z", key: "zz", sc: &I8, opt: true, def: None }], ..ST };
static S_COMMONP: St = St { name: "CommonP", props: &[Prop::One { f: "a_b", key: "a-b", sc: &U8, opt: true, def: None }, po("s", &LOW), Prop::Flat("in_", &S_MOREP)], ..ST };
#[derive(Decode)] struct FlatP { #[knuffel(property)] p: Option<u8>, #[knuffel(flatten(property))] common: CommonP, #[knuffel(argument)] q: Option<u8> }
rec!(FlatP { p, common, q });
static S_FLATP: St = St { name: "FlatP", args: &[ao("q", &U8)], props: &[po("p", &U8), Prop::Flat("common", &S_COMMONP)], ..ST };
#[derive(Decode)] struct FlatPR { #[knuffel(flatten(property))] common: MoreP, #[knuffel(properties)] rest: BTreeMap<String, u8> }
rec!(FlatPR { common, rest });
static S_FLATPR: St = St { name: "FlatPR", props: &[Prop::Flat("common", &S_MOREP)], rest_props: Some(("rest", &U8)), ..ST };
entry! {
    d_kids: Kids = Root::St(&S_KIDS);
    d_kidsbox: Box<Kids> = Root::St(&S_KIDS);
    d_kidsarc: Arc<Kids> = Root::St(&S_KIDS);
    d_kidsnode: Vec<Kids> = Root::List(&Sch::St(&S_KIDS));
    d_deep: Vec<Deep> = Root::List(&Sch::St(&S_DEEP));
    d_wraps: Wraps = Root::St(&S_WRAPS);
    d_wraprest: WrapRest = Root::St(&S_WRAPREST);
    d_wrapnode: Vec<WrapRest> = Root::List(&Sch::St(&S_WRAPREST));
    d_flat: Flat = Root::St(&S_FLAT);
    d_flatnode: Vec<Flat> = Root::List(&Sch::St(&S_FLAT));
    d_flatbox: FlatBox = Root::St(&S_FLATBOX);
    d_flatp: Vec<FlatP> = Root::List(&Sch::St(&S_FLATP));
    d_flatpr: Vec<FlatPR> = Root::List(&Sch::St(&S_FLATPR));
}


// ---------------------------------------------------------------- one field flattened both ways, inside pointers
#[derive(Decode, Default)] struct Both { #[knuffel(property)] a: Option<u8>, #[knuffel(child, unwrap(argument))] x: Option<u8>, #[knuffel(child)] y: bool, #[knuffel(flatten(child, property))] in_: BothIn }
#[derive(Decode, Default)] struct BothIn { #[knuffel(property)] b: Option<u8>, #[knuffel(child)] z: Option<Leaf> }
rec!(Both { a, x, y, in_ } BothIn { b, z });
static S_BOTHIN: St = St { name: "BothIn", props: &[po("b", &U8)], kids: &[ko("z", "z", &LEAF)], ..ST };
static S_BOTH: St = St { name: "Both", props: &[po("a", &U8), Prop::Flat("in_", &S_BOTHIN)], kids: &[ko("x", "x", un!(args: &[ar("_", &U8)])), Kid::Flag { f: "y", name: "y" }, Kid::Flat("in_", &S_BOTHIN)], ..ST };
#[derive(Decode)] struct FlatCP { #[knuffel(flatten(child, property))] both: Both, #[knuffel(property)] p: Option<u8>, #[knuffel(child)] k: bool, #[knuffel(properties)] rp: BTreeMap<String, u8>, #[knuffel(children)] rk: Vec<Leaf> }
rec!(FlatCP { both, p, k, rp, rk });
static S_FLATCP: St = St { name: "FlatCP", props: &[Prop::Flat("both", &S_BOTH), po("p", &U8)], rest_props: Some(("rp", &U8)), kids: &[Kid::Flat("both", &S_BOTH), Kid::Flag { f: "k", name: "k" }], rest_kids: Some(("rk", &LEAF)), ..ST };
#[derive(Decode)] struct FlatStrict { #[knuffel(argument)] n: Option<u8>, #[knuffel(flatten(property, child))] both: Both }
rec!(FlatStrict { n, both });
static S_FLATSTRICT: St = St { name: "FlatStrict", args: &[ao("n", &U8)], props: &[Prop::Flat("both", &S_BOTH)], kids: &[Kid::Flat("both", &S_BOTH)], ..ST };
#[derive(Decode, Default)] struct TupP(#[knuffel(property(name="t"))] Option<u8>, #[knuffel(property(name="u"))] Option<i8>);
tup!(TupP(0, 1));
static S_TUPP: St = St { name: "TupP", props: &[Prop::One { f: "0", key: "t", sc: &U8, opt: true, def: None }, Prop::One { f: "1", key: "u", sc: &I8, opt: true, def: None }], ..ST };
#[derive(Decode)] struct FlatPtr { #[knuffel(flatten(property))] a: Box<MoreP>, #[knuffel(flatten(property))] b: Arc<TupP>, #[knuffel(flatten(child))] c: Rc<More>, #[knuffel(flatten(child))] d: Arc<OnlyFlag>, #[knuffel(flatten(child, property))] e: Rc<BothIn> }
rec!(FlatPtr { a, b, c, d, e });
#[derive(Decode, Default)] struct OnlyFlag { #[knuffel(child)] up: bool }
rec!(OnlyFlag { up });
static S_ONLYFLAG: St = St { name: "OnlyFlag", kids: &[Kid::Flag { f: "up", name: "up" }], ..ST };
static S_FLATPTR: St = St { name: "FlatPtr", props: &[Prop::Flat("a", &S_MOREP), Prop::Flat("b", &S_TUPP), Prop::Flat("e", &S_BOTHIN)], kids: &[Kid::Flat("c", &S_MORE), Kid::Flat("d", &S_ONLYFLAG), Kid::Flat("e", &S_BOTHIN)], ..ST };

// ---------------------------------------------------------------- more of unwrap, defaults and collections
#[derive(Decode)] struct OptLists { #[knuffel(children(name="a"))] a: Option<Vec<Leaf>>, #[knuffel(children(name="b"))] b: Option<Vec<Nothing>> }
rec!(OptLists { a, b });
static S_OPTLISTS: St = St { name: "OptLists", kids: &[Kid::Many { f: "a", name: "a", sch: &LEAF, opt: true, def: None }, Kid::Many { f: "b", name: "b", sch: &Sch::St(&S_NOTHING), opt: true, def: None }], ..ST };
#[derive(Decode)] struct ChildDef { #[knuffel(child, default)] a: Option<Leaf>, #[knuffel(child, default=Some(Leaf { v: 9, skipped: 1 }))] b: Option<Leaf>, #[knuffel(children(name="c"), default=Some(vec![]))] c: Option<Vec<Leaf>>,
    #[knuffel(child, unwrap(argument), default=Some(3))] d: Option<u8>, #[knuffel(child, unwrap(arguments), default)] e: Vec<u8>, #[knuffel(child, unwrap(properties), default)] f: BTreeMap<String, u8>, #[knuffel(child, unwrap(children), default=vec![Leaf { v: 9, skipped: 1 }])] g: Vec<Leaf>,
    #[knuffel(child, unwrap(property(name="h"), default=7))] h: Option<i8>, #[knuffel(children(name="i"), unwrap(argument), default=vec![7])] i: Vec<i8> }
rec!(ChildDef { a, b, c, d, e, f, g, h, i });
fn nomap() -> V { V::Map(vec![]) }
fn seven1() -> V { V::List(vec![V::Int(7)]) }
static S_CHILDDEF: St = St { name: "ChildDef", kids: &[
    Kid::One { f: "a", name: "a", sch: &LEAF, opt: true, def: Some(none) }, Kid::One { f: "b", name: "b", sch: &LEAF, opt: true, def: Some(leaf9) }, Kid::Many { f: "c", name: "c", sch: &LEAF, opt: true, def: Some(nil) },
    Kid::One { f: "d", name: "d", sch: un!(args: &[ar("_", &Sc::Opt(&U8))]), opt: true, def: Some(three) }, Kid::One { f: "e", name: "e", sch: un!(rest_args: Some(("_", &U8))), opt: false, def: Some(nil) },
    Kid::One { f: "f", name: "f", sch: un!(rest_props: Some(("_", &U8))), opt: false, def: Some(nomap) }, Kid::One { f: "g", name: "g", sch: un!(rest_kids: Some(("_", &LEAF))), opt: false, def: Some(leaves9) },
    ko("h", "h", un!(props: &[Prop::One { f: "_", key: "h", sc: &I8, opt: false, def: Some(seven) }])),
    Kid::Many { f: "i", name: "i", sch: un!(args: &[ar("_", &I8)]), opt: false, def: Some(seven1) },
], ..ST };
#[derive(Decode)] struct Wraps2 {
    #[knuffel(child, unwrap(argument))] a: bool,
    #[knuffel(child, unwrap(child))] b: Leaf,
    #[knuffel(child, unwrap(property))] c_c: u8,
    #[knuffel(children(name="d"), unwrap(children(name="e")))] d: Vec<Vec<Leaf>>,
    #[knuffel(children(name="f"), unwrap(property(name="g")))] f: Vec<u8>,
    #[knuffel(children(name="h"), unwrap(child))] h: Vec<Leaf>,
    #[knuffel(children(name="j"), unwrap(arguments))] j: Vec<Vec<Option<u8>>>,
    #[knuffel(child, unwrap(children(name="x"), unwrap(children, unwrap(argument))))] k: Option<Vec<Vec<u8>>>,
}
rec!(Wraps2 { a, b, c_c, d, f, h, j, k });
static S_WRAPS2: St = St { name: "Wraps2", kids: &[
    k1("a", "a", un!(args: &[ar("_", &Sc::Bool)])), k1("b", "b", un!(kids: &[k1("_", "b", &LEAF)])), k1("c_c", "c-c", un!(props: &[pr("c-c", &U8)])),
    km("d", "d", un!(kids: &[km("_", "e", &LEAF)])), km("f", "f", un!(props: &[pr("g", &U8)])), km("h", "h", un!(kids: &[k1("_", "h", &LEAF)])),
    km("j", "j", un!(rest_args: Some(("_", &Sc::Opt(&U8))))), ko("k", "k", un!(kids: &[km("_", "x", un!(rest_kids: Some(("_", un!(args: &[ar("_", &U8)])))))])),
], ..ST };
#[derive(Decode)] struct Colls { #[knuffel(children(name="a"))] a: VecDeque<Leaf>, #[knuffel(children(name="b"), unwrap(argument))] b: BTreeSet<u8>, #[knuffel(children)] c: LinkedList<Leaf> }
impl D for Colls { fn d(&self) -> V { V::Rec("Colls", vec![("a", V::List(self.a.iter().map(|x| x.d()).collect())), ("b", V::List(self.b.iter().map(|x| x.d()).collect())), ("c", V::List(self.c.iter().map(|x| x.d()).collect()))]) } }
static S_COLLS: St = St { name: "Colls", kids: &[km("a", "a", &LEAF), Kid::Set { f: "b", name: "b", sch: un!(args: &[ar("_", &U8)]) }], rest_kids: Some(("c", &LEAF)), ..ST };
entry! {
    d_flatcp: Vec<FlatCP> = Root::List(&Sch::St(&S_FLATCP));
    d_flatstrict: Vec<FlatStrict> = Root::List(&Sch::St(&S_FLATSTRICT));
    d_flatptr: Vec<FlatPtr> = Root::List(&Sch::St(&S_FLATPTR));
    d_optlists: OptLists = Root::St(&S_OPTLISTS);
    d_optlistsn: Vec<OptLists> = Root::List(&Sch::St(&S_OPTLISTS));
    d_childdef: ChildDef = Root::St(&S_CHILDDEF);
    d_childdefn: Vec<ChildDef> = Root::List(&Sch::St(&S_CHILDDEF));
    d_wraps2: Vec<Wraps2> = Root::List(&Sch::St(&S_WRAPS2));
    d_colls: Colls = Root::St(&S_COLLS);
}

// ---------------------------------------------------------------- flattening in tuples and variants
#[derive(Decode)] struct TupFlat(#[knuffel(flatten(property))] MoreP, #[knuffel(argument)] Option<u8>, #[knuffel(flatten(child))] More, #[knuffel(flatten(child, property))] BothIn, #[knuffel(children)] Vec<Leaf>);
tup!(TupFlat(0, 1, 2, 3, 4));
static S_TUPFLAT: St = St { name: "TupFlat", args: &[ao("1", &U8)], props: &[Prop::Flat("0", &S_MOREP), Prop::Flat("3", &S_BOTHIN)], kids: &[Kid::Flat("2", &S_MORE), Kid::Flat("3", &S_BOTHIN)], rest_kids: Some(("4", &LEAF)), ..ST };
#[derive(Decode)] enum EnFlat { One(#[knuffel(flatten(property))] CommonP, #[knuffel(properties)] BTreeMap<String, u8>), Two(#[knuffel(flatten(child))] Common, #[knuffel(argument)] u8), Three(#[knuffel(flatten(child, property))] Both, #[knuffel(children(name="m"))] Vec<Leaf>, #[knuffel(children)] Vec<EnFlat>) }
impl D for EnFlat {
    fn d(&self) -> V {
        match self { EnFlat::One(a, b) => V::Rec("One", vec![("0", a.d()), ("1", b.d())]), EnFlat::Two(a, b) => V::Rec("Two", vec![("0", a.d()), ("1", b.d())]), EnFlat::Three(a, b, c) => V::Rec("Three", vec![("0", a.d()), ("1", b.d()), ("2", c.d())]) }
    }
}
static ENFLAT: Sch = Sch::En(&[("one", "One", Var::Tup(&St { props: &[Prop::Flat("0", &S_COMMONP)], rest_props: Some(("1", &U8)), ..ST })),
    ("two", "Two", Var::Tup(&St { args: &[ar("1", &U8)], kids: &[Kid::Flat("0", &S_COMMON)], ..ST })),
    ("three", "Three", Var::Tup(&St { props: &[Prop::Flat("0", &S_BOTH)], kids: &[Kid::Flat("0", &S_BOTH), km("1", "m", &LEAF)], rest_kids: Some(("2", &ENFLAT)), ..ST }))]);
entry! {
    d_tupflat: Vec<TupFlat> = Root::List(&Sch::St(&S_TUPFLAT));
    d_enflat: Vec<EnFlat> = Root::List(&ENFLAT);
}
/// What is absent keeps the value of the `Default` of the flattened type.
#[derive(Decode)] struct PreP { #[knuffel(property)] x: Option<u8>, #[knuffel(property)] y: Option<u8>, z: u8 }
impl Default for PreP { fn default() -> PreP { PreP { x: Some(3), y: None, z: 7 } } }
rec!(PreP { x, y, z });
#[derive(Decode)] struct FlatPre { #[knuffel(flatten(property))] p: PreP, #[knuffel(children)] k: Vec<FlatPre> }
rec!(FlatPre { p, k });
static S_PREP: St = St { name: "PreP", props: &[Prop::One { f: "x", key: "x", sc: &U8, opt: true, def: Some(three) }, po("y", &U8)], extra: &[("z", seven)], ..ST };
static S_FLATPRE: St = St { name: "FlatPre", props: &[Prop::Flat("p", &S_PREP)], rest_kids: Some(("k", &Sch::St(&S_FLATPRE))), ..ST };
entry! { d_flatpre: Vec<FlatPre> = Root::List(&Sch::St(&S_FLATPRE)); }

// ---------------------------------------------------------------- names of many words, lists of unusual names
#[derive(Decode)] struct OddK {
    #[knuffel(child, unwrap(argument))] r#fn: u8,
    #[knuffel(child)] a1_b2c3: bool,
    #[knuffel(child)] a_field_with_a_name_of_very_many_words_such_as_nobody_would_ever_want_to_type_out_in_full: Option<Leaf>,
    #[knuffel(children(name=""))] e: Vec<Leaf>,
    #[knuffel(children(name="{b} \"q\"\\\n'"))] f: Vec<Leaf>,
    #[knuffel(children(name="é中😀"), unwrap(property(name="{}")))] g: Vec<u8>,
    #[knuffel(children(name="Some_Name"), unwrap(child))] h: Vec<Leaf>,
}
impl D for OddK { fn d(&self) -> V { V::Rec("OddK", vec![("fn", self.r#fn.d()), ("a1_b2c3", self.a1_b2c3.d()), ("long", self.a_field_with_a_name_of_very_many_words_such_as_nobody_would_ever_want_to_type_out_in_full.d()), ("e", self.e.d()), ("f", self.f.d()), ("g", self.g.d()), ("h", self.h.d())]) } }
static S_ODDK: St = St { name: "OddK", kids: &[k1("fn", "fn", un!(args: &[ar("_", &U8)])), Kid::Flag { f: "a1_b2c3", name: "a1-b2c3" },
    ko("long", "a-field-with-a-name-of-very-many-words-such-as-nobody-would-ever-want-to-type-out-in-full", &LEAF), km("e", "", &LEAF), km("f", "{b} \"q\"\\\n'", &LEAF),
    km("g", "é中😀", un!(props: &[pr("{}", &U8)])), km("h", "Some_Name", un!(kids: &[k1("_", "h", &LEAF)]))], ..ST };
entry! {
    d_oddk: OddK = Root::St(&S_ODDK);
    d_oddkn: Vec<OddK> = Root::List(&Sch::St(&S_ODDK));
}

// ---------------------------------------------------------------- attributes in other orders and split up, tuples and units as documents, generics without a span type
/// A type with documentation.
#[derive(Decode)]
#[allow(dead_code)]
struct Split<T: Default> where T: Clone {
    /// Documented.
    #[knuffel(default=7)]
    #[knuffel(argument)]
    a: i8,
    #[knuffel(bytes, argument)] b: Option<Raw2>,
    #[knuffel(arguments)] #[knuffel(str)] rest: Vec<Low>,
    #[knuffel(default, property(name="p-p"))] #[allow(unused)] p: Option<u8>,
    #[knuffel(str)] #[knuffel(default=Low("q".into()), property)] q: Low,
    free: T,
    #[knuffel(unwrap(argument, default=3), child)] c: Option<u8>,
    #[knuffel(unwrap(default=Low("q".into()), str, property(name="k")))] #[knuffel(child)] d: Option<Low>,
    #[knuffel(default=vec![7], unwrap(argument), children(name="e"))] e: Vec<i8>,
    #[knuffel(unwrap(child, unwrap(arguments)))] #[knuffel(default)] #[knuffel(child)] f: Vec<u8>,
    #[knuffel(unwrap(children(name="h")), children)] g: Vec<Vec<Leaf>>,
}
struct Raw2(Vec<u8>);
impl From<Vec<u8>> for Raw2 { fn from(v: Vec<u8>) -> Raw2 { Raw2(v) } }
impl D for Raw2 { fn d(&self) -> V { V::S(self.0.clone()) } }
impl D for Split<u8> { fn d(&self) -> V { V::Rec("Split", vec![("a", self.a.d()), ("b", self.b.d()), ("rest", self.rest.d()), ("p", self.p.d()), ("q", self.q.d()), ("free", self.free.d()), ("c", self.c.d()), ("d", self.d.d()), ("e", self.e.d()), ("f", self.f.d()), ("g", self.g.d())]) } }
fn low_q2() -> V { V::S(b"q".to_vec()) }
static S_SPLIT: St = St { name: "Split", args: &[Arg { f: "a", sc: &I8, opt: false, def: Some(seven) }, ao("b", &Sc::Bytes)], rest_args: Some(("rest", &LOW)),
    props: &[Prop::One { f: "p", key: "p-p", sc: &U8, opt: true, def: Some(none) }, Prop::One { f: "q", key: "q", sc: &LOW, opt: false, def: Some(low_q2) }], extra: &[("free", zero)],
    kids: &[ko("c", "c", un!(args: &[Arg { f: "_", sc: &U8, opt: false, def: Some(three) }])), ko("d", "d", un!(props: &[Prop::One { f: "_", key: "k", sc: &LOW, opt: false, def: Some(low_q2) }])),
        Kid::Many { f: "e", name: "e", sch: un!(args: &[ar("_", &I8)]), opt: false, def: Some(seven1) }, Kid::One { f: "f", name: "f", sch: un!(kids: &[k1("_", "f", un!(rest_args: Some(("_", &U8))))]), opt: false, def: Some(nil) }],
    rest_kids: Some(("g", un!(kids: &[km("_", "h", &LEAF)]))), ..ST };
#[derive(Decode)] struct TupKids(#[knuffel(children(name="a"))] Vec<Leaf>, u16, #[knuffel(flatten(child))] More, #[knuffel(children(name="b"), unwrap(argument))] Option<Vec<u8>>, #[knuffel(children)] Vec<Nothing>);
tup!(TupKids(0, 1, 2, 3, 4));
static S_TUPKIDS: St = St { name: "TupKids", extra: &[("1", zero)], kids: &[km("0", "a", &LEAF), Kid::Flat("2", &S_MORE), Kid::Many { f: "3", name: "b", sch: un!(args: &[ar("_", &U8)]), opt: true, def: None }], rest_kids: Some(("4", &Sch::St(&S_NOTHING))), ..ST };
#[derive(Decode)] struct TupStrict(#[knuffel(children(name="a"), default=vec![Leaf { v: 9, skipped: 1 }])] Vec<Leaf>, #[knuffel(children(name="b"), unwrap(children))] Vec<Vec<TupStrict>>);
tup!(TupStrict(0, 1));
static S_TUPSTRICT: St = St { name: "TupStrict", kids: &[Kid::Many { f: "0", name: "a", sch: &LEAF, opt: false, def: Some(leaves9) }, km("1", "b", un!(rest_kids: Some(("_", &Sch::St(&S_TUPSTRICT)))))], ..ST };
#[derive(Decode)] struct NoFields {}
impl D for NoFields { fn d(&self) -> V { V::Rec("NoFields", vec![]) } }
static S_NOFIELDS: St = St { name: "NoFields", ..ST };
#[derive(Decode)] struct NoTuple();
tup!(NoTuple());
static S_NOTUPLE: St = St { name: "NoTuple", ..ST };
#[derive(Decode)] struct Nones { #[knuffel(child)] a: Option<NoFields>, #[knuffel(children(name="b"))] b: Vec<NoTuple> }
rec!(Nones { a, b });
static S_NONES: St = St { name: "Nones", kids: &[ko("a", "a", &Sch::St(&S_NOFIELDS)), km("b", "b", &Sch::St(&S_NOTUPLE))], ..ST };
entry! {
    d_split: Vec<Split<u8>> = Root::List(&Sch::St(&S_SPLIT));
    d_tupkids: TupKids = Root::St(&S_TUPKIDS);
    d_tupkidsn: Vec<TupKids> = Root::List(&Sch::St(&S_TUPKIDS));
    d_tupstrict: TupStrict = Root::St(&S_TUPSTRICT);
    d_nonothing: Nothing = Root::St(&S_NOTHING);
    d_nofields: NoFields = Root::St(&S_NOFIELDS);
    d_nones: Nones = Root::St(&S_NONES);
}
