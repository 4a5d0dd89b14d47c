//! Arguments and properties, str and bytes.
use crate::astcmp::*;
use crate::refkdl::Sp;
use crate::dec::*;
use crate::refkdl;
use crate::schema::{self, *};
use crate::sup::*;
use crate::{entry, rec, tup};
use knuffel::ast::{Literal, SpannedNode, TypeName, Value};
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::{Decode, DecodeScalar};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Decode)] struct Modes {
    #[knuffel(argument, bytes)] a: Vec<u8>,
    #[knuffel(argument, str)] b: Low,
    #[knuffel(argument, bytes)] c: Option<Bs>,
    #[knuffel(argument, str)] d: Option<Low>,
}
impl D for Modes { fn d(&self) -> V { V::Rec("Modes", vec![("a", self.a[..].d()), ("b", self.b.d()), ("c", self.c.d()), ("d", self.d.d())]) } }
struct Raw(Vec<u8>);
impl From<Vec<u8>> for Raw { fn from(v: Vec<u8>) -> Raw { Raw(v) } }
impl D for Raw { fn d(&self) -> V { V::S(self.0.clone()) } }
#[derive(Decode)] struct ModesP {
    #[knuffel(property, bytes)] a: Raw,
    #[knuffel(property, str)] b: Low,
    #[knuffel(property, bytes)] c: Option<Bs>,
    #[knuffel(property, str)] d: Option<Low>,
    #[knuffel(property, str, default)] e: Option<Low>,
    #[knuffel(property, bytes, default=Bs(b"def".to_vec()))] f: Bs,
}
rec!(ModesP { a, b, c, d, e, f });
#[derive(Decode)] struct ModesV { #[knuffel(arguments, bytes)] a: Vec<Raw>, #[knuffel(properties, str)] p: BTreeMap<String, Low> }
rec!(ModesV { a, p });
#[derive(Decode)] struct ModesU { #[knuffel(child, unwrap(argument, bytes))] a: Raw, #[knuffel(child, unwrap(argument, str))] b: Option<Low>, #[knuffel(children(name="c"), unwrap(arguments, bytes))] c: Vec<Vec<Raw>> }
rec!(ModesU { a, b, c });
#[derive(Decode)] struct OneBytes { #[knuffel(argument, bytes)] a: Raw }
rec!(OneBytes { a });
fn def_bytes() -> V { V::S(b"def".to_vec()) }
static S_MODES: St = St { name: "Modes", args: &[ar("a", &Sc::Bytes), ar("b", &LOW), ao("c", &Sc::Bytes), ao("d", &LOW)], ..ST };
static S_MODESP: St = St { name: "ModesP", props: &[pr("a", &Sc::Bytes), pr("b", &LOW), po("c", &Sc::Bytes), po("d", &LOW),
    Prop::One { f: "e", key: "e", sc: &LOW, opt: true, def: Some(none) }, Prop::One { f: "f", key: "f", sc: &Sc::Bytes, opt: false, def: Some(def_bytes) }], ..ST };
static S_MODESV: St = St { name: "ModesV", rest_args: Some(("a", &Sc::Bytes)), rest_props: Some(("p", &LOW)), ..ST };
static S_MODESU: St = St { name: "ModesU", kids: &[
    Kid::One { f: "a", name: "a", sch: &Sch::Un(&St { args: &[ar("_", &Sc::Bytes)], ..ST }), opt: false, def: None },
    Kid::One { f: "b", name: "b", sch: &Sch::Un(&St { args: &[ar("_", &Sc::Parse(low))], ..ST }), opt: true, def: None },
    Kid::Many { f: "c", name: "c", sch: &Sch::Un(&St { rest_args: Some(("_", &Sc::Bytes)), ..ST }), opt: false, def: None },
], ..ST };
static S_ONEBYTES: St = St { name: "OneBytes", args: &[ar("a", &Sc::Bytes)], ..ST };
entry! {
    d_bytes: Vec<OneBytes> = Root::List(&Sch::St(&S_ONEBYTES));
    d_modes: Vec<Modes> = Root::List(&Sch::St(&S_MODES));
    d_modesp: Vec<ModesP> = Root::List(&Sch::St(&S_MODESP));
    d_modesv: Vec<ModesV> = Root::List(&Sch::St(&S_MODESV));
    d_modesu: ModesU = Root::St(&S_MODESU);
}


// ---------------------------------------------------------------- arguments and properties
#[derive(Decode)] struct Args { #[knuffel(argument)] a: u8, #[knuffel(argument)] b: bool, #[knuffel(argument)] c: Option<String>, #[knuffel(arguments)] rest: Vec<i16> }
rec!(Args { a, b, c, rest });
static S_ARGS: St = St { name: "Args", args: &[ar("a", &U8), ar("b", &Sc::Bool), ao("c", &STR)], rest_args: Some(("rest", &I16)), ..ST };
#[derive(Decode)] struct ArgsD { #[knuffel(argument, default)] a: u8, #[knuffel(argument, default=Some("x".into()))] b: Option<String>, #[knuffel(argument, default=7)] c: i8, #[knuffel(argument, default)] d: Option<bool> }
rec!(ArgsD { a, b, c, d });
static S_ARGSD: St = St { name: "ArgsD", args: &[Arg { f: "a", sc: &U8, opt: false, def: Some(zero) }, Arg { f: "b", sc: &STR, opt: true, def: Some(def_x) },
    Arg { f: "c", sc: &I8, opt: false, def: Some(seven) }, Arg { f: "d", sc: &Sc::Bool, opt: true, def: Some(none) }], ..ST };
#[derive(Decode)] struct Props { #[knuffel(property)] plug_name: String, #[knuffel(property(name="Other"))] x: Option<u8>, #[knuffel(property, default)] c: u16, #[knuffel(property, default=Some(3))] d: Option<i8>,
    #[knuffel(property, default=7)] r#type: i8, #[knuffel(properties)] rest: BTreeMap<String, i64> }
impl D for Props { fn d(&self) -> V { V::Rec("Props", vec![("plug_name", self.plug_name.d()), ("x", self.x.d()), ("c", self.c.d()), ("d", self.d.d()), ("type", self.r#type.d()), ("rest", self.rest.d())]) } }
static S_PROPS: St = St { name: "Props", props: &[Prop::One { f: "plug_name", key: "plug-name", sc: &STR, opt: false, def: None }, Prop::One { f: "x", key: "Other", sc: &U8, opt: true, def: None },
    Prop::One { f: "c", key: "c", sc: &U16, opt: false, def: Some(zero) }, Prop::One { f: "d", key: "d", sc: &I8, opt: true, def: Some(three) },
    Prop::One { f: "type", key: "type", sc: &I8, opt: false, def: Some(seven) }], rest_props: Some(("rest", &I64)), ..ST };
#[derive(Decode)] struct Exact { #[knuffel(argument)] a: Option<u8>, #[knuffel(property)] p: Option<u8>, #[knuffel(property)] q_r: u8 }
rec!(Exact { a, p, q_r });
static S_EXACT: St = St { name: "Exact", args: &[ao("a", &U8)], props: &[po("p", &U8), Prop::One { f: "q_r", key: "q-r", sc: &U8, opt: false, def: None }], ..ST };
#[derive(Decode)] #[knuffel(span_type=Span)] struct Pairs { #[knuffel(arguments)] a: Vec<Literal>, #[knuffel(properties)] p: Vec<(String, Literal)> }
impl D for Pairs { fn d(&self) -> V { V::Rec("Pairs", vec![("a", self.a.d()), ("p", V::Map(self.p.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.d())).collect()))]) } }
static S_PAIRS: St = St { name: "Pairs", rest_args: Some(("a", &Sc::Lit)), rest_props: Some(("p", &Sc::Lit)), ..ST };
#[derive(Decode)] struct Tuple(#[knuffel(argument)] u8, #[knuffel(property(name="k"))] Option<String>, u16, #[knuffel(argument)] Option<bool>);
tup!(Tuple(0, 1, 2, 3));
static S_TUPLE: St = St { name: "Tuple", args: &[ar("0", &U8), ao("3", &Sc::Bool)], props: &[Prop::One { f: "1", key: "k", sc: &STR, opt: true, def: None }], extra: &[("2", zero)], ..ST };
#[derive(Decode)] #[knuffel(span_type=Span)] struct Gen<T: DecodeScalar<Span>> { #[knuffel(argument)] a: T }
impl<T: DecodeScalar<Span> + D> D for Gen<T> { fn d(&self) -> V { V::Rec("Gen", vec![("a", self.a.d())]) } }
static S_GEN: St = St { name: "Gen", args: &[ar("a", &U8)], ..ST };
entry! {
    d_args: Vec<Args> = Root::List(&Sch::St(&S_ARGS));
    d_argsd: Vec<ArgsD> = Root::List(&Sch::St(&S_ARGSD));
    d_props: Vec<Props> = Root::List(&Sch::St(&S_PROPS));
    d_exact: Vec<Exact> = Root::List(&Sch::St(&S_EXACT));
    d_pairs: Vec<Pairs> = Root::List(&Sch::St(&S_PAIRS));
    d_nothing: Vec<Nothing> = Root::List(&Sch::St(&S_NOTHING));
    d_gen: Vec<Gen<u8>> = Root::List(&Sch::St(&S_GEN));
    d_tuple: Vec<Tuple> = Root::List(&Sch::St(&S_TUPLE));
}


#[derive(Decode)] struct RestOpt { #[knuffel(arguments)] a: Vec<Option<u8>>, #[knuffel(properties)] p: BTreeMap<String, Option<bool>> }
rec!(RestOpt { a, p });
static S_RESTOPT: St = St { name: "RestOpt", rest_args: Some(("a", &Sc::Opt(&U8))), rest_props: Some(("p", &Sc::Opt(&Sc::Bool))), ..ST };
#[derive(Decode)] struct KeyLow { #[knuffel(properties)] p: BTreeMap<Low, u8> }
impl D for KeyLow { fn d(&self) -> V { V::Rec("KeyLow", vec![("p", V::Map(self.p.iter().map(|(k, v)| (k.0.as_bytes().to_vec(), v.d())).collect()))]) } }
static S_KEYLOW: St = St { name: "KeyLow", rest_props: Some(("p", &U8)), key: Some(low), ..ST };
#[derive(Decode)] struct TupleP(#[knuffel(property(name="t"))] Option<u8>, #[knuffel(property(name="u v"))] Option<i8>);
tup!(TupleP(0, 1));
static S_TUPLEP: St = St { name: "TupleP", props: &[Prop::One { f: "0", key: "t", sc: &U8, opt: true, def: None }, Prop::One { f: "1", key: "u v", sc: &I8, opt: true, def: None }], ..ST };
#[derive(Decode)] struct TupleL(#[knuffel(arguments)] Vec<u8>, #[knuffel(properties)] BTreeMap<String, u8>, #[knuffel(children(name="x"))] Vec<Leaf>, #[knuffel(children)] Vec<Nothing>);
tup!(TupleL(0, 1, 2, 3));
static S_TUPLEL: St = St { name: "TupleL", rest_args: Some(("0", &U8)), rest_props: Some(("1", &U8)), kids: &[km("2", "x", &LEAF)], rest_kids: Some(("3", &Sch::St(&S_NOTHING))), ..ST };
entry! {
    d_restopt: Vec<RestOpt> = Root::List(&Sch::St(&S_RESTOPT));
    d_keylow: Vec<KeyLow> = Root::List(&Sch::St(&S_KEYLOW));
    d_tuplep: Vec<TupleP> = Root::List(&Sch::St(&S_TUPLEP));
    d_tuplel: Vec<TupleL> = Root::List(&Sch::St(&S_TUPLEL));
}

// ---------------------------------------------------------------- str and bytes with defaults, in the catch-alls, tuples and variants
fn low_q() -> V { V::S(b"q".to_vec()) }
fn no_bytes() -> V { V::S(vec![]) }
#[derive(Decode)] struct ModesD {
    #[knuffel(argument, str, default=Low("q".into()))] a: Low,
    #[knuffel(argument, bytes, default)] b: Option<Bs>,
    #[knuffel(argument, bytes, default)] c: Vec<u8>,
    #[knuffel(arguments, str)] rest: Vec<Low>,
    #[knuffel(property, str, default=Low("q".into()))] p: Low,
    #[knuffel(property(name="q-q"), bytes, default=Some(Bs(b"def".to_vec())))] q: Option<Bs>,
    #[knuffel(properties, bytes)] more: BTreeMap<String, Raw>,
}
impl D for ModesD { fn d(&self) -> V { V::Rec("ModesD", vec![("a", self.a.d()), ("b", self.b.d()), ("c", self.c[..].d()), ("rest", self.rest.d()), ("p", self.p.d()), ("q", self.q.d()), ("more", self.more.d())]) } }
static S_MODESD: St = St { name: "ModesD", args: &[Arg { f: "a", sc: &LOW, opt: false, def: Some(low_q) }, Arg { f: "b", sc: &Sc::Bytes, opt: true, def: Some(none) }, Arg { f: "c", sc: &Sc::Bytes, opt: false, def: Some(no_bytes) }],
    rest_args: Some(("rest", &LOW)), props: &[Prop::One { f: "p", key: "p", sc: &LOW, opt: false, def: Some(low_q) }, Prop::One { f: "q", key: "q-q", sc: &Sc::Bytes, opt: true, def: Some(def_bytes) }], rest_props: Some(("more", &Sc::Bytes)), ..ST };
#[derive(Decode)] struct ModesW {
    #[knuffel(child, unwrap(arguments, str))] a: Option<Vec<Low>>,
    #[knuffel(child, unwrap(property, str))] b: Option<Low>,
    #[knuffel(child, unwrap(properties, bytes))] c: Option<BTreeMap<String, Raw>>,
    #[knuffel(child, unwrap(properties, str))] d: Option<BTreeMap<String, Low>>,
    #[knuffel(child, unwrap(argument, str, default=Low("q".into())))] e: Option<Low>,
    #[knuffel(child, unwrap(argument, bytes), default=Bs(b"def".to_vec()))] f: Bs,
    #[knuffel(child, unwrap(property(name="k"), bytes))] g: Option<Bs>,
    #[knuffel(children(name="h"), unwrap(argument, str))] h: Vec<Low>,
    #[knuffel(children, unwrap(child, unwrap(argument, bytes)))] rest: Vec<Raw>,
}
rec!(ModesW { a, b, c, d, e, f, g, h, rest });
macro_rules! un { ($($f:tt)*) => { &Sch::Un(&St { $($f)*, ..ST }) } }
static S_MODESW: St = St { name: "ModesW", kids: &[
    ko("a", "a", un!(rest_args: Some(("_", &LOW)))), ko("b", "b", un!(props: &[pr("b", &LOW)])), ko("c", "c", un!(rest_props: Some(("_", &Sc::Bytes)))), ko("d", "d", un!(rest_props: Some(("_", &LOW)))),
    ko("e", "e", un!(args: &[Arg { f: "_", sc: &LOW, opt: false, def: Some(low_q) }])), Kid::One { f: "f", name: "f", sch: un!(args: &[ar("_", &Sc::Bytes)]), opt: false, def: Some(def_bytes) },
    ko("g", "g", un!(props: &[pr("k", &Sc::Bytes)])), km("h", "h", un!(args: &[ar("_", &LOW)])),
], rest_kids: Some(("rest", un!(kids: &[k1("_", "rest", un!(args: &[ar("_", &Sc::Bytes)]))]))), ..ST };
#[derive(Decode)] struct ModesT(#[knuffel(argument, str)] Option<Low>, #[knuffel(property(name="p"), bytes)] Option<Bs>, #[knuffel(arguments, bytes)] Vec<Raw>, #[knuffel(properties, str)] BTreeMap<String, Low>);
tup!(ModesT(0, 1, 2, 3));
static S_MODEST: St = St { name: "ModesT", args: &[ao("0", &LOW)], props: &[Prop::One { f: "1", key: "p", sc: &Sc::Bytes, opt: true, def: None }], rest_args: Some(("2", &Sc::Bytes)), rest_props: Some(("3", &LOW)), ..ST };
#[derive(Decode)] enum ModesE { A(#[knuffel(argument, bytes)] Raw, #[knuffel(properties, str)] BTreeMap<String, Low>), B(#[knuffel(argument, str, default=Low("q".into()))] Low, #[knuffel(arguments, bytes)] Vec<Raw>), C(#[knuffel(property(name="k"), str)] Low, #[knuffel(children(name="x"), unwrap(arguments, bytes))] Vec<Vec<Raw>>) }
impl D for ModesE {
    fn d(&self) -> V {
        match self { ModesE::A(a, b) => V::Rec("A", vec![("0", a.d()), ("1", b.d())]), ModesE::B(a, b) => V::Rec("B", vec![("0", a.d()), ("1", b.d())]), ModesE::C(a, b) => V::Rec("C", vec![("0", a.d()), ("1", b.d())]) }
    }
}
static MODESE: Sch = Sch::En(&[("a", "A", Var::Tup(&St { args: &[ar("0", &Sc::Bytes)], rest_props: Some(("1", &LOW)), ..ST })),
    ("b", "B", Var::Tup(&St { args: &[Arg { f: "0", sc: &LOW, opt: false, def: Some(low_q) }], rest_args: Some(("1", &Sc::Bytes)), ..ST })),
    ("c", "C", Var::Tup(&St { props: &[Prop::One { f: "0", key: "k", sc: &LOW, opt: false, def: None }], kids: &[km("1", "x", un!(rest_args: Some(("_", &Sc::Bytes))))], ..ST }))]);
entry! {
    d_modesd: Vec<ModesD> = Root::List(&Sch::St(&S_MODESD));
    d_modesw: ModesW = Root::St(&S_MODESW);
    d_modest: Vec<ModesT> = Root::List(&Sch::St(&S_MODEST));
    d_modese: Vec<ModesE> = Root::List(&MODESE);
}

// ---------------------------------------------------------------- unusual names of properties
#[derive(Decode)] struct OddP {
    #[knuffel(property(name=""))] a: Option<u8>,
    #[knuffel(property(name="{b} \"q\"\\\n'"))] b: Option<u8>,
    #[knuffel(property(name="\u{e9}中😀"))] c: Option<u8>,
    #[knuffel(property(name="long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-named"))] d: Option<u8>,
    #[knuffel(property)] a1_b2c3: Option<u8>,
    #[knuffel(property)] r#match: Option<u8>,
    #[knuffel(property(name="Some_Name"), default)] some_name: u8,
    #[knuffel(property(name="-1"), default=Some(7))] n: Option<i8>,
    #[knuffel(property(name="null"))] null: Option<i8>,
}
impl D for OddP { fn d(&self) -> V { V::Rec("OddP", vec![("a", self.a.d()), ("b", self.b.d()), ("c", self.c.d()), ("d", self.d.d()), ("a1_b2c3", self.a1_b2c3.d()), ("match", self.r#match.d()), ("some_name", self.some_name.d()), ("n", self.n.d()), ("null", self.null.d())]) } }
const fn pk(f: &'static str, key: &'static str, sc: &'static Sc, opt: bool, def: Def) -> Prop { Prop::One { f, key, sc, opt, def } }
static S_ODDP: St = St { name: "OddP", props: &[pk("a", "", &U8, true, None), pk("b", "{b} \"q\"\\\n'", &U8, true, None), pk("c", "é中😀", &U8, true, None), pk("d", "long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-named", &U8, true, None),
    pk("a1_b2c3", "a1-b2c3", &U8, true, None), pk("match", "match", &U8, true, None), pk("some_name", "Some_Name", &U8, false, Some(zero)), pk("n", "-1", &I8, true, Some(seven)), pk("null", "null", &I8, true, None)], ..ST };
#[derive(Decode)] struct OddR { #[knuffel(argument)] x: Option<u8>, #[knuffel(property(name="{} \"\\"))] a: u8, #[knuffel(property(name="é"))] r#type: u8, #[knuffel(property(name="a-key-of-many-words-of-many-words-of-many-words-of-many-words-of-many-words-of-many-words-of-many-words-and-one"), default)] l: u8 }
impl D for OddR { fn d(&self) -> V { V::Rec("OddR", vec![("x", self.x.d()), ("a", self.a.d()), ("type", self.r#type.d()), ("l", self.l.d())]) } }
static S_ODDR: St = St { name: "OddR", args: &[ao("x", &U8)], props: &[pk("a", "{} \"\\", &U8, false, None), pk("type", "é", &U8, false, None), pk("l", "a-key-of-many-words-of-many-words-of-many-words-of-many-words-of-many-words-of-many-words-of-many-words-and-one", &U8, false, Some(zero))], ..ST };
entry! {
    d_oddp: Vec<OddP> = Root::List(&Sch::St(&S_ODDP));
    d_oddr: Vec<OddR> = Root::List(&Sch::St(&S_ODDR));
}

// ---------------------------------------------------------------- Option spelled otherwise is not known to be optional; arguments into other collections
use std::option::Option as Opt;
#[derive(Decode)] struct OptA { #[knuffel(argument)] a: ::std::option::Option<String>, #[knuffel(argument)] b: Opt<bool>, #[knuffel(argument, default)] c: Opt<u8>, #[knuffel(property)] p: std::option::Option<u8>, #[knuffel(property, default=Some(3))] q: Opt<i8> }
rec!(OptA { a, b, c, p, q });
static S_OPTA: St = St { name: "OptA", args: &[ar("a", &Sc::Opt(&STR)), ar("b", &Sc::Opt(&Sc::Bool)), Arg { f: "c", sc: &Sc::Opt(&U8), opt: false, def: Some(none) }],
    props: &[pr("p", &Sc::Opt(&U8)), pk("q", "q", &Sc::Opt(&I8), false, Some(three))], ..ST };
#[derive(Decode)] struct OptW { #[knuffel(child, unwrap(argument))] a: ::std::option::Option<u8>, #[knuffel(child, unwrap(argument))] b: Option<Opt<u8>>, #[knuffel(children(name="c"), unwrap(argument))] c: Vec<Opt<u8>>, #[knuffel(children(name="d"), unwrap(argument))] d: Vec<Option<u8>> }
rec!(OptW { a, b, c, d });
static S_OPTW: St = St { name: "OptW", kids: &[k1("a", "a", un!(args: &[ar("_", &Sc::Opt(&U8))])), ko("b", "b", un!(args: &[ar("_", &Sc::Opt(&U8))])), km("c", "c", un!(args: &[ar("_", &Sc::Opt(&U8))])), km("d", "d", un!(args: &[ar("_", &Sc::Opt(&U8))]))], ..ST };
impl D for std::collections::VecDeque<u8> { fn d(&self) -> V { V::List(self.iter().map(|x| x.d()).collect()) } }
#[derive(Decode)] struct ArgsC(#[knuffel(arguments)] std::collections::VecDeque<u8>);
tup!(ArgsC(0));
static S_ARGSC: St = St { name: "ArgsC", rest_args: Some(("0", &U8)), ..ST };
entry! {
    d_opta: Vec<OptA> = Root::List(&Sch::St(&S_OPTA));
    d_optw: OptW = Root::St(&S_OPTW);
    d_argsc: Vec<ArgsC> = Root::List(&Sch::St(&S_ARGSC));
}

// ---------------------------------------------------------------- bytes converted to a type that refuses some
struct Two([u8; 2]);
impl TryFrom<Vec<u8>> for Two { type Error = String; fn try_from(v: Vec<u8>) -> Result<Two, String> { if v.len() == 2 { Ok(Two([v[0], v[1]])) } else { Err("not two".to_string()) } } }
impl D for Two { fn d(&self) -> V { self.0[..].d() } }
fn two(b: &[u8]) -> Option<V> { if b.len() == 2 { Some(V::S(b.to_vec())) } else { None } }
fn def_zz() -> V { V::S(b"zz".to_vec()) }
static TWO: Sc = Sc::Conv(two);
#[derive(Decode)] struct ModesF {
    #[knuffel(argument, bytes)] a: Two,
    #[knuffel(argument, bytes)] b: Option<Two>,
    #[knuffel(argument, bytes, default=Some(Two(*b"zz")))] c: Option<Two>,
    #[knuffel(arguments, bytes)] rest: Vec<Two>,
    #[knuffel(property, bytes, default=Two(*b"zz"))] p: Two,
    #[knuffel(property, bytes)] q: Option<Two>,
    #[knuffel(properties, bytes)] more: BTreeMap<String, Two>,
    #[knuffel(child, unwrap(argument, bytes))] u: Option<Two>,
    #[knuffel(children(name="v"), unwrap(property(name="k"), bytes))] v: Vec<Two>,
    #[knuffel(child, unwrap(arguments, bytes))] w: Option<Vec<Two>>,
}
rec!(ModesF { a, b, c, rest, p, q, more, u, v, w });
static S_MODESF: St = St { name: "ModesF", args: &[ar("a", &TWO), ao("b", &TWO), Arg { f: "c", sc: &TWO, opt: true, def: Some(def_zz) }], rest_args: Some(("rest", &TWO)),
    props: &[pk("p", "p", &TWO, false, Some(def_zz)), pk("q", "q", &TWO, true, None)], rest_props: Some(("more", &TWO)),
    kids: &[ko("u", "u", un!(args: &[ar("_", &TWO)])), km("v", "v", un!(props: &[pr("k", &TWO)])), ko("w", "w", un!(rest_args: Some(("_", &TWO))))], ..ST };
entry! { d_modesf: Vec<ModesF> = Root::List(&Sch::St(&S_MODESF)); }
