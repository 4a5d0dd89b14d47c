//! What the derives are documented to do, as an interpreter over the reference document.
//! `Sch`/`St`/`Sc` describe a Rust type by its attributes; `root` gives the value a document decodes
//! to, or every way in which it does not fit.  Shares no code with knuffel.
use crate::refkdl::*;
use crate::astcmp::{int_value, str_eq};

/// Canonical values.
pub enum V { None, Unit, Bool(bool), Int(i128), F64(u64), F32(u32), S(Vec<u8>), List(Vec<V>), Map(Vec<(Vec<u8>, V)>), Rec(&'static str, Vec<(&'static str, V)>), At(Sp, Box<V>), Num(Option<i64>, Option<u64>), Bad }

pub fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::None, V::None) | (V::Unit, V::Unit) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Int(x), V::Int(y)) => x == y,
        (V::F64(x), V::F64(y)) => x == y,
        (V::F32(x), V::F32(y)) => x == y,
        (V::S(x), V::S(y)) => bytes_eq(x, y),
        (V::Num(x, p), V::Num(y, q)) => x == y && p == q,
        (V::List(x), V::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq(p, q)),
        (V::Map(x), V::Map(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.iter().any(|(l, q)| bytes_eq(k, l) && eq(p, q))),
        (V::Rec(n, x), V::Rec(m, y)) => n == m && x.len() == y.len() && x.iter().all(|(k, p)| y.iter().any(|(l, q)| k == l && eq(p, q))),
        (V::At(s, x), V::At(t, y)) => *s == *t && eq(x, y),
        _ => false,
    }
}
fn bytes_eq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a == b }

/// Set when the outcome is not specified: `-0` for an unsigned type.
pub static mut EITHER: bool = false;

/// A way in which the document does not fit: the label and message expected of a diagnostic about it.
pub struct Viol { pub label: &'static str, pub sp: Sp, pub msg: Option<(&'static str, &'static str)>, pub about: Option<String>, pub says: [&'static str; 2] }
type Out = Vec<Viol>;
fn bad(out: &mut Out, label: &'static str, sp: Sp) -> V { out.push(Viol { label, sp, msg: None, about: None, says: [""; 2] }); V::Bad }
/// The message also has to contain these.
fn says(out: &mut Out, a: &'static str, b: &'static str) -> V { if let Some(v) = out.last_mut() { v.says = [a, b] } V::Bad }
fn about(out: &mut Out, label: &'static str, sp: Sp, name: &str) -> V { out.push(Viol { label, sp, msg: None, about: Some(name.to_string()), says: [""; 2] }); V::Bad }

pub type Def = Option<fn() -> V>;
/// Scalars.
pub enum Sc {
    /// type annotation allowed on it, least, greatest
    Int(&'static str, i128, i128),
    F64, F32, Bool, Str, Bytes, Lit,
    Parse(fn(&str) -> Option<V>),
    /// bytes, converted
    Conv(fn(&[u8]) -> Option<V>),
    Enum(&'static [(&'static str, &'static str)]),
    Opt(&'static Sc),
    At(&'static Sc),
}
pub struct Arg { pub f: &'static str, pub sc: &'static Sc, pub opt: bool, pub def: Def }
pub enum Prop { One { f: &'static str, key: &'static str, sc: &'static Sc, opt: bool, def: Def }, Flat(&'static str, &'static St) }
pub enum Kid {
    Flag { f: &'static str, name: &'static str },
    One { f: &'static str, name: &'static str, sch: &'static Sch, opt: bool, def: Def },
    Many { f: &'static str, name: &'static str, sch: &'static Sch, opt: bool, def: Def },
    /// as Many, each value once and in increasing order
    Set { f: &'static str, name: &'static str, sch: &'static Sch },
    Flat(&'static str, &'static St),
}
pub enum Ty { No, Opt(&'static str, fn(&str) -> Option<V>), Req(&'static str, fn(&str) -> Option<V>) }
pub struct St {
    pub name: &'static str, pub ty: Ty, pub node_name: Option<(&'static str, fn(&str) -> Option<V>)>, pub span: Option<&'static str>,
    pub args: &'static [Arg], pub rest_args: Option<(&'static str, &'static Sc)>,
    pub props: &'static [Prop], pub rest_props: Option<(&'static str, &'static Sc)>,
    pub kids: &'static [Kid], pub rest_kids: Option<(&'static str, &'static Sch)>,
    pub extra: &'static [(&'static str, fn() -> V)],
    /// what the names of the remaining properties have to satisfy
    pub key: Option<fn(&str) -> Option<V>>,
}
pub const ST: St = St { name: "", ty: Ty::No, node_name: None, span: None, args: &[], rest_args: None, props: &[], rest_props: None, kids: &[], rest_kids: None, extra: &[], key: None };
pub enum Sch {
    St(&'static St),
    /// a node that stands for its only field
    Un(&'static St),
    /// newtype over an optional node
    OptNew(&'static str, &'static Sch),
    New(&'static str, &'static Sch),
    En(&'static [(&'static str, &'static str, Var)]),
    Ast,
}
pub enum Var { Unit, Nest(&'static Sch), OptNest(&'static Sch), Tup(&'static St) }
pub enum Root { List(&'static Sch), St(&'static St) }

fn kind(l: &RLit) -> (&'static str, &'static str) {
    match l {
        RLit::Null => ("null", "unexpected null"), RLit::Bool(_) => ("boolean", "unexpected boolean"), RLit::Str(_) => ("string", "unexpected string"),
        RLit::Int(..) => ("integer", "unexpected integer"), RLit::Dec(_) => ("decimal", "unexpected decimal"),
    }
}
fn mismatch(want: &'static str, v: &RVal, out: &mut Out) -> V {
    let (k, label) = kind(&v.lit);
    out.push(Viol { label, sp: v.sp, msg: Some((want, k)), about: None, says: [""; 2] });
    V::Bad
}

pub fn scalar(sc: &Sc, v: &RVal, out: &mut Out) -> V { check_type(sc, v, out); raw(sc, v, out) }
fn check_type(sc: &Sc, v: &RVal, out: &mut Out) {
    let (t, sp) = match &v.ty { Some(t) => t, None => return };
    let ok = match sc {
        Sc::Int(n, ..) => str_eq(t, n),
        Sc::F64 => str_eq(t, "f64"),
        Sc::F32 => str_eq(t, "f32"),
        Sc::Bytes | Sc::Conv(_) => str_eq(t, "base64"),
        Sc::Bool | Sc::Str | Sc::Parse(_) | Sc::Enum(_) => false,
        Sc::Lit => true,
        Sc::Opt(s) | Sc::At(s) => return check_type(s, v, out),
    };
    if !ok {
        about(out, "unexpected type name", *sp, t);
        says(out, match sc { Sc::Int(n, ..) => n, Sc::F64 => "f64", Sc::F32 => "f32", Sc::Bytes | Sc::Conv(_) => "base64", _ => "" }, "no type");
    }
}
fn raw(sc: &Sc, v: &RVal, out: &mut Out) -> V {
    match (sc, &v.lit) {
        (Sc::Opt(_), RLit::Null) => V::None,
        (Sc::Opt(s), _) => raw(s, v, out),
        (Sc::At(s), _) => V::At(v.sp, Box::new(raw(s, v, out))),
        (Sc::Int(_, 0, _), RLit::Int(r, t)) if t.starts_with('-') && int_value(*r, t) == Some(0) => { unsafe { EITHER = true } V::Bad }
        (Sc::Int(_, min, max), RLit::Int(r, t)) => match int_value(*r, t) { Some(i) if *min <= i && i <= *max => V::Int(i), _ => bad(out, "invalid value", v.sp) },
        (Sc::Int(..), _) => mismatch("integer", v, out),
        (Sc::F64, RLit::Dec(t)) => match t.parse::<f64>() { Ok(f) => V::F64(f.to_bits()), Err(_) => bad(out, "invalid value", v.sp) },
        (Sc::F32, RLit::Dec(t)) => match t.parse::<f32>() { Ok(f) => V::F32(f.to_bits()), Err(_) => bad(out, "invalid value", v.sp) },
        (Sc::F64 | Sc::F32, _) => mismatch("decimal", v, out),
        (Sc::Bool, RLit::Bool(b)) => V::Bool(*b),
        (Sc::Bool, _) => mismatch("boolean", v, out),
        (Sc::Str, RLit::Str(s)) => V::S(s.as_bytes().to_vec()),
        (Sc::Parse(f), RLit::Str(s)) => match f(s) { Some(x) => x, None => { bad(out, "invalid value", v.sp); says(out, "not low", "") } },
        (Sc::Enum(l), RLit::Str(s)) => match l.iter().find(|(n, _)| str_eq(s, n)) { Some((_, v)) => V::Rec(v, vec![]), None => bad(out, "invalid value", v.sp) },
        (Sc::Bytes, RLit::Str(s)) => if v.ty.is_some() { match base64(s.as_bytes()) { Some(b) => V::S(b), None => bad(out, "invalid value", v.sp) } } else { V::S(s.as_bytes().to_vec()) },
        (Sc::Conv(f), l) => {
            let read = match (l, &v.ty) {
                (RLit::Str(s), None) => Some(s.as_bytes().to_vec()),
                (RLit::Str(s), Some((t, _))) if str_eq(t, "base64") => { let b = base64(s.as_bytes()); if b.is_none() { bad(out, "invalid value", v.sp); } b }
                (RLit::Str(_), _) => None, // complained about the type name
                _ => { mismatch("string", v, out); None }
            };
            // what could not be read may also be reported as no bytes at all
            match f(read.as_ref().map(|b| &b[..]).unwrap_or(&[])) { Some(x) if read.is_some() => x, Some(_) => V::Bad, None => { bad(out, "invalid value", v.sp); says(out, "not two", "") } }
        }
        (Sc::Str | Sc::Parse(_) | Sc::Enum(_) | Sc::Bytes, _) => mismatch("string", v, out),
        (Sc::Lit, l) => lit(l),
    }
}
pub fn lit(l: &RLit) -> V {
    match l {
        RLit::Null => V::None, RLit::Bool(b) => V::Bool(*b), RLit::Str(s) => V::S(s.as_bytes().to_vec()),
        RLit::Int(r, t) => { let i = int_value(*r, t); V::Num(i.and_then(|i| i64::try_from(i).ok()), i.filter(|i| *i != 0).and_then(|i| u64::try_from(i).ok())) }
        RLit::Dec(t) => V::F64(t.parse::<f64>().map(|f| f.to_bits()).unwrap_or(0)),
    }
}
/// RFC 4648 with mandatory padding and zero trailing bits.
pub fn base64(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 { return None }
    let mut r = Vec::with_capacity(s.len() / 4 * 3);
    let dig = |c: u8| match c { b'A'..=b'Z' => Some(c - 65), b'a'..=b'z' => Some(c - 71), b'0'..=b'9' => Some(c + 4), b'+' => Some(62), b'/' => Some(63), _ => None };
    let n = s.len() / 4;
    for (i, q) in s.chunks(4).enumerate() {
        let (a, b) = (dig(q[0])? as u32, dig(q[1])? as u32);
        let last = i + 1 == n;
        if last && q[3] == b'=' {
            if q[2] == b'=' {
                if b & 15 != 0 { return None }
                r.push((a << 2 | b >> 4) as u8);
            } else {
                let c = dig(q[2])? as u32;
                if c & 3 != 0 { return None }
                r.push((a << 2 | b >> 4) as u8);
                r.push((b << 4 | c >> 2) as u8);
            }
            continue;
        }
        let (c, d) = (dig(q[2])? as u32, dig(q[3])? as u32);
        r.push((a << 2 | b >> 4) as u8);
        r.push((b << 4 | c >> 2) as u8);
        r.push((c << 6 | d) as u8);
    }
    Some(r)
}

pub fn node(sch: &Sch, n: &RNode, out: &mut Out) -> V {
    match sch {
        Sch::St(st) => { let mut f = vec![]; fields(st, n, out, &mut f); V::Rec(st.name, f) }
        Sch::Un(st) => { let mut f = vec![]; fields(st, n, out, &mut f); f.pop().unwrap().1 }
        Sch::New(name, s) => V::Rec(name, vec![("0", node(s, n, out))]),
        Sch::OptNew(name, s) => V::Rec(name, vec![("0", optional(s, n, out))]),
        Sch::En(l) => {
            for (name, variant, var) in *l {
                if str_eq(&n.name.0, name) {
                    return match var {
                        Var::Unit => { flag(n, out); V::Rec(variant, vec![]) }
                        Var::Nest(s) => V::Rec(variant, vec![("0", node(s, n, out))]),
                        Var::OptNest(s) => V::Rec(variant, vec![("0", optional(s, n, out))]),
                        Var::Tup(st) => { let mut f = vec![]; fields(st, n, out, &mut f); V::Rec(variant, f) }
                    };
                }
            }
            bad(out, "invalid value", n.name.1)
        }
        Sch::Ast => V::Unit,
    }
}
/// A node with nothing but its name stands for no value; a type annotation is not nothing.
fn optional(s: &Sch, n: &RNode, out: &mut Out) -> V {
    if n.ty.is_none() && n.args.is_empty() && n.props.is_empty() && n.children.is_none() { return V::None }
    node(s, n, out)
}
fn no_type(n: &RNode, out: &mut Out) { if let Some((_, sp)) = &n.ty { bad(out, "unexpected type name", *sp); } }
fn flag(n: &RNode, out: &mut Out) {
    no_type(n, out);
    for a in &n.args { bad(out, "unexpected argument", a.sp); }
    for p in &n.props { about(out, "unexpected property", p.key, &p.name); }
    if let Some((c, _)) = &n.children { for k in c { about(out, "unexpected node", k.sp, &k.name.0); } }
}
fn fields(st: &St, n: &RNode, out: &mut Out, f: &mut Vec<(&'static str, V)>) {
    match (&st.ty, &n.ty) {
        (Ty::No, _) => no_type(n, out),
        (Ty::Opt(k, _), None) => f.push((k, V::None)),
        (Ty::Req(k, _), None) => f.push((k, bad(out, "node starts here", n.name.1))),
        (Ty::Opt(k, g) | Ty::Req(k, g), Some((t, sp))) => f.push((k, match g(t) { Some(v) => v, None => { bad(out, "invalid value", *sp); says(out, "not low", "") } })),
    }
    if let Some((k, g)) = &st.node_name { f.push((k, match g(&n.name.0) { Some(v) => v, None => { bad(out, "invalid value", n.name.1); says(out, "not low", "") } })) }
    if let Some(k) = st.span { f.push((k, V::At(n.sp, Box::new(V::Unit)))) }
    for (i, a) in st.args.iter().enumerate() {
        let v = match n.args.get(i) {
            Some(v) if a.opt && matches!(v.lit, RLit::Null) => { check_type(a.sc, v, out); V::None }
            Some(v) => scalar(a.sc, v, out),
            None => absent(a.opt, a.def, n.name.1, if !a.f.starts_with(|c: char| c.is_ascii_alphabetic()) { "" } else { a.f }, out),
        };
        f.push((a.f, v));
    }
    let more = n.args.iter().skip(st.args.len());
    match st.rest_args {
        Some((k, sc)) => f.push((k, V::List(more.map(|v| scalar(sc, v, out)).collect()))),
        None => for v in more { bad(out, "unexpected argument", v.sp); },
    }
    let mut used = vec![false; n.props.len()];
    props(st.props, n, out, &mut used, f, true);
    let mut rest = vec![];
    for (i, p) in n.props.iter().enumerate() {
        if used[i] { continue }
        match st.rest_props {
            None => { about(out, "unexpected property", p.key, &p.name); }
            Some((_, sc)) => if last(n, i) {
                if let Some(g) = st.key { if g(&p.name).is_none() { bad(out, "invalid value", p.key); says(out, "not low", ""); } }
                rest.push((p.name.as_bytes().to_vec(), scalar(sc, &p.val, out)))
            },
        }
    }
    if let Some((k, _)) = st.rest_props { f.push((k, V::Map(rest))) }
    kids(st, n.children.as_ref().map(|c| &c.0[..]).unwrap_or(&[]), Some(n.sp), out, f);
    for (k, v) in st.extra { f.push((k, v())) }
}
fn absent(opt: bool, def: Def, sp: Sp, name: &str, out: &mut Out) -> V {
    match def { Some(d) => d(), None if opt => V::None, None => about(out, "node starts here", sp, name) }
}
/// Is this the last property of its name?
fn last(n: &RNode, i: usize) -> bool { !n.props[i + 1..].iter().any(|q| str_eq(&q.name, &n.props[i].name)) }
fn props(ps: &'static [Prop], n: &RNode, out: &mut Out, used: &mut [bool], f: &mut Vec<(&'static str, V)>, top: bool) {
    for p in ps {
        match p {
            Prop::One { f: k, key, sc, opt, def } => {
                let mut v = None;
                for (i, q) in n.props.iter().enumerate() {
                    if str_eq(&q.name, key) { used[i] = true; v = Some(&q.val) }
                }
                f.push((k, match v {
                    Some(v) if *opt && matches!(v.lit, RLit::Null) => { check_type(sc, v, out); V::None }
                    Some(v) => scalar(sc, v, out),
                    None if top => absent(*opt, *def, n.name.1, key, out),
                    None => def.map_or(V::None, |d| d()), // of the `Default` of the flattened type
                }));
            }
            Prop::Flat(k, st) => { let mut g = vec![]; props(st.props, n, out, used, &mut g, false); for (k, v) in st.extra { put(&mut g, k, v()) } put(f, k, V::Rec(st.name, g)) }
        }
    }
}
fn less(a: &V, b: &V) -> bool { match (a, b) { (V::Int(x), V::Int(y)) => x < y, (V::S(x), V::S(y)) => x < y, _ => false } }
/// A field flattened for properties and for children gets the parts of both.
fn put(f: &mut Vec<(&'static str, V)>, k: &'static str, v: V) {
    match (f.iter_mut().find(|x| x.0 == k), v) {
        (Some((_, V::Rec(_, g))), V::Rec(_, h)) => for (k, v) in h { put(g, k, v) },
        (_, v) => f.push((k, v)),
    }
}
fn kids(st: &St, c: &[RNode], within: Option<Sp>, out: &mut Out, f: &mut Vec<(&'static str, V)>) {
    let mut used = vec![false; c.len()];
    named(st.kids, c, within, out, &mut used, f);
    match st.rest_kids {
        Some((k, sch)) => { let mut l = vec![]; for (i, n) in c.iter().enumerate() { if !used[i] { l.push(node(sch, n, out)) } } f.push((k, V::List(l))) }
        None => for (i, n) in c.iter().enumerate() { if !used[i] { about(out, "unexpected node", n.sp, &n.name.0); } },
    }
}
fn named(ks: &'static [Kid], c: &[RNode], within: Option<Sp>, out: &mut Out, used: &mut [bool], f: &mut Vec<(&'static str, V)>) {
    for k in ks {
        match k {
            Kid::Flag { f: k, name } => {
                let mut seen = false;
                for (i, n) in c.iter().enumerate() {
                    if used[i] || !str_eq(&n.name.0, name) { continue }
                    used[i] = true;
                    flag(n, out);
                    if seen { about(out, "unexpected node", n.name.1, &n.name.0); }
                    seen = true;
                }
                f.push((k, V::Bool(seen)));
            }
            Kid::One { f: k, name, sch, opt, def } => {
                let mut v = None;
                for (i, n) in c.iter().enumerate() {
                    if used[i] || !str_eq(&n.name.0, name) { continue }
                    used[i] = true;
                    if v.is_some() { about(out, "unexpected node", n.name.1, &n.name.0); }
                    v = Some(node(sch, n, out));
                }
                f.push((k, match (v, within) {
                    (Some(v), _) => v,
                    (None, Some(sp)) => absent(*opt, *def, sp, name, out),
                    (None, None) => match def { Some(d) => d(), None if *opt => V::None, None => about(out, "", Sp(0, 0), name) },
                }));
            }
            Kid::Many { f: k, name, sch, opt, def } => {
                let mut l = vec![];
                for (i, n) in c.iter().enumerate() {
                    if used[i] || !str_eq(&n.name.0, name) { continue }
                    used[i] = true;
                    l.push(node(sch, n, out));
                }
                f.push((k, if !l.is_empty() { V::List(l) } else { match def { Some(d) => d(), None if *opt => V::None, None => V::List(l) } }));
            }
            Kid::Set { f: k, name, sch } => {
                let mut l: Vec<V> = vec![];
                for (i, n) in c.iter().enumerate() {
                    if used[i] || !str_eq(&n.name.0, name) { continue }
                    used[i] = true;
                    let v = node(sch, n, out);
                    let at = l.iter().position(|w| !less(w, &v)).unwrap_or(l.len());
                    if at == l.len() || !eq(&l[at], &v) { l.insert(at, v) }
                }
                f.push((k, V::List(l)));
            }
            Kid::Flat(k, st) => { let mut g = vec![]; named(st.kids, c, within, out, used, &mut g); put(f, k, V::Rec(st.name, g)) }
        }
    }
}
pub fn root(r: &Root, doc: &[RNode], out: &mut Out) -> V {
    match r {
        Root::List(s) => V::List(doc.iter().map(|n| node(s, n, out)).collect()),
        Root::St(st) => { let mut f = vec![]; kids(st, doc, None, out, &mut f); for (k, v) in st.extra { f.push((k, v())) } V::Rec(st.name, f) }
    }
}
