//! AST types as decode targets.
use crate::astcmp::*;
use crate::refkdl::Sp;
use crate::dec::*;
use crate::refkdl;
use crate::schema::{self, *};
use crate::sup::*;
use crate::{entry, rec, tup};
use knuffel::ast::{Literal, SpannedNode, TypeName, Value};
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::{Decode, DecodeScalar};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

fn ast<S: knuffel::traits::Span>(spans: bool) where Span: knuffel::traits::DecodeSpan<S> {
    let i = input();
    let t = &i.text[..];
    let got = knuffel::parse_with_context::<Vec<SpannedNode<Span>>, S, _>("f", t, |_| {});
    match (got, refkdl::parse(t)) {
        (Ok(v), Some(w)) => { reach(0); Cmp { text: t, spans, values: true }.doc(&v, &w); observe(w.len() as u64) }
        (Err(_), None) => { reach(1); observe(99) }
        (Ok(_), None) => fail("decoded a text the KDL grammar rejects"),
        (Err(_), Some(_)) => fail("a document was not accepted as itself"),
    }
}
#[no_mangle] pub extern "C" fn d_ast(_: u64) { ast::<Span>(true) }
#[no_mangle] pub extern "C" fn d_astline(_: u64) { ast::<LineSpan>(true) }
#[derive(Decode)] #[knuffel(span_type=Span)] struct Mixed { #[knuffel(argument)] a: Value<Span>, #[knuffel(arguments)] b: Vec<Value<Span>>, #[knuffel(property)] p: Option<Literal>, #[knuffel(child)] node: SpannedNode<Span>, #[knuffel(children)] rest: Vec<SpannedNode<Span>> }
/// Parts of a document kept as AST nodes and values inside a derived type.
#[no_mangle] pub extern "C" fn d_astmixed(_: u64) {
    let i = input();
    let t = &i.text[..];
    let got = knuffel::parse::<Vec<Mixed>>("f", t);
    let w = match refkdl::parse(t) { Some(w) => w, None => { check(got.is_err(), "decoded a text the KDL grammar rejects"); return } };
    let fits = w.iter().all(|n| n.ty.is_none() && !n.args.is_empty() && n.props.iter().all(|p| str_eq(&p.name, "p"))
        && n.children.as_ref().map(|c| c.0.iter().filter(|k| str_eq(&k.name.0, "node")).count()).unwrap_or(0) == 1);
    match got {
        Err(_) => { check(!fits || w.iter().any(|n| n.props.iter().any(|p| p.val.ty.is_some())), "rejected a document that fits the type"); reach(1) }
        Ok(v) => {
            check(fits && v.len() == w.len(), "decoded in spite of something missing or unexpected");
            let c = Cmp { text: t, spans: true, values: true };
            for (m, n) in v.iter().zip(&w) {
                c.value(&m.a, &n.args[0]);
                check(m.b.len() + 1 == n.args.len(), "arguments lost");
                for (x, y) in m.b.iter().zip(&n.args[1..]) { c.value(x, y) }
                match (&m.p, n.props.last()) {
                    (None, None) => {}
                    (p, Some(q)) => check(schema::eq(&p.d(), &schema::lit(&q.val.lit)), "property differs"),
                    _ => fail("property invented"),
                }
                let mut rest = 0;
                for k in &n.children.as_ref().unwrap().0 {
                    if str_eq(&k.name.0, "node") { c.node(&m.node, k) } else { check(rest < m.rest.len(), "a child was lost"); c.node(&m.rest[rest], k); rest += 1 }
                }
                check(rest == m.rest.len(), "a child was invented");
            }
            reach(0);
            observe(v.len() as u64);
        }
    }
}

#[derive(Decode)] #[knuffel(span_type=Span)] struct Vals { #[knuffel(argument)] a: Option<Value<Span>>, #[knuffel(argument, default)] b: Option<Spanned<Value<Span>, Span>>, #[knuffel(property)] p: Option<Box<Value<Span>>>, #[knuffel(arguments)] r: Vec<Arc<Value<Span>>> }
/// Values kept as AST values within the containers knuffel supports.
#[no_mangle] pub extern "C" fn d_vals(_: u64) {
    let i = input();
    let t = &i.text[..];
    let got = knuffel::parse::<Vec<Vals>>("f", t);
    let w = match refkdl::parse(t) { Some(w) => w, None => { check(got.is_err(), "decoded a text the KDL grammar rejects"); return } };
    let fits = w.iter().all(|n| n.ty.is_none() && n.props.iter().all(|p| str_eq(&p.name, "p")) && n.children.as_ref().map(|c| c.0.is_empty()).unwrap_or(true));
    match got {
        Err(_) => { check(!fits, "rejected a document that fits the type"); reach(1) }
        Ok(v) => {
            check(fits && v.len() == w.len(), "decoded in spite of something unexpected");
            let c = Cmp { text: t, spans: true, values: true };
            let one = |g: Option<&Value<Span>>, r: Option<&refkdl::RVal>| match (g, r) {
                (Some(g), Some(r)) => c.value(g, r),
                (None, Some(r)) => check(matches!(r.lit, refkdl::RLit::Null), "a value was lost"),
                (None, None) => {}
                (Some(_), None) => fail("a value was invented"),
            };
            for (m, n) in v.iter().zip(&w) {
                one(m.a.as_ref(), n.args.get(0));
                one(m.b.as_ref().map(|b| &**b), n.args.get(1));
                if let (Some(b), Some(r)) = (&m.b, n.args.get(1)) { check(Sp(b.span().0, b.span().1) == r.sp, "span differs") }
                one(m.p.as_ref().map(|b| &**b), n.props.last().map(|p| &p.val));
                check(m.r.len() == n.args.len().saturating_sub(2), "arguments lost");
                for (x, y) in m.r.iter().zip(n.args.iter().skip(2)) { c.value(x, y) }
            }
            reach(0);
            observe(v.len() as u64);
        }
    }
}

// ---------------------------------------------------------------- context, custom decoders, custom spans
use knuffel::decode::{Context, Kind};
use knuffel::errors::DecodeError;
use knuffel::span::Spanned as Sd;
use knuffel::traits::{DecodeChildren, DecodeSpan, ErrorSpan};

struct Limit(i64);
struct Tag(u8);
struct Unset;
/// A span that carries something from the context.
struct At(usize, usize, u8);
impl DecodeSpan<Span> for At { fn decode_span(s: &Span, ctx: &mut Context<Span>) -> At { At(s.0, s.1, ctx.get::<Tag>().map(|t| t.0).unwrap_or(0)) } }
/// A number up to the limit in the context; 3 is reported but tolerated.
struct Small(i64);
impl<S: ErrorSpan> knuffel::DecodeScalar<S> for Small {
    fn type_check(_: &Option<Sd<TypeName, S>>, _: &mut Context<S>) {}
    fn raw_decode(v: &Sd<Literal, S>, ctx: &mut Context<S>) -> Result<Small, DecodeError<S>> {
        let n = match &**v { Literal::Int(i) => i64::try_from(i).unwrap_or(-1), _ => return Err(DecodeError::scalar_kind(Kind::Int, v)) };
        if n == 3 { ctx.emit_error(DecodeError::unsupported(v, "three")) }
        match ctx.get::<Limit>() {
            Some(l) if n <= l.0 => Ok(Small(n)),
            Some(_) => Err(DecodeError::conversion(v, "too large")),
            None => Err(DecodeError::conversion(v, "no limit")),
        }
    }
}
/// Accepts any node; those called `bad` are reported, those called `worse` fail.
struct Any(String, At);
impl knuffel::Decode<Span> for Any {
    fn decode_node(n: &SpannedNode<Span>, ctx: &mut Context<Span>) -> Result<Any, DecodeError<Span>> {
        if ctx.get::<Unset>().is_some() { return Err(DecodeError::unexpected(n, "thing", "a value nobody set")) }
        if &**n.node_name == "bad" { ctx.emit_error(DecodeError::unexpected(&n.node_name, "bad", "bad node")) }
        if &**n.node_name == "worse" { return Err(DecodeError::missing(n, "better")) }
        let at = DecodeSpan::decode_span(n.node_name.span(), ctx);
        Ok(Any(n.node_name.to_string(), at))
    }
}
#[derive(Decode)] #[knuffel(span_type=Span)] struct Custom { #[knuffel(span)] sp: At, #[knuffel(argument)] a: Small, #[knuffel(property)] p: Option<Small>, #[knuffel(argument)] s: Option<Spanned<u8, At>>, #[knuffel(children)] k: Vec<Any> }
/// param 1: with a limit of 5; 2: the limit is set twice; 0: no limit.
#[no_mangle] pub extern "C" fn d_ctx(param: u64) {
    let i = input();
    let t = &i.text[..];
    let got = knuffel::parse_with_context::<Vec<Custom>, Span, _>("f", t, |c| {
        c.set(Tag(77));
        if param == 2 { c.set(Limit(100)) }
        if param > 0 { c.set(Limit(5)) }
        check(!c.has_errors(), "errors before decoding");
    });
    let w = match refkdl::parse(t) { Some(w) => w, None => { check(got.is_err(), "decoded a text the KDL grammar rejects"); return } };
    // labels the errors must be drawn from; a node is wrong if it has one
    let mut want: Vec<(&str, Sp)> = vec![];
    let mut wrong = 0;
    for n in &w {
        let before = want.len();
        let mut small = |v: &refkdl::RVal| match &v.lit {
            refkdl::RLit::Int(r, d) => {
                let x = int_value(*r, d).and_then(|x| i64::try_from(x).ok()).unwrap_or(-1);
                if x == 3 { want.push(("unsupported value", v.sp)) }
                if param == 0 || x > 5 { want.push(("invalid value", v.sp)) }
            }
            l => want.push((kind(l), v.sp)),
        };
        if let Some(a) = n.args.get(0) { small(a) }
        if let Some(p) = n.props.iter().rev().find(|p| str_eq(&p.name, "p")) { if !matches!(p.val.lit, refkdl::RLit::Null) { small(&p.val) } }
        if let Some((_, sp)) = &n.ty { want.push(("unexpected type name", *sp)) }
        if n.args.is_empty() { want.push(("node starts here", n.name.1)) }
        if let Some(a) = n.args.get(1) {
            if let Some((_, s)) = &a.ty { want.push(("unexpected type name", *s)) }
            match &a.lit {
                refkdl::RLit::Int(r, d) if d.starts_with('-') && int_value(*r, d) == Some(0) => return,
                refkdl::RLit::Int(r, d) => if !int_value(*r, d).map(|x| 0 <= x && x <= 255).unwrap_or(false) { want.push(("invalid value", a.sp)) },
                refkdl::RLit::Null => {}
                l => want.push((kind(l), a.sp)),
            }
        }
        for a in n.args.iter().skip(2) { want.push(("unexpected argument", a.sp)) }
        for p in &n.props { if !str_eq(&p.name, "p") { want.push(("unexpected property", p.key)) } }
        if let Some((c, _)) = &n.children {
            for k in c {
                if str_eq(&k.name.0, "bad") { want.push(("unexpected bad", k.name.1)) }
                if str_eq(&k.name.0, "worse") { want.push(("node starts here", k.name.1)) }
            }
        }
        if want.len() > before { wrong += 1 }
    }
    match got {
        Ok(v) => {
            reach(0);
            check(want.is_empty(), "errors given to the context were dropped");
            check(v.len() == w.len(), "a node was lost");
            for (m, n) in v.iter().zip(&w) {
                check(m.sp.2 == 77 && m.sp.0 == n.sp.0 && m.sp.1 == n.sp.1, "custom span differs");
                if let Some(s) = &m.s { let s = s.span(); check(s.2 == 77 && Sp(s.0, s.1) == n.args[1].sp, "custom span of a value differs") }
                let kids = n.children.as_ref().map(|c| &c.0[..]).unwrap_or(&[]);
                check(m.k.len() == kids.len(), "a child was lost");
                for (a, b) in m.k.iter().zip(kids) { check(str_eq(&a.0, &b.name.0) && Sp(a.1.0, a.1.1) == b.name.1 && a.1.2 == 77, "custom node differs") }
                if let refkdl::RLit::Int(r, d) = &n.args[0].lit { check(int_value(*r, d) == Some(m.a.0 as i128) || m.a.0 == -1, "custom scalar differs") }
                match (&m.p, n.props.last()) { (Some(p), Some(q)) => if let refkdl::RLit::Int(r, d) = &q.val.lit { check(int_value(*r, d) == Some(p.0 as i128) || p.0 == -1, "custom property differs") }, (None, Some(q)) => check(matches!(q.val.lit, refkdl::RLit::Null), "custom property lost"), (None, None) => {}, _ => fail("custom property invented") }
            }
            observe(v.len() as u64);
        }
        Err(e) => {
            reach(1);
            check(!want.is_empty(), "rejected a document that fits the type");
            let ds = crate::diag::sane(t, "f", &e);
            for d in &ds {
                check(d.labels.len() == 1, "a decode error with several labels or none");
                let l = &d.labels[0];
                check(want.iter().any(|(x, s)| l.text == *x && l.off == s.0 && l.off + l.len == s.1), "an error nobody raised, or at another place");
            }
            let hit = w.iter().filter(|n| ds.iter().any(|d| n.sp.0 <= d.labels[0].off && d.labels[0].off + d.labels[0].len <= n.sp.1)).count();
            check(hit == wrong, "an error given to the context did not reach the user");
            if hit > 1 { reach(2) }
            // errors that do not stop decoding are all there
            if want.iter().all(|(x, _)| ["unsupported value", "unexpected bad", "unexpected type name"].contains(x)) {
                for (x, s) in &want { check(ds.iter().any(|d| d.labels[0].text == *x && d.labels[0].off == s.0), "an emitted error is missing") }
            }
            observe(ds.len() as u64);
        }
    }
}
fn kind(l: &refkdl::RLit) -> &'static str {
    use refkdl::RLit::*;
    match l { Null => "unexpected null", Bool(_) => "unexpected boolean", Str(_) => "unexpected string", Int(..) => "unexpected integer", Dec(_) => "unexpected decimal" }
}
/// Decoding a node of a document by hand gives what decoding the document gives.
#[no_mangle] pub extern "C" fn d_node(_: u64) {
    let i = input();
    let t = &i.text[..];
    let doc = match knuffel::parse_ast::<Span>("f", t) { Ok(d) => d, Err(_) => { check(knuffel::parse::<Vec<Leaf>>("f", t).is_err(), "decoded a text the parser rejects"); return } };
    let whole = knuffel::parse::<Vec<Leaf>>("f", t);
    let each: Vec<_> = doc.nodes.iter().map(|n| knuffel::decode::node::<Leaf, Span>(n)).collect();
    check(whole.is_ok() == each.iter().all(|x| x.is_ok()), "decoding a node and decoding the document disagree");
    match whole {
        Ok(v) => { reach(0); check(v.len() == each.len(), "a node was lost"); for (a, b) in v.iter().zip(&each) { if let Ok(b) = b { check(a.v == b.v, "values differ") } } }
        Err(e) => {
            reach(1);
            let n: usize = each.iter().map(|x| match x { Ok(_) => 0, Err(l) => { check(!l.is_empty(), "an error without content"); l.len() } }).sum();
            check(crate::diag::all(&e).len() == n, "numbers of errors differ");
        }
    }
}

#[derive(Decode)] struct Tree { #[knuffel(argument)] v: Option<u8>, #[knuffel(property)] p: Option<bool>, #[knuffel(children)] kids: Vec<Tree> }
rec!(Tree { v, p, kids });
#[no_mangle] pub extern "C" fn d_nodetree(_: u64) {
    let i = input();
    let t = &i.text[..];
    let doc = match knuffel::parse_ast::<LineSpan>("f", t) { Ok(d) => d, Err(_) => { check(knuffel::parse_with_context::<Vec<Tree>, LineSpan, _>("f", t, |_| {}).is_err(), "decoded a text the parser rejects"); return } };
    let whole = knuffel::parse_with_context::<Vec<Tree>, LineSpan, _>("f", t, |_| {});
    let mut values = vec![];
    let mut errors = vec![];
    for n in &doc.nodes {
        match knuffel::decode::node::<Tree, LineSpan>(n) { Ok(x) => values.push(x.d()), Err(l) => { check(!l.is_empty(), "an error without content"); for e in &l { errors.push(crate::diag::one(e)) } } }
    }
    match whole {
        Ok(v) => { reach(0); check(errors.is_empty(), "decoding a node and decoding the document disagree"); check(schema::eq(&v.d(), &V::List(values)), "values differ") }
        Err(e) => {
            reach(1);
            let all = crate::diag::all(&e);
            check(all.len() == errors.len(), "numbers of errors differ");
            for (a, b) in all.iter().zip(&errors) {
                check(a.msg == b.msg && a.help == b.help && a.labels.len() == b.labels.len() && a.labels.iter().zip(&b.labels).all(|(x, y)| x.text == y.text && x.off == y.off && x.len == y.len), "errors differ");
            }
        }
    }
}

// ---------------------------------------------------------------- comparisons of Spanned and TypeName
#[derive(Default)] struct Rec(Vec<u8>);
impl std::hash::Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> Vec<u8> { let mut h = Rec::default(); t.hash(&mut h); h.0 }
/// Order of byte strings, spelled out.
fn order(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
    for i in 0..a.len().min(b.len()) { if a[i] != b[i] { return if a[i] < b[i] { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater } } }
    a.len().cmp(&b.len())
}
fn same<T: Ord + std::hash::Hash>(x: &Spanned<T, Span>, y: &Spanned<T, Span>, want: std::cmp::Ordering) {
    use std::cmp::Ordering::*;
    check((x == y) == (want == Equal) && (x != y) == (want != Equal), "equality depends on more than the value");
    check(x.cmp(y) == want && y.cmp(x) == want.reverse(), "order depends on more than the value");
    check(x.partial_cmp(y) == Some(want) && (x < y) == (want == Less) && (x >= y) == (want != Less), "order depends on more than the value");
    check(hash(x) == hash(&**x), "the hash depends on more than the value");
    if want == Equal { check(hash(x) == hash(y), "equal values with different hashes"); reach(0) } else { reach(1) }
}
#[derive(Decode)] #[knuffel(span_type=Span)] struct Pair { #[knuffel(argument)] a: Spanned<String, Span>, #[knuffel(argument)] b: Spanned<String, Span>, #[knuffel(argument)] c: Spanned<i16, Span>, #[knuffel(argument)] d: Spanned<i16, Span> }
/// Equal up to the last digit, ordered only within the same sign.
struct Part(i16);
impl PartialEq for Part { fn eq(&self, o: &Part) -> bool { self.0 / 10 == o.0 / 10 } }
impl PartialOrd for Part { fn partial_cmp(&self, o: &Part) -> Option<std::cmp::Ordering> { if (self.0 < 0) == (o.0 < 0) { (self.0 / 10).partial_cmp(&(o.0 / 10)) } else { None } } }
/// Spans take no part in comparisons; accessors give the parts.
#[no_mangle] pub extern "C" fn d_spanned(_: u64) {
    let i = input();
    let v = match knuffel::parse::<Vec<Pair>>("f", &i.text) { Ok(v) => v, Err(_) => { reach(2); return } };
    for p in v {
        let w = order(p.a.as_bytes(), p.b.as_bytes());
        same(&p.a, &p.b, w);
        let w = p.c.cmp(&p.d);
        check(w == (*p.c).cmp(&*p.d), "order differs from that of the value");
        same(&p.c, &p.d, (*p.c).cmp(&*p.d));
        let s: &str = p.a.as_ref();
        check(str_eq(s, &p.a[..]), "as_ref differs");
        let b: &String = std::borrow::Borrow::borrow(&p.a);
        check(str_eq(b, s), "borrow differs");
        let (from, to) = (p.a.span().0, p.a.span().1);
        let c = p.a.clone();
        check(c == p.a && c.span() == p.a.span(), "clone differs");
        let m = c.map(|s| s.len());
        check(*m == p.a.len() && m.span().0 == from && m.span().1 == to && m.span().length() == to - from, "map changes the span or the value");
        let n = p.a.clone().map_span(|s| s.1);
        check(*n.span() == to && str_eq(&n, &p.a), "map_span changes the value or the span");
        let e: miette::SourceSpan = p.b.span().clone().into();
        check(e.offset() == p.b.span().0 && e.len() == p.b.span().1 - p.b.span().0, "source span differs");
        let (x, y) = (p.c.clone().map(Part), p.d.clone().map(Part));
        let w = (*x).partial_cmp(&*y);
        check(PartialOrd::partial_cmp(&x, &y) == w && (x < y) == (w == Some(std::cmp::Ordering::Less)) && (x >= y) == matches!(w, Some(std::cmp::Ordering::Greater | std::cmp::Ordering::Equal)), "a partial order is not that of the value");
        check((x == y) == (*x == *y) && (x != y) == (*x != *y), "equality is not that of the value");
        let (f, g) = (p.c.clone().map(|v| if v == 7 { f64::NAN } else { v as f64 }), p.d.clone().map(|v| if v == 7 { f64::NAN } else { v as f64 }));
        check(f.partial_cmp(&g) == (*f).partial_cmp(&*g) && (f == g) == (*f == *g) && (f != g) == (*f != *g), "a comparison of floats is not that of the values");
        let mut z = p.a.clone();
        z.push('z');
        check(z.len() == p.a.len() + 1 && z.span() == p.a.span(), "deref_mut differs");
    }
}
/// Looking up a property by name finds it whatever its spelling and place.
#[no_mangle] pub extern "C" fn d_lookup(_: u64) {
    let i = input();
    let (d, w) = match (knuffel::parse_ast::<Span>("f", &i.text), refkdl::parse(&i.text)) { (Ok(d), Some(w)) => (d, w), _ => { reach(2); return } };
    let c = Cmp { text: &i.text, spans: false, values: true };
    for (g, w) in d.nodes.iter().zip(&w) {
        for p in &w.props {
            let last = w.props.iter().rev().find(|q| str_eq(&q.name, &p.name)).unwrap();
            match g.properties.get(&p.name[..]) { Some(v) => c.value(v, &last.val), None => fail("a property is not found by its name") }
            reach(0);
        }
        for name in ["a", "ab", "zz", ""] {
            if !w.props.iter().any(|p| str_eq(&p.name, name)) { check(g.properties.get(name).is_none(), "a property is found by a name it does not have"); reach(1) }
        }
        let mut prev: Option<&str> = None;
        for (k, _) in &g.properties { if let Some(p) = prev { check(order(p.as_bytes(), k.as_bytes()) == std::cmp::Ordering::Less, "properties are not in order") } prev = Some(k) }
    }
}
const BUILTIN: [&str; 13] = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "base64"];
/// Type names are their text, built in or not.
#[no_mangle] pub extern "C" fn d_typename(_: u64) {
    let i = input();
    let d = match knuffel::parse_ast::<Span>("f", &i.text) { Ok(d) => d, Err(_) => { reach(2); return } };
    let w = match refkdl::parse(&i.text) { Some(w) => w, None => return };
    let (mut got, mut want): (Vec<&TypeName>, Vec<&str>) = (vec![], vec![]);
    for (g, n) in d.nodes.iter().zip(&w) {
        if let (Some(a), Some(b)) = (&g.type_name, &n.ty) { got.push(a); want.push(&b.0) }
        for (x, y) in g.arguments.iter().zip(&n.args) { if let (Some(a), Some(b)) = (&x.type_name, &y.ty) { got.push(a); want.push(&b.0) } }
    }
    for (g, w) in got.iter().zip(&want) {
        check(str_eq(g.as_str(), w) && str_eq(g, w), "a type name is not its text");
        check(str_eq(&g.to_string(), w), "a type name is not displayed as its text");
        let b = BUILTIN.iter().position(|b| str_eq(b, w));
        match g.as_builtin() {
            Some(t) => { check(b.is_some() && str_eq(t.as_str(), w) && t.clone().as_type() == **g, "a type name taken for the wrong built-in type"); reach(0) }
            None => { check(b.is_none(), "a built-in type name is not recognised"); reach(1) }
        }
        let p: TypeName = w.parse().unwrap();
        check(p == **g, "a parsed type name differs from the same name in a document");
        for (h, x) in got.iter().zip(&want) { check((g == h) == str_eq(w, x), "equality of type names differs from that of their texts") }
    }
}
