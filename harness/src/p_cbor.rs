//! Documents through CBOR.
use crate::astcmp::*;
use crate::refkdl;
use crate::sup::*;
use knuffel::ast::{Document, SpannedNode, TypeName, Value};
use knuffel::span::{LinePos, LineSpan, Span, Spanned};

fn ty<S>(a: &Option<Spanned<TypeName, S>>, b: &Option<Spanned<TypeName, S>>) {
    check(match (a, b) { (None, None) => true, (Some(a), Some(b)) => **a == **b && a.as_builtin() == b.as_builtin(), _ => false }, "a decoded type name is another");
}
fn value<S>(a: &Value<S>, b: &Value<S>) {
    ty(&a.type_name, &b.type_name);
    check(*a.literal == *b.literal, "a decoded literal is another");
}
/// The decoded document is the same one also by the crate's own notion of equality.
fn same<S>(a: &[SpannedNode<S>], b: &[SpannedNode<S>]) {
    check(a.len() == b.len(), "a decoded document has another number of nodes");
    for (a, b) in a.iter().zip(b) {
        ty(&a.type_name, &b.type_name);
        check(a.arguments.len() == b.arguments.len() && a.properties.len() == b.properties.len(), "a decoded node has another number of values");
        for (a, b) in a.arguments.iter().zip(&b.arguments) { value(a, b) }
        for ((k, a), (l, b)) in a.properties.iter().zip(&b.properties) { check(**k == **l, "a decoded property has another name"); value(a, b) }
        check(a.children.is_some() == b.children.is_some(), "a decoded node has no children block");
        if let (Some(a), Some(b)) = (&a.children, &b.children) { same(a, b) }
    }
}

fn round<S: Look + knuffel::traits::Span + minicbor::Encode<()> + for<'b> minicbor::Decode<'b, ()>>() {
    let i = input();
    let t = &i.text[..];
    let (d, w) = match (knuffel::parse_ast::<S>("f", t), refkdl::parse(t)) { (Ok(d), Some(w)) => (d, w), _ => { reach(1); return } };
    let b = match minicbor::to_vec(&d) { Ok(b) => b, Err(_) => fail("a document cannot be encoded") };
    let e: Document<S> = match minicbor::decode(&b) { Ok(e) => e, Err(_) => fail("an encoded document cannot be decoded") };
    Cmp { text: t, spans: true, values: true }.doc(&e.nodes, &w);
    same(&d.nodes, &e.nodes);
    let c = match minicbor::to_vec(&e) { Ok(c) => c, Err(_) => fail("a decoded document cannot be encoded again") };
    check(b == c, "encoding the decoded document gives other bytes");
    reach(0);
    observe(b.len() as u64);
    for x in &b { observe(*x as u64) }
}
#[no_mangle] pub extern "C" fn c_span(_: u64) { round::<Span>() }
#[no_mangle] pub extern "C" fn c_line(_: u64) { round::<LineSpan>() }
/// A cut-off encoding is an error.
#[no_mangle] pub extern "C" fn c_cut(cut: u64) {
    let i = input();
    let d = match knuffel::parse_ast::<Span>("f", &i.text) { Ok(d) => d, Err(_) => return };
    let b = match minicbor::to_vec(&d) { Ok(b) => b, Err(_) => fail("a document cannot be encoded") };
    let n = b.len().saturating_sub(cut as usize);
    if n == b.len() { return }
    let e: Result<Document<Span>, _> = minicbor::decode(&b[..n]);
    check(e.is_err(), "a cut-off encoding was decoded");
    reach(0);
}

fn word() -> usize { let mut b = [0u8; 8]; symbolic(&mut b); u64::from_le_bytes(b) as usize }
/// Positions of any size: both ends of a span, and each part of a line position.
#[no_mangle] pub extern "C" fn c_raw(_: u64) {
    let (a, b) = (word(), word());
    let s = Span(a, b);
    let v = match minicbor::to_vec(&s) { Ok(v) => v, Err(_) => fail("a span cannot be encoded") };
    let r: Span = match minicbor::decode(&v) { Ok(r) => r, Err(_) => fail("an encoded span cannot be decoded") };
    check(r.0 == a && r.1 == b, "a decoded span is another");
    reach(0);
    observe(v.len() as u64);
}
#[no_mangle] pub extern "C" fn c_rawline(k: u64) {
    let p = LinePos { offset: word(), line: word(), column: word() };
    let q = LinePos { offset: 70000, line: 300, column: 24 };
    let s = if k == 0 { LineSpan(p, q) } else { LineSpan(q, p) };
    let v = match minicbor::to_vec(&s) { Ok(v) => v, Err(_) => fail("a span cannot be encoded") };
    let r: LineSpan = match minicbor::decode(&v) { Ok(r) => r, Err(_) => fail("an encoded span cannot be decoded") };
    check(r.0 == s.0 && r.1 == s.1, "a decoded span is another");
    check(r.0.offset == s.0.offset && r.0.line == s.0.line && r.0.column == s.0.column, "a decoded position is another");
    check(r.1.offset == s.1.offset && r.1.line == s.1.line && r.1.column == s.1.column, "a decoded position is another");
    reach(0);
    observe(v.len() as u64);
}
