//! Compares knuffel's AST with the reference.
use crate::refkdl::*;
use crate::sup::*;
use knuffel::ast::{Literal, Node, SpannedNode, Value, TypeName};
use knuffel::span::{LinePos, LineSpan, Span, Spanned};

/// How spans of the implementation are compared with reference byte ranges.
pub trait Look {
    fn eq(&self, r: Sp, text: &str) -> bool;
}
impl Look for Span {
    fn eq(&self, r: Sp, _: &str) -> bool { self.0 == r.0 && self.1 == r.1 }
}
fn pos(p: &LinePos, off: usize, text: &str) -> bool {
    if p.offset != off { return false }
    let (l, c) = line_col(text, off);
    p.line == l && p.column == c
}
impl Look for LineSpan {
    fn eq(&self, r: Sp, text: &str) -> bool { pos(&self.0, r.0, text) && pos(&self.1, r.1, text) }
}

pub fn str_eq(a: &str, b: &str) -> bool { a.len() == b.len() && a.as_bytes() == b.as_bytes() }

pub struct Cmp<'a> { pub text: &'a str, pub spans: bool, pub values: bool }

impl<'a> Cmp<'a> {
    pub fn doc<S: Look>(&self, got: &[SpannedNode<S>], want: &[RNode]) {
        check(got.len() == want.len(), "number of nodes differs from the reference");
        for (g, w) in got.iter().zip(want) { self.node(g, w) }
    }
    fn span<S: Look>(&self, s: &S, r: Sp, m: &str) { if self.spans { check(s.eq(r, self.text), m) } }
    fn ty<S: Look>(&self, got: &Option<Spanned<TypeName, S>>, want: &Option<(String, Sp)>) {
        match (got, want) {
            (None, None) => {}
            (Some(g), Some((t, sp))) => {
                check(str_eq(g.as_str(), t), "type name differs from the reference");
                self.span(g.span(), *sp, "type name span is wrong");
            }
            _ => fail("presence of a type name differs from the reference"),
        }
    }
    pub fn node<S: Look>(&self, g: &SpannedNode<S>, w: &RNode) {
        self.span(g.span(), w.sp, "node span is wrong");
        let n: &Node<S> = g;
        self.ty(&n.type_name, &w.ty);
        check(str_eq(&n.node_name, &w.name.0), "node name differs from the reference");
        self.span(n.node_name.span(), w.name.1, "node name span is wrong");
        check(n.arguments.len() == w.args.len(), "number of arguments differs from the reference");
        for (a, b) in n.arguments.iter().zip(&w.args) { self.value(a, b) }
        // the last occurrence of each property name counts
        let mut count = 0;
        for (i, p) in w.props.iter().enumerate() {
            if w.props[i + 1..].iter().any(|q| str_eq(&q.name, &p.name)) { continue }
            count += 1;
            let mut found = false;
            for (k, v) in n.properties.iter() {
                if str_eq(k, &p.name) {
                    check(!found, "a property name is listed twice");
                    found = true;
                    self.value(v, &p.val);
                    if self.spans {
                        check(w.props.iter().any(|q| str_eq(&q.name, &p.name) && k.span().eq(q.key, self.text)),
                              "property name span is wrong");
                    }
                }
            }
            check(found, "a property of the reference is missing");
        }
        check(n.properties.len() == count, "number of properties differs from the reference");
        match (&n.children, &w.children) {
            (None, None) => {}
            (Some(c), Some((v, sp))) => {
                self.span(c.span(), *sp, "children block span is wrong");
                self.doc(c, v);
            }
            _ => fail("presence of a children block differs from the reference"),
        }
    }
    pub fn value<S: Look>(&self, g: &Value<S>, w: &RVal) {
        self.ty(&g.type_name, &w.ty);
        self.span(g.literal.span(), w.sp, "value span is wrong");
        match (&*g.literal, &w.lit) {
            (Literal::Null, RLit::Null) => {}
            (Literal::Bool(a), RLit::Bool(b)) => check(a == b, "boolean differs from the reference"),
            (Literal::String(a), RLit::Str(b)) => check(str_eq(a, b), "string value differs from the reference"),
            (Literal::Int(a), RLit::Int(r, t)) => if self.values {
                // a value outside the type is an error, never another number
                let v = int_value(*r, t);
                // "-0" for an unsigned type may be zero or an error
                check(v == Some(0) && u64::try_from(a).is_err() && t.as_bytes()[0] == b'-' || u64::try_from(a).ok() == v.and_then(|v| u64::try_from(v).ok()), "integer (as u64) differs from the reference");
                check(i64::try_from(a).ok() == v.and_then(|v| i64::try_from(v).ok()), "integer (as i64) differs from the reference");
            },
            (Literal::Decimal(_), RLit::Dec(_)) => {}
            _ => fail("kind of a value differs from the reference"),
        }
    }
}

/// Value of sign + digits; None when it is outside i128-safe range (beyond 2^70).
pub fn int_value(radix: u32, t: &str) -> Option<i128> {
    let b = t.as_bytes();
    let (neg, d) = match b.first() { Some(b'-') => (true, &b[1..]), Some(b'+') => (false, &b[1..]), _ => (false, b) };
    let mut v: u128 = 0;
    for c in d {
        let x = if *c <= 57 { *c - 48 } else { (*c | 32) - 87 };
        v = v * radix as u128 + x as u128;
        if v >> 70 != 0 { return None }
    }
    Some(if neg { -(v as i128) } else { v as i128 })
}
