//! Entries over the parser: `s_*` byte spans, `l_*` line spans, `b_*` both.
use crate::astcmp::*;
use crate::refkdl::{self, RNode};
use crate::sup::*;
use knuffel::ast::Document;
use knuffel::traits::Span as SpanTrait;
#[cfg(feature = "line")]
use knuffel::span::LineSpan;
#[cfg(feature = "span")]
use knuffel::span::Span;
use knuffel::Error;

fn agree<S: SpanTrait + Look>(t: &str, spans: bool, values: bool) {
    let want: Option<Vec<RNode>> = refkdl::parse(t);
    let got: Result<Document<S>, Error> = knuffel::parse_ast("f", t);
    match (got, want) {
        (Ok(d), Some(w)) => { reach(0); Cmp { text: t, spans, values }.doc(&d.nodes, &w); observe(w.len() as u64) }
        (Err(_), None) => { reach(1); observe(99) }
        (Ok(_), None) => fail("accepted a text the KDL grammar rejects"),
        (Err(_), Some(_)) => fail("rejected a text the KDL grammar accepts"),
    }
}
#[cfg(feature = "span")]
#[no_mangle]
pub extern "C" fn s_ast(_: u64) { agree::<Span>(&input().text, false, true) }
#[cfg(feature = "span")]
#[no_mangle]
pub extern "C" fn s_span(_: u64) { agree::<Span>(&input().text, true, false) }
#[cfg(feature = "line")]
#[no_mangle]
pub extern "C" fn l_span(_: u64) { agree::<LineSpan>(&input().text, true, false) }

#[cfg(any(feature = "errs", feature = "total"))]
mod errs {
    use super::*;
    use crate::diag::*;
    use knuffel::span::{LineSpan, Span};

    fn diags<S: SpanTrait>(t: &str) -> Option<Vec<Diag>> {
        let r: Result<Document<S>, Error> = knuffel::parse_ast("dir/f.kdl", t);
        match r { Ok(d) => { observe(d.nodes.len() as u64); None } Err(e) => Some(sane(t, "dir/f.kdl", &e)) }
    }
    fn total<S: SpanTrait>(t: &str) {
        match diags::<S>(t) { None => reach(0), Some(v) => { reach(1); observe(v.len() as u64) } }
    }
    /// The parser returns on every text, with a document or with well-formed diagnostics.
    #[cfg(feature = "total")]
    #[no_mangle]
    pub extern "C" fn s_total(_: u64) { total::<Span>(&input().text) }
    #[cfg(feature = "total")]
    #[no_mangle]
    pub extern "C" fn l_total(_: u64) { total::<LineSpan>(&input().text) }

    fn quoted(c: u32) -> String {
        let c = char::from_u32(c).unwrap();
        if c == '"' || c == '\'' || c == '\\' { return format!("`{}`", c) }
        format!("`{}`", c.escape_default())
    }
    fn starts(a: &str, b: &str) -> bool { a.len() >= b.len() && a.as_bytes()[..b.len()] == *b.as_bytes() }

    /// Each parse error points at what it talks about.
    fn honest(t: &str, v: &[Diag]) {
        for d in v {
            check(!d.labels.is_empty(), "a parse error that points nowhere");
            let l = &d.labels[0];
            if starts(&d.msg, "unclosed ") {
                reach(2);
                check(d.labels.len() == 2 && l.text == "opened here", "an unclosed delimiter needs two labels");
                // the message quotes the opening delimiter, the label covers it
                let q = &d.msg[d.msg.find('`').unwrap() + 1..d.msg.len() - 1];
                check(&t[l.off..l.off + l.len] == q, "`opened here` does not cover the opening delimiter");
                check(refkdl::open_at_end(t, l.off), "`opened here` points at a delimiter that is closed");
                check(d.labels[1].off == t.len() && d.labels[1].len == 0, "an unclosed delimiter is expected at the end of input");
            } else if starts(&d.msg, "found ") {
                let f = &d.msg[6..];
                check(d.labels.len() == 1, "one label expected");
                if starts(f, "end of input") {
                    reach(3);
                    check(l.off == t.len() && l.len == 0, "end of input reported elsewhere");
                } else if starts(f, "`") {
                    reach(4);
                    check(l.len > 0, "an empty label under a found token");
                    let w = &t[l.off..l.off + l.len];
                    if w == "true" || w == "false" || w == "null" {
                        check(starts(&f[1..], w), "the message quotes another token than the label covers");
                    } else {
                        let (c, n) = refkdl::char_at(t, l.off);
                        check(n == l.off + l.len, "the label covers more than the found character");
                        check(starts(f, &quoted(c)), "the message quotes another character than the label covers");
                    }
                } else if starts(f, "number") {
                    reach(5);
                    check(refkdl::is_number(&t[l.off..l.off + l.len]), "the label does not cover a number");
                } else if starts(f, "keyword") {
                    reach(6);
                    let w = &t[l.off..l.off + l.len];
                    check(w == "true" || w == "false" || w == "null", "the label does not cover a keyword");
                } else { fail("unknown kind of token found") }
            } else if starts(&d.msg, "numbers cannot be used as property names") {
                reach(7);
                check(refkdl::is_number(&t[l.off..l.off + l.len]), "the label does not cover a number");
                check(d.help.is_some(), "help expected");
            } else if starts(&d.msg, "identifiers cannot be used as arguments") {
                reach(8);
                check(refkdl::is_bare_ident(&t[l.off..l.off + l.len]), "the label does not cover an identifier");
                check(d.help.is_some(), "help expected");
            } else if l.text == "invalid character code" {
                reach(9);
                check(t.as_bytes()[l.off] == b'{' && t.as_bytes()[l.off + l.len - 1] == b'}' && l.off >= 2 && &t[l.off - 2..l.off] == "\\u",
                      "the label does not cover the character code");
            }
        }
    }
    #[cfg(feature = "errs")]
    #[no_mangle]
    pub extern "C" fn s_err(_: u64) {
        let t = input().text;
        match diags::<Span>(&t) { None => reach(0), Some(v) => { reach(1); observe(v.len() as u64); honest(&t, &v) } }
    }
    /// Both span types report the same errors at the same offsets.
    #[cfg(feature = "errs")]
    #[no_mangle]
    pub extern "C" fn b_err(_: u64) {
        let t = input().text;
        match (diags::<Span>(&t), diags::<LineSpan>(&t)) {
            (None, None) => reach(0),
            (Some(a), Some(b)) => {
                reach(1);
                check(a.len() == b.len(), "the span types report different numbers of errors");
                for (x, y) in a.iter().zip(&b) {
                    check(x.msg == y.msg && x.help == y.help, "the span types report different messages");
                    check(x.labels.len() == y.labels.len() && x.labels.iter().zip(&y.labels).all(|(p, q)| p.off == q.off && p.len == q.len && p.text == q.text),
                          "the span types report different positions");
                }
            }
            _ => fail("the span types disagree on acceptance"),
        }
    }
    /// The text is fine up to the delimiter at the mark, which is never closed.
    #[cfg(feature = "errs")]
    #[no_mangle]
    pub extern "C" fn s_unclosed(_: u64) {
        let i = input();
        match diags::<Span>(&i.text) {
            None => fail("accepted a text with an unclosed delimiter"),
            Some(v) => {
                honest(&i.text, &v);
                check(v.iter().any(|d| starts(&d.msg, "unclosed ") && d.labels[0].off == i.marks[0]), "the unclosed delimiter is not reported");
                reach(0);
            }
        }
    }
}
