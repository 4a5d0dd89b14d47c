//! Reads the diagnostics of a knuffel error through miette's public interface.
use crate::sup::*;
use miette::{Diagnostic, SourceSpan};

pub struct Label { pub text: String, pub off: usize, pub len: usize }
pub struct Diag { pub msg: String, pub help: Option<String>, pub labels: Vec<Label> }

pub fn one(d: &dyn Diagnostic) -> Diag {
    Diag {
        msg: d.to_string(),
        help: d.help().map(|h| h.to_string()),
        labels: d.labels().map(|l| l.map(|l| Label { text: l.label().unwrap_or("").to_string(), off: l.offset(), len: l.len() }).collect()).unwrap_or_default(),
    }
}
pub fn all(e: &knuffel::Error) -> Vec<Diag> {
    let mut v = vec![];
    if let Some(r) = e.related() { for d in r { v.push(one(d)) } }
    v
}

pub fn boundary(t: &str, p: usize) -> bool { p == t.len() || p < t.len() && t.as_bytes()[p] & 0xC0 != 0x80 }

/// What holds for every error knuffel returns, whatever its cause.
pub fn sane(t: &str, file: &str, e: &knuffel::Error) -> Vec<Diag> {
    check(!e.to_string().is_empty(), "the error has no message");
    let v = all(e);
    check(!v.is_empty(), "an error with no diagnostics");
    let src = match e.source_code() { Some(s) => s, None => fail("the error carries no source code") };
    match src.read_span(&SourceSpan::from((0, t.len())), 0, 0) {
        Ok(c) => {
            check(c.data() == t.as_bytes(), "the error's source code is not the parsed text");
            check(c.name() == Some(file), "the error's source name is not the given file name");
        }
        Err(_) => fail("the error's source code cannot be read"),
    }
    for d in &v {
        check(!d.msg.is_empty(), "a diagnostic without a message");
        for l in &d.labels {
            check(l.off <= t.len() && l.len <= t.len() - l.off, "a label outside the text");
            check(boundary(t, l.off) && boundary(t, l.off + l.len), "a label that splits a character");
            check(!l.text.is_empty(), "a label without text");
        }
    }
    v
}
