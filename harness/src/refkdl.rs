//! Reference: KDL 1.0 by hand-written recursive descent.  Written from the KDL 1.0 grammar
//! and knuffel's documentation; shares no code with knuffel.
#[derive(Clone, PartialEq, Eq, Copy)]
pub struct Sp(pub usize, pub usize);
pub enum RLit { Null, Bool(bool), Str(String), Int(u32, String), Dec(String) }
pub struct RVal { pub ty: Option<(String, Sp)>, pub lit: RLit, pub sp: Sp }
pub struct RProp { pub name: String, pub key: Sp, pub val: RVal }
pub struct RNode {
    pub sp: Sp,
    pub ty: Option<(String, Sp)>,
    pub name: (String, Sp),
    pub args: Vec<RVal>,
    /// in source order, duplicates kept
    pub props: Vec<RProp>,
    pub children: Option<(Vec<RNode>, Sp)>,
}
pub enum Item { Prop(RProp), Arg(RVal) }

pub struct P<'a> { s: &'a [u8] }

pub fn parse(s: &str) -> Option<Vec<RNode>> {
    let p = P { s: s.as_bytes() };
    let (v, e) = p.nodes(0);
    if e == s.len() { Some(v) } else { None }
}

pub fn is_newline(c: u32) -> bool { matches!(c, 0x0A | 0x0D | 0x0C | 0x85 | 0x2028 | 0x2029) }
pub fn is_space(c: u32) -> bool {
    matches!(c, 0x09 | 0x20 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x202F | 0x205F | 0x3000 | 0xFEFF)
}
pub fn is_ident(c: u32) -> bool {
    !(c <= 0x20 || is_newline(c) || is_space(c)
      || matches!(c as u8 as char, '\\' | '/' | '(' | ')' | '{' | '}' | '<' | '>' | ';' | '[' | ']' | '=' | ',' | '"') && c < 0x80)
}
fn is_digit(c: u32, radix: u32) -> bool {
    let v = match c { 48..=57 => c - 48, 65..=70 => c - 55, 97..=102 => c - 87, _ => 99 };
    v < radix
}

impl<'a> P<'a> {
    /// Character at `p` and the offset after it.
    fn at(&self, p: usize) -> Option<(u32, usize)> {
        let b = *self.s.get(p)? as u32;
        let x = |i: usize| (self.s[p + i] & 0x3F) as u32;
        Some(if b < 0x80 { (b, p + 1) }
             else if b < 0xE0 { ((b & 0x1F) << 6 | x(1), p + 2) }
             else if b < 0xF0 { ((b & 0x0F) << 12 | x(1) << 6 | x(2), p + 3) }
             else { ((b & 0x07) << 18 | x(1) << 12 | x(2) << 6 | x(3), p + 4) })
    }
    fn is(&self, p: usize, c: u8) -> bool { matches!(self.s.get(p), Some(b) if *b == c) }
    fn lit(&self, p: usize, t: &str) -> Option<usize> {
        for (i, b) in t.bytes().enumerate() { if !self.is(p + i, b) { return None } }
        Some(p + t.len())
    }
    fn text(&self, a: usize, b: usize) -> String { unsafe { String::from_utf8_unchecked(self.s[a..b].to_vec()) } }

    fn newline(&self, p: usize) -> Option<usize> {
        let (c, n) = self.at(p)?;
        if !is_newline(c) { return None }
        if c == 0x0D && self.is(n, b'\n') { return Some(n + 1) }
        Some(n)
    }
    fn block_comment(&self, p: usize) -> Option<usize> {
        let mut p = self.lit(p, "/*")?;
        loop {
            if let Some(e) = self.lit(p, "*/") { return Some(e) }
            if let Some(e) = self.block_comment(p) { p = e; continue }
            p = self.at(p)?.1;
        }
    }
    fn line_comment(&self, p: usize) -> Option<usize> {
        let mut p = self.lit(p, "//")?;
        while let Some((_, n)) = self.at(p) {
            if let Some(e) = self.newline(p) { return Some(e) }
            p = n;
        }
        Some(p)
    }
    fn ws(&self, p: usize) -> Option<usize> {
        match self.at(p) { Some((c, n)) if is_space(c) => Some(n), _ => self.block_comment(p) }
    }
    fn esc_line(&self, p: usize) -> Option<usize> {
        let mut p = self.lit(p, "\\")?;
        while let Some(n) = self.ws(p) { p = n }
        match self.line_comment(p) { Some(n) => Some(n), None => self.newline(p) }
    }
    fn node_spaces(&self, mut p: usize) -> usize {
        loop { p = match self.ws(p) { Some(n) => n, None => match self.esc_line(p) { Some(n) => n, None => return p } } }
    }
    fn line_spaces(&self, mut p: usize) -> usize {
        loop {
            if let Some(n) = self.newline(p) { p = n; continue }
            if let Some(n) = self.ws(p) { p = n; continue }
            match self.line_comment(p) { Some(n) => p = n, None => return p }
        }
    }
    fn terminator(&self, p: usize) -> Option<usize> {
        if p == self.s.len() { return Some(p) }
        if self.is(p, b';') { return Some(p + 1) }
        match self.newline(p) { Some(n) => Some(n), None => self.line_comment(p) }
    }
    fn bare_ident(&self, p: usize) -> Option<(String, usize)> {
        let (c, mut e) = self.at(p)?;
        if !is_ident(c) || is_digit(c, 10) { return None }
        if c == b'+' as u32 || c == b'-' as u32 {
            if let Some((d, _)) = self.at(e) { if is_digit(d, 10) { return None } }
        }
        while let Some((c, n)) = self.at(e) { if !is_ident(c) { break } e = n }
        let t = self.text(p, e);
        if t == "true" || t == "false" || t == "null" { return None }
        Some((t, e))
    }
    fn raw_string(&self, p: usize) -> Option<(String, usize)> {
        let mut p = self.lit(p, "r")?;
        let mut n = 0;
        while self.is(p, b'#') { n += 1; p += 1 }
        if !self.is(p, b'"') { return None }
        let start = p + 1;
        let mut q = start;
        while q < self.s.len() {
            if self.is(q, b'"') {
                let mut k = 0;
                while k < n && self.is(q + 1 + k, b'#') { k += 1 }
                if k == n { return Some((self.text(start, q), q + 1 + n)) }
            }
            q += 1;
        }
        None
    }
    fn quoted(&self, p: usize) -> Option<(String, usize)> {
        let mut p = self.lit(p, "\"")?;
        let mut out: Vec<u8> = Vec::new();
        loop {
            let b = *self.s.get(p)?;
            p += 1;
            if b == b'"' { return Some((unsafe { String::from_utf8_unchecked(out) }, p)) }
            if b != b'\\' { out.push(b); continue }
            let e = *self.s.get(p)?;
            p += 1;
            match e {
                b'"' | b'\\' | b'/' => out.push(e),
                b'b' => out.push(8),
                b'f' => out.push(12),
                b'n' => out.push(10),
                b'r' => out.push(13),
                b't' => out.push(9),
                b'u' => {
                    p = self.lit(p, "{")?;
                    let (mut v, mut n) = (0u32, 0);
                    while n < 6 {
                        let h = match self.s.get(p) { Some(h) if is_digit(*h as u32, 16) => *h as u32, _ => break };
                        v = v << 4 | if h <= 57 { h - 48 } else { (h | 32) - 87 };
                        n += 1;
                        p += 1;
                    }
                    if n == 0 { return None }
                    p = self.lit(p, "}")?;
                    if v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF) { return None }
                    if v < 0x80 { out.push(v as u8) }
                    else if v < 0x800 { out.push((v >> 6) as u8 | 0xC0); out.push((v & 63) as u8 | 0x80) }
                    else if v < 0x10000 { out.push((v >> 12) as u8 | 0xE0); out.push((v >> 6 & 63) as u8 | 0x80); out.push((v & 63) as u8 | 0x80) }
                    else { out.push((v >> 18) as u8 | 0xF0); out.push((v >> 12 & 63) as u8 | 0x80); out.push((v >> 6 & 63) as u8 | 0x80); out.push((v & 63) as u8 | 0x80) }
                }
                _ => return None,
            }
        }
    }
    fn string(&self, p: usize) -> Option<(String, usize)> {
        match self.raw_string(p) { Some(r) => Some(r), None => self.quoted(p) }
    }
    /// digit (digit | '_')*
    fn integer(&self, p: usize, radix: u32, out: &mut Vec<u8>) -> Option<usize> {
        let d = |p: usize| matches!(self.s.get(p), Some(c) if is_digit(*c as u32, radix));
        if !d(p) { return None }
        let mut p = p;
        while d(p) || self.is(p, b'_') { if !self.is(p, b'_') { out.push(self.s[p]) } p += 1 }
        Some(p)
    }
    fn number(&self, p: usize) -> Option<(RLit, usize)> {
        let mut out = Vec::new();
        let mut q = p;
        if self.is(q, b'+') || self.is(q, b'-') { out.push(self.s[q]); q += 1 }
        let sign = out.len();
        let st = |v: Vec<u8>| unsafe { String::from_utf8_unchecked(v) };
        if self.is(q, b'0') {
            let radix = match self.s.get(q + 1) { Some(b'b') => 2, Some(b'o') => 8, Some(b'x') => 16, _ => 0 };
            if radix != 0 {
                if let Some(e) = self.integer(q + 2, radix, &mut out) { return Some((RLit::Int(radix, st(out)), e)) }
                out.truncate(sign);
            }
        }
        let mut e = self.integer(q, 10, &mut out)?;
        let mut dec = false;
        if self.is(e, b'.') {
            let keep = out.len();
            out.push(b'.');
            match self.integer(e + 1, 10, &mut out) { Some(n) => { e = n; dec = true } None => out.truncate(keep) }
        }
        if self.is(e, b'e') || self.is(e, b'E') {
            let keep = out.len();
            out.push(self.s[e]);
            let mut x = e + 1;
            if self.is(x, b'+') || self.is(x, b'-') { out.push(self.s[x]); x += 1 }
            match self.integer(x, 10, &mut out) { Some(n) => { e = n; dec = true } None => out.truncate(keep) }
        }
        Some((if dec { RLit::Dec(st(out)) } else { RLit::Int(10, st(out)) }, e))
    }
    fn keyword(&self, p: usize) -> Option<(RLit, usize)> {
        for (t, k) in [("null", 0), ("true", 1), ("false", 2)] {
            if let Some(e) = self.lit(p, t) {
                if matches!(self.at(e), Some((c, _)) if is_ident(c)) { return None }
                return Some((match k { 0 => RLit::Null, 1 => RLit::Bool(true), _ => RLit::Bool(false) }, e));
            }
        }
        None
    }
    fn literal(&self, p: usize) -> Option<(RLit, usize)> {
        if let Some((s, e)) = self.string(p) { return Some((RLit::Str(s), e)) }
        if let Some(r) = self.keyword(p) { return Some(r) }
        self.number(p)
    }
    fn ident(&self, p: usize) -> Option<(String, usize)> {
        match self.string(p) { Some(r) => Some(r), None => self.bare_ident(p) }
    }
    fn type_name(&self, p: usize) -> Option<((String, Sp), usize)> {
        let (t, e) = self.ident(self.lit(p, "(")?)?;
        let e = self.lit(e, ")")?;
        Some(((t, Sp(p, e)), e))
    }
    fn value(&self, p: usize) -> Option<(RVal, usize)> {
        let (ty, p) = if self.is(p, b'(') { let (t, e) = self.type_name(p)?; (Some(t), e) } else { (None, p) };
        let (lit, e) = self.literal(p)?;
        Some((RVal { ty, lit, sp: Sp(p, e) }, e))
    }
    fn prop_or_arg(&self, p: usize) -> Option<(Item, usize)> {
        if let Some((name, e)) = self.ident(p) {
            if self.is(e, b'=') {
                let (val, e2) = self.value(e + 1)?;
                return Some((Item::Prop(RProp { name, key: Sp(p, e), val }), e2));
            }
        }
        let (v, e) = self.value(p)?;
        Some((Item::Arg(v), e))
    }
    fn node(&self, start: usize) -> Option<(RNode, usize)> {
        let mut p = start;
        let ty = if self.is(p, b'(') { let (t, e) = self.type_name(p)?; p = e; Some(t) } else { None };
        let (name, e) = self.ident(p)?;
        let mut n = RNode { sp: Sp(start, 0), ty, name: (name, Sp(p, e)), args: vec![], props: vec![], children: None };
        p = e;
        loop {
            let mut q = self.node_spaces(p);
            if q == p { break }
            let hidden = match self.lit(q, "/-") { Some(x) => { q = self.node_spaces(x); true } None => false };
            let (it, e) = match self.prop_or_arg(q) { Some(r) => r, None => break };
            p = e;
            if hidden { continue }
            match it { Item::Prop(r) => n.props.push(r), Item::Arg(v) => n.args.push(v) }
        }
        let mut q = self.node_spaces(p);
        let hidden = match self.lit(q, "/-") { Some(x) => { q = self.node_spaces(x); true } None => false };
        if self.is(q, b'{') {
            let (v, e) = self.nodes(q + 1);
            let e = self.lit(e, "}")?;
            if !hidden { n.children = Some((v, Sp(q, e))) }
            p = e;
        } else if hidden { return None }
        p = self.terminator(self.node_spaces(p))?;
        n.sp.1 = p;
        Some((n, p))
    }
    fn nodes(&self, p: usize) -> (Vec<RNode>, usize) {
        let mut v = Vec::new();
        let mut p = self.line_spaces(p);
        loop {
            let (q, hidden) = match self.lit(p, "/-") { Some(x) => (self.node_spaces(x), true), None => (p, false) };
            match self.node(q) {
                Some((n, e)) => { if !hidden { v.push(n) } p = self.line_spaces(e) }
                None => return (v, p),
            }
        }
    }
}

/// Zero-based line and column after the first `upto` bytes of the text.
pub fn line_col(s: &str, upto: usize) -> (usize, usize) {
    let p = P { s: s.as_bytes() };
    let (mut line, mut col, mut i) = (0, 0, 0);
    let mut prev_cr = false;
    while i < upto {
        let (c, n) = p.at(i).unwrap();
        if c == 0x0A && prev_cr { }
        else if is_newline(c) { line += 1; col = 0 }
        else if c == 9 { col += 8 }
        else { col += width(c) }
        prev_cr = c == 0x0D;
        i = n;
    }
    (line, col)
}
fn width(c: u32) -> usize {
    if c < 0x20 || c == 0x7F { return 0 }
    if c < 0x7F { return 1 }
    unicode_width::UnicodeWidthChar::width(unsafe { char::from_u32_unchecked(c) }).unwrap_or(0)
}
pub fn char_at(s: &str, p: usize) -> (u32, usize) { P { s: s.as_bytes() }.at(p).unwrap() }
pub fn is_number(s: &str) -> bool { matches!(P { s: s.as_bytes() }.number(0), Some((_, e)) if e == s.len()) }
pub fn is_bare_ident(s: &str) -> bool { matches!(P { s: s.as_bytes() }.bare_ident(0), Some((_, e)) if e == s.len()) }

/// Is the delimiter (brace, quote, raw-string opening or comment opening) at `at` still open at
/// the end of the text?
pub fn open_at_end(s: &str, at: usize) -> bool {
    let p = P { s: s.as_bytes() };
    if p.is(at, b'"') { return p.quoted_end(at).is_none() }
    if p.is(at, b'r') { return p.raw_string(at).is_none() }
    if p.is(at, b'/') { return p.block_comment(at).is_none() }
    // a brace: match braces outside strings and comments
    let (mut q, mut depth) = (at, 0usize);
    while q < s.len() {
        if let Some((_, e)) = p.raw_string(q) { q = e; continue }
        if let Some(e) = p.quoted_end(q) { q = e; continue }
        if let Some(e) = p.block_comment(q) { q = e; continue }
        if p.lit(q, "//").is_some() { match p.line_comment(q) { Some(e) => { q = e; continue } None => {} } }
        if p.is(q, b'{') { depth += 1 }
        if p.is(q, b'}') { depth -= 1; if depth == 0 { return false } }
        q = p.at(q).unwrap().1;
    }
    true
}
impl<'a> P<'a> {
    /// End of a quoted string whose escapes need not be valid.
    fn quoted_end(&self, p: usize) -> Option<usize> {
        let mut p = self.lit(p, "\"")?;
        loop {
            match *self.s.get(p)? { b'"' => return Some(p + 1), b'\\' => p += 2, _ => p += 1 }
        }
    }
}
