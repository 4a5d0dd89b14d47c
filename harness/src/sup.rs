//! Bridge to the symbolic executor (or to the native replay host) and input templates.
extern "C" {
    fn ksym_symbolic(p: *mut u8, n: usize);
    fn ksym_arg(p: *mut u8, n: usize) -> u64;
    fn ksym_assume(c: bool);
    fn ksym_fail(p: *const u8, n: usize);
    fn ksym_reach(k: u64);
    fn ksym_observe(v: u64);
    fn ksym_concretize(v: u64) -> u64;
}

pub fn symbolic(b: &mut [u8]) { unsafe { ksym_symbolic(b.as_mut_ptr(), b.len()) } }
pub fn assume(c: bool) { unsafe { ksym_assume(c) } }
pub fn reach(k: u64) { unsafe { ksym_reach(k) } }
pub fn observe(v: u64) { unsafe { ksym_observe(v) } }
pub fn concretize(v: u64) -> u64 { unsafe { ksym_concretize(v) } }
#[cold]
#[inline(never)]
pub fn fail(m: &str) -> ! { unsafe { ksym_fail(m.as_ptr(), m.len()) } loop {} }
pub fn check(c: bool, m: &str) { if !c { fail(m) } }
pub fn observe_str(s: &str) { observe(s.len() as u64); for b in s.bytes() { observe(b as u64) } }

/// A symbolic byte, unconstrained.
pub fn byte() -> u8 { let mut b = [0u8; 1]; symbolic(&mut b); b[0] }
/// A symbolic choice below n; the executor forks on it.
pub fn choice(n: u8) -> u8 { let b = byte(); assume(b < n); concretize(b as u64) as u8 }
pub fn flag() -> bool { choice(2) == 1 }

const fn set(s: &str) -> u128 {
    let b = s.as_bytes();
    let (mut i, mut m) = (0, 0u128);
    while i < b.len() { m |= 1 << b[i]; i += 1; }
    m
}
/// Everything that is special to the KDL grammar, plus one ordinary letter and digit.
const KDL: u128 = set("a0\"\\/-*{}()=;#r\n ");
const NUM: u128 = set("0179_.eE+-xobaFg");
const WSP: u128 = set(" \t\n\r\x0c;/\\*-");
const ESC: u128 = set("\"\\/bfnrtu{}0aAx#\n");
const LOW: u128 = set("abcdefghijklmnopqrstuvwxyz");
const DIG: u128 = set("0123456789");
const HEX: u128 = set("0123456789abcdefABCDEFgG}_");
const PLAIN: u128 = set(" !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~\n\t");
const B64: u128 = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_ \n\t.");
const IDC: u128 = set("!#$%&'*+-.0123456789:?@ABCDEFGHIJKLMNOPQRSTUVWXYZ^_`abcdefghijklmnopqrstuvwxyz|~");
const NL: u128 = set("\n\r");
const PM: u128 = set("+-0");
const ASTER: u128 = set("/*-a\n ");

fn ascii_in(v: &mut Vec<u8>, m: u128) {
    let b = byte();
    assume(b < 0x80 && (m >> (b & 127)) & 1 == 1);
    v.push(b);
}
/// `n`-byte UTF-8 character, any scalar value of that length.
pub fn utf8(v: &mut Vec<u8>, n: usize) {
    let mut b = [0u8; 4];
    symbolic(&mut b[..n]);
    let cont = |x: u8| x & 0xC0 == 0x80;
    match n {
        1 => assume(b[0] < 0x80),
        2 => { assume(b[0] >= 0xC2 && b[0] <= 0xDF); assume(cont(b[1])); }
        3 => {
            assume(b[0] >= 0xE0 && b[0] <= 0xEF); assume(cont(b[1])); assume(cont(b[2]));
            assume((b[0] != 0xE0 || b[1] >= 0xA0) && (b[0] != 0xED || b[1] <= 0x9F));
        }
        _ => {
            assume(b[0] >= 0xF0 && b[0] <= 0xF4); assume(cont(b[1])); assume(cont(b[2])); assume(cont(b[3]));
            assume((b[0] != 0xF0 || b[1] >= 0x90) && (b[0] != 0xF4 || b[1] <= 0x8F));
        }
    }
    v.extend_from_slice(&b[..n]);
}

fn cont(v: &mut Vec<u8>) { let b = byte(); assume(b & 0xC0 == 0x80); v.push(b) }
/// The leading bytes of an `n`-byte character; the executor forks on each value.
fn lead(v: &mut Vec<u8>, n: usize) {
    let a = byte();
    if n == 2 { assume(a >= 0xC2 && a <= 0xDF) } else { assume(a >= 0xE0 && a <= 0xEF) }
    let a = concretize(a as u64) as u8;
    v.push(a);
    if n == 3 {
        let b = byte();
        assume(b & 0xC0 == 0x80 && (a != 0xE0 || b >= 0xA0) && (a != 0xED || b <= 0x9F));
        v.push(concretize(b as u64) as u8);
    }
}

/// Instantiates a template.  Literal text stands for itself; markers become symbolic bytes:
///   ¤ any ASCII  ⑵⑶⑷ any 2/3/4-byte char  Ⓚ grammar alphabet  Ⓝ number alphabet
///   Ⓦ blanks/terminators  Ⓔ escape alphabet  Ⓛ a-z  Ⓓ 0-9  Ⓗ hex-ish  Ⓟ printable w/o quote
///   Ⓑ base64-ish  Ⓘ identifier char  Ⓡ CR/LF  Ⓢ + - 0  Ⓐ comment alphabet
///   Ⓤ U+2000..203F  Ⓒ U+0080..00BF  ②③ any 2/3-byte char, enumerated by blocks of 64
/// `⟦a|b|c⟧` is a symbolic choice between alternatives (which may contain markers);
/// `§` records the current offset in `marks`.
pub struct Input { pub text: String, pub marks: Vec<usize>, pub picks: Vec<u8> }

pub fn template() -> Vec<u8> {
    let mut b = vec![0u8; 16384];
    let n = unsafe { ksym_arg(b.as_mut_ptr(), b.len()) } as usize;
    b.truncate(n);
    b
}
pub fn input() -> Input {
    let t = template();
    let mut v = Vec::with_capacity(t.len() + 8);
    let mut r = Input { text: String::new(), marks: vec![], picks: vec![] };
    fill(unsafe { std::str::from_utf8_unchecked(&t) }, &mut v, &mut r);
    r.text = unsafe { String::from_utf8_unchecked(v) };
    r
}
fn fill(t: &str, v: &mut Vec<u8>, r: &mut Input) {
    let mut p = 0;
    while p < t.len() {
        let c = t[p..].chars().next().unwrap();
        p += c.len_utf8();
        match c {
            '¤' => ascii_in(v, !0),
            '⑵' => utf8(v, 2),
            '⑶' => utf8(v, 3),
            '⑷' => utf8(v, 4),
            'Ⓚ' => ascii_in(v, KDL),
            'Ⓝ' => ascii_in(v, NUM),
            'Ⓦ' => ascii_in(v, WSP),
            'Ⓔ' => ascii_in(v, ESC),
            'Ⓛ' => ascii_in(v, LOW),
            'Ⓓ' => ascii_in(v, DIG),
            'Ⓗ' => ascii_in(v, HEX),
            'Ⓟ' => ascii_in(v, PLAIN),
            'Ⓑ' => ascii_in(v, B64),
            'Ⓘ' => ascii_in(v, IDC),
            'Ⓡ' => ascii_in(v, NL),
            'Ⓢ' => ascii_in(v, PM),
            'Ⓐ' => ascii_in(v, ASTER),
            'Ⓤ' => { v.extend_from_slice(b"\xE2\x80"); cont(v) }
            'Ⓒ' => { v.push(0xC2); cont(v) }
            '②' => { lead(v, 2); cont(v) }
            '③' => { lead(v, 3); cont(v) }
            '§' => r.marks.push(v.len()),
            '⟦' => {
                let (mut depth, mut q, mut start) = (0, p, p);
                let mut alts: Vec<&str> = vec![];
                loop {
                    let c = t[q..].chars().next().unwrap();
                    match c {
                        '⟦' => depth += 1,
                        '⟧' if depth > 0 => depth -= 1,
                        '⟧' => { alts.push(&t[start..q]); break }
                        '|' if depth == 0 => { alts.push(&t[start..q]); start = q + 1 }
                        _ => {}
                    }
                    q += c.len_utf8();
                }
                p = q + '⟧'.len_utf8();
                let k = choice(alts.len() as u8);
                r.picks.push(k);
                fill(alts[k as usize], v, r);
            }
            c => { let mut b = [0u8; 4]; v.extend_from_slice(c.encode_utf8(&mut b).as_bytes()) }
        }
    }
}
