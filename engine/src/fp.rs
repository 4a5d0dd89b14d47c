//! Floating point: opcode numbers shared by the executor and the evaluator.
pub const FADD: u32 = 1; pub const FSUB: u32 = 2; pub const FMUL: u32 = 3; pub const FDIV: u32 = 4; pub const FREM: u32 = 5;
pub const FNEG: u32 = 6; pub const UITOFP: u32 = 7; pub const SITOFP: u32 = 8; pub const FPEXT: u32 = 9; pub const FPTRUNC: u32 = 10;
pub const FPTOUI: u32 = 11; pub const FPTOSI: u32 = 12; pub const FABS: u32 = 13;
pub const FSQRT: u32 = 14; pub const FTRUNC: u32 = 15; pub const FFLOOR: u32 = 16; pub const FCEIL: u32 = 17; pub const FROUND: u32 = 18; pub const FRINT: u32 = 19;
pub const FPTOUI_SAT: u32 = 20; pub const FPTOSI_SAT: u32 = 21;
pub const FCLASS: u32 = 64; // + mask of classes as of llvm.is.fpclass
pub const FCMP: u32 = 32; // + predicate bits: 1 eq, 2 gt, 4 lt, 8 unordered

pub fn eval(code: u32, a: u128, b: u128, wa: u32, w: u32) -> u128 {
    if code >= FCLASS {
        let (neg, cat) = if wa == 32 { let x = f32::from_bits(a as u32); (x.is_sign_negative(), x.classify()) } else { let x = f64::from_bits(a as u64); (x.is_sign_negative(), x.classify()) };
        use std::num::FpCategory::*;
        let bits = match (cat, neg) { (Nan, _) => 3, (Infinite, true) => 4, (Normal, true) => 8, (Subnormal, true) => 16, (Zero, true) => 32, (Zero, _) => 64, (Subnormal, _) => 128, (Normal, _) => 256, (Infinite, _) => 512 };
        return ((code - FCLASS) & bits != 0) as u128;
    }
    if code >= FCMP {
        let p = code - FCMP;
        let (x, y) = if wa == 32 { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) } else { (f64::from_bits(a as u64), f64::from_bits(b as u64)) };
        let bit = if x.is_nan() || y.is_nan() { 8 } else if x == y { 1 } else if x > y { 2 } else { 4 };
        return (p & bit != 0) as u128;
    }
    match code {
        UITOFP => return if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        SITOFP => { let s = crate::expr::sx(a, wa); return if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        FPEXT => return (f32::from_bits(a as u32) as f64).to_bits() as u128,
        FPTRUNC => return (f64::from_bits(a as u64) as f32).to_bits() as u128,
        FPTOUI => { let x = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) }; return (x as u128) & crate::expr::mask(w) }
        FPTOSI => { let x = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) }; return (x as i128 as u128) & crate::expr::mask(w) }
        FPTOUI_SAT => { let x = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) }; return (x as u128).min(crate::expr::mask(w)) }
        FPTOSI_SAT => { let x = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) }; let h = 1i128 << (w - 1); return (x as i128).clamp(-h, h - 1) as u128 & crate::expr::mask(w) }
        _ => {}
    }
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        (match code { FADD => x + y, FSUB => x - y, FMUL => x * y, FDIV => x / y, FREM => x % y, FNEG => -x, FABS => x.abs(), FSQRT => x.sqrt(), FTRUNC => x.trunc(), FFLOOR => x.floor(), FCEIL => x.ceil(), FROUND => x.round(), FRINT => x.round_ties_even(), _ => panic!() }).to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        (match code { FADD => x + y, FSUB => x - y, FMUL => x * y, FDIV => x / y, FREM => x % y, FNEG => -x, FABS => x.abs(), FSQRT => x.sqrt(), FTRUNC => x.trunc(), FFLOOR => x.floor(), FCEIL => x.ceil(), FROUND => x.round(), FRINT => x.round_ties_even(), _ => panic!() }).to_bits() as u128
    }
}

/// Functions of libm, on known values.
pub const LIBM: [&str; 19] = ["maximumnum", "minimumnum", "pow", "powi", "fmod", "exp", "exp2", "exp10", "log", "log2", "log10", "sin", "cos", "tan", "minnum", "maxnum", "copysign", "hypot", "cbrt"];
pub fn libm(k: usize, x: f64, y: f64) -> f64 {
    match LIBM[k] {
        "pow" => x.powf(y), "powi" => x.powi(y as i32), "fmod" => x % y, "exp" => x.exp(), "exp2" => x.exp2(), "exp10" => 10f64.powf(x), "log" => x.ln(), "log2" => x.log2(), "log10" => x.log10(),
        "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "minnum" | "minimumnum" => x.min(y), "maxnum" | "maximumnum" => x.max(y), "copysign" => x.copysign(y), "hypot" => x.hypot(y), _ => x.cbrt(),
    }
}
pub fn libm32(k: usize, x: f32, y: f32) -> f32 {
    match LIBM[k] {
        "pow" => x.powf(y), "powi" => x.powi(y as i32), "fmod" => x % y, "exp" => x.exp(), "exp2" => x.exp2(), "exp10" => 10f32.powf(x), "log" => x.ln(), "log2" => x.log2(), "log10" => x.log10(),
        "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "minnum" | "minimumnum" => x.min(y), "maxnum" | "maximumnum" => x.max(y), "copysign" => x.copysign(y), "hypot" => x.hypot(y), _ => x.cbrt(),
    }
}
