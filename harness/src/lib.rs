#![allow(dead_code, unused_imports, static_mut_refs)]
mod sup;
mod refkdl;
mod astcmp;
mod diag;
#[cfg(any(feature = "span", feature = "line", feature = "errs", feature = "total"))]
mod p_parse;
#[cfg(feature = "decode")]
mod schema;
#[cfg(feature = "decode")]
mod dec;
#[cfg(feature = "scalar")]
mod p_scalar;
#[cfg(feature = "fields")]
mod p_fields;
#[cfg(feature = "kids")]
mod p_kids;
#[cfg(feature = "enum")]
mod p_enum;
#[cfg(feature = "ast")]
mod p_ast;
#[cfg(feature = "cbor")]
mod p_cbor;
