//! C22: a native value kept as a typed literal is still that value wherever the literal is read.

use crate::fmt::{self, Fmt, Writer};
use crate::gen::*;
use crate::store;
use rdftk_core::model::graph::Graph;
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::statement::Statement;
use rdftk_iri::{Iri, LocalName, Name};
use rust_decimal::Decimal;
use simkit::*;
use std::str::FromStr;
use std::time::Duration;

/// A native value there is a literal for.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Bool(bool),
    F64(f64),
    F32(f32),
    I64(i64),
    I32(i32),
    I16(i16),
    I8(i8),
    U64(u64),
    U32(u32),
    U16(u16),
    U8(u8),
    Dur(Duration),
    Chrono(chrono::Duration),
    Dec(Decimal),
    Lang(LanguageTag),
    Name(Name),
    Local(LocalName),
    Iri(Iri),
    Text(String),
    Hex(Vec<u8>),
    B64(Vec<u8>),
}

const KINDS: u64 = 21;

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    Some((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn b64(b: &[u8]) -> String {
    let mut out = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            out.push(if i <= c.len() { B64[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    out
}

/// An integer near the ends of its type, near a power of two, or any.
fn integer(bits: u32) -> u64 {
    let n = match draw(6, "integer") {
        0 => draw(3, "small"),
        1 => u64::MAX - draw(3, "top"),
        2 => (1u64 << (bits - 1)).wrapping_sub(2).wrapping_add(draw(4, "middle")),
        3 => dict::size(100_000, "code-size"),
        4 => (1u64 << draw(64, "shift")).wrapping_sub(draw(2, "less")),
        _ => draw(u64::MAX, "any-integer"),
    };
    n & (u64::MAX >> (64 - bits))
}

fn float() -> f64 {
    match draw(5, "float") {
        0 => *pick(
            &[0.0, -0.0, 1.0, 0.1, 1.5, -1.5, 1e21, 1e-7, 1e300, 1e38, f64::MIN_POSITIVE, f64::MAX, 5e-324, 0.3, 16777217.0, 1e15, 1e16, 1e17],
            "plain-float",
        ),
        1 => *pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN], "odd-float"),
        2 => integer(64) as i64 as f64,
        3 => draw(1_000_000, "fraction") as f64 / 1000.0,
        _ => f64::from_bits(draw(u64::MAX, "float-bits")),
    }
}

fn bytes() -> Vec<u8> {
    let n = match draw(3, "bytes-kind") {
        0 => draw(5, "few-bytes"),
        1 => draw(80, "bytes"),
        _ => dict::size(300, "code-bytes"),
    };
    let kind = draw(4, "byte-values");
    (0..n)
        .map(|i| match kind {
            0 => 0,
            1 => 255,
            2 => i as u8,
            _ => draw(256, "byte") as u8,
        })
        .collect()
}

fn seconds() -> u64 {
    match draw(4, "seconds") {
        0 => 0,
        1 => draw(100_000, "some-seconds"),
        2 => *pick(&[59u64, 60, 61, 3599, 3600, 86399, 86400, 31536000], "round-seconds"),
        _ => draw(9_000_000_000_000, "many-seconds"),
    }
}

fn nanos() -> u32 {
    match draw(4, "nanos") {
        0 => 0,
        1 => *pick(&[1u32, 5, 10, 999, 1000, 1_000_000, 10_000_000, 100_000_000, 120_000_000, 500_000_000, 999_999_999], "round-nanos"),
        2 => draw(1000, "ms") as u32 * 1_000_000,
        _ => draw(1_000_000_000, "any-nanos") as u32,
    }
}

fn parsed<X: FromStr>(what: &str, s: &str) -> X {
    match s.parse() {
        Ok(x) => x,
        Err(_) => violation("valid-input-rejected", format!("{what} {s:?}")),
    }
}

pub fn any() -> V {
    let shape = Shape::FULL;
    match draw(KINDS, "native") {
        0 => V::Bool(chance(1, 2, "bool")),
        1 => V::F64(float()),
        2 => V::F32(float() as f32),
        3 => V::I64(integer(64) as i64),
        4 => V::I32(integer(32) as i32),
        5 => V::I16(integer(16) as i16),
        6 => V::I8(integer(8) as i8),
        7 => V::U64(integer(64)),
        8 => V::U32(integer(32) as u32),
        9 => V::U16(integer(16) as u16),
        10 => V::U8(integer(8) as u8),
        11 => V::Dur(Duration::new(seconds(), nanos())),
        12 => {
            let d = chrono::Duration::new(seconds() as i64, nanos()).unwrap();
            V::Chrono(if chance(1, 3, "negative") { -d } else { d })
        }
        13 => {
            let n = integer(64) as i64;
            V::Dec(Decimal::from_i128_with_scale(n as i128, draw(28, "scale") as u32))
        }
        14 => V::Lang(parsed("language", from_pool(LANGS, LANGS.len(), "language"))),
        15 => V::Name(parsed("name", pick(NAMES, "name"))),
        16 => V::Local(parsed("local name", &format!("{}:{}", pick(&["", "p", "rdf", "é", "a.b"], "prefix"), pick(NAMES, "name")))),
        17 => V::Iri(iri(&any_iri_text())),
        18 => V::Hex(bytes()),
        19 => V::B64(bytes()),
        _ => V::Text(any_value(&shape)),
    }
}

const NAMES: &[&str] = &["x", "name", "a-b", "a.b", "_x", "É", "x1", "日本", "B"];

impl V {
    /// What the value is, as part of an IRI.
    fn code(&self) -> String {
        let text = |k: &str, s: &str| format!("{k}:{}", hex(s.as_bytes()));
        match self {
            V::Bool(v) => format!("bool:{v}"),
            V::F64(v) => format!("f64:{:016x}", v.to_bits()),
            V::F32(v) => format!("f32:{:08x}", v.to_bits()),
            V::I64(v) => format!("i64:{v}"),
            V::I32(v) => format!("i32:{v}"),
            V::I16(v) => format!("i16:{v}"),
            V::I8(v) => format!("i8:{v}"),
            V::U64(v) => format!("u64:{v}"),
            V::U32(v) => format!("u32:{v}"),
            V::U16(v) => format!("u16:{v}"),
            V::U8(v) => format!("u8:{v}"),
            V::Dur(v) => format!("dur:{}", v.as_nanos()),
            V::Chrono(v) => format!("chrono:{}", chrono_nanos(v)),
            V::Dec(v) => format!("dec:{}.{}", v.mantissa(), v.scale()),
            V::Lang(v) => text("lang", v.as_str()),
            V::Name(v) => text("name", v.as_ref()),
            V::Local(v) => text("local", &v.to_string()),
            V::Iri(v) => text("iri", &iri_text(v)),
            V::Text(v) => text("text", v),
            V::Hex(v) => format!("hex:{}", hex(v)),
            V::B64(v) => format!("b64:{}", hex(v)),
        }
    }

    fn of_code(code: &str) -> Option<V> {
        let (k, rest) = code.split_once(':')?;
        let text = || String::from_utf8(unhex(rest)?).ok();
        Some(match k {
            "bool" => V::Bool(rest.parse().ok()?),
            "f64" => V::F64(f64::from_bits(u64::from_str_radix(rest, 16).ok()?)),
            "f32" => V::F32(f32::from_bits(u32::from_str_radix(rest, 16).ok()?)),
            "i64" => V::I64(rest.parse().ok()?),
            "i32" => V::I32(rest.parse().ok()?),
            "i16" => V::I16(rest.parse().ok()?),
            "i8" => V::I8(rest.parse().ok()?),
            "u64" => V::U64(rest.parse().ok()?),
            "u32" => V::U32(rest.parse().ok()?),
            "u16" => V::U16(rest.parse().ok()?),
            "u8" => V::U8(rest.parse().ok()?),
            "dur" => {
                let n: u128 = rest.parse().ok()?;
                V::Dur(Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32))
            }
            "chrono" => {
                let n: i128 = rest.parse().ok()?;
                V::Chrono(chrono::Duration::new(n.div_euclid(1_000_000_000) as i64, n.rem_euclid(1_000_000_000) as u32)?)
            }
            "dec" => {
                let (m, s) = rest.split_once('.')?;
                V::Dec(Decimal::from_i128_with_scale(m.parse().ok()?, s.parse().ok()?))
            }
            "lang" => V::Lang(parsed("language", &text()?)),
            "name" => V::Name(parsed("name", &text()?)),
            "local" => V::Local(parsed("local name", &text()?)),
            "iri" => V::Iri(iri(&text()?)),
            "text" => V::Text(text()?),
            "hex" => V::Hex(unhex(rest)?),
            "b64" => V::B64(unhex(rest)?),
            _ => return None,
        })
    }

    pub fn literal(&self) -> Literal {
        let by_ref = chance(1, 2, "by-reference");
        macro_rules! lit {
            ($v:expr) => {
                if by_ref { Literal::from($v) } else { Literal::from($v.clone()) }
            };
        }
        match self {
            V::Bool(v) => Literal::from(*v),
            V::F64(v) => Literal::from(*v),
            V::F32(v) => Literal::from(*v),
            V::I64(v) => Literal::from(*v),
            V::I32(v) => Literal::from(*v),
            V::I16(v) => Literal::from(*v),
            V::I8(v) => Literal::from(*v),
            V::U64(v) => Literal::from(*v),
            V::U32(v) => Literal::from(*v),
            V::U16(v) => Literal::from(*v),
            V::U8(v) => Literal::from(*v),
            V::Dur(v) => lit!(v),
            V::Chrono(v) => lit!(v),
            V::Dec(v) => lit!(v),
            V::Lang(v) => Literal::from(v.clone()),
            V::Name(v) => lit!(v),
            V::Local(v) => lit!(v),
            V::Iri(v) => lit!(v),
            V::Text(v) if by_ref => Literal::from(v.as_str()),
            V::Text(v) => Literal::from(v.clone()),
            V::Hex(v) => Literal::hex_encoded(v),
            V::B64(v) => Literal::base64_encoded(v),
        }
    }

    fn data_type(&self) -> DataType {
        match self {
            V::Bool(_) => DataType::Boolean,
            V::F64(_) => DataType::Double,
            V::F32(_) => DataType::Float,
            V::I64(_) => DataType::Long,
            V::I32(_) => DataType::Int,
            V::I16(_) => DataType::Short,
            V::I8(_) => DataType::Byte,
            V::U64(_) => DataType::UnsignedLong,
            V::U32(_) => DataType::UnsignedInt,
            V::U16(_) => DataType::UnsignedShort,
            V::U8(_) => DataType::UnsignedByte,
            V::Dur(_) | V::Chrono(_) => DataType::Duration,
            V::Dec(_) => DataType::Decimal,
            V::Lang(_) => DataType::Language,
            V::Name(_) => DataType::Name,
            V::Local(_) => DataType::QName,
            V::Iri(_) => DataType::Iri,
            V::Text(_) => DataType::String,
            V::Hex(_) => DataType::HexBinary,
            V::B64(_) => DataType::Base64Binary,
        }
    }

    fn type_name(&self) -> &'static str {
        match self {
            V::Bool(_) => "boolean",
            V::F64(_) => "double",
            V::F32(_) => "float",
            V::I64(_) => "long",
            V::I32(_) => "int",
            V::I16(_) => "short",
            V::I8(_) => "byte",
            V::U64(_) => "unsignedLong",
            V::U32(_) => "unsignedInt",
            V::U16(_) => "unsignedShort",
            V::U8(_) => "unsignedByte",
            V::Dur(_) | V::Chrono(_) => "duration",
            V::Dec(_) => "decimal",
            V::Lang(_) => "language",
            V::Name(_) => "Name",
            V::Local(_) => "QName",
            V::Iri(_) => "anyURI",
            V::Text(_) => "string",
            V::Hex(_) => "hexBinary",
            V::B64(_) => "base64Binary",
        }
    }

    /// Does the text stand for this value by the rules of its XML Schema data type?
    fn is_said_by(&self, t: &str) -> bool {
        match self {
            V::Bool(v) => matches!((t, *v), ("true" | "1", true) | ("false" | "0", false)),
            V::F64(v) => xsd_float(t).is_some_and(|n| n.to_bits() == v.to_bits() || n.is_nan() && v.is_nan()),
            V::F32(v) => {
                xsd_float(t).is_some()
                    && t.replace("INF", "inf").parse::<f32>().is_ok_and(|n| n.to_bits() == v.to_bits() || n.is_nan() && v.is_nan())
            }
            V::I64(v) => xsd_integer(t) == Some(*v as i128),
            V::I32(v) => xsd_integer(t) == Some(*v as i128),
            V::I16(v) => xsd_integer(t) == Some(*v as i128),
            V::I8(v) => xsd_integer(t) == Some(*v as i128),
            V::U64(v) => xsd_integer(t) == Some(*v as i128),
            V::U32(v) => xsd_integer(t) == Some(*v as i128),
            V::U16(v) => xsd_integer(t) == Some(*v as i128),
            V::U8(v) => xsd_integer(t) == Some(*v as i128),
            V::Dur(v) => xsd_duration(t) == Some(v.as_nanos() as i128),
            V::Chrono(v) => xsd_duration(t) == Some(chrono_nanos(v)),
            V::Dec(v) => {
                let body = t.strip_prefix(['+', '-']).unwrap_or(t);
                plain_number(body) && t.parse::<Decimal>().is_ok_and(|d| d == *v)
            }
            V::Lang(v) => t == v.as_str(),
            V::Name(v) => t == AsRef::<str>::as_ref(v),
            V::Local(v) => t == v.to_string(),
            V::Iri(v) => t == iri_text(v),
            V::Text(v) => t == v,
            V::Hex(v) => unhex(t).as_ref() == Some(v),
            V::B64(v) => t == b64(v),
        }
    }

    /// The library's comparison with the native value; none where there is no such comparison.
    fn equals(&self, l: &Literal) -> Option<bool> {
        Some(match self {
            V::Bool(v) => l == v,
            V::F64(v) => l == v,
            V::F32(v) => l == v,
            V::I64(v) => l == v,
            V::I32(v) => l == v,
            V::I16(v) => l == v,
            V::I8(v) => l == v,
            V::U64(v) => l == v,
            V::U32(v) => l == v,
            V::U16(v) => l == v,
            V::U8(v) => l == v,
            V::Dur(v) => l == v,
            V::Chrono(v) => l == v,
            V::Dec(v) => l == v,
            V::Lang(v) => l == v,
            V::Name(v) => l == v,
            V::Local(v) => l == v,
            V::Iri(v) => l == v,
            V::Text(v) => {
                let (a, b) = (l == v, l == v.as_str());
                check!(a == b, "comparison", "{l:?} compares {a} with {v:?} as a String and {b} as a str");
                a
            }
            V::Hex(_) | V::B64(_) => return None,
        })
    }

    /// Another value that could be mistaken for this one.
    fn near(&self) -> V {
        if chance(1, 4, "any-other") {
            return any();
        }
        match self {
            V::Bool(v) => V::Bool(!v),
            V::F64(v) => match draw(3, "near") {
                0 => V::F64(-v),
                1 => V::F64(f64::from_bits(v.to_bits() ^ 1)),
                _ => V::F32(*v as f32),
            },
            V::F32(v) => match draw(3, "near") {
                0 => V::F32(-v),
                1 => V::F32(f32::from_bits(v.to_bits() ^ 1)),
                _ => V::F64(*v as f64),
            },
            V::I64(v) => pick(&[V::I64(v.wrapping_neg()), V::I64(v ^ 1), V::I32(*v as i32), V::U64(*v as u64)], "near").clone(),
            V::I32(v) => pick(&[V::I32(v.wrapping_neg()), V::I32(v ^ 1), V::I64(*v as i64), V::U32(*v as u32)], "near").clone(),
            V::I16(v) => pick(&[V::I16(v.wrapping_neg()), V::I16(v ^ 1), V::I8(*v as i8), V::U16(*v as u16)], "near").clone(),
            V::I8(v) => pick(&[V::I8(v.wrapping_neg()), V::I8(v ^ 1), V::I16(*v as i16), V::U8(*v as u8)], "near").clone(),
            V::U64(v) => pick(&[V::U64(v ^ 1), V::I64(*v as i64), V::U32(*v as u32)], "near").clone(),
            V::U32(v) => pick(&[V::U32(v ^ 1), V::I32(*v as i32), V::U64(*v as u64)], "near").clone(),
            V::U16(v) => pick(&[V::U16(v ^ 1), V::I16(*v as i16), V::U8(*v as u8)], "near").clone(),
            V::U8(v) => pick(&[V::U8(v ^ 1), V::I8(*v as i8), V::U16(*v as u16)], "near").clone(),
            V::Dur(v) => V::Dur(Duration::new(v.as_secs(), *pick(&[v.subsec_nanos() / 10, v.subsec_nanos() ^ 1, 0], "near") % 1_000_000_000)),
            V::Chrono(v) => V::Chrono(-*v),
            V::Dec(v) => V::Dec(-*v),
            V::Lang(v) => V::Text(v.as_str().into()),
            V::Name(v) => V::Text(v.to_string()),
            V::Local(v) => V::Text(v.to_string()),
            V::Iri(v) => match draw(2, "near") {
                0 => V::Text(iri_text(v)),
                _ => V::Iri(iri(&any_iri_text())),
            },
            V::Text(v) => match draw(3, "near") {
                0 => V::Text(format!("{v}x")),
                1 => V::Text(v.replace('\\', "\\\\")),
                _ => V::Text(v.replace('"', "\\\"").replace('\n', "\\n")),
            },
            V::Hex(v) => V::B64(v.clone()),
            V::B64(v) => V::Hex(v.clone()),
        }
    }

    /// Are these surely two values, whatever the rules of comparison?
    fn differs(&self, o: &V) -> bool {
        match (self, o) {
            // NaN, zeros and scales are equal or not as one likes
            (V::F64(a), V::F64(b)) => a != b && !(a.is_nan() && b.is_nan()),
            (V::F32(a), V::F32(b)) => a != b && !(a.is_nan() && b.is_nan()),
            (V::Dur(_), V::Chrono(_)) | (V::Chrono(_), V::Dur(_)) => self.nanos() != o.nanos(),
            (a, b) => a != b,
        }
    }

    fn nanos(&self) -> i128 {
        match self {
            V::Dur(v) => v.as_nanos() as i128,
            V::Chrono(v) => chrono_nanos(v),
            _ => 0,
        }
    }
}

fn chrono_nanos(v: &chrono::Duration) -> i128 {
    v.num_seconds() as i128 * 1_000_000_000 + v.subsec_nanos() as i128
}

fn digits(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit())
}

/// Digits with or without a point among them.
fn plain_number(t: &str) -> bool {
    match t.split_once('.') {
        None => digits(t),
        Some((a, b)) => (a.is_empty() || digits(a)) && (b.is_empty() || digits(b)) && !(a.is_empty() && b.is_empty()),
    }
}

fn xsd_integer(t: &str) -> Option<i128> {
    let body = t.strip_prefix(['+', '-']).unwrap_or(t);
    if digits(body) { t.parse().ok() } else { None }
}

fn xsd_float(t: &str) -> Option<f64> {
    let body = t.strip_prefix(['+', '-']).unwrap_or(t);
    match t {
        "INF" | "+INF" => return Some(f64::INFINITY),
        "-INF" => return Some(f64::NEG_INFINITY),
        "NaN" => return Some(f64::NAN),
        _ => {}
    }
    let (mantissa, exponent) = body.split_once(['e', 'E']).unwrap_or((body, "0"));
    let exponent = exponent.strip_prefix(['+', '-']).unwrap_or(exponent);
    if plain_number(mantissa) && digits(exponent) { t.parse().ok() } else { None }
}

/// Durations of days, hours, minutes and seconds, in nanoseconds.
fn xsd_duration(t: &str) -> Option<i128> {
    let (sign, t) = match t.strip_prefix('-') {
        Some(t) => (-1, t),
        None => (1, t),
    };
    let t = t.strip_prefix('P')?;
    let (date, time) = match t.split_once('T') {
        Some((_, "")) => return None,
        Some((d, t)) => (d, t),
        None => (t, ""),
    };
    if date.is_empty() && time.is_empty() {
        return None;
    }
    let mut total = 0;
    for (part, units) in [(date, &[('D', 86400i128)] as &[(char, i128)]), (time, &[('H', 3600), ('M', 60), ('S', 1)])] {
        let mut rest = part;
        for (unit, seconds) in units {
            if let Some((n, r)) = rest.split_once(*unit) {
                rest = r;
                let (whole, fraction) = match n.split_once('.') {
                    Some((w, f)) if *unit == 'S' && digits(f) && f.len() <= 9 => (w, format!("{f:0<9}").parse::<i128>().ok()?),
                    Some(_) => return None,
                    None => (n, 0),
                };
                if !digits(whole) {
                    return None;
                }
                total += (whole.parse::<i128>().ok()? * 1_000_000_000 + fraction) * seconds;
            }
        }
        if !rest.is_empty() {
            return None;
        }
    }
    Some(sign * total)
}

/// Checks everything about a literal that was made of `v`, here or before it went through files.
fn check_value(v: &V, l: &Literal, whence: &str) {
    let text = l.unescaped_form();
    check!(
        l.data_type() == Some(&v.data_type()) && l.language().is_none() && l.has_data_type() && !l.has_language(),
        "type",
        "{v:?} is a literal of type {:?} and language {:?} {whence}",
        l.data_type(),
        l.language()
    );
    let dt = iri_text(v.data_type().as_iri());
    check!(dt == format!("{XSD}{}", v.type_name()), "type", "the IRI of {:?} is {dt}", v.data_type());
    check!(v.is_said_by(&text), "lexical", "{v:?} is {text:?} as a literal {whence}, which is no {} of that value", v.type_name());
    if let Some(same) = v.equals(l) {
        check!(same, "comparison", "{l:?} {whence} compares unequal with {v:?} of which it was made");
    }
    let other = v.near();
    if v.differs(&other) {
        let same = other.equals(l);
        check!(same != Some(true), "comparison", "{l:?} {whence} compares equal with {other:?}");
        check!(*l != other.literal(), "comparison", "the literals of {v:?} {whence} and {other:?} are equal");
    }
    check!(*l == v.literal(), "comparison", "{l:?} {whence} is another literal than {:?}", v.literal());
    let back = no_panic("panic", "literal into bytes", || Vec::<u8>::try_from(l.clone()));
    match v {
        V::Hex(b) | V::B64(b) => {
            check!(back.as_ref().ok() == Some(b), "value", "{l:?} {whence} as bytes: {back:?} instead of {b:?}");
            probe("bytes-back");
        }
        _ => check!(back.is_err(), "value", "{l:?} {whence} gave bytes: {back:?}"),
    }
    let back = no_panic("panic", "literal into IRI", || Iri::try_from(l.clone()));
    match v {
        V::Iri(i) => check!(back.as_ref().ok() == Some(i), "value", "{l:?} {whence} as an IRI: {back:?}"),
        _ => check!(back.is_err(), "value", "{l:?} {whence} gave an IRI: {back:?}"),
    }
}

/// A literal of text that is bytes and of text that is an IRI, but of another type or of none.
fn mistyped() {
    op();
    let text = if chance(1, 2, "bytes") { hex(&bytes()) } else { any_iri_text() };
    let l = match draw(5, "mistyped") {
        0 => Literal::plain(text.clone()),
        1 => Literal::with_language(text.clone(), parsed("language", from_pool(LANGS, LANGS.len(), "language"))),
        2 => Literal::with_data_type(text.clone(), any().data_type()),
        3 => Literal::with_data_type_iri(text.clone(), iri(&format!("{XSD}{}", any().type_name()))),
        _ => Literal::with_data_type_iri(text.clone(), iri(&format!("urn:x:{}", any().type_name()))),
    };
    check!(l.unescaped_form() == text, "lexical", "a literal of {text:?} has the form {:?}", l.unescaped_form());
    let dt = l.data_type().map(|d| iri_text(d.as_iri()));
    let b = no_panic("panic", "literal into bytes", || Vec::<u8>::try_from(l.clone()));
    if !matches!(dt.as_deref(), Some(HEX | BASE64)) {
        check!(b.is_err(), "value", "{l:?} of type {dt:?} gave the bytes {b:?}");
    } else if dt.as_deref() == Some(HEX) {
        check!(b.as_ref().ok() == unhex(&text).as_ref(), "value", "{l:?} as bytes: {b:?}");
    }
    let i = no_panic("panic", "literal into IRI", || Iri::try_from(l.clone()));
    let want = text.parse::<Iri>().ok().filter(|_| dt.as_deref() == Some(ANY_URI));
    check!(i.as_ref().ok() == want.as_ref(), "value", "{l:?} of type {dt:?} as an IRI: {i:?}");
    let v = any();
    if Some(v.data_type().as_iri()) != l.data_type().map(DataType::as_iri) && !matches!(v, V::Text(_)) {
        check!(v.equals(&l) != Some(true), "comparison", "{l:?} of type {dt:?} compares equal with {v:?}");
    }
    probe("mistyped");
}

/// Literals of other programs: right and wrong texts of a type.
fn foreign() {
    op();
    let mut b = bytes();
    let (mut t, dt) = match draw(3, "foreign") {
        0 => (b64(&b), DataType::Base64Binary),
        1 => (hex(&b), DataType::HexBinary),
        _ => (hex(&b).to_uppercase(), DataType::HexBinary),
    };
    let broken = chance(1, 3, "broken");
    if broken {
        let c = *pick(&['g', '+', '-', ' ', 'é', '=', '0', '\n', '"', 'x', '日'], "broken-char");
        let at = draw_usize(t.len() + 1, "broken-at");
        if at < t.len() && chance(1, 2, "instead") {
            t.replace_range(at..at + 1, &c.to_string());
        } else {
            t.insert(at, c);
        }
        match dt {
            DataType::HexBinary => match unhex(&t) {
                Some(x) => b = x,
                // how spaces between the digits are taken is left open
                None if t.contains(char::is_whitespace) => return,
                None => {}
            },
            // there is one padding and one alphabet
            _ if t.chars().all(|c| B64.contains(&(c as u8)) && c.is_ascii() || c == '=') => return,
            _ => {}
        }
    }
    let wrong = broken && (dt == DataType::Base64Binary || unhex(&t).is_none());
    let l = Literal::with_data_type(t.clone(), dt);
    let got = no_panic("panic", "literal into bytes", || Vec::<u8>::try_from(l.clone()));
    if wrong {
        check!(got.is_err(), "value", "{t:?} gave the bytes {got:?}");
        probe("refused");
    } else {
        check!(got.as_ref().ok() == Some(&b), "value", "{l:?} as bytes: {got:?} instead of {b:?}");
    }
}

const P: &str = "http://example.org/v#p";
const HEX: &str = "http://www.w3.org/2001/XMLSchema#hexBinary";
const BASE64: &str = "http://www.w3.org/2001/XMLSchema#base64Binary";
const ANY_URI: &str = "http://www.w3.org/2001/XMLSchema#anyURI";

fn save(file: &str, tmp: &str) {
    op();
    let plan = match draw(3, "device") {
        0 => Plan::perfect(),
        1 => Plan::benign(),
        _ => Plan::failing(600),
    };
    let fmt = store::format_of(file);
    let mut g = if chance(1, 2, "unique") { Graph::unique() } else { Graph::default() };
    if chance(1, 2, "with-mappings") {
        g.set_prefix_mappings(any_mappings());
    }
    let mut steps = Steps::new(8, 4);
    while steps.more() {
        let v = any();
        let l = v.literal();
        check_value(&v, &l, "when new");
        if fmt == Fmt::Xml && !xml_value(&l.unescaped_form()) {
            continue;
        }
        g.insert(Statement::new(iri(&format!("urn:v:{}", v.code())), iri(P), l));
    }
    let doc = vec![(None, of_graph(&g))];
    let w = Writer::of(fmt);
    slog!("save {file} by {} {doc:?}", w.name());
    store::save(file, tmp, &doc, plan, |f| w.write(f, &g).map_err(|e| e.to_string()));
}

fn load(file: &str) {
    op();
    let k = store::known(file);
    let Some(bytes) = Disk.get(file) else {
        check!(k.acked.is_none(), "lost", "{file} is not there any more");
        return;
    };
    let mut r = Stream::new("load", bytes.clone(), Plan::benign());
    let graphs = match fmt::read_graphs(store::format_of(file), &mut r) {
        Ok(g) => g,
        Err(e) => violation("round-trip", format!("{file} cannot be read back: {e}\n{}", String::from_utf8_lossy(&bytes))),
    };
    let mut got = G::new();
    for st in graphs.iter().flat_map(|g| g.statements()) {
        let s = of_statement(st);
        let T::Iri(i) = &s.s else { violation("round-trip", format!("{file} read back: {s:?}")) };
        let Some(v) = i.strip_prefix("urn:v:").and_then(V::of_code) else {
            violation("round-trip", format!("{file} read back: {s:?}"))
        };
        let Some(l) = st.object().as_literal() else { violation("round-trip", format!("{file} read back: {s:?}")) };
        check_value(&v, l, &format!("read from {file}"));
        got.insert(s);
    }
    let known = [&k.acked, &k.pending].into_iter().flatten().any(|d| d.iter().flat_map(|(_, s)| s.iter().cloned()).collect::<G>() == got);
    check!(known, "round-trip", "{file} read back: {got:?} instead of {:?}", k.acked);
    probe("loaded");
}

const FILES: &[(&str, &str)] = &[("a.nt", "a.tmp"), ("b.nq", "b.tmp"), ("c.json", "c.tmp"), ("d.xml", "d.tmp")];

fn lifetime() {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let callers = range(1, 3, "callers");
    let first = draw_usize(FILES.len(), "first-file");
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for c in 0..callers as usize {
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(6, 3);
            while steps.more() {
                // each caller writes one file and reads them all
                let (file, tmp) = FILES[(first + c) % FILES.len()];
                match draw(6, "value-step") {
                    0..=1 => load(pick(FILES, "which").0),
                    2..=3 => save(file, tmp),
                    4 => mistyped(),
                    _ => foreign(),
                }
            }
        }));
    }
    run_tasks(tasks);
}

pub fn scenario() {
    let lives = range(1, 3, "lives");
    for n in 0..lives {
        let crash = *pick(&[0u64, 0, 200, 40], "crash-den");
        let end = process(&format!("p{n}"), crash, lifetime);
        if n > 0 {
            probe("restarted");
        }
        if end == End::Crashed && chance(1, 2, "power") {
            Disk.power_loss();
        }
    }
    process("last", 0, || {
        for (f, _) in FILES {
            load(f);
        }
    });
}
