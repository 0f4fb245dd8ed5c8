//! Independent number representation and value domains.

use crate::engine::Dom;
use std::sync::OnceLock;

/// A decimal field: a number kept with its scale, or text kept verbatim.
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum D {
    N(i128, u32),
    R(String),
}

pub const MAX_MANTISSA: i128 = (1i128 << 96) - 1;

impl D {
    /// Classifies a canonical number or raw text.
    pub fn new(s: &str) -> D {
        D::canonical(s).unwrap_or_else(|| D::R(s.to_string()))
    }
    pub fn int(i: i128) -> D {
        D::N(i, 0)
    }
    pub fn canonical(s: &str) -> Option<D> {
        let (neg, body) = match s.strip_prefix('-') {
            Some(b) => (true, b),
            None => (false, s),
        };
        let (int, frac) = match body.split_once('.') {
            Some((i, f)) => (i, Some(f)),
            None => (body, None),
        };
        let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
        if !digits(int) || (int.len() > 1 && int.starts_with('0')) {
            return None;
        }
        if let Some(f) = frac {
            if !digits(f) || f.len() > 28 {
                return None;
            }
        }
        if int.len() + frac.map_or(0, |f| f.len()) > 30 {
            return None;
        }
        let mut m: i128 = 0;
        for b in int.bytes().chain(frac.unwrap_or("").bytes()) {
            m = m.checked_mul(10)?.checked_add((b - b'0') as i128)?;
        }
        if m > MAX_MANTISSA || (neg && m == 0) {
            return None;
        }
        Some(D::N(
            if neg { -m } else { m },
            frac.map_or(0, |f| f.len() as u32),
        ))
    }
    pub fn text(&self) -> String {
        match self {
            D::R(s) => s.clone(),
            D::N(m, s) => {
                let neg = *m < 0;
                let mut d = m.unsigned_abs().to_string();
                let s = *s as usize;
                if s > 0 {
                    while d.len() <= s {
                        d.insert(0, '0');
                    }
                    d.insert(d.len() - s, '.');
                }
                if neg {
                    d.insert(0, '-');
                }
                d
            }
        }
    }
    /// Adds `k` to a number and leaves raw text alone.
    pub fn shift(&self, k: i128) -> D {
        match self {
            D::R(s) => D::R(s.clone()),
            D::N(m, s) => D::N(m + k * 10i128.pow(*s), *s),
        }
    }
    pub fn is_num(&self) -> bool {
        matches!(self, D::N(..))
    }
}

/// The view of a decimal of the library.
pub fn d_of(d: &osu_file_parser::Decimal) -> D {
    match d.get() {
        either::Either::Left(v) => dec_of(v),
        either::Either::Right(s) => D::R(s.clone()),
    }
}
pub fn dec_of(v: &rust_decimal::Decimal) -> D {
    D::N(v.mantissa(), v.scale())
}
pub fn to_lib(d: &D) -> osu_file_parser::Decimal {
    match d {
        D::N(m, s) => rust_decimal::Decimal::from_i128_with_scale(*m, *s).into(),
        D::R(s) => osu_file_parser::Decimal::new_from_str(s),
    }
}

/// Whether text is a number of the integer type `T` (the rules of the text format:
/// an optional sign and decimal digits, within the range of the type).
pub fn int_in(s: &str, min: i128, max: i128) -> Option<i128> {
    let (neg, body) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    if neg && min >= 0 {
        // unsigned types do not take a minus sign at all
        return None;
    }
    if body.is_empty() || !body.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = body.trim_start_matches('0');
    if t.len() > 30 {
        return None;
    }
    let mut m: i128 = 0;
    for b in t.bytes() {
        m = m * 10 + (b - b'0') as i128;
    }
    if neg {
        m = -m;
    }
    (min..=max).contains(&m).then_some(m)
}
pub fn is_i32(s: &str) -> Option<i32> {
    int_in(s, i32::MIN as i128, i32::MAX as i128).map(|v| v as i32)
}
pub fn is_u32(s: &str) -> Option<u32> {
    int_in(s, 0, u32::MAX as i128).map(|v| v as u32)
}
pub fn is_u64(s: &str) -> Option<u64> {
    int_in(s, 0, u64::MAX as i128).map(|v| v as u64)
}
pub fn is_u8(s: &str) -> Option<u8> {
    int_in(s, 0, 255).map(|v| v as u8)
}

// ---------------------------------------------------------------- domains

/// Integers at and around the interesting places of the line.
pub fn int_points(min: i128, max: i128) -> Vec<i128> {
    let mut v: Vec<i128> = vec![0, 1, 2, 3, -1, -2, 5, 7, 10, 24, -24, 100, 255, 256, min, max];
    for k in 0..64 {
        for d in [-1, 0, 1] {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    let mut p = 1i128;
    for _ in 0..19 {
        for d in [-1, 0, 1] {
            v.push(p + d);
            v.push(-p + d);
        }
        p *= 10;
    }
    v.extend([min + 1, max - 1]);
    v.retain(|x| (min..=max).contains(x));
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(*x));
    v
}

pub fn i32_narrow() -> Vec<i32> {
    vec![0, 1, -1, 2, 23, 24, 25, -24, 1000, i32::MAX, i32::MIN, i32::MAX - 24, i32::MIN + 24]
}
pub fn i32_wide() -> Vec<i32> {
    let mut v: Vec<i32> = (-40..=300).collect();
    v.extend(
        int_points(i32::MIN as i128, i32::MAX as i128)
            .into_iter()
            .map(|x| x as i32),
    );
    v
}
pub fn i32_dom(default: i32) -> Dom<i32> {
    Dom::new(vec![default], i32_narrow(), i32_wide())
}
pub fn u32_dom(default: u32) -> Dom<u32> {
    let mut w: Vec<u32> = (0..=300).collect();
    w.extend(int_points(0, u32::MAX as i128).into_iter().map(|x| x as u32));
    Dom::new(vec![default], vec![0, 1, 2, 10, u32::MAX, 1 << 31], w)
}
pub fn u64_dom(default: u64) -> Dom<u64> {
    let mut w: Vec<u64> = (0..=300).collect();
    w.extend(int_points(0, u64::MAX as i128).into_iter().map(|x| x as u64));
    Dom::new(vec![default], vec![0, 1, 2, 3, 4, 10, u64::MAX, 1 << 32], w)
}

/// Raw texts which are no decimal numbers and contain no separator of any record.
pub const RAW: &[&str] = &[
    "1e5", "NaN", "-1.5E+30", "abc", "", "--1", "1.2.3", "0x10", "é", "１",
];

pub fn dec_narrow() -> Vec<D> {
    [
        "0", "1", "-1", "0.5", "-0.25", "1.50", "100.000", "2147483648", "-2147483649",
        "12345678901234567890.12345", "NaN", "1e5",
    ]
    .iter()
    .map(|s| D::new(s))
    .collect()
}
pub fn dec_wide() -> Vec<D> {
    let mut v: Vec<D> = (-30..=300).map(D::int).collect();
    for i in -30i128..=120 {
        v.push(D::N(i, 1));
        v.push(D::N(i, 2));
        v.push(D::N(i, 3));
    }
    for x in int_points(-(1i128 << 63), 1i128 << 63) {
        v.push(D::int(x));
    }
    // kept small enough that the 24 ms offset can be applied exactly
    for s in 4..=24 {
        v.push(D::N(123456789012345678901234567 / 10i128.pow(24 - s), s));
        v.push(D::N(1, s));
        v.push(D::N(-1, s));
    }
    v.extend(RAW.iter().map(|s| D::new(s)));
    v.retain(|d| !matches!(d, D::R(s) if s.is_empty()));
    v
}
pub fn dec_dom(default: &str) -> Dom<D> {
    Dom::new(vec![D::new(default)], dec_narrow(), dec_wide())
}
/// Only numbers.
pub fn num_dom(default: &str) -> Dom<D> {
    let f = |v: Vec<D>| v.into_iter().filter(|d| d.is_num()).collect::<Vec<_>>();
    Dom::new(vec![D::new(default)], f(dec_narrow()), f(dec_wide()))
}

/// File names as they stand in a file (no comma; quoted when they contain a space).
pub fn path_dom(default: &str) -> Dom<String> {
    Dom::new(
        vec![default.to_string()],
        ["\"bg.jpg\"", "\"b g.jpg\"", "a\\b.png", "sb/x.png", "背景.jpg", "", "a:b|c.png", "$v.png"]
            .iter()
            .map(|s| s.to_string())
            .collect(),
        [
            ".", "..", "/", "a//b", "./x", "x/", "\"", "\"\"", "a\"b", "0", "-1", "//c", "[a]", "tab\tx", "=", "é",
            "name.with.dots.png", "UPPER.PNG", "_under", "\"q\" x\"", "#", "'q'", "%20", "C:\\x", "~", "noext",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect(),
    )
}

/// Values of a text field of a key-value section.
pub fn text_dom(default: &str) -> Dom<String> {
    Dom::new(
        vec![default.to_string()],
        ["", "a b", "x:y", "é", "日本語 テキスト", "[a]", "//c", "a,b", "trailing ", "0", "{}", "key: value"]
            .iter()
            .map(|s| s.to_string())
            .collect(),
        [
            "\"q\"", "a\tb", "a  b", "::", ":", "- - -", "$v", "_x_", "|", "[General]", "osu file format v14", "1e5",
            "None", "null", "true", "\\n", "\\", "😀", "a\u{301}", "'", "a=b", "Title:x", "%s", "~!@#$%^&*()",
            "\u{3000}wide", "x\u{a0}y", "end\u{3000}", "a]", "[a", "//",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect(),
    )
}

pub fn cached<T: Send + Sync + 'static>(cell: &'static OnceLock<T>, f: impl FnOnce() -> T) -> &'static T {
    cell.get_or_init(f)
}

#[macro_export]
macro_rules! dom {
    ($ty:ty, $e:expr) => {{
        static CELL: std::sync::OnceLock<$crate::engine::Dom<$ty>> = std::sync::OnceLock::new();
        CELL.get_or_init(|| $e)
    }};
}
