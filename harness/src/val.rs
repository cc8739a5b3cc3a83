//! Mapping between chopper values and the specification's values <<tag, rank, ident>>.
//! Equality of two values of one tag is equality of rank, order is order of rank;
//! ident tells apart values that compare equal (zero and minus zero).
use chopper::chopper::types::{FieldType, FieldValue};
use serde_json::{json, Value};

const BIG: i64 = 2_000_000_000;
const NAN: i64 = 1_999_999_999;
const INF: i64 = 1_000_000_000;

/// strings in ascending (byte-wise) order; the rank of a string is its index
pub const STRINGS: [&str; 18] = [
    "", "\0", " ", "0", "10", "9", "A", "B", "a", "a\0", "a ", "aa",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa0",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1",
    "b", "e\u{301}", "\u{e9}t\u{e9}", "\u{20ac},\"\n",
];

/// floating point numbers that are hard to tell apart, at ranks between those of others
const DOUBLES: [(i64, f64); 12] = [
    (1, 5e-324), (2, 1e-20), (3, 3e-20), (4, 1e-17), (600, 0.3), (601, 0.30000000000000004),
    (1999, 0.9999999999999999), (2000, 1.0), (2001, 1.0000000000000002),
    (500_000_000, 9007199254740992.0), (500_000_001, 9007199254740994.0), (999_999_999, f64::MAX),
];
const FLOATS: [(i64, f32); 12] = [
    (1, 1e-45), (2, 1e-20), (3, 3e-20), (4, 1e-17), (600, 0.3), (601, 0.30000004),
    (1999, 0.99999994), (2000, 1.0), (2001, 1.0000001),
    (500_000_000, 16777216.0), (500_000_001, 16777218.0), (999_999_999, f32::MAX),
];
/// and so are these
const LONGS: [(i64, i64); 6] = [
    (1_900_000_000, 9007199254740992), (1_900_000_001, 9007199254740993), (1_999_999_999, i64::MAX - 1),
    (-1_900_000_000, -9007199254740992), (-1_900_000_001, -9007199254740993), (-1_999_999_999, i64::MIN + 1),
];

pub fn typ(s: &str) -> FieldType {
    match s {
        "Z" => FieldType::Boolean,
        "B" => FieldType::Byte,
        "U" => FieldType::ByteBuf,
        "C" => FieldType::Char,
        "D" => FieldType::Double,
        "F" => FieldType::Float,
        "I" => FieldType::Int,
        "J" => FieldType::Long,
        "S" => FieldType::Short,
        "T" => FieldType::String,
        _ => panic!("HARNESS: type {}", s),
    }
}

pub fn typ_tag(t: &FieldType) -> &'static str {
    match t {
        FieldType::Boolean => "Z",
        FieldType::Byte => "B",
        FieldType::ByteBuf => "U",
        FieldType::Char => "C",
        FieldType::Double => "D",
        FieldType::Float => "F",
        FieldType::Int => "I",
        FieldType::Long => "J",
        FieldType::Short => "S",
        FieldType::String => "T",
    }
}

fn float(rank: i64, ident: i64, table: &[(i64, f64)]) -> f64 {
    match rank {
        NAN => f64::NAN,
        INF => f64::INFINITY,
        r if r == -INF => f64::NEG_INFINITY,
        0 if ident == 1 => -0.0,
        r => match table.iter().find(|x| x.0 == r.abs()) {
            Some(x) => x.1 * r.signum() as f64,
            // exact, and between 0.0001 and 200000
            None => r as f64 / 2048.0,
        },
    }
}

fn float_rank(x: f64, table: &[(i64, f64)]) -> (i64, i64) {
    if x.is_nan() {
        (NAN, 0)
    } else if x == f64::INFINITY {
        (INF, 0)
    } else if x == f64::NEG_INFINITY {
        (-INF, 0)
    } else if x == 0.0 && x.is_sign_negative() {
        (0, 1)
    } else if let Some(t) = table.iter().find(|t| t.1 == x.abs()) {
        (t.0 * x.signum() as i64, 0)
    } else {
        ((x * 2048.0) as i64, 0)
    }
}

fn floats() -> Vec<(i64, f64)> {
    FLOATS.iter().map(|&(r, x)| (r, x as f64)).collect()
}

pub fn value(v: &Value) -> FieldValue {
    let tag = v[0].as_str().unwrap();
    let r = v[1].as_i64().unwrap();
    let id = v[2].as_i64().unwrap();
    match tag {
        "N" => FieldValue::None,
        "Z" => FieldValue::Boolean(r != 0),
        "B" => FieldValue::Byte(r as u8),
        "U" => FieldValue::ByteBuf(vec![r as u8; 3]),
        "C" => FieldValue::Char(r as u16),
        "D" => FieldValue::Double(float(r, id, &DOUBLES)),
        "F" => FieldValue::Float(float(r, id, &floats()) as f32),
        "I" => FieldValue::Int(match r {
            BIG => i32::MAX,
            r if r == -BIG => i32::MIN,
            r => r as i32,
        }),
        "J" => FieldValue::Long(match r {
            BIG => i64::MAX,
            r if r == -BIG => i64::MIN,
            r => LONGS.iter().find(|x| x.0 == r).map_or(r, |x| x.1),
        }),
        "S" => FieldValue::Short(r as i16),
        "T" => FieldValue::String(STRINGS[r as usize].to_string()),
        _ => panic!("HARNESS: value tag {}", tag),
    }
}

pub fn enc(v: &FieldValue) -> Value {
    match v {
        FieldValue::None => json!(["N", 0, 0]),
        FieldValue::Boolean(b) => json!(["Z", *b as i64, 0]),
        FieldValue::Byte(b) => json!(["B", b, 0]),
        FieldValue::ByteBuf(b) => json!(["U", b.get(0).copied().unwrap_or(0), 0]),
        FieldValue::Char(c) => json!(["C", c, 0]),
        FieldValue::Double(d) => {
            let (r, i) = float_rank(*d, &DOUBLES);
            json!(["D", r, i])
        }
        FieldValue::Float(f) => {
            let (r, i) = float_rank(*f as f64, &floats());
            json!(["F", r, i])
        }
        FieldValue::Int(i) => json!(["I", match *i {
            i32::MAX => BIG,
            i32::MIN => -BIG,
            i => i as i64,
        }, 0]),
        FieldValue::Long(i) => json!(["J", match *i {
            i64::MAX => BIG,
            i64::MIN => -BIG,
            i if i.abs() > 1_000_000_000 => LONGS.iter().find(|x| x.1 == i).map_or(1_500_000_000, |x| x.0),
            i => i,
        }, 0]),
        FieldValue::Short(i) => json!(["S", i, 0]),
        FieldValue::String(s) => match STRINGS.iter().position(|x| x == s) {
            Some(i) => json!(["T", i, 0]),
            None => json!(["T", 999, 0]),
        },
    }
}

/// names travel as sequences of character codes
pub fn name(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}

pub fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
