//! Observation of a source: header, rows and how it ended, every value as its exact bytes.
use crate::log;
use chopper::chopper::chopper::Source;
use chopper::chopper::types::{FieldValue, Header, Row};
use chopper::error::CliResult;
use crate::val;
use serde_json::{json, Value};
use std::io::{self, Read};

pub fn nums(v: &Value) -> Vec<i64> {
    let a = v.as_array().unwrap().iter();
    a.map(|c| c.as_i64().unwrap()).collect()
}

pub fn bytes(v: &Value) -> Vec<u8> {
    nums(v).iter().map(|&c| c as u8).collect()
}

pub fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap_or_else(|_| panic!("HARNESS: text expected"))
}

/// value of type tag `t` from its big endian bytes
pub fn value(v: &Value) -> FieldValue {
    let b = bytes(&v[1]);
    let int = |n: usize| -> u64 {
        if b.len() != n {
            panic!("HARNESS: {} bytes expected in {}", n, v)
        }
        b.iter().fold(0, |a, &x| a << 8 | x as u64)
    };
    match v[0].as_str().unwrap() {
        "N" => FieldValue::None,
        "Z" => FieldValue::Boolean(int(1) != 0),
        "B" => FieldValue::Byte(int(1) as u8),
        "U" => FieldValue::ByteBuf(b),
        "C" => FieldValue::Char(int(2) as u16),
        "D" => FieldValue::Double(f64::from_bits(int(8))),
        "F" => FieldValue::Float(f32::from_bits(int(4) as u32)),
        "I" => FieldValue::Int(int(4) as i32),
        "J" => FieldValue::Long(int(8) as i64),
        "S" => FieldValue::Short(int(2) as i16),
        "T" => FieldValue::String(text(&v[1])),
        t => panic!("HARNESS: value tag {}", t),
    }
}

pub fn enc(v: &FieldValue) -> Value {
    match v {
        FieldValue::None => json!(["N", []]),
        FieldValue::Boolean(b) => json!(["Z", [*b as u8]]),
        FieldValue::Byte(b) => json!(["B", [b]]),
        FieldValue::ByteBuf(b) => json!(["U", b]),
        FieldValue::Char(c) => json!(["C", c.to_be_bytes()]),
        FieldValue::Double(d) => json!(["D", d.to_bits().to_be_bytes()]),
        FieldValue::Float(f) => json!(["F", f.to_bits().to_be_bytes()]),
        FieldValue::Int(i) => json!(["I", i.to_be_bytes()]),
        FieldValue::Long(i) => json!(["J", i.to_be_bytes()]),
        FieldValue::Short(i) => json!(["S", i.to_be_bytes()]),
        FieldValue::String(s) => json!(["T", s.as_bytes()]),
    }
}

pub fn header(h: &Value) -> Header {
    Header::new(
        h["n"].as_array().unwrap().iter().map(text).collect(),
        h["t"].as_array().unwrap().iter().map(|t| val::typ(t.as_str().unwrap())).collect(),
    )
}

pub fn row(r: &Value) -> Row {
    Row {
        timestamp: bytes(&r["ts"]).iter().fold(0, |a, &x| a << 8 | x as u64),
        field_values: r["v"].as_array().unwrap().iter().map(value).collect(),
    }
}

/// reads the source to its end
pub fn drain(src: CliResult<Box<dyn Source>>) {
    let run = || -> CliResult<()> {
        let mut src = src?;
        let h = src.header().clone();
        let n: Vec<&[u8]> = h.field_names().iter().map(|s| s.as_bytes()).collect();
        let t: Vec<&str> = h.field_types().iter().map(val::typ_tag).collect();
        log::push(json!({"e": "hdr", "n": n, "t": t}));
        while let Some(r) = src.next_row()? {
            let v: Vec<Value> = r.field_values.iter().map(enc).collect();
            log::push(json!({"e": "row", "ts": r.timestamp.to_be_bytes(), "v": v}));
        }
        // the end is the end
        if src.next_row()?.is_some() {
            log::push(json!({"e": "row after the end"}));
        }
        Ok(())
    };
    end(run());
}

pub fn end(r: CliResult<()>) {
    match r {
        Ok(()) => log::push(json!({"e": "end", "r": "ok", "id": ""})),
        Err(e) => log::push(json!({"e": "end", "r": "err", "id": "", "msg": clean(&e.to_string())})),
    }
}

/// messages are for people only: keep them short and plain
pub fn clean(s: &str) -> String {
    s.chars().take(120).map(|c| if c.is_ascii_graphic() { c } else { ' ' }).collect()
}

/// an input that hands out its bytes in the planned pieces; 0 stands for an interrupted read;
/// fails for good once `fail` bytes are read (never if negative)
pub struct Feed {
    pub data: Vec<u8>,
    pub pos: usize,
    pub plan: Vec<i64>,
    pub step: usize,
    pub fail: i64,
}

impl Feed {
    pub fn new(sc: &Value) -> Feed {
        Feed {
            data: bytes(&sc["data"]),
            pos: 0,
            plan: nums(&sc["plan"]),
            step: 0,
            fail: sc["fail"].as_i64().unwrap(),
        }
    }
}

impl Read for Feed {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = match self.plan.len() {
            0 => i64::MAX,
            k => self.plan[self.step % k],
        };
        self.step += 1;
        if n == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "INJ-intr"));
        }
        let mut n = (n as usize).min(buf.len()).min(self.data.len() - self.pos);
        if self.fail >= 0 {
            let left = self.fail as usize - self.pos;
            if left == 0 {
                return Err(crate::inject::io("INJ-feed"));
            }
            n = n.min(left);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
