//! csv output: the real sink, fed row by row.
use crate::csvin;
use crate::log;
use crate::val;
use chopper::chopper::types::{FieldValue, Header, Row};
use chopper::error::CliResult;
use chopper::source::csv_configs::{CSVOutputConfig, TimestampStyle};
use chopper::write::{csv_sink::CSVSink, factory};
use chopper::chopper::chopper::HeaderSink;
use serde_json::{json, Value};
use std::fs;

pub fn text(v: &Value) -> String {
    String::from_utf8(csvin::raw(v)).unwrap_or_else(|_| panic!("HARNESS: text"))
}

fn digits(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|d| char::from(b'0' + d.as_u64().unwrap() as u8)).collect()
}

fn int<T: std::str::FromStr>(v: &Value) -> T {
    let s = if v["neg"].as_bool().unwrap() { "-" } else { "" }.to_string() + &digits(&v["d"]);
    s.parse().unwrap_or_else(|_| panic!("HARNESS: number {}", s))
}

fn bits(v: &Value) -> u64 {
    u64::from_str_radix(v["bits"].as_str().unwrap(), 16).unwrap_or_else(|_| panic!("HARNESS: bits"))
}

fn value(v: &Value) -> FieldValue {
    match v["k"].as_str().unwrap() {
        "N" => FieldValue::None,
        "Z" => FieldValue::Boolean(true),
        "U" => FieldValue::ByteBuf(vec![49, 50]),
        "B" => FieldValue::Byte(int(v)),
        "C" => FieldValue::Char(int(v)),
        "S" => FieldValue::Short(int(v)),
        "I" => FieldValue::Int(int(v)),
        "J" => FieldValue::Long(int(v)),
        "D" => FieldValue::Double(f64::from_bits(bits(v))),
        "F" => FieldValue::Float(f32::from_bits(bits(v) as u32)),
        "T" => FieldValue::String(text(&v["t"])),
        k => panic!("HARNESS: kind {}", k),
    }
}

fn outcome(r: CliResult<()>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(_) => "err",
    }
}

pub fn config(c: &Value) -> CSVOutputConfig {
    CSVOutputConfig::new(
        &text(&c["delim"]),
        c["print"].as_bool().unwrap(),
        c["name"].as_array().unwrap().get(0).map(text),
        match c["style"].as_str().unwrap() {
            "epoch" => TimestampStyle::Epoch,
            "human" => TimestampStyle::HumanReadable,
            s => panic!("HARNESS: style {}", s),
        },
        csvin::units(&c["unit"]),
        csvin::zone(&c["zone"]),
    )
}

pub fn row(r: &Value) -> Row {
    let ts = digits(&r["ts"]).parse().unwrap_or_else(|_| panic!("HARNESS: time"));
    Row { timestamp: ts, field_values: r["v"].as_array().unwrap().iter().map(value).collect() }
}

pub fn run(sc: &Value) -> Value {
    let dir = crate::scratch("csvout");
    let path = dir.join(sc["file"].as_str().unwrap()).to_str().unwrap().to_string();
    crate::older(sc, &path);
    let cfg = config(&sc["cfg"]);
    let sink: CliResult<Box<dyn HeaderSink>> = match sc["via"].as_str().unwrap() {
        "sink" => CSVSink::new(&Some(path.clone()), cfg).map(|s| Box::new(s) as Box<dyn HeaderSink>),
        "factory" => factory::new_header_sink(Some(&path), Some(cfg)),
        "default" => factory::new_header_sink(Some(&path), None),
        v => panic!("HARNESS: via {}", v),
    };
    let names: Vec<String> = sc["names"].as_array().unwrap().iter().map(text).collect();
    let types = sc["types"].as_array().unwrap().iter().map(|t| val::typ(t.as_str().unwrap())).collect();
    let mut head = Header::new(names, types);
    let sink = sink.and_then(|s| s.process_header(&mut head));
    log::push(json!({"e": "open", "r": if sink.is_ok() { "ok" } else { "err" }}));
    if let Ok(mut sink) = sink {
        let mut failed = false;
        for (i, r) in sc["rows"].as_array().unwrap().iter().enumerate() {
            let x = outcome(sink.write_row(&mut vec![row(r)]));
            log::push(json!({"e": "row", "i": i + 1, "r": x}));
            if x == "err" {
                failed = true;
                break;
            }
        }
        if !failed {
            log::push(json!({"e": "flush", "r": outcome(sink.flush())}));
        }
        drop(sink);
        let t = fs::read(&path).unwrap_or_default();
        log::push(json!({"e": "file", "t": match std::str::from_utf8(&t) {
            Ok(s) => val::codes(s),
            Err(_) => json!([0]),
        }}));
    }
    fs::remove_dir_all(&dir).unwrap();
    Value::Null
}
