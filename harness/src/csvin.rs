//! csv inputs: the real source on real text.
use crate::log;
use crate::obs;
use chopper::chopper::chopper::Source;
use chopper::chopper::types::FieldValue;
use chopper::cli::util::YesNoAuto;
use chopper::error::{CliResult, Error};
use chopper::input::input_factory::InputFactory;
use chopper::source::csv_configs::{
    CSVInputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig,
};
use chopper::source::csv_source::CSVSource;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::reader::ChopperBufPreviewer;
use chopper::util::tz::ChopperTz;
use crate::val;
use serde_json::{json, Value};
use std::fs;
use std::io::Read;

pub fn zone(v: &Value) -> ChopperTz {
    let name = match v.as_str().unwrap() {
        "none" => return ChopperTz::new_always_fails(),
        "UTC" => "UTC",
        "Tokyo" => "Asia/Tokyo",
        "Kolkata" => "Asia/Kolkata",
        "GMTp5" => "Etc/GMT+5",
        "NewYork" => "America/New_York",
        "London" => "Europe/London",
        "Sydney" => "Australia/Sydney",
        "LordHowe" => "Australia/Lord_Howe",
        "Azores" => "Atlantic/Azores",
        "Beirut" => "Asia/Beirut",
        "Berlin" => "Europe/Berlin",
        z => panic!("HARNESS: zone {}", z),
    };
    ChopperTz::new_from_cli_arg(Some(name), None).unwrap_or_else(|_| panic!("zone refused"))
}

/// text whose codes from 2000000 on are single bytes
pub fn raw(v: &Value) -> Vec<u8> {
    let mut b = vec![];
    for c in obs::nums(v) {
        if c >= 2_000_000 {
            b.push((c - 2_000_000) as u8);
        } else {
            let c = char::from_u32(c as u32).unwrap_or_else(|| panic!("HARNESS: char"));
            b.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
    }
    b
}

pub fn units(v: &Value) -> TimestampUnits {
    match v.as_str().unwrap() {
        "s" => TimestampUnits::Seconds,
        "ms" => TimestampUnits::Millis,
        "us" => TimestampUnits::Micros,
        "ns" => TimestampUnits::Nanos,
        u => panic!("HARNESS: unit {}", u),
    }
}

pub fn config(sc: &Value) -> CliResult<CSVInputConfig> {
    let idx = |v: &Value| v.as_u64().unwrap() as usize;
    let c = &sc["col"];
    let col = match c[0].as_str().unwrap() {
        "auto" => TimestampColConfig::Auto,
        "index" => TimestampColConfig::Index(idx(&c[1])),
        "dtindex" => TimestampColConfig::DateTimeIndex(idx(&c[1]), idx(&c[2])),
        "name" => TimestampColConfig::Name(val::name(&c[1])),
        "dtname" => TimestampColConfig::DateTimeName(val::name(&c[1]), val::name(&c[2])),
        k => panic!("HARNESS: col {}", k),
    };
    let f = &sc["fmt"];
    let fmt = match f[0].as_str().unwrap() {
        "auto" => TimestampFmtConfig::Auto,
        "epoch" => TimestampFmtConfig::Epoch(units(&f[1])),
        "explicit" => TimestampFmtConfig::Explicit(val::name(&f[1])),
        "dt" => TimestampFmtConfig::DateTimeExplicit(val::name(&f[1]), val::name(&f[2])),
        k => panic!("HARNESS: fmt {}", k),
    };
    let header = match sc["header"].as_str().unwrap() {
        "yes" => YesNoAuto::Yes,
        "no" => YesNoAuto::No,
        _ => YesNoAuto::Auto,
    };
    let delim = match sc["delim"].as_i64().unwrap() {
        -1 => None,
        9 => Some("\\t".to_string()),
        c => Some((c as u8 as char).to_string()),
    };
    let ts = TimestampConfig::new(col, fmt, zone(&sc["zone"]));
    CSVInputConfig::new(delim.as_deref(), header, ts)
}

/// time as decimal digits of the nanoseconds, and as day, second of the day and nanosecond
pub fn time(ts: u64) -> (Value, Value) {
    let td: Vec<u8> = ts.to_string().bytes().map(|b| b - 48).collect();
    let day = 86_400_000_000_000;
    (
        json!(td),
        json!([ts / day, ts % day / 1_000_000_000, ts % 1_000_000_000]),
    )
}

pub fn drain(src: CliResult<Box<dyn Source>>) {
    let run = || -> CliResult<()> {
        let mut src = src?;
        let n: Vec<Value> = src.header().field_names().iter().map(|s| val::codes(s)).collect();
        if src.header().field_types().len() != n.len() || src.header().field_types().iter().any(|t| val::typ_tag(t) != "T") {
            log::push(json!({"e": "odd types"}));
        }
        log::push(json!({"e": "hdr", "n": n}));
        while let Some(r) = src.next_row()? {
            let v: Vec<Value> = r
                .field_values
                .iter()
                .map(|v| match v {
                    FieldValue::None => json!(["N", []]),
                    FieldValue::String(s) => json!(["T", val::codes(s)]),
                    _ => json!(["?", []]),
                })
                .collect();
            let (td, ti) = time(r.timestamp);
            log::push(json!({"e": "row", "td": td, "ti": ti, "v": v}));
        }
        if src.next_row()?.is_some() {
            log::push(json!({"e": "row after the end"}));
        }
        Ok(())
    };
    obs::end(run());
}

pub fn run(sc: &Value) -> Value {
    let data = raw(&sc["text"]);
    let cfg = config(sc);
    match sc["via"].as_str().unwrap() {
        "file" => {
            let dir = crate::scratch("csv");
            let path = dir.join("x.csv");
            fs::write(&path, data).unwrap();
            drain((|| {
                InputFactory::new(cfg?, None, None)?.create_source_from_path(path.to_str().unwrap())
            })());
            fs::remove_dir_all(&dir).unwrap();
        }
        "feed" => drain((|| {
            let feed = obs::Feed {
                data,
                pos: 0,
                plan: obs::nums(&sc["plan"]),
                step: 0,
                fail: -1,
            };
            let inner: Box<dyn Read> = Box::new(feed);
            let p = ChopperBufPreviewer::new(inner).map_err(Error::from)?;
            let s: Box<dyn Source> = Box::new(CSVSource::new(p, &cfg?)?);
            Ok(s)
        })()),
        v => panic!("HARNESS: via {}", v),
    }
    Value::Null
}

/// a begin or end time
pub fn range(sc: &Value) -> Value {
    let text = String::from_utf8(raw(&sc["text"])).unwrap_or_else(|_| panic!("HARNESS: text"));
    obs::end((|| {
        let t = chopper::util::timestamp_util::parse_datetime_range_element(&text, &zone(&sc["zone"]))?;
        let (td, ti) = time(t);
        log::push(json!({"e": "time", "td": td, "ti": ti}));
        Ok(())
    })());
    Value::Null
}
