//! packaged inputs: what the real code reads from files of any name, cut off or damaged.
use crate::log;
use crate::obs;
use crate::val;
use chopper::chopper::chopper::Source;
use chopper::cli::util::YesNoAuto;
use chopper::error::CliResult;
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::source::csv_configs::{
    CSVInputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig,
};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::fs;
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn hex(s: &str) -> Vec<u8> {
    let d = |c: u8| (c as char).to_digit(16).unwrap_or_else(|| panic!("HARNESS: hex")) as u8;
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

pub fn config() -> CliResult<CSVInputConfig> {
    let ts = TimestampConfig::new(
        TimestampColConfig::Index(0),
        TimestampFmtConfig::Epoch(TimestampUnits::Nanos),
        ChopperTz::new_always_fails(),
    );
    CSVInputConfig::new(Some(","), YesNoAuto::Yes, ts)
}

/// reads everything: number of rows and a digest of header and rows
pub fn digest(src: CliResult<Box<dyn Source>>) -> CliResult<(usize, String)> {
    let mut src = src?;
    let mut h = DefaultHasher::new();
    let head = src.header();
    for (n, t) in head.field_names().iter().zip(head.field_types()) {
        h.write(n.as_bytes());
        h.write_u8(0xff);
        h.write(val::typ_tag(t).as_bytes());
    }
    let mut n = 0;
    while let Some(r) = src.next_row()? {
        h.write_u64(r.timestamp);
        for v in &r.field_values {
            h.write(obs::enc(v).to_string().as_bytes());
        }
        h.write_u8(0xfe);
        n += 1;
    }
    Ok((n, format!("{:016x}", h.finish())))
}

pub fn run(sc: &Value) -> Value {
    let base: Vec<Vec<u8>> = sc["base"].as_array().unwrap().iter().map(|b| hex(b.as_str().unwrap())).collect();
    let dir = crate::scratch("pack");
    for (i, r) in sc["reads"].as_array().unwrap().iter().enumerate() {
        if i % 50 == 49 {
            log::beat();
        }
        let mut data = base[r["b"].as_u64().unwrap() as usize].clone();
        let cut = r["cut"].as_i64().unwrap();
        if cut >= 0 {
            data.truncate(cut as usize);
        }
        let xor = r["xor"].as_u64().unwrap() as u8;
        if xor != 0 {
            data[r["at"].as_u64().unwrap() as usize] ^= xor;
        }
        // bytes that replace those of the input
        let over = hex(r["over"].as_str().unwrap());
        let at = r["at"].as_u64().unwrap() as usize;
        for (i, b) in over.iter().enumerate().filter(|(i, _)| at + i < base[1].len()) {
            data[at + i] = *b;
        }
        let path = dir.join(r["name"].as_str().unwrap());
        fs::write(&path, data).unwrap();
        let format = match r["fmt"].as_str().unwrap() {
            "" => InputFormat::Auto,
            f => InputFormat::Extension(f.to_string()),
        };
        let input = Input { input: InputType::Path(path.to_str().unwrap().to_string()), format };
        let res = catch_unwind(AssertUnwindSafe(|| {
            digest((|| InputFactory::new(config()?, None, None)?.create_source_from_input(&input))())
        }));
        let e = match res {
            Ok(Ok((n, d))) => json!({"e": "read", "i": i + 1, "r": "ok", "n": n, "d": d}),
            Ok(Err(e)) => json!({"e": "read", "i": i + 1, "r": "err", "n": 0, "d": "", "msg": obs::clean(&e.to_string())}),
            Err(_) => {
                let msg = log::take_panic();
                if msg.contains("HARNESS") {
                    panic!("{}", msg);
                }
                json!({"e": "read", "i": i + 1, "r": "panic", "n": 0, "d": "", "msg": msg})
            }
        };
        log::push(e);
        fs::remove_file(&path).unwrap();
    }
    fs::remove_dir_all(&dir).unwrap();
    obs::end(Ok(()));
    Value::Null
}
