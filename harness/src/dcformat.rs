//! The binary format: the real sink and the real source.
use crate::log;
use crate::obs;
use chopper::chopper::chopper::{HeaderSink, Source};
use chopper::error::CliResult;
use chopper::input::input_factory::InputFactory;
use chopper::source::dc_source::DCSource;
use chopper::write::dc_sink::DCSink;
use serde_json::{json, Value};
use std::fs;

fn read_file(path: &str) -> CliResult<Box<dyn Source>> {
    InputFactory::new_without_csv(None, None)?.create_source_from_path(path)
}

/// write with the sink, then read back
pub fn write(sc: &Value) -> Value {
    let dir = crate::scratch("dc");
    let path = dir.join(sc["name"].as_str().unwrap());
    let path = path.to_str().unwrap().to_string();
    crate::older(sc, &path);
    let run = || -> CliResult<()> {
        let sink: Box<dyn HeaderSink> = Box::new(DCSink::new(&Some(path.clone()))?);
        let mut data = sink.process_header(&mut obs::header(&sc["h"]))?;
        let mut rows = vec![];
        for (k, r) in sc["rows"].as_array().unwrap().iter().enumerate() {
            rows.clear();
            rows.push(obs::row(r));
            data.write_row(&mut rows)?;
            if sc["flush"].as_i64().unwrap() == k as i64 {
                data.flush()?;
            }
        }
        data.flush()?;
        // what counts is what is there after the flush
        let b = fs::read(&path)?;
        log::push(json!({"e": "file", "b": b}));
        Ok(())
    };
    match run() {
        Ok(()) => obs::drain(read_file(&path)),
        Err(e) => {
            log::push(json!({"e": "werr", "msg": obs::clean(&e.to_string())}));
            log::push(json!({"e": "end", "r": "ok", "id": ""}));
        }
    }
    fs::remove_dir_all(&dir).unwrap();
    Value::Null
}

/// read the given bytes, from an input that may fail, or from a file
pub fn read(sc: &Value) -> Value {
    match sc["via"].as_str().unwrap() {
        "feed" => obs::drain(
            DCSource::new(obs::Feed::new(sc)).map(|s| -> Box<dyn Source> { Box::new(s) }),
        ),
        "file" => {
            let dir = crate::scratch("dc");
            let path = dir.join("x.dc");
            fs::write(&path, obs::bytes(&sc["data"])).unwrap();
            obs::drain(read_file(path.to_str().unwrap()));
            fs::remove_dir_all(&dir).unwrap();
        }
        v => panic!("HARNESS: via {}", v),
    }
    Value::Null
}
