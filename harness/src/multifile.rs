//! A directory as input, through the real InputFactory; files are opened by a recording
//! transport and parsed by a source factory that makes up the rows of the scenario.
use crate::pipeline::{inj_id, Src};
use crate::{log, val};
use chopper::chopper::chopper::Source;
use chopper::chopper::types::{Header, Row};
use chopper::error::CliResult;
use chopper::input::input_factory::InputFactory;
use chopper::source::source_factory::SourceFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::ChopperBufPreviewer;
use serde_json::{json, Value};
use std::fs;
use std::io::{self, Read};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

#[derive(Clone)]
struct RecTransport;

impl StreamingTransport for RecTransport {
    fn can_open(&self, path: &Path) -> bool {
        path.exists()
    }
    fn open(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        let name: Vec<u8> = path.file_name().unwrap().as_bytes().to_vec();
        log::push(json!({"e": "open", "name": name}));
        Ok(Box::new(fs::File::open(path)?))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "rec"
    }
}

#[derive(Clone)]
struct ScFactory(Value);

impl SourceFactory for ScFactory {
    fn can_create_from_format(&self, _: &String) -> bool {
        true
    }
    fn can_create_from_previewer(&self, _: &ChopperBufPreviewer<Box<dyn Read>>) -> bool {
        true
    }
    fn create_source(
        &mut self,
        previewer: ChopperBufPreviewer<Box<dyn Read>>,
    ) -> CliResult<Box<dyn Source>> {
        let mut s = String::new();
        previewer.get_reader().read_to_string(&mut s)?;
        let id: i64 = s.trim().parse().unwrap();
        let files = self.0["files"].as_array().unwrap();
        let f = files.iter().find(|f| f["id"] == id).unwrap();
        if f["bad"].as_bool().unwrap() {
            return Err(crate::inject::err(format!("INJ-o{}-", id)));
        }
        Ok(Box::new(Quiet(Src {
            id: id as usize,
            header: Header::new(
                f["n"].as_array().unwrap().iter().map(val::name).collect(),
                f["t"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|t| val::typ(t.as_str().unwrap()))
                    .collect(),
            ),
            rows: f["rows"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| Row {
                    timestamp: r["ts"].as_u64().unwrap(),
                    field_values: r["v"].as_array().unwrap().iter().map(val::value).collect(),
                })
                .collect(),
            pos: 0,
            fail_at: f["fail"].as_i64().unwrap(),
        })))
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}

/// the reads of the file's source are not part of the record
struct Quiet(Src);
impl Source for Quiet {
    fn header(&self) -> &Header {
        &self.0.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        if self.0.fail_at == self.0.pos as i64 {
            return Err(crate::inject::err(format!("INJ-f{}-", self.0.id)));
        }
        self.0.pos += 1;
        Ok(self.0.rows.get(self.0.pos - 1).cloned())
    }
}

fn fill(dir: &Path, elsewhere: &Path, files: &Value) {
    for f in files.as_array().unwrap() {
        let name: Vec<u8> = f["name"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| c.as_u64().unwrap() as u8)
            .collect();
        let p = dir.join(std::ffi::OsStr::from_bytes(&name));
        match f["kind"].as_str().unwrap() {
            "file" => fs::write(&p, f["id"].to_string()).unwrap(),
            "dir" => {
                fs::create_dir(&p).unwrap();
                fs::write(p.join("inner.csv"), f["id"].to_string()).unwrap();
            }
            // a file or a directory that is in several places
            "link" | "hard" => {
                let there = elsewhere.join(f["id"].to_string());
                fs::write(&there, f["id"].to_string()).unwrap();
                match f["kind"] == "hard" {
                    true => fs::hard_link(&there, &p).unwrap(),
                    false => std::os::unix::fs::symlink(&there, &p).unwrap(),
                }
            }
            "dirlink" => {
                let there = elsewhere.join(f["id"].to_string());
                fs::create_dir(&there).unwrap();
                fs::write(there.join("inner.csv"), f["id"].to_string()).unwrap();
                std::os::unix::fs::symlink(&there, &p).unwrap();
            }
            k => panic!("HARNESS: file kind {}", k),
        }
    }
}

pub fn run(sc: &Value) -> Value {
    let top = crate::scratch("multi");
    let dir = top.join(sc["dir"].as_str().unwrap());
    let elsewhere = top.join("elsewhere");
    fs::create_dir(&dir).unwrap();
    fs::create_dir(&elsewhere).unwrap();
    fill(&dir, &elsewhere, &sc["files"]);
    // the ways to write its path
    let given = match sc["via"].as_str().unwrap() {
        "slash" => format!("{}/", dir.to_str().unwrap()),
        "dots" => format!("{}/../elsewhere/.././{}", dir.to_str().unwrap(), sc["dir"].as_str().unwrap()),
        "link" => {
            std::os::unix::fs::symlink(&dir, elsewhere.join("here")).unwrap();
            elsewhere.join("here").to_str().unwrap().to_owned()
        }
        _ => dir.to_str().unwrap().to_owned(),
    };
    let run = || -> CliResult<()> {
        let mut factory = InputFactory::new_without_csv(
            Some(vec![Box::new(ScFactory(sc.clone()))]),
            Some(vec![Box::new(RecTransport)]),
        )?;
        let mut src = factory.create_source_from_path(&given)?;
        let h = src.header();
        let n: Vec<Value> = h.field_names().iter().map(|s| val::codes(s)).collect();
        let t: Vec<&str> = h.field_types().iter().map(val::typ_tag).collect();
        log::push(json!({"e": "hdr", "n": n, "t": t}));
        while let Some(r) = src.next_row()? {
            let v: Vec<Value> = r.field_values.iter().map(val::enc).collect();
            log::push(json!({"e": "row", "ts": r.timestamp, "v": v}));
        }
        // the end is the end
        log::push(json!({"e": "end", "r": "ok", "id": ""}));
        if let Some(_) = src.next_row()? {
            log::push(json!({"e": "row", "ts": -1, "v": []}));
        }
        Ok(())
    };
    match run() {
        Ok(()) => log::push(json!({"e": "end", "r": "ok", "id": ""})),
        Err(e) => log::push(json!({"e": "end", "r": "err", "id": inj_id(&e)})),
    }
    fs::remove_dir_all(&top).unwrap();
    Value::Null
}
