//! which reader gets an input, and what it reads.
use crate::log;
use crate::obs;
use crate::pack;
use chopper::chopper::chopper::Source;
use chopper::chopper::types::{FieldType, FieldValue, Header, Row};
use chopper::error::CliResult;
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::source::source_factory::SourceFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::ChopperBufPreviewer;
use serde_json::{json, Value};
use std::fs;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::process::{Command, Stdio};

/// hands out pieces of at most k bytes
struct Pieces {
    data: Vec<u8>,
    at: usize,
    k: usize,
}

impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.at).min(self.k);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

#[derive(Clone)]
struct Transport {
    prefix: Vec<u8>,
    fail: bool,
    data: Vec<u8>,
    k: usize,
}

impl StreamingTransport for Transport {
    fn can_open(&self, path: &Path) -> bool {
        path.to_str().unwrap().as_bytes().starts_with(&self.prefix)
    }
    fn open(&self, _: &Path) -> io::Result<Box<dyn io::Read>> {
        if self.fail {
            return Err(crate::inject::io("transport says no"));
        }
        Ok(Box::new(Pieces { data: self.data.clone(), at: 0, k: self.k }))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "test"
    }
}

#[derive(Clone)]
struct Factory {
    k: usize,
    suffix: Vec<u8>,
    magic: Vec<u8>,
    any: bool,
    fail: bool,
}

struct Digest {
    header: Header,
    row: Option<Row>,
}

impl Source for Digest {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        Ok(self.row.take())
    }
}

fn fnv(b: &[u8]) -> String {
    let h = b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
    format!("{:016x}", h)
}

impl SourceFactory for Factory {
    fn can_create_from_format(&self, format: &String) -> bool {
        !self.suffix.is_empty() && format.as_bytes().ends_with(&self.suffix)
    }
    fn can_create_from_previewer(&self, previewer: &ChopperBufPreviewer<Box<dyn Read>>) -> bool {
        self.any || (!self.magic.is_empty() && previewer.get_buf().starts_with(&self.magic))
    }
    fn create_source(&mut self, previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Box<dyn Source>> {
        if self.fail {
            return Err(crate::inject::err("reader says no".to_string()));
        }
        let mut b = Vec::new();
        previewer.get_reader().read_to_end(&mut b)?;
        let header = Header::new(vec![format!("user{}", self.k)], vec![FieldType::String]);
        let row = Row { timestamp: 1, field_values: vec![FieldValue::String(fnv(&b))] };
        Ok(Box::new(Digest { header, row: Some(row) }))
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}

fn observe(src: CliResult<Box<dyn Source>>) -> CliResult<(String, Vec<String>)> {
    let mut src = src?;
    let known = |n: &&String| ["dcol", "ccol"].contains(&n.as_str()) || n.starts_with("user");
    let names = src.header().field_names().clone();
    let col = names.iter().position(|n| known(&n)).unwrap_or(0);
    let name = names.get(col).cloned().unwrap_or_default();
    let mut pay = Vec::new();
    while let Some(r) = src.next_row()? {
        pay.push(match r.field_values.get(col) {
            Some(FieldValue::String(s)) => s.clone(),
            Some(FieldValue::Int(i)) => i.to_string(),
            _ => String::new(),
        });
    }
    let by = match name.as_str() {
        "dcol" => "dc",
        // contents that are legible through their packing have not been unpacked
        "ccol" if !["ZV", "LZ4B", "PK", "\u{4}\"M"].iter().any(|s| names[0].starts_with(s)) => "csv",
        x if x.starts_with("user") => x,
        _ => return Ok(("other".to_owned(), Vec::new())),
    };
    Ok((by.to_owned(), pay))
}

/// files[i]: contents of input i; path None: its standard input
pub fn inner(sc: &Value, paths: &[Option<String>]) {
    let setup = &sc["setup"];
    let list = |v: &Value| v.as_array().unwrap().clone();
    let users: Vec<Box<dyn SourceFactory>> = list(&setup["users"])
        .iter()
        .enumerate()
        .map(|(k, u)| {
            Box::new(Factory {
                k: k + 1,
                suffix: obs::bytes(&u["suffix"]),
                magic: obs::bytes(&u["magic"]),
                any: u["any"].as_bool().unwrap(),
                fail: u["fail"].as_bool().unwrap(),
            }) as Box<dyn SourceFactory>
        })
        .collect();
    let trans: Vec<Box<dyn StreamingTransport>> = list(&setup["trans"])
        .iter()
        .map(|t| {
            Box::new(Transport {
                prefix: obs::bytes(&t["prefix"]),
                fail: t["fail"].as_bool().unwrap(),
                data: pack::hex(t["file"].as_str().unwrap()),
                k: t["piece"].as_u64().unwrap() as usize,
            }) as Box<dyn StreamingTransport>
        })
        .collect();
    let users = if users.is_empty() && sc["none"].as_bool().unwrap() { None } else { Some(users) };
    let trans = if trans.is_empty() && sc["none"].as_bool().unwrap() { None } else { Some(trans) };
    let mut factory = if setup["csv"].as_bool().unwrap() {
        InputFactory::new(pack::config().unwrap(), users, trans).unwrap()
    } else {
        InputFactory::new_without_csv(users, trans).unwrap()
    };
    for (i, n) in list(&sc["inputs"]).iter().enumerate() {
        let res = catch_unwind(AssertUnwindSafe(|| {
            let source = match &paths[i] {
                Some(p) if sc["plain"].as_bool().unwrap() && n["auto"].as_bool().unwrap() => factory.create_source_from_path(p),
                p => factory.create_source_from_input(&Input {
                    input: match p {
                        Some(p) => InputType::Path(p.clone()),
                        None => InputType::StdIn,
                    },
                    format: if n["auto"].as_bool().unwrap() { InputFormat::Auto } else { InputFormat::Extension(obs::text(&n["fmt"])) },
                }),
            };
            observe(source)
        }));
        log::push(match res {
            Ok(Ok((by, pay))) => json!({"e": "det", "i": i + 1, "r": "ok", "by": by, "pay": pay}),
            Ok(Err(e)) => json!({"e": "det", "i": i + 1, "r": "err", "by": "", "pay": [], "msg": obs::clean(&e.to_string())}),
            Err(_) => {
                let msg = log::take_panic();
                if msg.contains("HARNESS") {
                    panic!("{}", msg);
                }
                json!({"e": "det", "i": i + 1, "r": "panic", "by": "", "pay": [], "msg": msg})
            }
        });
    }
}

pub fn run(sc: &Value) -> Value {
    let dir = crate::scratch("det");
    let inputs = sc["inputs"].as_array().unwrap();
    let mut paths = Vec::new();
    for (i, n) in inputs.iter().enumerate() {
        let path = obs::text(&n["path"]);
        if n["stdin"].as_bool().unwrap() {
            paths.push(None);
        } else if n["exists"].as_bool().unwrap() {
            // virtual paths of other inputs must not be in the way
            let d = dir.join(i.to_string());
            fs::create_dir_all(&d).unwrap();
            let p = d.join(&path);
            fs::write(&p, pack::hex(n["file"].as_str().unwrap())).unwrap();
            for m in n["more"].as_array().unwrap() {
                fs::write(d.join(obs::text(&m["path"])), pack::hex(m["file"].as_str().unwrap())).unwrap();
            }
            let given = if n["dir"].as_bool().unwrap() { d } else { p };
            paths.push(Some(given.to_str().unwrap().to_owned()));
        } else {
            paths.push(Some(path));
        }
    }
    if inputs.iter().any(|n| n["stdin"].as_bool().unwrap()) {
        // a process of its own, with the first input on its standard input
        let data = pack::hex(inputs[0]["file"].as_str().unwrap());
        let pipe = sc["pipe"].as_u64().unwrap() as usize;
        let f = dir.join("stdin");
        fs::write(&f, &data).unwrap();
        fs::write(dir.join("sc.json"), sc.to_string()).unwrap();
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("stdin").arg(dir.join("sc.json")).stdout(Stdio::piped()).current_dir(&dir);
        c.stdin(if pipe > 0 { Stdio::piped() } else { Stdio::from(fs::File::open(&f).unwrap()) });
        let mut child = c.spawn().unwrap();
        if pipe > 0 {
            let mut w = child.stdin.take().unwrap();
            for p in data.chunks(pipe) {
                // the reader may have given up
                if w.write_all(p).is_err() {
                    break;
                }
            }
        }
        let o = child.wait_with_output().unwrap();
        if o.status.code() == Some(3) {
            panic!("HARNESS: child failed");
        }
        match serde_json::from_slice::<Value>(&o.stdout) {
            Ok(v) => v.as_array().unwrap().iter().for_each(|e| log::push(e.clone())),
            Err(_) => log::push(json!({"e": "det", "i": 1, "r": "exit", "by": "", "pay": [], "msg": format!("{:?}", o.status)})),
        }
    } else {
        inner(sc, &paths);
    }
    fs::remove_dir_all(&dir).unwrap();
    obs::end(Ok(()));
    Value::Null
}
