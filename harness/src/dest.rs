//! The real csv and binary outputs with destinations that take only so many bytes.
use crate::pipeline::Src;
use crate::{csvout, log, val};
use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{Header, Row, TIMESTAMP_RANGE_ALL};
use chopper::driver::driver::Driver;
use chopper::error::CliResult;
use chopper::write::factory;
use serde_json::{json, Value};
use std::fs;
use std::os::unix::fs::OpenOptionsExt;

#[repr(C)]
struct Limit {
    soft: u64,
    hard: u64,
}
extern "C" {
    fn getrlimit(what: i32, l: *mut Limit) -> i32;
    fn setrlimit(what: i32, l: *const Limit) -> i32;
    fn signal(n: i32, h: usize) -> usize;
    fn mkfifo(path: *const std::os::raw::c_char, mode: u32) -> i32;
}
const FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const IGNORE: usize = 1;
const NONBLOCK: i32 = 0o4000;

/// as long as this lives no file of this process grows beyond a size
struct Cap(u64);
impl Cap {
    fn new(cap: i64) -> Cap {
        let mut l = Limit { soft: 0, hard: 0 };
        unsafe {
            signal(SIGXFSZ, IGNORE);
            assert_eq!(getrlimit(FSIZE, &mut l), 0, "HARNESS: getrlimit");
        }
        let old = l.soft;
        if cap >= 0 {
            l.soft = cap as u64;
            assert_eq!(unsafe { setrlimit(FSIZE, &l) }, 0, "HARNESS: setrlimit");
        }
        Cap(old)
    }
}
impl Drop for Cap {
    fn drop(&mut self) {
        let mut l = Limit { soft: 0, hard: 0 };
        unsafe {
            getrlimit(FSIZE, &mut l);
            l.soft = self.0;
            setrlimit(FSIZE, &l);
        }
    }
}

struct Obs<T: ?Sized> {
    s: usize,
    path: String,
    n: usize,
    full: bool,
    inner: Box<T>,
}

fn ok<T>(r: &CliResult<T>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(_) => "err",
    }
}

fn there(path: &str, full: bool) -> Vec<u8> {
    match full {
        true => vec![],
        false => fs::read(path).unwrap_or_default(),
    }
}

impl HeaderSink for Obs<dyn HeaderSink> {
    fn process_header(self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
        let r = self.inner.process_header(header);
        log::push(json!({"e": "open", "s": self.s, "r": ok(&r)}));
        Ok(Box::new(Obs { s: self.s, path: self.path, n: 0, full: self.full, inner: r? }))
    }
}

impl DataSink for Obs<dyn DataSink> {
    fn write_row(&mut self, io_rows: &mut Vec<Row>) -> CliResult<()> {
        let r = self.inner.write_row(io_rows);
        self.n += 1;
        log::push(json!({"e": "row", "s": self.s, "i": self.n, "r": ok(&r)}));
        r
    }
    fn flush(&mut self) -> CliResult<()> {
        let r = self.inner.flush();
        log::push(json!({"e": "flush", "s": self.s, "r": ok(&r), "b": there(&self.path, self.full)}));
        r
    }
    fn boxed(self) -> Box<dyn DataSink> {
        panic!("HARNESS: boxed")
    }
}

pub fn run(sc: &Value) -> Value {
    let dir = crate::scratch("dest");
    let mut paths = vec![];
    let mut sinks: Vec<CliResult<Box<dyn HeaderSink>>> = vec![];
    for (i, k) in sc["sinks"].as_array().unwrap().iter().enumerate() {
        let fmt = k["fmt"].as_str().unwrap();
        let path = dir.join(format!("{}.{}", i, fmt)).to_str().unwrap().to_string();
        let to = k["to"].as_str().unwrap();
        let full = to != "file";
        if !full {
            crate::older(sc, &path);
        }
        if to == "full" {
            std::os::unix::fs::symlink("/dev/full", &path).unwrap();
        }
        // a pipe whose reader is gone before anything is written
        let mut reader = None;
        if to == "pipe" {
            let p = std::ffi::CString::new(path.as_str()).unwrap();
            assert_eq!(unsafe { mkfifo(p.as_ptr(), 0o600) }, 0, "HARNESS: mkfifo");
            reader = Some(fs::OpenOptions::new().read(true).custom_flags(NONBLOCK).open(&path).unwrap());
        }
        let cap = Cap::new(sc["cap"].as_i64().unwrap());
        let cfg = if fmt == "csv" { Some(csvout::config(&k["cfg"])) } else { None };
        sinks.push(factory::new_header_sink(Some(&path), cfg).map(|inner| {
            Box::new(Obs { s: i + 1, path: path.clone(), n: 0, full, inner }) as Box<dyn HeaderSink>
        }));
        drop(reader);
        drop(cap);
        paths.push((path, full));
    }
    let names = sc["names"].as_array().unwrap().iter().map(csvout::text).collect();
    let types = sc["types"].as_array().unwrap().iter().map(|t| val::typ(t.as_str().unwrap())).collect();
    let head: Header = Header::new(names, types);
    let rows: Vec<Row> = sc["rows"].as_array().unwrap().iter().map(csvout::row).collect();
    let mut sinks = sinks;
    let cap = Cap::new(sc["cap"].as_i64().unwrap());
    let drive = || -> CliResult<()> {
        if sc["drive"].as_bool().unwrap() {
            let mut chain = vec![];
            for s in sinks {
                chain.push(HeaderNode::HeaderSink(s?));
            }
            let graph = HeaderGraph::new(vec![HeaderChain::new(chain)]);
            let src = Src { id: 1, header: head.clone(), rows, pos: 0, fail_at: -1 };
            let mut d = Driver::new(vec![Box::new(src) as Box<dyn Source>], graph, TIMESTAMP_RANGE_ALL, vec![head])?;
            d.drive()
        } else {
            let flush = crate::obs::nums(&sc["flush"]);
            let mut head = head;
            let mut sink = sinks.remove(0)?.process_header(&mut head)?;
            for (i, r) in rows.into_iter().enumerate() {
                if flush.contains(&(i as i64)) {
                    sink.flush()?;
                }
                sink.write_row(&mut vec![r])?;
            }
            sink.flush()
        }
    };
    let r = drive();
    // no row is read by this log
    let ev: Vec<Value> = log::take().into_iter().filter(|e| e["e"] != "read").collect();
    ev.into_iter().for_each(log::push);
    log::push(json!({"e": "end", "r": ok(&r)}));
    drop(r);
    drop(cap);
    for (i, (p, full)) in paths.iter().enumerate() {
        log::push(json!({"e": "file", "s": i + 1, "b": there(p, *full)}));
    }
    fs::remove_dir_all(&dir).unwrap();
    Value::Null
}
