//! inputs without an end: how much of them is taken, how much memory is held, and what comes out
//! while more is still to come.
use crate::log;
use crate::pack;
use crate::pipeline;
use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{Header, Row};
use chopper::driver::driver::Driver;
use chopper::error::{CliResult, Error};
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::write::factory;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::fs;
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// bytes that have been handed out and not been given back
static HEAP: AtomicI64 = AtomicI64::new(0);
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HEAP.fetch_add(l.size() as i64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HEAP.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        HEAP.fetch_add(l.size() as i64, SeqCst);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        HEAP.fetch_add(n as i64 - l.size() as i64, SeqCst);
        System.realloc(p, l, n)
    }
}

fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("HARNESS: number expected"))
}
fn list(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("HARNESS: list expected"))
}

/// pre, then unit again and again, and post; altogether no more than limit bytes, in pieces
struct Endless {
    pre: Vec<u8>,
    unit: Vec<u8>,
    post: Vec<u8>,
    /// length of a row, and the bytes of each that tell its number: offset, width, base
    row: usize,
    vary: Vec<(usize, usize, u64)>,
    at: usize,
    limit: usize,
    piece: usize,
}
impl Endless {
    fn new(i: &Value) -> Endless {
        Endless {
            pre: pack::hex(i["pre"].as_str().unwrap()),
            unit: pack::hex(i["unit"].as_str().unwrap()),
            post: pack::hex(i["post"].as_str().unwrap()),
            row: int(&i["row"]) as usize,
            vary: list(&i["vary"]).iter().map(|v| (int(&v["off"]) as usize, int(&v["w"]) as usize, int(&v["base"]) as u64)).collect(),
            at: 0,
            limit: int(&i["limit"]) as usize,
            piece: int(&i["piece"]) as usize,
        }
    }
}
impl Read for Endless {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let max = buf.len().min(self.piece).min(self.limit - self.at);
        let mut n = 0;
        let units = self.limit - self.post.len();
        let begin = self.at;
        while n < max {
            let from = if self.at >= units {
                &self.post[self.at - units..]
            } else if self.at < self.pre.len() { &self.pre[self.at..] } else { &self.unit[(self.at - self.pre.len()) % self.unit.len()..] };
            let mut k = from.len().min(max - n);
            if self.at < units {
                k = k.min(units - self.at);
            }
            buf[n..n + k].copy_from_slice(&from[..k]);
            n += k;
            self.at += k;
        }
        if !self.vary.is_empty() {
            for k in self.pre.len().max(begin)..self.at.min(units) {
                let rel = k - self.pre.len();
                let (row, o) = (rel / self.row, rel % self.row);
                for &(off, w, base) in &self.vary {
                    if off <= o && o < off + w {
                        let d = row as u64 / base.pow((off + w - 1 - o) as u32) % base;
                        buf[k - begin] = if base == 10 { b'0' + d as u8 } else { d as u8 };
                    }
                }
            }
        }
        Ok(n)
    }
}

struct Counted<R> {
    inner: R,
    taken: Arc<AtomicI64>,
    live: Arc<AtomicI64>,
}
impl<R: Read> Read for Counted<R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.inner.read(buf)?;
        self.taken.fetch_add(n as i64, SeqCst);
        Ok(n)
    }
}
impl<R> Drop for Counted<R> {
    fn drop(&mut self) {
        self.live.fetch_sub(1, SeqCst);
    }
}

#[derive(Clone)]
struct Transport {
    inputs: Vec<Value>,
    taken: Vec<Arc<AtomicI64>>,
    live: Arc<AtomicI64>,
}
impl StreamingTransport for Transport {
    fn can_open(&self, path: &Path) -> bool {
        let p = path.to_str().unwrap();
        self.inputs.iter().any(|i| p == i["name"].as_str().unwrap() || p.contains("/sdir-"))
    }
    fn open(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        let p = path.to_str().unwrap();
        let i = self.inputs.iter().position(|i| p == i["name"].as_str().unwrap()).unwrap_or(0);
        self.live.fetch_add(1, SeqCst);
        Ok(Box::new(Counted { inner: Endless::new(&self.inputs[i]), taken: self.taken[i].clone(), live: self.live.clone() }))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "endless"
    }
}

struct Shared {
    taken: Vec<Arc<AtomicI64>>,
    live: Arc<AtomicI64>,
    rows: Vec<AtomicI64>,
    outs: Mutex<Vec<PathBuf>>,
    start: AtomicI64,
    take: i64,
    every: i64,
}
impl Shared {
    fn look(&self, e: &str) {
        let get = |v: &AtomicI64| v.load(SeqCst);
        let out: Vec<u64> = self.outs.lock().unwrap().iter().map(|p| fs::metadata(p).map(|m| m.len()).unwrap_or(0)).collect();
        log::push(json!({
            "e": e,
            "taken": self.taken.iter().map(|t| get(t)).collect::<Vec<_>>(),
            "rows": self.rows.iter().map(get).collect::<Vec<_>>(),
            "live": get(&self.live),
            "heap": (get(&HEAP) - get(&self.start)).max(0),
            "out": out,
        }));
    }
    /// false: enough
    fn row(&self, i: usize) -> bool {
        self.rows[i].fetch_add(1, SeqCst);
        let n: i64 = self.rows.iter().map(|r| r.load(SeqCst)).sum();
        if n % self.every == 1 || n == self.take {
            self.look("row");
        }
        n < self.take
    }
}

struct Count {
    i: usize,
    s: Arc<Shared>,
}
impl HeaderSink for Count {
    fn process_header(self: Box<Self>, _: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self)
    }
}
impl DataSink for Count {
    fn write_row(&mut self, _: &mut Vec<Row>) -> CliResult<()> {
        match self.s.row(self.i) {
            true => Ok(()),
            false => Err(Error::from("INJ-enough-")),
        }
    }
    fn flush(&mut self) -> CliResult<()> {
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

fn given(i: &Value, path: &str) -> Input {
    Input {
        input: InputType::Path(path.to_owned()),
        format: match i["fmt"].as_str().unwrap() {
            "" => InputFormat::Auto,
            f => InputFormat::Extension(f.to_owned()),
        },
    }
}

fn end(r: CliResult<bool>, s: &Shared) {
    s.look("last");
    let (r, id) = match r {
        Ok(true) => ("enough", String::new()),
        Ok(false) => ("ok", String::new()),
        Err(e) if pipeline::inj_id(&e) == "enough" => ("enough", String::new()),
        Err(e) => ("err", crate::obs::clean(&e.to_string())),
    };
    log::push(json!({"e": "end", "r": r, "msg": id}));
}

fn inside(sc: &Value) {
    let inputs = list(&sc["inputs"]).clone();
    let taken: Vec<Arc<AtomicI64>> = inputs.iter().map(|_| Arc::new(AtomicI64::new(0))).collect();
    let live = Arc::new(AtomicI64::new(0));
    let s = Arc::new(Shared {
        taken: taken.clone(),
        live: live.clone(),
        rows: inputs.iter().map(|_| AtomicI64::new(0)).collect(),
        outs: Mutex::new(vec![]),
        start: AtomicI64::new(0),
        take: int(&sc["take"]),
        every: int(&sc["every"]),
    });
    let transport = Transport { inputs: inputs.clone(), taken, live };
    let dir = crate::scratch("sdir-");
    let mode = sc["mode"].as_str().unwrap();
    let paths: Vec<String> = inputs
        .iter()
        .enumerate()
        .map(|(k, i)| match mode {
            "dir" => {
                let d = dir.join(format!("in{}", k));
                fs::create_dir(&d).unwrap();
                for f in 0..int(&i["files"]) {
                    fs::write(d.join(format!("{:05}{}", f, i["name"].as_str().unwrap())), "").unwrap();
                }
                d.to_str().unwrap().to_owned()
            }
            _ if i["file"].as_bool().unwrap() => {
                let p = dir.join(i["name"].as_str().unwrap());
                let mut f = fs::File::create(&p).unwrap();
                io::copy(&mut Endless::new(i), &mut f).unwrap();
                p.to_str().unwrap().to_owned()
            }
            _ => i["name"].as_str().unwrap().to_owned(),
        })
        .collect();
    let files = inputs.iter().any(|i| i["file"].as_bool().unwrap());
    s.start.store(HEAP.load(SeqCst), SeqCst);
    let go = || -> CliResult<bool> {
        let users: Option<Vec<Box<dyn StreamingTransport>>> = match files {
            true => None,
            false => Some(vec![Box::new(transport.clone())]),
        };
        let mut factory = InputFactory::new(pack::config()?, None, users)?;
        let mut sources = vec![];
        let mut headers = vec![];
        for (i, p) in inputs.iter().zip(&paths) {
            let src = factory.create_source_from_input(&given(i, p))?;
            headers.push(src.header().clone());
            sources.push(src);
        }
        s.look("row");
        if list(&sc["chains"]).is_empty() {
            // row by row
            let mut src = sources.remove(0);
            while src.next_row()?.is_some() {
                if !s.row(0) {
                    return Ok(true);
                }
            }
            return Ok(false);
        }
        let mut chains = vec![];
        for c in list(&sc["chains"]) {
            let mut nodes = vec![];
            for n in list(c) {
                nodes.push(match n["k"].as_str().unwrap() {
                    "count" => HeaderNode::HeaderSink(Box::new(Count { i: int(&n["i"]) as usize - 1, s: s.clone() }) as Box<dyn HeaderSink>),
                    "file" => {
                        let p = dir.join(n["name"].as_str().unwrap());
                        let csv = p.extension().map(|e| e == "csv").unwrap_or(false);
                        let cfg = if csv { Some(crate::csvout::config(&n["cfg"])) } else { None };
                        let h = factory::new_header_sink(Some(p.to_str().unwrap()), cfg)?;
                        s.outs.lock().unwrap().push(p);
                        HeaderNode::HeaderSink(h)
                    }
                    _ => pipeline::node(n, &vec![]),
                });
            }
            chains.push(HeaderChain::new(nodes));
        }
        let range = chopper::chopper::types::TimestampRange {
            begin: sc["begin"].as_u64(),
            end: sc["end"].as_u64(),
        };
        let mut d = Driver::new(sources, HeaderGraph::new(chains), range, headers)?;
        d.drive()?;
        Ok(false)
    };
    let r = go();
    end(r, &s);
    fs::remove_dir_all(&dir).unwrap();
}

/// the connection, if it comes
fn accept(l: TcpListener) -> Option<TcpStream> {
    l.set_nonblocking(true).unwrap();
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(20) {
        if let Ok((s, _)) = l.accept() {
            s.set_nonblocking(false).unwrap();
            return Some(s);
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    None
}

/// sends an input, holding it back at the gates until enough has come out
fn feed(sc: &Value, w: &mut dyn Write, chunked: bool, out: &dyn Fn() -> i64, ev: &Mutex<Vec<Value>>) {
    let mut e = Endless::new(&sc["inputs"][0]);
    let mut sent = 0;
    for g in list(&sc["gates"]) {
        let (to, wait) = (int(&g["sent"]), int(&g["out"]));
        let mut b = vec![0; (to - sent) as usize];
        e.read_exact(&mut b).unwrap_or_else(|_| panic!("HARNESS: limit"));
        for p in b.chunks(int(&sc["inputs"][0]["piece"]) as usize) {
            let p = match chunked {
                true => [format!("{:x}\r\n", p.len()).as_bytes(), p, b"\r\n"].concat(),
                false => p.to_vec(),
            };
            if w.write_all(&p).and_then(|_| w.flush()).is_err() {
                ev.lock().unwrap().push(json!({"e": "gone", "sent": sent}));
                return;
            }
        }
        sent = to;
        let t = Instant::now();
        while out() < wait && t.elapsed() < Duration::from_secs(20) {
            std::thread::sleep(Duration::from_millis(3));
        }
        ev.lock().unwrap().push(json!({"e": "held", "sent": sent, "out": out()}));
        if out() < wait {
            return;
        }
    }
}

fn serve(sc: &Value, mut s: TcpStream, out: &dyn Fn() -> i64, ev: &Mutex<Vec<Value>>) {
    let mut b: Vec<u8> = vec![];
    let mut one = [0u8];
    while !b.ends_with(b"\r\n\r\n") {
        match s.read(&mut one) {
            Ok(1) => b.push(one[0]),
            _ => return,
        }
    }
    let _ = s.set_nodelay(true);
    let framing = sc["framing"].as_str().unwrap();
    let head = match framing {
        "length" => "Content-Length: 1000000000000\r\n",
        "chunked" => "Transfer-Encoding: chunked\r\n",
        _ => "",
    };
    let _ = s.write_all(format!("HTTP/1.1 200 OK\r\n{}Connection: close\r\n\r\n", head).as_bytes());
    feed(sc, &mut s, framing == "chunked", out, ev);
}

fn http(sc: &Value) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let rows = AtomicI64::new(0);
    let ev = Mutex::new(vec![]);
    std::thread::scope(|scope| {
        let out = || rows.load(SeqCst);
        let (ev, rows) = (&ev, &rows);
        scope.spawn(move || {
            if let Some(s) = accept(l) {
                serve(sc, s, &out, ev)
            }
        });
        let i = &sc["inputs"][0];
        let url = format!("http://127.0.0.1:{}/{}", port, i["name"].as_str().unwrap());
        let go = || -> CliResult<()> {
            let mut src = InputFactory::new(pack::config()?, None, None)?.create_source_from_input(&given(i, &url))?;
            while src.next_row()?.is_some() {
                rows.fetch_add(1, SeqCst);
            }
            Ok(())
        };
        let r = go();
        ev.lock().unwrap().push(json!({"e": "read", "r": if r.is_ok() { "ok" } else { "err" }}));
    });
    ev.into_inner().unwrap().into_iter().for_each(log::push);
    // whatever became of the input that was cut off
    log::push(json!({"e": "end", "r": "ok", "msg": ""}));
}

fn cli(sc: &Value) {
    let dir = crate::scratch("scli");
    let remote = sc["framing"].as_str().unwrap() != "";
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("chop"));
    for a in list(&sc["argv"]) {
        c.arg(a.as_str().unwrap().replace("PORT", &port.to_string()));
    }
    c.current_dir(&dir).env_remove("CHOPPER_TZ").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut child = c.spawn().unwrap();
    let mut stdin = child.stdin.take().unwrap();
    let mut stdout = child.stdout.take().unwrap();
    let n = AtomicI64::new(0);
    let ev = Mutex::new(vec![]);
    let to_file = sc["outfile"].as_str().unwrap().to_owned();
    std::thread::scope(|scope| {
        let (n, ev, dir) = (&n, &ev, &dir);
        let reader = scope.spawn(move || {
            let mut b = [0u8; 65536];
            while let Ok(k) = stdout.read(&mut b) {
                if k == 0 {
                    break;
                }
                n.fetch_add(k as i64, SeqCst);
            }
        });
        let out = move || match to_file.as_str() {
            "" => n.load(SeqCst),
            f => fs::metadata(dir.join(f)).map(|m| m.len() as i64).unwrap_or(0),
        };
        if remote {
            if let Some(s) = accept(l) {
                serve(sc, s, &out, ev);
            }
        } else {
            feed(sc, &mut stdin, false, &out, ev);
        }
        drop(stdin);
        let _ = child.kill();
        let _ = child.wait();
        reader.join().unwrap();
    });
    ev.into_inner().unwrap().into_iter().for_each(log::push);
    log::push(json!({"e": "end", "r": "ok", "msg": ""}));
    fs::remove_dir_all(&dir).unwrap();
}

pub fn run(sc: &Value) -> Value {
    match sc["mode"].as_str().unwrap() {
        "http" => http(sc),
        "cli" => cli(sc),
        _ => inside(sc),
    }
    Value::Null
}
