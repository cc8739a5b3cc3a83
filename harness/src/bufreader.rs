//! The real buffering/previewing reader over an input that hands out its bytes as told.
use crate::log;
use chopper::util::reader::{ChopperBufPreviewer, ChopperBufReader};
use serde_json::{json, Value};
use std::io::{self, BufRead, Read};

struct Inner {
    data: Vec<u8>,
    pos: usize,
    /// sizes of the pieces; 0 is a failure, -1 an interruption; the last size repeats
    plan: Vec<i64>,
    step: usize,
}

impl Read for Inner {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = if self.plan.is_empty() {
            i64::MAX
        } else {
            self.plan[self.step.min(self.plan.len() - 1)]
        };
        self.step += 1;
        if n == 0 {
            log::push(json!({"e": "in", "r": "err"}));
            return Err(crate::inject::io("INJ-in-"));
        }
        if n < 0 {
            log::push(json!({"e": "in", "r": "int"}));
            return Err(io::Error::new(io::ErrorKind::Interrupted, "INJ-in-"));
        }
        let n = (n as usize).min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        log::push(json!({"e": "in", "r": "ok"}));
        Ok(n)
    }
}

fn ops(r: &mut ChopperBufReader<Box<dyn Read>>, sc: &Value) {
    let mut avail = 0;
    for op in sc["ops"].as_array().unwrap() {
        let n = op[1].as_u64().unwrap() as usize;
        let name = op[0].as_str().unwrap();
        let fail = |b: Vec<u8>| json!({"e": "fail", "op": name, "b": b});
        // how a text was read, nothing more can be said behind one that failed
        let text = |r: io::Result<usize>, line: bool, s: String| match r {
            Ok(_) => (json!({"e": "text", "line": line, "b": s.as_bytes()}), true),
            Err(ref e) if e.to_string().contains("INJ-") => (fail(vec![]), false),
            Err(_) => (json!({"e": "notext", "line": line}), false),
        };
        let mut go_on = true;
        let ev = match name {
            "vec" => {
                let mut b = vec![0xEE; n];
                let mut c = vec![0xEE; op[2].as_u64().unwrap() as usize];
                let size = b.len() + c.len();
                avail = 0;
                let k = r.read_vectored(&mut [io::IoSliceMut::new(&mut b), io::IoSliceMut::new(&mut c)]);
                match k {
                    Ok(k) => {
                        b.extend_from_slice(&c);
                        b.truncate(k);
                        json!({"e": "read", "n": size, "b": b})
                    }
                    Err(_) => fail(vec![]),
                }
            }
            "exact" => {
                let mut b = vec![0xEE; n];
                avail = 0;
                match r.read_exact(&mut b) {
                    Ok(_) => json!({"e": "exact", "n": n, "b": b}),
                    Err(e) => {
                        go_on = false;
                        match e.to_string().contains("INJ-") {
                            true => fail(vec![]),
                            false => json!({"e": "short", "n": n}),
                        }
                    }
                }
            }
            "some" => {
                let mut b = vec![];
                avail = 0;
                match r.by_ref().take(n as u64).read_to_end(&mut b) {
                    Ok(_) => json!({"e": "some", "n": n, "b": b}),
                    Err(_) => fail(b),
                }
            }
            "copy" => {
                let mut b = vec![];
                avail = 0;
                match io::copy(r, &mut b) {
                    Ok(_) => json!({"e": "all", "b": b}),
                    Err(_) => json!({"e": "fail", "op": "all", "b": b}),
                }
            }
            "text" => {
                let mut s = String::new();
                avail = 0;
                let k = r.read_to_string(&mut s);
                let (ev, ok) = text(k, false, s);
                go_on = ok;
                ev
            }
            "textline" => {
                let mut s = String::new();
                avail = 0;
                let k = r.read_line(&mut s);
                let (ev, ok) = text(k, true, s);
                go_on = ok;
                ev
            }
            "read" => {
                let mut b = vec![0xEE; n];
                avail = 0;
                match r.read(&mut b) {
                    Ok(k) => {
                        b.truncate(k);
                        json!({"e": "read", "n": n, "b": b})
                    }
                    Err(_) => fail(vec![]),
                }
            }
            "fill" => match r.fill_buf() {
                Ok(b) => {
                    avail = b.len();
                    json!({"e": "fill", "b": b})
                }
                Err(_) => {
                    avail = 0;
                    fail(vec![])
                }
            },
            "cons" => {
                // never more than was offered
                let k = n.min(avail);
                r.consume(k);
                avail -= k;
                json!({"e": "cons", "n": k})
            }
            "line" => {
                let mut b = vec![];
                avail = 0;
                match r.read_until(b'\n', &mut b) {
                    Ok(_) => json!({"e": "line", "b": b}),
                    Err(_) => fail(b),
                }
            }
            "all" => {
                let mut b = vec![];
                avail = 0;
                match r.read_to_end(&mut b) {
                    Ok(_) => json!({"e": "all", "b": b}),
                    Err(_) => fail(b),
                }
            }
            o => panic!("HARNESS: op {}", o),
        };
        log::push(ev);
        if !go_on {
            return;
        }
    }
}

pub fn run(sc: &Value) -> Value {
    let nums = |k: &str| -> Vec<u64> {
        let a = sc[k].as_array().unwrap().iter();
        a.map(|c| c.as_u64().unwrap()).collect()
    };
    let inner: Box<dyn Read> = Box::new(Inner {
        data: nums("data").iter().map(|&c| c as u8).collect(),
        pos: 0,
        plan: sc["plan"].as_array().unwrap().iter().map(|c| c.as_i64().unwrap()).collect(),
        step: 0,
    });
    let reader = if sc["prev"].as_bool().unwrap() {
        match ChopperBufPreviewer::new(inner) {
            Ok(p) => {
                let (text, lines) = match p.get_lines() {
                    None => (false, vec![]),
                    Some(l) => (true, l.iter().map(|s| s.as_bytes().to_vec()).collect()),
                };
                let b: Vec<u8> = p.get_buf().to_vec();
                log::push(json!({"e": "prev", "b": b, "text": text, "lines": lines}));
                Some(p.get_reader())
            }
            Err(_) => {
                log::push(json!({"e": "fail", "op": "prev", "b": []}));
                None
            }
        }
    } else {
        let cap = sc["cap"].as_u64().unwrap() as usize;
        Some(ChopperBufReader::with_capacity(cap, inner))
    };
    if let Some(mut r) = reader {
        ops(&mut r, sc);
    }
    log::push(json!({"e": "end", "r": "ok", "id": ""}));
    Value::Null
}
