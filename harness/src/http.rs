//! remote inputs: a server on the loopback network, and what the real code reads from it.
use crate::log;
use crate::obs;
use crate::pack;
use crate::val;
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32;
}

struct Answer {
    target: String,
    segs: Vec<Vec<u8>>,
    pause: u64,
    end: String,
}

/// the target of the request and the names of its header fields; None if there is none
fn request(s: &mut TcpStream) -> Option<(String, Vec<String>)> {
    let mut b = vec![];
    let mut one = [0u8];
    while !b.ends_with(b"\r\n\r\n") {
        match s.read(&mut one) {
            Ok(1) => b.push(one[0]),
            _ => return None,
        }
    }
    let text = String::from_utf8_lossy(&b).to_string();
    let line = text.lines().next()?.to_owned();
    let w: Vec<&str> = line.split(' ').collect();
    if w.len() != 3 || w[0] != "GET" {
        return Some((format!("not a GET: {}", line), vec![]));
    }
    let fields = text.lines().skip(1).take_while(|l| !l.is_empty()).map(|l| l.split(':').next().unwrap().to_lowercase());
    Some((w[1].to_owned(), fields.collect()))
}

fn answer(mut s: TcpStream, answers: &[Answer], seen: &Mutex<Vec<(String, Vec<String>)>>) {
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_millis(20000)));
    let (target, fields) = match request(&mut s) {
        Some(t) => t,
        None => return,
    };
    seen.lock().unwrap().push((target.clone(), fields));
    let a = match answers.iter().find(|a| a.target == target) {
        Some(a) => a,
        None => {
            let _ = s.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 4\r\nConnection: close\r\n\r\ngone");
            return;
        }
    };
    for seg in &a.segs {
        if s.write_all(seg).is_err() {
            return;
        }
        if a.pause > 0 {
            std::thread::sleep(Duration::from_millis(a.pause));
        }
    }
    match a.end.as_str() {
        "keep" => {
            // as long as somebody is there
            let t = Instant::now();
            let _ = s.set_read_timeout(Some(Duration::from_millis(100)));
            let mut b = [0u8; 64];
            while t.elapsed() < Duration::from_secs(5) {
                match s.read(&mut b) {
                    Ok(0) => break,
                    Ok(_) => {}
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {}
                    Err(_) => break,
                }
            }
        }
        "reset" => unsafe {
            let linger = [1i32, 0];
            setsockopt(s.as_raw_fd(), 1, 13, linger.as_ptr(), 8);
        },
        _ => {
            let _ = s.shutdown(Shutdown::Write);
            // do not turn this into a reset
            let _ = s.set_read_timeout(Some(Duration::from_millis(2000)));
            let mut b = [0u8; 64];
            while let Ok(n) = s.read(&mut b) {
                if n == 0 {
                    break;
                }
            }
        }
    }
}

pub fn run(sc: &Value) -> Value {
    let listener = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = listener.local_addr().unwrap().port();
    let named = |b: &[u8]| -> Vec<u8> {
        let mut b = b.to_vec();
        let p = format!("{:05}", port);
        let mut i = 0;
        while i + 5 <= b.len() {
            if &b[i..i + 5] == b"PPPPP" {
                b[i..i + 5].copy_from_slice(p.as_bytes());
            }
            i += 1;
        }
        b
    };
    let answers: Vec<Answer> = sc["answers"]
        .as_array()
        .unwrap()
        .iter()
        .map(|a| Answer {
            target: obs::text(&a["target"]),
            segs: {
                // the port may lie across pieces
                let segs: Vec<Vec<u8>> = a["segs"].as_array().unwrap().iter().map(|s| pack::hex(s.as_str().unwrap())).collect();
                let whole = named(&segs.concat());
                let mut at = 0;
                segs.iter()
                    .map(|s| {
                        at += s.len();
                        whole[at - s.len()..at].to_vec()
                    })
                    .collect()
            },
            pause: a["pause"].as_u64().unwrap(),
            end: a["end"].as_str().unwrap().to_owned(),
        })
        .collect();
    let seen = Arc::new(Mutex::new(vec![]));
    let stop = Arc::new(AtomicBool::new(false));
    let server = if sc["refuse"].as_bool().unwrap() {
        drop(listener);
        None
    } else {
        let (seen, stop) = (seen.clone(), stop.clone());
        Some(std::thread::spawn(move || {
            std::thread::scope(|scope| {
                for s in listener.incoming() {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if let Ok(s) = s {
                        let (answers, seen) = (&answers, &seen);
                        scope.spawn(move || answer(s, answers, seen));
                    }
                }
            });
        }))
    };
    let url = String::from_utf8(named(&obs::bytes(&sc["url"]))).unwrap();
    let res = catch_unwind(AssertUnwindSafe(|| {
        obs::drain((|| {
            let format = match sc["auto"].as_bool().unwrap() {
                true => InputFormat::Auto,
                false => InputFormat::Extension(obs::text(&sc["fmt"])),
            };
            let input = Input { input: InputType::Path(url.clone()), format };
            InputFactory::new(pack::config()?, None, None)?.create_source_from_input(&input)
        })());
    }));
    if res.is_err() {
        log::push(json!({"e": "panic", "msg": log::take_panic()}));
    }
    if let Some(h) = server {
        stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", port));
        h.join().unwrap();
    }
    let seen = seen.lock().unwrap();
    let targets: Vec<Value> = seen.iter().map(|s| val::codes(&s.0)).collect();
    let fields: Vec<&Vec<String>> = seen.iter().map(|s| &s.1).collect();
    log::push(json!({"e": "asked", "for": targets, "with": fields}));
    log::push(json!({"e": "end", "r": "ok", "id": ""}));
    Value::Null
}
