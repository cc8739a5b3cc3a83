//! whole runs of the real command line tool in a directory of their own.
use crate::csvin::raw;
use crate::log;
use crate::obs;
use crate::pack::hex;
use serde_json::{json, Value};
use std::ffi::OsStr;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn list(v: &Value) -> Vec<Value> {
    v.as_array().unwrap().clone()
}

/// text as codes, bytes that are not text as 2000000 + byte
pub fn codes(mut b: &[u8]) -> Vec<u32> {
    let mut out = vec![];
    while !b.is_empty() {
        let (good, bad) = match std::str::from_utf8(b) {
            Ok(_) => (b.len(), 0),
            Err(e) => (e.valid_up_to(), 1),
        };
        out.extend(std::str::from_utf8(&b[..good]).unwrap().chars().map(|c| c as u32));
        out.extend(b[good..good + bad].iter().map(|x| 2_000_000 + *x as u32));
        b = &b[good + bad..];
    }
    out
}

fn regular(dir: &Path, at: &Path, out: &mut Vec<(PathBuf, Vec<u8>)>) {
    for e in fs::read_dir(at).unwrap() {
        let e = e.unwrap();
        let t = e.file_type().unwrap();
        if t.is_dir() {
            regular(dir, &e.path(), out);
        } else if t.is_file() {
            out.push((e.path().strip_prefix(dir).unwrap().to_owned(), fs::read(e.path()).unwrap()));
        }
    }
}

fn drain<R: Read + Send + 'static>(r: Option<R>) -> std::thread::JoinHandle<Vec<u8>> {
    std::thread::spawn(move || {
        let mut b = Vec::new();
        if let Some(mut r) = r {
            let _ = r.read_to_end(&mut b);
        }
        b
    })
}

pub fn run(sc: &Value) -> Value {
    let top = crate::scratch("cli");
    let dir = top.join("w");
    fs::create_dir_all(&dir).unwrap();
    let at = |v: &Value| dir.join(OsStr::from_bytes(&raw(v)));
    for d in list(&sc["dirs"]) {
        fs::create_dir_all(at(&d)).unwrap();
    }
    let mut before = std::collections::HashMap::new();
    for f in list(&sc["files"]).iter().chain(list(&sc["old"]).iter()) {
        let data = hex(f["file"].as_str().unwrap());
        fs::write(at(&f["path"]), &data).unwrap();
        before.insert(at(&f["path"]).strip_prefix(&dir).unwrap().to_owned(), data);
    }
    for f in list(&sc["full"]) {
        std::os::unix::fs::symlink("/dev/full", at(&f)).unwrap();
    }
    for l in list(&sc["links"]) {
        let target = fs::canonicalize(at(&l["to"])).unwrap();
        std::os::unix::fs::symlink(target, at(&l["path"])).unwrap();
    }
    let exe = std::env::current_exe().unwrap().with_file_name("chop");
    let mut c = Command::new(exe);
    for a in list(&sc["argv"]) {
        c.arg(OsStr::from_bytes(&raw(&a)));
    }
    c.current_dir(&dir).env_remove("CHOPPER_TZ").env_remove("RUST_BACKTRACE");
    if let Some(z) = list(&sc["tz"]).first() {
        c.env("CHOPPER_TZ", OsStr::from_bytes(&raw(z)));
    }
    c.env_remove("CHOP_MORE");
    let more = &sc["more"];
    if !list(&more["zones"]).is_empty() || !list(&more["given"]).is_empty() || more["user"] == json!(true) {
        let f = top.join("more");
        fs::write(&f, more.to_string()).unwrap();
        c.env("CHOP_MORE", &f);
    }
    c.stderr(Stdio::piped());
    match sc["stdout"].as_str().unwrap() {
        "full" => {
            c.stdout(fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
        }
        "gone" => {
            let (r, w) = std::io::pipe().unwrap();
            drop(r);
            c.stdout(w);
        }
        _ => {
            c.stdout(Stdio::piped());
        }
    }
    let data = hex(sc["data"].as_str().unwrap());
    let pipe = sc["pipe"].as_u64().unwrap() as usize;
    if let Some(f) = list(&sc["from"]).first() {
        c.stdin(fs::File::open(at(f)).unwrap());
    } else if pipe == 0 {
        let f = top.join("stdin");
        fs::write(&f, &data).unwrap();
        c.stdin(fs::File::open(&f).unwrap());
    } else {
        c.stdin(Stdio::piped());
    }
    let mut child = c.spawn().unwrap_or_else(|e| panic!("HARNESS: {}", e));
    drop(c);
    let out = drain(child.stdout.take());
    let err = drain(child.stderr.take());
    if let Some(mut w) = child.stdin.take() {
        std::thread::spawn(move || {
            for p in data.chunks(pipe) {
                // the reader may have given up
                if w.write_all(p).is_err() {
                    break;
                }
            }
        });
    }
    let start = Instant::now();
    let mut hung = false;
    let status = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s,
            None if start.elapsed() > Duration::from_secs(15) => {
                child.kill().unwrap();
                hung = true;
                break child.wait().unwrap();
            }
            None => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    let (out, err) = (out.join().unwrap(), err.join().unwrap());
    let message = String::from_utf8_lossy(&err).into_owned();
    let mut files = Vec::new();
    regular(&dir, &dir, &mut files);
    files.sort();
    let files: Vec<Value> = files
        .iter()
        .filter(|(p, b)| before.get(p) != Some(b))
        .map(|(p, b)| json!({"path": codes(p.as_os_str().as_bytes()), "b": b, "t": codes(b)}))
        .collect();
    let crash = hung || status.signal().is_some() || status.code() == Some(101) || message.contains("panicked at");
    log::push(json!({"e": "run", "status": status.code().unwrap_or(-1), "out": codes(&out), "err": !message.trim().is_empty(),
                     "crash": crash, "files": files, "msg": obs::clean(&message.chars().take(400).collect::<String>())}));
    fs::remove_dir_all(&top).unwrap();
    obs::end(Ok(()));
    Value::Null
}
