//! The failures that are put into runs: of all kinds there are (what kind says nothing about what is to be done).
use chopper::error::Error;
use serde_json::Value;
use std::io::{self, ErrorKind};
use std::sync::Mutex;

static KIND: Mutex<String> = Mutex::new(String::new());

pub fn set(sc: &Value) {
    *KIND.lock().unwrap() = sc["err"].as_str().unwrap_or("").to_string();
}

/// of a reader ("interrupted" is not a failure of one: it asks for another attempt)
pub fn io(msg: &str) -> io::Error {
    let k = match KIND.lock().unwrap().as_str() {
        "eof" => ErrorKind::UnexpectedEof,
        "pipe" => ErrorKind::BrokenPipe,
        "data" => ErrorKind::InvalidData,
        "input" => ErrorKind::InvalidInput,
        "timeout" => ErrorKind::TimedOut,
        "perm" => ErrorKind::PermissionDenied,
        "block" => ErrorKind::WouldBlock,
        "reset" => ErrorKind::ConnectionReset,
        "none" => ErrorKind::NotFound,
        "zero" => ErrorKind::WriteZero,
        _ => ErrorKind::Other,
    };
    io::Error::new(k, msg)
}

/// of a source or an output
pub fn err(msg: String) -> Error {
    let k = KIND.lock().unwrap().clone();
    match k.as_str() {
        "" => Error::from(msg),
        "csv" => Error::Csv(csv::Error::from(io(&msg))),
        "interrupted" => Error::Io(io::Error::new(ErrorKind::Interrupted, msg)),
        _ => Error::Io(io(&msg)),
    }
}
