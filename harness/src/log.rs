//! Event log of the scenario that is running. Single threaded: events are in program order.
use serde_json::Value;
use std::cell::RefCell;
use std::sync::Mutex;

thread_local! {
    static EVENTS: RefCell<Vec<Value>> = RefCell::new(Vec::new());
}
static PANIC: Mutex<String> = Mutex::new(String::new());

static BEAT: Mutex<String> = Mutex::new(String::new());

/// where steps of long scenarios are told
pub fn set_beat(path: String) {
    *BEAT.lock().unwrap() = path;
}

/// a scenario of many steps is getting on
pub fn beat() {
    let p = BEAT.lock().unwrap();
    if !p.is_empty() {
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&*p).unwrap();
        std::io::Write::write_all(&mut f, b".").unwrap();
    }
}

pub fn reset() {
    EVENTS.with(|e| e.borrow_mut().clear());
}

pub fn push(v: Value) {
    EVENTS.with(|e| e.borrow_mut().push(v));
}

pub fn take() -> Vec<Value> {
    EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()))
}

pub fn set_panic(s: String) {
    if let Ok(mut p) = PANIC.lock() {
        *p = s;
    }
}

pub fn take_panic() -> String {
    match PANIC.lock() {
        Ok(mut p) => std::mem::take(&mut *p),
        Err(_) => String::new(),
    }
}
