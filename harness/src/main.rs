//! Conformance harness: reads one JSON request per line, drives the real code
//! through its public API, and answers with one JSON line of observations.
//! A panic in the code under test is an observation ({"panic": ...}), not an error.
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

mod check;
mod diag;
mod docs;
mod expr;
mod icon;
mod indent;
mod itree;
mod lex;
mod map;
mod pp;
mod render;
mod tree;

fn dispatch(req: &Value) -> Value {
    match req["k"].as_str().unwrap_or("") {
        "check" => check::run(req),
        "diag" => diag::run(req),
        "itree" => itree::run(req),
        "pp" => pp::run(req),
        "docs" => docs::run(req),
        "expr" => expr::run(req),
        "icon" => icon::run(req),
        "map" => map::run(req),
        "render" => render::run(req),
        "smooth" => render::smooth(req),
        "passes" => render::passes(req),
        "tree" => tree::run(req),
        "lex" => lex::run(req),
        "indent" => indent::run(req),
        other => json!({"harness_error": format!("unknown kind {other:?}")}),
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn serve() {
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
    }));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        if line.is_empty() {
            continue;
        }
        let req: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                println!("{}", json!({"harness_error": e.to_string()}));
                continue;
            },
        };
        let res = match catch_unwind(AssertUnwindSafe(|| dispatch(&req))) {
            Ok(v) => v,
            Err(_) => {
                let msg = LAST_PANIC.with(|p| p.borrow().clone());
                json!({"panic": msg})
            },
        };
        let mut out = stdout.lock();
        let _ = writeln!(out, "{res}");
        let _ = out.flush();
    }
}

fn main() {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(serve)
        .unwrap()
        .join()
        .unwrap();
}
