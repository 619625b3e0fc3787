//! Calls the functions that the binding exports.  A request is a line of JSON
//! {"id", "srcs", "calls": [[function, [argument, ...]], ...]}; an argument is "src1" or "src2" for a
//! source, or "true", "false", "number", "undefined", "null".  A panic is part of the answer.

use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::thread;

use neon::{Any, Heap};
use serde_json::{json, Value};

fn argument(name: &str, srcs: &[String]) -> Any {
    match name {
        "src1" => Any::String(srcs[0].clone()),
        "src2" => Any::String(srcs[1].clone()),
        "true" => Any::Boolean(true),
        "false" => Any::Boolean(false),
        "number" => Any::Number(1.0),
        "null" => Any::Null,
        _ => Any::Undefined,
    }
}

fn call(exports: &neon::context::ModuleContext, srcs: &[String], call: &Value) -> Value {
    let name = call[0].as_str().unwrap();
    let arguments: Vec<Any> = call[1].as_array().unwrap().iter().map(|a| argument(a.as_str().unwrap(), srcs)).collect();
    // the last one counts when a name is exported twice
    let function = match exports.functions.iter().rev().find(|f| f.0 == name) {
        Some(f) => &f.1,
        None => return json!({"how": "no such function", "text": ""}),
    };
    let heap = Heap::default();
    match catch_unwind(AssertUnwindSafe(|| function(&heap, &arguments))) {
        Ok(Ok(Any::String(s))) => json!({"how": "string", "text": s}),
        Ok(Ok(other)) => json!({"how": "other", "text": format!("{:?}", other)}),
        Ok(Err(e)) => json!({"how": e.kind, "text": e.message}),
        Err(p) => json!({"how": "panic", "text": p.downcast_ref::<String>().cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let worker = thread::Builder::new().stack_size(1 << 30).spawn(|| {
        let exports = node::exports();
        let stdin = io::stdin();
        let stdout = io::stdout();
        for line in stdin.lock().lines() {
            let req: Value = serde_json::from_str(&line.unwrap()).unwrap();
            let srcs: Vec<String> = req["srcs"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
            let answers: Vec<Value> = req["calls"].as_array().unwrap().iter().map(|c| call(&exports, &srcs, c)).collect();
            let mut names: Vec<&str> = exports.functions.iter().map(|f| &*f.0).collect();
            names.sort();
            let mut out = stdout.lock();
            writeln!(out, "{}", json!({"id": req["id"], "exports": names, "answers": answers})).unwrap();
            out.flush().unwrap();
        }
    }).unwrap();
    worker.join().unwrap();
}
