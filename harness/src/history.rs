//! Sequences of operations on several modules, in one or several threads.  Every step answers
//! with a digest of its result.

use std::sync::{Arc, Barrier};
use std::thread;
use std::panic::{catch_unwind, AssertUnwindSafe};

use ratel::{self, Module};
use ratel_codegen;
use serde_json::{self, Value};

use facade;

fn digest(s: &str) -> String {
    // two FNV-1a hashes with different offsets
    let mut a: u64 = 0xcbf29ce484222325;
    let mut b: u64 = 0x84222325cbf29ce4;
    for &c in s.as_bytes() {
        a = (a ^ c as u64).wrapping_mul(0x100000001b3);
        b = (b ^ (c as u64 + 0x55)).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}{:016x}", a, b)
}

#[derive(Clone)]
struct Step {
    op: String,
    m: usize,
    src: usize,
}

fn errors(errs: &[ratel::error::Error]) -> String {
    format!("{:?}", errs)
}

fn step(mods: &mut Vec<Option<Module<'static>>>, sources: &[String], st: &Step) -> String {
    while mods.len() <= st.m {
        mods.push(None);
    }
    match &*st.op {
        "parse" => {
            return match ratel::parse(&sources[st.src]) {
                Ok(m) => {
                    let t = ::tree(&m, false);
                    mods[st.m] = Some(m);
                    t
                }
                Err(e) => {
                    mods[st.m] = None;
                    errors(&e)
                }
            };
        }
        "drop" => {
            mods[st.m] = None;
            return String::new();
        }
        "ftransform" => return facade::transform(&sources[st.src], false),
        "fminify" => return facade::transform(&sources[st.src], true),
        "fdump" => return facade::generate_ast(&sources[st.src], true),
        "fdumpp" => return facade::generate_ast(&sources[st.src], false),
        "festree" => return facade::generate_ast_estree(&sources[st.src], true),
        "festreep" => return facade::generate_ast_estree(&sources[st.src], false),
        _ => {}
    }
    let m = match mods[st.m] {
        Some(ref mut m) => m,
        None => return "none".into(),
    };
    match &*st.op {
        "tree" => ::tree(m, false),
        "pretty" => ratel_codegen::codegen(m, false),
        "min" => ratel_codegen::codegen(m, true),
        "walk" => ::events(m),
        "scopes" => ::scopes(m),
        "estree" => serde_json::to_string(&*m).unwrap(),
        "estreep" => serde_json::to_string_pretty(&*m).unwrap(),
        "debug" => format!("{:?}", m.body()),
        "debugp" => format!("{:#?}", m.body()),
        "transform" => {
            ::transform(m);
            ::tree(m, false)
        }
        _ => panic!("unknown step"),
    }
}

fn play(sources: &[String], steps: &[Step], full: bool) -> Vec<String> {
    let mut mods = Vec::new();
    steps.iter().map(|st| {
        let r = catch_unwind(AssertUnwindSafe(|| step(&mut mods, sources, st)));
        match r {
            Ok(s) => if full { s } else { digest(&s) },
            Err(_) => "panic".into(),
        }
    }).collect()
}

/// "sources": [text], "threads": [[{"op", "m", "src"}]], "repeat": n
pub fn run(req: &Value) -> String {
    let sources: Arc<Vec<String>> = Arc::new(
        req["sources"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
    );
    let threads: Vec<Vec<Step>> = req["threads"].as_array().unwrap().iter().map(|t| {
        t.as_array().unwrap().iter().map(|s| Step {
            op: s["op"].as_str().unwrap().to_string(),
            m: s["m"].as_u64().unwrap_or(0) as usize,
            src: s["src"].as_u64().unwrap_or(0) as usize,
        }).collect()
    }).collect();
    let full = req["full"].as_bool().unwrap_or(false);
    let results: Vec<Vec<String>> = if threads.len() == 1 {
        vec![play(&sources, &threads[0], full)]
    } else {
        let barrier = Arc::new(Barrier::new(threads.len()));
        let handles: Vec<_> = threads.into_iter().map(|steps| {
            let sources = sources.clone();
            let barrier = barrier.clone();
            thread::Builder::new().stack_size(1 << 26).spawn(move || {
                barrier.wait();
                play(&sources, &steps, full)
            }).unwrap()
        }).collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["panic".into()])).collect()
    };
    let results: Vec<String> = results.iter().map(|r| {
        let r: Vec<String> = r.iter().map(|s| ::dump::quoted(s)).collect();
        format!("[{}]", r.join(","))
    }).collect();
    format!("[{}]", results.join(","))
}
