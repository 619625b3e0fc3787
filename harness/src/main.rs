//! Runs the library on requests read from standard input, one JSON object per line, and answers
//! each with one line of JSON.  A panic is part of the answer.

extern crate ratel;
extern crate ratel_codegen;
extern crate ratel_visitor;
extern crate ratel_transformer;
extern crate toolshed;
extern crate serde_json;


extern crate facade;
mod dump;
mod walk;
mod history;

use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::thread;

use ratel::Module;
use ratel::error::ParseError;
use ratel::lexer::{Lexer, Asi, Token};
use ratel_visitor::{Visitable, ScopeKind};
use ratel_transformer::scope::{analyze, Scope};
use serde_json::Value;
use toolshed::Arena;

use dump::{quoted, Out};

pub fn token_kind(t: Token) -> &'static str {
    use ratel::lexer::Token::*;
    match t {
        EndOfProgram => "EOF", Semicolon => ";", Colon => ":", Comma => ",", ParenOpen => "(",
        ParenClose => ")", BracketOpen => "[", BracketClose => "]", BraceOpen => "{",
        BraceClose => "}", OperatorFatArrow => "=>", OperatorNew => "new",
        OperatorIncrement => "++", OperatorDecrement => "--", OperatorLogicalNot => "!",
        OperatorBitwiseNot => "~", OperatorTypeof => "typeof", OperatorVoid => "void",
        OperatorDelete => "delete", OperatorMultiplication => "*", OperatorDivision => "/",
        OperatorRemainder => "%", OperatorExponent => "**", OperatorAddition => "+",
        OperatorSubtraction => "-", OperatorBitShiftLeft => "<<", OperatorBitShiftRight => ">>",
        OperatorUBitShiftRight => ">>>", OperatorLesser => "<", OperatorLesserEquals => "<=",
        OperatorGreater => ">", OperatorGreaterEquals => ">=", OperatorInstanceof => "instanceof",
        OperatorIn => "in", OperatorStrictEquality => "===", OperatorStrictInequality => "!==",
        OperatorEquality => "==", OperatorInequality => "!=", OperatorBitwiseAnd => "&",
        OperatorBitwiseXor => "^", OperatorBitwiseOr => "|", OperatorLogicalAnd => "&&",
        OperatorLogicalOr => "||", OperatorConditional => "?", OperatorAssign => "=",
        OperatorAddAssign => "+=", OperatorSubtractAssign => "-=", OperatorExponentAssign => "**=",
        OperatorMultiplyAssign => "*=", OperatorDivideAssign => "/=",
        OperatorRemainderAssign => "%=", OperatorBSLAssign => "<<=", OperatorBSRAssign => ">>=",
        OperatorUBSRAssign => ">>>=", OperatorBitAndAssign => "&=", OperatorBitXorAssign => "^=",
        OperatorBitOrAssign => "|=", OperatorSpread => "...", DeclarationVar => "var",
        DeclarationLet => "let", DeclarationConst => "const", Break => "break", Do => "do",
        Case => "case", Else => "else", Catch => "catch", Export => "export", Class => "class",
        Extends => "extends", Return => "return", While => "while", Finally => "finally",
        Super => "super", With => "with", Continue => "continue", For => "for",
        Switch => "switch", Yield => "yield", Debugger => "debugger", Function => "function",
        This => "this", Default => "default", If => "if", Throw => "throw", Import => "import",
        Try => "try", Static => "static", LiteralTrue => "true", LiteralFalse => "false",
        LiteralNull => "null", LiteralUndefined => "undefined", LiteralString => "STR",
        LiteralNumber => "NUM", LiteralBinary => "BIN", LiteralRegEx => "REGEX",
        ReservedEnum => "enum", ReservedImplements => "implements", ReservedPackage => "package",
        ReservedProtected => "protected", ReservedInterface => "interface",
        ReservedPrivate => "private", ReservedPublic => "public", Identifier => "ID",
        Accessor => "ACC", TemplateOpen => "TPLO", TemplateClosed => "TPLC",
        UnexpectedToken => "ERR", UnexpectedEndOfProgram => "EEOF",
    }
}

/// The tokens of a text.  `d` says, in turn, for every slash whether it is to start a regular
/// expression and for every closing brace whether it is to continue a template.
fn tokens(src: &str, d: &[bool]) -> String {
    let arena = Arena::new();
    let mut lex = Lexer::new(&arena, src);
    let mut out = String::from("[");
    let mut d = d.iter();
    let mut count = 0;
    loop {
        if (lex.token == Token::OperatorDivision || lex.token == Token::OperatorDivideAssign || lex.token == Token::BraceClose)
            && *d.next().unwrap_or(&false)
        {
            if lex.token == Token::BraceClose {
                lex.read_template_kind();
            } else {
                lex.read_regular_expression();
            }
        }
        let kind = token_kind(lex.token);
        let (s, e) = lex.loc();
        let a = match lex.asi() {
            Asi::ExplicitSemicolon => "X",
            Asi::ImplicitSemicolon => "I",
            Asi::NoSemicolon => "N",
        };
        if s > e || e as usize > src.len() {
            out.push_str(&format!("{{\"k\":{},\"s\":{},\"e\":{},\"a\":\"{}\",\"x\":\"OUT OF RANGE\",\"p\":\"\"}}]", quoted(kind), s, e, a));
            return out;
        }
        // the piece of a template, or the name of an accessor
        let p = match lex.token {
            Token::TemplateOpen | Token::TemplateClosed => lex.quasi,
            Token::Accessor => lex.accessor_as_str(),
            _ => "",
        };
        out.push_str(&format!(
            "{{\"k\":{},\"s\":{},\"e\":{},\"a\":\"{}\",\"x\":{},\"p\":{}}}",
            quoted(kind), s, e, a, quoted(lex.token_as_str()), quoted(p)
        ));
        count += 1;
        if lex.token == Token::EndOfProgram || count > 2 * src.len() + 8 {
            break;
        }
        out.push(',');
        lex.consume();
    }
    out.push(']');
    out
}

/// {"ok": true, "n": tree, "errs": []} or {"ok": false, "n": 0, "errs": [...]}
fn parsed(src: &str, older: bool) -> String {
    match ratel::parse(src) {
        Ok(mut module) => {
            if older {
                transform(&mut module);
            }
            format!("{{\"ok\":true,\"n\":{},\"errs\":[]}}", tree(&module, false))
        }
        Err(errors) => {
            let errs: Vec<String> = errors.iter().map(|e| format!(
                "{{\"k\":{},\"s\":{},\"e\":{},\"x\":{}}}",
                quoted(token_kind(e.token)), e.start, e.end, quoted(&e.raw)
            )).collect();
            format!("{{\"ok\":false,\"n\":0,\"errs\":[{}]}}", errs.join(","))
        }
    }
}

pub fn tree(module: &Module, strip: bool) -> String {
    let mut out = Out::new(strip);
    out.module(module.body());
    out.s
}

/// A module that is used for as long as its own lifetime.
pub fn forever(module: &Module) -> &'static Module<'static> {
    unsafe { ::std::mem::transmute(module) }
}

pub fn events(module: &Module) -> String {
    let mut recorder = walk::Recorder::new();
    forever(module).visit_with(&mut recorder);
    format!("[{}]", recorder.out)
}

fn names<'a, I: Iterator<Item = &'a str>>(names: I) -> String {
    let names: Vec<String> = names.map(quoted).collect();
    names.join(",")
}

fn scope(s: &'static Scope<'static>, parent: Option<&'static Scope<'static>>, out: &mut String) {
    let linked = match (s.parent, parent) {
        (None, None) => true,
        (Some(a), Some(b)) => a as *const _ == b as *const _,
        _ => false,
    };
    // what iteration gives has to be what lookup gives
    let used: Vec<&str> = s.used_refs.iter().map(|(k, _)| *k).collect();
    let decl: Vec<&str> = s.declared_refs.iter().map(|(k, _)| *k).collect();
    let found = used.iter().all(|k| s.used_refs.contains_key(k))
        && decl.iter().all(|k| s.declared_refs.contains_key(k));
    out.push_str(&format!(
        "{{\"kind\":\"{}\",\"this\":{},\"sup\":{},\"linked\":{},\"found\":{},\"used\":[{}],\"decl\":[{}],\"ch\":[",
        match s.kind { ScopeKind::Function => "function", ScopeKind::Block => "block" },
        s.used_this.get(), s.used_super.get(), linked, found,
        names(used.into_iter()), names(decl.into_iter())
    ));
    let children = s.children.as_list();
    let mut first = true;
    for c in children.iter() {
        if !first {
            out.push(',');
        }
        first = false;
        scope(c, Some(s), out);
    }
    out.push_str("]}");
}

pub fn scopes(module: &Module) -> String {
    let mut out = String::new();
    scope(analyze(forever(module)), None, &mut out);
    out
}

/// Transforms a module in place
pub fn transform(module: &mut Module) {
    let module: &'static mut Module<'static> = unsafe { ::std::mem::transmute(module) };
    ratel_transformer::transform(module);
}

fn bytes(s: &str) -> String {
    let b: Vec<String> = s.as_bytes().iter().map(|b| b.to_string()).collect();
    format!("[{}]", b.join(","))
}

/// A text as the specification takes it
pub fn source(s: &str) -> String {
    format!("{{\"b\":{},\"s\":{},\"n\":{}}}", bytes(s), quoted(s), s.len())
}

/// A printed text and what the library makes of it
fn printed(text: &str) -> String {
    let re = match ratel::parse(text) {
        Ok(m) => {
            let pretty = ratel_codegen::codegen(&m, false);
            let min = ratel_codegen::codegen(&m, true);
            format!("{{\"ok\":true,\"n\":{},\"pretty\":{},\"min\":{}}}", tree(&m, true), quoted(&pretty), quoted(&min))
        }
        Err(_) => "{\"ok\":false,\"n\":0,\"pretty\":\"\",\"min\":\"\"}".into(),
    };
    format!("{{\"src\":{},\"re\":{}}}", source(text), re)
}

/// Whether the module is transformed for the older language level before it is looked at
fn older(req: &Value) -> bool {
    req["older"].as_bool().unwrap_or(false)
}

fn view(name: &str, req: &Value) -> String {
    let src = req["src"].as_str().unwrap_or("");
    match name {
        "lex" => {
            let d: Vec<bool> = match req["d"].as_array() {
                Some(a) => a.iter().map(|v| v.as_bool().unwrap_or(false)).collect(),
                None => vec![],
            };
            return tokens(src, &d);
        }
        "parse" => return parsed(src, older(req)),
        "report" => {
            let (s, e) = (req["s"].as_u64().unwrap() as usize, req["e"].as_u64().unwrap() as usize);
            let err = ParseError::UnexpectedToken { source: src.to_string(), start: s, end: e };
            return quoted(&format!("{}", err));
        }
        "reports" => {
            // of every error that parsing gives
            let errs = match ratel::parse(src) {
                Ok(_) => vec![],
                Err(errs) => errs,
            };
            let all: Vec<String> = errs.iter().map(|e| {
                let err = ParseError::UnexpectedToken { source: src.to_string(), start: e.start, end: e.end };
                quoted(&format!("{}", err))
            }).collect();
            return format!("[{}]", all.join(","));
        }
        "facade" => {
            return format!(
                "{{\"tp\":{},\"tm\":{},\"dp\":{},\"dm\":{},\"ep\":{},\"em\":{}}}",
                quoted(&facade::transform(src, false)), quoted(&facade::transform(src, true)),
                quoted(&facade::generate_ast(src, false)), quoted(&facade::generate_ast(src, true)),
                quoted(&facade::generate_ast_estree(src, false)), quoted(&facade::generate_ast_estree(src, true))
            );
        }
        "history" => return history::run(req),
        _ => {}
    }
    // the others need a module
    let mut module = match ratel::parse(src) {
        Ok(m) => m,
        Err(_) => return "\"rejected\"".into(),
    };
    if older(req) {
        transform(&mut module);
    }
    match name {
        "print" => format!(
            "{{\"pretty\":{},\"min\":{}}}",
            printed(&ratel_codegen::codegen(&module, false)),
            printed(&ratel_codegen::codegen(&module, true))
        ),
        "text" => format!(
            "{{\"pretty\":{},\"min\":{}}}",
            quoted(&ratel_codegen::codegen(&module, false)), quoted(&ratel_codegen::codegen(&module, true))
        ),
        "walk" => {
            let before = tree(&module, false);
            let ev = events(&module);
            format!("{{\"ev\":{},\"same\":{}}}", ev, before == tree(&module, false))
        }
        "scopes" => {
            let before = tree(&module, false);
            let sc = scopes(&module);
            format!("{{\"root\":{},\"same\":{}}}", sc, before == tree(&module, false))
        }
        "transform" => {
            transform(&mut module);
            let once = tree(&module, false);
            let pretty = ratel_codegen::codegen(&module, false);
            let min = ratel_codegen::codegen(&module, true);
            transform(&mut module);
            let twice = tree(&module, false);
            format!(
                "{{\"n\":{},\"twice\":{},\"pretty\":{},\"min\":{}}}",
                once, once == twice, source(&pretty), source(&min)
            )
        }
        "estree" => format!(
            "{{\"c\":{},\"p\":{}}}",
            quoted_utf8(&serde_json::to_string(&module).unwrap()),
            quoted_utf8(&serde_json::to_string_pretty(&module).unwrap())
        ),
        "debug" => format!(
            "{{\"c\":{},\"p\":{}}}",
            quoted(&format!("{:?}", module.body())), quoted(&format!("{:#?}", module.body()))
        ),
        "module" => quoted(&format!("{:?}", module)),
        _ => panic!("unknown view"),
    }
}

/// JSON text is passed on as it is, in UTF-8
fn quoted_utf8(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn answer(line: &str) -> String {
    let req: Value = match serde_json::from_str(line) {
        Ok(v) => v,
        Err(e) => return format!("{{\"bad\":{}}}", quoted(&e.to_string())),
    };
    let mut out = format!("{{\"id\":{}", req["id"]);
    for name in req["want"].as_array().unwrap() {
        let name = name.as_str().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| view(name, &req)));
        out.push_str(&format!(",\"{}\":", name));
        match r {
            Ok(s) => out.push_str(&s),
            Err(p) => {
                let msg = p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                out.push_str(&format!("{{\"panic\":{}}}", quoted(&msg)));
            }
        }
    }
    out.push('}');
    out
}

fn main() {
    ::std::panic::set_hook(Box::new(|_| {}));
    let worker = thread::Builder::new().stack_size(1 << 29).spawn(|| {
        let stdin = io::stdin();
        let stdout = io::stdout();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            if line.is_empty() {
                continue;
            }
            let a = answer(&line);
            let mut o = stdout.lock();
            o.write_all(a.as_bytes()).unwrap();
            o.write_all(b"\n").unwrap();
            o.flush().unwrap();
        }
    }).unwrap();
    worker.join().unwrap();
}
