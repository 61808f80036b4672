//! Documentation: what is attached to what.
use crate::pp::Scratch;
use dm::docs::{CommentKind, DocCollection, DocComment};
use dreammaker as dm;
use serde_json::{Value, json};

fn one(c: &DocComment) -> Value {
    json!([match c.kind { CommentKind::Block => "block", CommentKind::Line => "line" }, c.text])
}

fn all(key: String, d: &DocCollection, out: &mut Vec<Value>) {
    let elems: Vec<Value> = d.clone().into_iter().map(|c| one(&c)).collect();
    if !elems.is_empty() {
        out.push(json!([key, elems, d.text()]));
    }
}

pub fn run(req: &Value) -> Value {
    let text = req["text"].as_str().unwrap();
    let ctx = dm::Context::default();
    let pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "prog.dm".into(), text.to_owned());
    let indents = dm::indents::IndentProcessor::new(&ctx, pp);
    let mut parser = dm::parser::Parser::new(&ctx, indents);
    if req["procs"].as_bool().unwrap() {
        parser.enable_procs();
    }
    let (tree, module) = parser.parse_with_module_docs();
    let mut out = Vec::new();
    for t in tree.iter_types() {
        all(t.path.clone(), &t.docs, &mut out);
        for (n, v) in t.vars.iter() {
            all(format!("{}:{n}", t.path), &v.value.docs, &mut out);
        }
        for (n, p) in t.procs.iter() {
            for v in &p.value {
                all(format!("{}:{n}()", t.path), &v.docs, &mut out);
            }
        }
    }
    let scratch = Scratch::new();
    scratch.write("prog.dm", text.as_bytes());
    let ctx2 = dm::Context::default();
    let mut pp = dm::preprocessor::Preprocessor::new(&ctx2, scratch.0.join("prog.dm")).unwrap();
    for _ in pp.by_ref() {}
    let hist = pp.finalize();
    for (_, (name, define)) in hist.iter() {
        all(format!("#{name}"), define.docs(), &mut out);
    }
    let module: Vec<Value> = module.values().flatten().map(|(line, c)| json!([line, one(c)])).collect();
    json!({"docs": out, "module": module, "errs": crate::tree::errs(&ctx)})
}
