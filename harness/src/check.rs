//! Whole programs run through the checker.
use dreammaker as dm;
use serde_json::{Value, json};

pub fn run(req: &Value) -> Value {
    let ctx = dm::Context::default();
    let tree = crate::tree::parse(&ctx, req["text"].as_str().unwrap(), true);
    let parsed = ctx.errors().len();
    dreamchecker::run(&ctx, &tree);
    let errors = ctx
        .errors()
        .iter()
        .enumerate()
        .map(|(i, e)| {
            json!({"line": e.location().line, "col": e.location().column, "sev": e.severity() as u8, "t": e.errortype().unwrap_or(""), "desc": e.description(), "parse": i < parsed,
                "notes": e.notes().iter().map(|n| json!([n.location().line, n.description()])).collect::<Vec<_>>()})
        })
        .collect::<Vec<_>>();
    json!({"errors": errors})
}
