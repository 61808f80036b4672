//! Token streams after the indentation processor.
use dreammaker as dm;
use dm::indents::IndentProcessor;
use dm::lexer::Lexer;
use serde_json::{Value, json};

pub fn run(req: &Value) -> Value {
    let text = req["text"].as_str().unwrap();
    let ctx = dm::Context::default();
    let limit = text.len() * 4 + 50;
    let mut toks = Vec::new();
    for t in IndentProcessor::new(&ctx, Lexer::new(&ctx, Default::default(), text.as_bytes())) {
        toks.push(json!([crate::lex::show(&t.token).1, t.location.line]));
        if toks.len() > limit {
            return json!({"over": true});
        }
    }
    let errs: Vec<Value> = ctx.errors().iter().map(|e| json!([e.description(), e.location().line])).collect();
    json!({"toks": toks, "errs": errs})
}
