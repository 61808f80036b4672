//! Token streams straight from the lexer.
use dreammaker as dm;
use dm::docs::{CommentKind, DocTarget};
use dm::lexer::{Lexer, Punctuation, Token};
use serde_json::{Value, json};

pub fn show(t: &Token) -> (&'static str, String) {
    match t {
        Token::Eof => ("eof", String::new()),
        Token::Punct(p) => ("punct", if *p == Punctuation::CloseColon { ":".into() } else { p.to_string() }),
        Token::Ident(s, w) => (if *w { "idw" } else { "id" }, s.to_string()),
        Token::String(s) => ("str", s.clone()),
        Token::InterpStringBegin(s) => ("ib", s.clone()),
        Token::InterpStringPart(s) => ("ip", s.clone()),
        Token::InterpStringEnd(s) => ("ie", s.clone()),
        Token::Resource(s) => ("res", s.clone()),
        Token::Int(i) => ("int", i.to_string()),
        Token::Float(f) => ("float", f.to_bits().to_string()),
        Token::DocComment(d) => (
            "doc",
            format!(
                "{}{}",
                match (d.kind, d.target) {
                    (CommentKind::Block, DocTarget::FollowingItem) => "b*",
                    (CommentKind::Block, DocTarget::EnclosingItem) => "b!",
                    (CommentKind::Line, DocTarget::FollowingItem) => "l/",
                    (CommentKind::Line, DocTarget::EnclosingItem) => "l!",
                },
                d.text
            ),
        ),
    }
}

pub fn run(req: &Value) -> Value {
    let text: Vec<u8> = req["bytes"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
    let ctx = dm::Context::default();
    let limit = text.len() * 2 + 50;
    let mut toks = Vec::new();
    for t in Lexer::new(&ctx, Default::default(), text.as_slice()) {
        let (k, s) = show(&t.token);
        toks.push(json!([k, s, t.location.line, t.location.column]));
        if toks.len() > limit {
            return json!({"over": true});
        }
    }
    let errs: Vec<Value> = ctx.errors().iter().map(|e| json!([e.description(), e.location().line])).collect();
    json!({"toks": toks, "errs": errs})
}
