//! Parsed expressions as trees.
use dm::ast::*;
use dm::lexer::Lexer;
use dreammaker as dm;
use serde_json::{Value, json};

fn node(k: &str, o: &str, kids: Vec<Value>) -> Value {
    json!({"k": k, "o": o, "kids": kids})
}

fn args(a: &[Expression]) -> Vec<Value> {
    a.iter().map(expr).collect()
}

fn term(t: &Term) -> Value {
    match t {
        Term::Expr(e) => node("paren", "(", vec![expr(e)]),
        Term::Call(f, a) => node("call", &format!("{f}("), args(a)),
        Term::List(a) => node("call", "list(", args(a)),
        Term::InterpString(_, parts) => node("istr", "s[", parts.iter().filter_map(|p| p.0.as_ref()).map(expr).collect()),
        Term::Ident(i) => node("at", i, vec![]),
        Term::Int(i) => node("at", &i.to_string(), vec![]),
        Term::Float(f) => node("at", &f.to_string(), vec![]),
        Term::String(s) => node("at", &format!("\"{s}\""), vec![]),
        Term::Null => node("at", "null", vec![]),
        Term::Resource(s) => node("at", &format!("'{s}'"), vec![]),
        Term::Prefab(p) => node("at", &format!("{}", FormatTypePath(&p.path)), vec![]),
        other => node("other", &format!("{other:?}"), vec![]),
    }
}

pub fn expr(e: &Expression) -> Value {
    match e {
        Expression::Base { term: t, follow } => {
            let mut v = term(&t.elem);
            for f in follow.iter() {
                v = match &f.elem {
                    Follow::Index(kind, i) => {
                        let o = match kind {
                            ListAccessKind::Normal => "[",
                            ListAccessKind::Safe => "?[",
                        };
                        node("idx", o, vec![v, expr(i)])
                    },
                    Follow::Field(k, i) => node("field", &format!("{}{i}", k.name()), vec![v]),
                    Follow::Call(k, i, a) => {
                        let mut kids = vec![v];
                        kids.extend(args(a));
                        node("method", &format!("{}{i}(", k.name()), kids)
                    },
                    Follow::StaticField(i) => node("field", &format!("::{i}"), vec![v]),
                    Follow::ProcReference(i) => node("procref", &format!("::{i}("), vec![v]),
                    Follow::Unary(op) => match op {
                        UnaryOp::Neg => node("pre", "-", vec![v]),
                        UnaryOp::Not => node("pre", "!", vec![v]),
                        UnaryOp::BitNot => node("pre", "~", vec![v]),
                        UnaryOp::PreIncr => node("pre", "++", vec![v]),
                        UnaryOp::PreDecr => node("pre", "--", vec![v]),
                        UnaryOp::Reference => node("pre", "&", vec![v]),
                        UnaryOp::Dereference => node("pre", "*", vec![v]),
                        UnaryOp::PostIncr => node("post", "++", vec![v]),
                        UnaryOp::PostDecr => node("post", "--", vec![v]),
                    },
                };
            }
            v
        },
        Expression::BinaryOp { op, lhs, rhs } => node("bin", bin(*op), vec![expr(lhs), expr(rhs)]),
        Expression::AssignOp { op, lhs, rhs } => node("bin", asg(*op), vec![expr(lhs), expr(rhs)]),
        Expression::TernaryOp { cond, if_, else_ } => node("if", "?", vec![expr(cond), expr(if_), expr(else_)]),
    }
}

fn bin(op: BinaryOp) -> &'static str {
    use BinaryOp::*;
    match op {
        Add => "+", Sub => "-", Mul => "*", Div => "/", Pow => "**", Mod => "%", FloatMod => "%%",
        Eq => "==", NotEq => "!=", Less => "<", Greater => ">", LessEq => "<=", GreaterEq => ">=", LessOrGreater => "<=>",
        Equiv => "~=", NotEquiv => "~!", BitAnd => "&", BitXor => "^", BitOr => "|", LShift => "<<", RShift => ">>",
        And => "&&", Or => "||", In => "in", To => "to",
    }
}

fn asg(op: AssignOp) -> &'static str {
    use AssignOp::*;
    match op {
        Assign => "=", AddAssign => "+=", SubAssign => "-=", MulAssign => "*=", DivAssign => "/=", ModAssign => "%=",
        FloatModAssign => "%%=", AssignInto => ":=", BitAndAssign => "&=", AndAssign => "&&=", BitOrAssign => "|=",
        OrAssign => "||=", BitXorAssign => "^=", LShiftAssign => "<<=", RShiftAssign => ">>=",
    }
}

pub fn run(req: &Value) -> Value {
    let text = req["text"].as_str().unwrap();
    let ctx = dm::Context::default();
    let lexer = Lexer::new(&ctx, Default::default(), text.as_bytes());
    let toks: Vec<_> = lexer.filter(|t| !matches!(t.token, dm::lexer::Token::Punct(dm::lexer::Punctuation::Newline))).collect();
    let r = dm::parser::parse_expression(&ctx, Default::default(), toks);
    let errs: Vec<Value> = ctx.errors().iter().map(|e| json!(e.description())).collect();
    match r {
        Ok(e) => json!({"tree": expr(&e), "errs": errs}),
        Err(e) => json!({"err": e.description(), "errs": errs}),
    }
}
