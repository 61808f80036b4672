//! Object trees of whole programs.
use dm::constants::Constant;
use dm::objtree::{ObjectTree, ProcRef, TypeRef};
use dreammaker as dm;
use serde_json::{Map, Value, json};
use std::collections::HashSet;
use std::sync::OnceLock;

pub fn parse(ctx: &dm::Context, text: &str, procs: bool) -> ObjectTree {
    let pp = dm::preprocessor::Preprocessor::from_buffer(ctx, "prog.dm".into(), text.to_owned());
    let indents = dm::indents::IndentProcessor::new(ctx, pp);
    let mut parser = dm::parser::Parser::new(ctx, indents);
    if procs {
        parser.enable_procs();
    }
    parser.parse_object_tree()
}

fn builtin_paths() -> &'static HashSet<String> {
    static S: OnceLock<HashSet<String>> = OnceLock::new();
    S.get_or_init(|| ObjectTree::with_builtins().iter_types().map(|t| t.path.clone()).collect())
}

pub fn constant(c: Option<&Constant>) -> Value {
    match c {
        None => Value::Null,
        Some(Constant::Null(_)) => json!({"k": "null"}),
        Some(Constant::Float(f)) => json!({"k": "num", "bits": f.to_bits()}),
        Some(Constant::String(s)) => json!({"k": "str", "s": s.as_str()}),
        Some(Constant::Prefab(p)) => json!({"k": "path", "s": p.to_string()}),
        Some(Constant::Resource(s)) => json!({"k": "res", "s": s.as_str()}),
        Some(Constant::List(a)) => json!({"k": "list", "s": "list", "a": args(a)}),
        Some(Constant::Call(f, a)) => json!({"k": "list", "s": f.to_string(), "a": args(a)}),
        Some(other) => json!({"k": "other", "s": other.to_string()}),
    }
}

fn args(a: &[(Constant, Option<Constant>)]) -> Value {
    a.iter().map(|(k, v)| json!([constant(Some(k)), constant(v.as_ref())])).collect()
}

pub fn errs(ctx: &dm::Context) -> Vec<Value> {
    ctx.errors()
        .iter()
        .map(|e| json!([e.location().line, e.description(), format!("{:?}", e.severity()), e.errortype(), e.location().column]))
        .collect()
}

fn chain(p: Option<ProcRef>) -> Value {
    let mut out = Vec::new();
    let mut cur = p;
    while let Some(p) = cur {
        let line = if p.location.is_builtins() { 0 } else { p.location.line };
        out.push(json!([p.ty().path, line]));
        if out.len() > 200 {
            return json!("endless");
        }
        cur = p.parent_proc();
    }
    Value::Array(out)
}

/// A proc's parameters and a digest of its code, or null.
fn body(p: &dm::objtree::ProcValue) -> Value {
    use std::hash::{Hash, Hasher};
    if p.location.is_builtins() {
        return Value::Null;
    }
    let digest = p.code.as_ref().map(|c| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        format!("{c:?}").hash(&mut h);
        format!("{:x}", h.finish())
    });
    json!([p.location.line, p.parameters.iter().map(|q| q.name.to_string()).collect::<Vec<_>>(), digest])
}

fn lookup<'a>(t: &'a ObjectTree, path: &str) -> Option<TypeRef<'a>> {
    t.find(path)
}

pub fn run(req: &Value) -> Value {
    let ctx = dm::Context::default();
    let tree = parse(&ctx, req["text"].as_str().unwrap(), req["procs"].as_bool().unwrap_or(false));
    let mut types = Map::new();
    for t in tree.iter_types() {
        // Declarations of the program only: its own types, and what it added to built-in ones.
        let ours = !builtin_paths().contains(&t.path);
        let mut vars = Map::new();
        for (n, v) in t.vars.iter() {
            if !v.value.location.is_builtins() {
                vars.insert(
                    n.to_string(),
                    json!({"decl": v.declaration.as_ref().is_some_and(|d| !d.location.is_builtins()), "line": v.value.location.line, "c": constant(v.value.constant.as_ref()),
                        "type": v.declaration.as_ref().map(|d| d.var_type.type_path.join("/")),
                        "flags": v.declaration.as_ref().map(|d| d.var_type.flags.to_string())}),
                );
            }
        }
        let mut procs = Map::new();
        for (n, p) in t.procs.iter() {
            if p.value.iter().any(|v| !v.location.is_builtins()) {
                procs.insert(
                    n.to_string(),
                    json!({"decl": p.declaration.as_ref().filter(|d| !d.location.is_builtins()).map(|d| json!([d.location.line, d.kind.name()])),
                        "final": p.declaration.as_ref().is_some_and(|d| d.flags.is_final()),
                        "lines": p.value.iter().map(|v| if v.location.is_builtins() { 0 } else { v.location.line }).collect::<Vec<_>>(),
                        "bodies": if req["bodies"].is_null() { Value::Null } else { p.value.iter().map(body).collect() }}),
                );
            }
        }
        if ours || !vars.is_empty() || !procs.is_empty() {
            let line = if t.location.is_builtins() { 0 } else { t.location.line };
            types.insert(
                t.path.clone(),
                json!({"own": ours, "parent": t.parent_type().map(|p| p.path.clone()), "path_parent": t.parent_path().map(|p| p.path.clone()),
                    "line": line, "vars": vars, "procs": procs}),
            );
        }
    }
    let pairs = |k: &str| -> Vec<(String, String)> {
        req[k].as_array().into_iter().flatten().map(|p| (p[0].as_str().unwrap().to_owned(), p[1].as_str().unwrap().to_owned())).collect()
    };
    let values: Vec<Value> = pairs("values")
        .iter()
        .map(|(p, n)| match lookup(&tree, p) {
            None => json!("no type"),
            Some(t) => match t.get_value(n) {
                None => Value::Null,
                Some(v) => json!({"line": v.location.line, "c": constant(v.constant.as_ref()),
                    "decl": t.get_var_declaration(n).map(|d| d.location.line)}),
            },
        })
        .collect();
    let chains: Vec<Value> = pairs("chains")
        .iter()
        .map(|(p, n)| match lookup(&tree, p) {
            None => json!("no type"),
            Some(t) => json!({"chain": chain(t.get_proc(n)),
                "decl": t.get_proc_declaration(n).map(|d| json!([if d.location.is_builtins() {0} else {d.location.line}, d.kind.name()]))}),
        })
        .collect();
    let subtype: Vec<Value> = pairs("subtype")
        .iter()
        .map(|(a, b)| match (lookup(&tree, a), lookup(&tree, b)) {
            (Some(a), Some(b)) => json!(a.is_subtype_of(&b)),
            _ => json!("no type"),
        })
        .collect();
    let mut descend = Map::new();
    for p in req["descend"].as_array().into_iter().flatten() {
        let p = p.as_str().unwrap();
        if let Some(t) = lookup(&tree, p) {
            let mut v = Vec::new();
            t.recurse_types(&mut |t| {
                if v.len() < 1000 {
                    v.push(t.path.clone());
                }
            });
            descend.insert(p.to_owned(), json!(v));
        }
    }
    json!({"types": types, "errs": errs(&ctx), "values": values, "chains": chains, "subtype": subtype, "descend": descend})
}
