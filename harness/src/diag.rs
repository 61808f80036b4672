//! Diagnostics and their configuration.
use dm::{Component, DMError, Location, Severity};
use dreammaker as dm;
use serde_json::{Value, json};

fn severity(v: &Value) -> Severity {
    match v.as_i64() {
        Some(1) => Severity::Error,
        Some(2) => Severity::Warning,
        Some(3) => Severity::Info,
        _ => Severity::Hint,
    }
}

fn intern(s: &str) -> &'static str {
    use std::collections::BTreeSet;
    use std::sync::Mutex;
    static ALL: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut all = ALL.lock().unwrap();
    if let Some(s) = all.get(s) {
        return s;
    }
    let s: &'static str = Box::leak(s.to_owned().into_boxed_str());
    all.insert(s);
    s
}

pub fn run(req: &Value) -> Value {
    let dir = crate::pp::Scratch::new();
    let mut ctx = dm::Context::default();
    let file = ctx.register_file("source.dm".as_ref());
    for op in req["ops"].as_array().unwrap() {
        match op["k"].as_str().unwrap() {
            k @ ("load" | "bad") => {
                let path = dir.0.join("some.toml");
                if k == "load" || op["text"].is_string() {
                    std::fs::write(&path, op["text"].as_str().unwrap()).unwrap();
                    ctx.force_config(&path);
                } else {
                    ctx.force_config(&dir.0.join("missing.toml"));
                }
            },
            k @ ("auto" | "noauto") => {
                let path = dir.0.join("SpacemanDMM.toml");
                if k == "auto" {
                    std::fs::write(&path, op["text"].as_str().unwrap()).unwrap();
                }
                ctx.autodetect_config(&dir.0.join("env.dme"));
                let _ = std::fs::remove_file(&path);
            },
            "program" => {
                let tree = crate::tree::parse(&ctx, op["text"].as_str().unwrap(), true);
                dreamchecker::run(&ctx, &tree);
            },
            _ => {
                let d = &op["d"];
                let loc = Location { file, line: d["line"].as_u64().unwrap() as u32, column: d["col"].as_u64().unwrap() as u16 };
                let mut e = DMError::new(loc, d["desc"].as_str().unwrap()).set_severity(severity(&d["sev"]));
                if d["t"] != "" {
                    e = e.with_errortype(intern(d["t"].as_str().unwrap()));
                }
                if d["checker"] == true {
                    e = e.with_component(Component::DreamChecker);
                }
                for n in d["notes"].as_array().unwrap() {
                    e.add_note(Location { file, line: n[0].as_u64().unwrap() as u32, column: 1 }, n[1].as_str().unwrap());
                }
                e.register(&ctx);
            },
        }
    }
    let errs = ctx.errors();
    Value::Array(
        errs.iter()
            .map(|e| {
                let mut printed = Vec::new();
                ctx.pretty_print_error_nocolor(&mut printed, e).unwrap();
                json!({"line": e.location().line, "col": e.location().column, "sev": e.severity() as u8, "t": e.errortype().unwrap_or(""),
                    "desc": e.description(), "component": e.component().to_string(), "shown": e.to_string(),
                    "printed": String::from_utf8_lossy(&printed).replace(dir.0.to_str().unwrap(), "DIR"),
                    "notes": e.notes().iter().map(|n| json!([n.location().line, n.description()])).collect::<Vec<_>>()})
            })
            .collect(),
    )
}
