//! Preprocessor runs over a project written to a scratch directory.
use dreammaker as dm;
use dm::lexer::{LocatedToken, Token};
use dm::preprocessor::Preprocessor;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!(
            "vh-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn write(&self, rel: &str, text: &[u8]) {
        let p = self.0.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn errors(ctx: &dm::Context, root: &str) -> Vec<Value> {
    ctx.errors()
        .iter()
        .map(|e| {
            let l = e.location();
            json!({
                "file": rel(ctx, l.file, root), "l": l.line, "c": l.column,
                "sev": format!("{:?}", e.severity()),
                "desc": e.description().replace(root, ""),
                "type": e.errortype(),
            })
        })
        .collect()
}

pub fn rel(ctx: &dm::Context, f: dm::FileId, root: &str) -> String {
    if f == dm::FileId::default() || f == dm::Location::builtins().file {
        return format!("{f:?}");
    }
    ctx.file_path(f).display().to_string().replace(root, "")
}

fn tok(ctx: &dm::Context, t: &LocatedToken, root: &str) -> Value {
    let s = match &t.token {
        Token::String(s) => format!("\"{}\"", s.replace(root, "")),
        Token::Punct(dm::lexer::Punctuation::Newline) => "\n".to_owned(),
        o => format!("{o}"),
    };
    json!([s, rel(ctx, t.location.file, root), t.location.line, t.location.column])
}

/// {files: [[path, text]...], env, max, probes: [[path, text]...], end: text|null}
pub fn run(req: &Value) -> Value {
    let dir = Scratch::new();
    for f in req["files"].as_array().unwrap() {
        dir.write(f[0].as_str().unwrap(), f[1].as_str().unwrap().as_bytes());
    }
    let max = req["max"].as_u64().unwrap_or(20000) as usize;
    let root = format!("{}/", dir.0.display());
    let ctx = dm::Context::default();
    let mut pp = match Preprocessor::new(&ctx, dir.0.join(req["env"].as_str().unwrap())) {
        Ok(p) => p,
        Err(e) => return json!({"openfail": e.description()}),
    };
    let mut toks = Vec::new();
    let mut n = 0;
    let mut over = false;
    for t in &mut pp {
        n += 1;
        if n > max {
            over = true;
            break;
        }
        toks.push(tok(&ctx, &t, &root));
    }
    let errs = errors(&ctx, &root);
    if over {
        return json!({"over": true, "errs": errs});
    }
    let mut probes = Vec::new();
    if req["probes"].is_array() || req["end"].is_string() {
        let hist = pp.finalize();
        let go = |mut p: Preprocessor, path: &str, text: &str| -> Value {
            let cur = std::io::Cursor::new(text.as_bytes().to_vec());
            if let Err(e) = p.push_file(PathBuf::from(path), cur) {
                return json!({"pushfail": e.description()});
            }
            Value::Array(p.take(max).map(|t| tok(&ctx, &t, &root)).collect())
        };
        for pr in req["probes"].as_array().into_iter().flatten() {
            let (path, text) = (pr[0].as_str().unwrap(), pr[1].as_str().unwrap());
            match ctx.get_file(Path::new(path)) {
                None => probes.push(Value::Null),
                Some(id) => probes.push(go(hist.branch_at_file(id, &ctx), path, text)),
            }
        }
        if let Some(text) = req["end"].as_str() {
            probes.push(go(hist.branch_at_end(&ctx), "zz_new_file.dm", text));
        }
    }
    json!({"toks": toks, "errs": errs, "probes": probes})
}
