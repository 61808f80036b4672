//! Map files: reading, writing, and the map in memory.
use dm::ast::{Ident, TreePath};
use dm::constants::{ConstFn, Constant, Pop};
use dmm_tools::dmm::{Coord3, Key, Map, Prefab};
use dreammaker as dm;
use serde_json::{Value, json};

fn path(s: &str) -> TreePath {
    s.split('/').filter(|p| !p.is_empty()).map(|p| Ident::from(p.to_owned())).collect::<Vec<Ident>>().into_boxed_slice()
}

fn args(v: &Value) -> Box<[(Constant, Option<Constant>)]> {
    v.as_array().unwrap().iter().map(|e| (value(&e[0]), e.get(1).filter(|x| !x.is_null()).map(value))).collect()
}

pub fn value(v: &Value) -> Constant {
    let (k, x) = v.as_object().unwrap().iter().next().unwrap();
    match k.as_str() {
        "num" => Constant::Float(f32::from_bits(x.as_u64().unwrap() as u32)),
        "str" => Constant::String(x.as_str().unwrap().to_owned().into()),
        "res" => Constant::Resource(x.as_str().unwrap().to_owned().into()),
        "path" => Constant::Prefab(Box::new(Pop::from(path(x.as_str().unwrap())))),
        "list" => Constant::List(args(x)),
        "matrix" => Constant::Call(ConstFn::Matrix, args(x)),
        "newlist" => Constant::Call(ConstFn::Newlist, args(x)),
        "icon" => Constant::Call(ConstFn::Icon, args(x)),
        "sound" => Constant::Call(ConstFn::Sound, args(x)),
        "filter" => Constant::Call(ConstFn::Filter, args(x)),
        "file" => Constant::Call(ConstFn::File, args(x)),
        "new" => Constant::New { type_: Some(Box::new(Pop::from(path(x[0].as_str().unwrap())))), args: if x[1].is_null() { None } else { Some(args(&x[1])) } },
        _ => Constant::Null(None),
    }
}

fn dump_args(a: &[(Constant, Option<Constant>)]) -> Value {
    Value::Array(a.iter().map(|(k, v)| json!([dump(k), v.as_ref().map(dump)])).collect())
}

fn pop(p: &Pop) -> String {
    let mut s: String = p.path.iter().map(|x| format!("/{x}")).collect();
    if !p.vars.is_empty() {
        s.push_str(&format!("{{{} vars}}", p.vars.len()));
    }
    s
}

pub fn dump(c: &Constant) -> Value {
    match c {
        Constant::Float(f) => json!({"num": f.to_bits()}),
        Constant::String(s) => json!({"str": s.as_str()}),
        Constant::Resource(s) => json!({"res": s.as_str()}),
        Constant::Prefab(p) => json!({"path": pop(p)}),
        Constant::List(a) => json!({"list": dump_args(a)}),
        Constant::Call(f, a) => json!({f.to_string(): dump_args(a)}),
        Constant::New { type_, args } => json!({"new": [type_.as_ref().map(|t| pop(t)), args.as_ref().map(|a| dump_args(a))]}),
        Constant::Null(_) => json!({"null": 1}),
    }
}

fn key(n: u64) -> Key {
    let mut k = Key::default();
    for _ in 0..n {
        k = k.next();
    }
    k
}

/// The number of a key, from its text.
fn number(map: &Map, k: Key) -> u64 {
    map.format_key(k).to_string().bytes().fold(0, |n, c| n * 52 + if c.is_ascii_lowercase() { c - b'a' } else { c - b'A' + 26 } as u64)
}

fn object(v: &Value) -> Prefab {
    let mut p = Prefab::from_path(v["path"].as_str().unwrap());
    for kv in v["vars"].as_array().unwrap() {
        p.vars.insert(kv[0].as_str().unwrap().to_owned(), value(&kv[1]));
    }
    p
}

fn dump_map(map: &Map) -> Value {
    let (dx, dy, dz) = map.dim_xyz();
    let table: Vec<Vec<Vec<u64>>> = (1..=dz).map(|z| (1..=dy).map(|y| (1..=dx).map(|x| number(map, map[Coord3::new(x as i32, y as i32, z as i32)])).collect()).collect()).collect();
    let mut levels = Vec::new();
    for (z, level) in map.iter_levels() {
        let mut cells = 0;
        for (c, k) in level.iter_top_down() {
            cells += 1;
            if map[c.z(z)] != k || level[c] != k || map.z_level(z as usize - 1)[c] != k {
                levels.push(json!([z, c.x, c.y]));
            }
        }
        if cells != dx * dy {
            levels.push(json!([z, "cells", cells]));
        }
    }
    let dict: Vec<Value> = map
        .dictionary
        .iter()
        .map(|(k, objs)| {
            json!([number(map, *k), objs.iter().map(|o| json!({"path": o.path, "vars": o.vars.iter().map(|(k, v)| json!([k, dump(v)])).collect::<Vec<_>>()})).collect::<Vec<_>>()])
        })
        .collect();
    json!({"dims": [dx, dy, dz], "table": table, "dict": dict, "kl": map.key_length(), "views_differ": levels})
}

fn text(map: &Map) -> Vec<u8> {
    let mut v = Vec::new();
    map.to_writer(&mut v).unwrap();
    v
}

pub fn run(req: &Value) -> Value {
    let dir = crate::pp::Scratch::new();
    if let Some(t) = req["text"].as_str() {
        // every char is one byte
        let f = dir.0.join("in.dmm");
        std::fs::write(&f, t.chars().map(|c| c as u32 as u8).collect::<Vec<u8>>()).unwrap();
        return match Map::from_file(&f) {
            Ok(map) => {
                let mut d = dump_map(&map);
                if req["dictonly"] == true {
                    d["table"] = Value::Null;
                }
                json!({"ok": d})
            },
            Err(e) => json!({"error": e.description()}),
        };
    }
    let d: Vec<usize> = req["dims"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let mut map = if req["plain"] == true {
        Map::new(d[0], d[1], d[2], "/turf".into(), "/area".into())
    } else {
        Map::with_empty_dictionary(d[0], d[1], d[2])
    };
    let mut out = Vec::new();
    for op in req["ops"].as_array().unwrap() {
        match op["o"].as_str().unwrap() {
            "entry" => {
                let k = key(op["a"].as_u64().unwrap());
                map.dictionary.insert(k, op["objs"].as_array().unwrap().iter().map(object).collect());
            },
            "drop" => {
                map.dictionary.remove(&key(op["a"].as_u64().unwrap()));
            },
            "tile" => {
                let c: Vec<usize> = op["c"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let dy = map.dim_xyz().1;
                map.grid[[c[2] - 1, dy - c[1], c[0] - 1]] = key(op["b"].as_u64().unwrap());
            },
            "save" => {
                map.adjust_key_length();
                map.to_file(&dir.0.join(format!("{}.dmm", op["a"]))).unwrap();
            },
            _ => {
                let f = dir.0.join(format!("{}.dmm", op["a"]));
                match Map::from_file(&f) {
                    Ok(m) => {
                        map = m;
                        let mut d = dump_map(&map);
                        let again = text(&map);
                        let was = std::fs::read(&f).unwrap();
                        if again != was {
                            d["text_differs"] = json!([String::from_utf8_lossy(&was), String::from_utf8_lossy(&again)]);
                        }
                        out.push(d);
                    },
                    Err(e) => {
                        out.push(json!({"error": e.description(), "text": String::from_utf8_lossy(&std::fs::read(&f).unwrap())}));
                        break;
                    },
                }
            },
        }
    }
    Value::Array(out)
}
