//! Minimaps: a program, its icons and a map, drawn.
use crate::pp::Scratch;
use dmm_tools::dmm::Map;
use dmm_tools::IconCache;
use dmm_tools::{minimap, render_passes};
use dreammaker as dm;
use serde_json::{Value, json};

/// The pixel of a sheet's cell `n`; the specification has the same formula.
fn pixel(n: u32, x: u32, y: u32, holes: u32) -> lodepng::RGBA {
    let m = (x + 2 * y + n) % holes;
    lodepng::RGBA {
        r: ((40 * n + 7 * x + 13) % 256) as u8,
        g: ((90 * n + 11 * y + 5) % 256) as u8,
        b: ((3 * x + 5 * y + 17 * n) % 256) as u8,
        a: if m == 1 { 0 } else if m == 2 { (100 + 10 * (x % 8)) as u8 } else { 255 },
    }
}

fn sheet(v: &Value) -> Vec<u8> {
    let n = |k: &str| v[k].as_u64().unwrap() as u32;
    let (w, h, cols, rows) = (n("w"), n("h"), n("cols"), n("rows"));
    let mut px = Vec::new();
    for y in 0..rows * h {
        for x in 0..cols * w {
            px.push(pixel((y / h) * cols + x / w, x % w, y % h, n("holes")));
        }
    }
    let mut e = lodepng::Encoder::new();
    e.set_auto_convert(false);
    e.info_png_mut().add_text("Description", v["text"].as_str().unwrap()).unwrap();
    e.encode(&px, (cols * w) as usize, (rows * h) as usize).unwrap()
}

pub fn run(req: &Value) -> Value {
    let scratch = Scratch::new();
    let root = &scratch.0;
    for v in req["icons"].as_array().unwrap() {
        std::fs::write(root.join(v["path"].as_str().unwrap()), sheet(v)).unwrap();
    }
    std::fs::write(root.join("m.dmm"), req["map"].as_str().unwrap()).unwrap();
    let mut ctx = dm::Context::default();
    if let Some(t) = req["config"].as_str() {
        std::fs::write(root.join("SpacemanDMM.toml"), t).unwrap();
        ctx.force_config(&root.join("SpacemanDMM.toml"));
    }
    let tree = crate::tree::parse(&ctx, req["dm"].as_str().unwrap(), false);
    let map = match Map::from_file(&root.join("m.dmm")) {
        Ok(m) => m,
        Err(e) => return json!({"error": e.to_string()}),
    };
    let passes = render_passes::configure(&ctx.config().map_renderer, req["include"].as_str().unwrap(), req["exclude"].as_str().unwrap());
    let mut icons = IconCache::default();
    icons.set_icons_root(root);
    let bump = bumpalo::Bump::new();
    let errors = Default::default();
    let z = req["z"].as_u64().unwrap() as usize;
    let level = map.z_level(z);
    let mut out = Vec::new();
    for r in req["looks"].as_array().unwrap() {
        let c = |k: &str, i: usize| r[k][i].as_u64().unwrap() as usize;
        let img = minimap::generate(
            minimap::Context {
                objtree: &tree,
                map: &map,
                level,
                min: (c("min", 0), c("min", 1)),
                max: (c("max", 0), c("max", 1)),
                render_passes: &passes,
                errors: &errors,
                bump: &bump,
                print_errors: false,
            },
            &icons,
        );
        let Ok(img) = img else { return json!({"error": "render"}) };
        let data = img.data.as_slice().unwrap();
        let px = r["look"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| {
                let q = data[(p[1].as_u64().unwrap() as u32 * img.width + p[0].as_u64().unwrap() as u32) as usize];
                json!([q.r, q.g, q.b, q.a])
            })
            .collect::<Vec<_>>();
        out.push(json!({"w": img.width, "h": img.height, "img": px}));
    }
    json!({"views": out})
}

/// Where the marking pixel of a sheet's cell is; the check has the same formula.
fn mark(p: u32) -> (u32, u32) {
    (4 + p % 27, 1 + p / 27 % 27)
}

/// Maps drawn with sheets whose states are told apart by single pixels.
pub fn smooth(req: &Value) -> Value {
    let scratch = Scratch::new();
    let root = &scratch.0;
    for (k, v) in req["icons"].as_array().unwrap().iter().enumerate() {
        let states = v["states"].as_array().unwrap();
        let mut px = vec![lodepng::RGBA { r: 0, g: 0, b: 0, a: 0 }; 32 * 32 * states.len()];
        let mut text = String::from("# BEGIN DMI\nversion = 4.0\n\twidth = 32\n\theight = 32\n");
        for (i, s) in states.iter().enumerate() {
            let (x, y) = mark(v["at"].as_u64().unwrap() as u32 + i as u32);
            px[(y as usize * states.len() + i) * 32 + x as usize] = lodepng::RGBA { r: 1 + k as u8, g: i as u8, b: (i >> 8) as u8, a: 255 };
            text += &format!("state = \"{}\"\n\tdirs = 1\n\tframes = 1\n", s.as_str().unwrap());
        }
        let mut e = lodepng::Encoder::new();
        e.set_auto_convert(false);
        e.info_png_mut().add_text("Description", &(text + "# END DMI\n")).unwrap();
        std::fs::write(root.join(v["path"].as_str().unwrap()), e.encode(&px, 32 * states.len(), 32).unwrap()).unwrap();
    }
    let ctx = dm::Context::default();
    let tree = crate::tree::parse(&ctx, req["dm"].as_str().unwrap(), false);
    let passes = render_passes::configure(&ctx.config().map_renderer, req["include"].as_str().unwrap(), "all");
    let mut icons = IconCache::default();
    icons.set_icons_root(root);
    let errors = Default::default();
    let mut out = Vec::new();
    for (i, m) in req["maps"].as_array().unwrap().iter().enumerate() {
        let path = root.join(format!("{i}.dmm"));
        std::fs::write(&path, m["text"].as_str().unwrap()).unwrap();
        let map = match Map::from_file(&path) {
            Ok(m) => m,
            Err(e) => return json!({"error": e.to_string()}),
        };
        let c = |k: &str, i: usize| m[k][i].as_u64().unwrap() as usize;
        let bump = bumpalo::Bump::new();
        let img = minimap::generate(
            minimap::Context {
                objtree: &tree,
                map: &map,
                level: map.z_level(0),
                min: (c("min", 0), c("min", 1)),
                max: (c("max", 0), c("max", 1)),
                render_passes: &passes,
                errors: &errors,
                bump: &bump,
                print_errors: false,
            },
            &icons,
        );
        let Ok(img) = img else { return json!({"error": "render"}) };
        let data = img.data.as_slice().unwrap();
        out.push(
            data.iter()
                .enumerate()
                .filter(|(_, q)| q.a != 0)
                .map(|(i, q)| json!([i as u32 % img.width, i as u32 / img.width, q.r, q.g, q.b]))
                .collect::<Vec<_>>(),
        );
    }
    json!({"marks": out})
}

/// A map drawn (repeatedly) with sheets every cell of which has a pixel of its
/// own, and two they share; the check has the same formulas.
pub fn passes(req: &Value) -> Value {
    let scratch = Scratch::new();
    let root = &scratch.0;
    for v in req["icons"].as_array().unwrap() {
        let states = v["states"].as_array().unwrap();
        let dirs = v["dirs"].as_u64().unwrap() as usize;
        let n = states.len() * dirs;
        let mut px = vec![lodepng::RGBA { r: 0, g: 0, b: 0, a: 0 }; 32 * 32 * n];
        for i in 0..n {
            let g = v["first"].as_u64().unwrap() as usize + i;
            let c = |a: u8| lodepng::RGBA { r: (1 + g % 251) as u8, g: ((g * 7 + 3) % 256) as u8, b: ((g * 29 + 11) % 256) as u8, a };
            px[(g / 32 * n + i) * 32 + g % 32] = c(255);
            px[(31 * n + i) * 32] = c(255);
            px[(31 * n + i) * 32 + 1] = c(128);
        }
        let mut text = String::from("# BEGIN DMI\nversion = 4.0\n\twidth = 32\n\theight = 32\n");
        for s in states {
            text += &format!("state = \"{}\"\n\tdirs = {dirs}\n\tframes = 1\n", s.as_str().unwrap());
        }
        let mut e = lodepng::Encoder::new();
        e.set_auto_convert(false);
        e.info_png_mut().add_text("Description", &(text + "# END DMI\n")).unwrap();
        let path = root.join(v["path"].as_str().unwrap());
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, e.encode(&px, 32 * n, 32).unwrap()).unwrap();
    }
    std::fs::write(root.join("m.dmm"), req["map"].as_str().unwrap()).unwrap();
    let mut ctx = dm::Context::default();
    std::fs::write(root.join("SpacemanDMM.toml"), req["config"].as_str().unwrap()).unwrap();
    ctx.force_config(&root.join("SpacemanDMM.toml"));
    let tree = crate::tree::parse(&ctx, req["dm"].as_str().unwrap(), false);
    let map = match Map::from_file(&root.join("m.dmm")) {
        Ok(m) => m,
        Err(e) => return json!({"error": e.to_string()}),
    };
    let passes = render_passes::configure(&ctx.config().map_renderer, req["include"].as_str().unwrap(), req["exclude"].as_str().unwrap());
    let mut icons = IconCache::default();
    icons.set_icons_root(root);
    let errors = Default::default();
    let c = |k: &str, i: usize| req[k][i].as_u64().unwrap() as usize;
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..req["repeat"].as_u64().unwrap() {
        let bump = bumpalo::Bump::new();
        let img = minimap::generate(
            minimap::Context {
                objtree: &tree,
                map: &map,
                level: map.z_level(0),
                min: (c("min", 0), c("min", 1)),
                max: (c("max", 0), c("max", 1)),
                render_passes: &passes,
                errors: &errors,
                bump: &bump,
                print_errors: false,
            },
            &icons,
        );
        let Ok(img) = img else { return json!({"error": "render"}) };
        let data = img.data.as_slice().unwrap();
        seen.insert(
            data.iter()
                .enumerate()
                .filter(|(_, q)| q.a != 0)
                .map(|(i, q)| [i as u32 % img.width, i as u32 / img.width, q.r as u32, q.g as u32, q.b as u32, q.a as u32])
                .collect::<Vec<_>>(),
        );
    }
    json!({"seen": seen})
}
