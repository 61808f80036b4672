//! Icon metadata and rendered icon states.
use dmm_tools::dmi::render::IconRenderer;
use dmm_tools::dmi::{Dir, IconFile, Image, Metadata, State};
use serde_json::{Value, json};

pub fn dir(v: &Value) -> Dir {
    Dir::from_int(v.as_i64().unwrap() as i32).unwrap()
}

/// A sheet whose cell number n (w×h pixels, `cols` per row) is filled with a colour that names n.
pub fn sheet(w: u32, h: u32, cols: u32, rows: u32, text: Option<&str>) -> Vec<u8> {
    let mut px = Vec::new();
    for y in 0..rows * h {
        for x in 0..cols * w {
            let n = (y / h) * cols + x / w;
            // the pixel's place within its cell shows in blue
            px.push(lodepng::RGBA { r: (n / 250 + 1) as u8, g: (n % 250 + 1) as u8, b: ((y % h) * w + x % w) as u8, a: 255 });
        }
    }
    let mut e = lodepng::Encoder::new();
    e.set_auto_convert(false);
    if let Some(t) = text {
        e.info_png_mut().add_text("Description", t).unwrap();
    }
    e.encode(&px, (cols * w) as usize, (rows * h) as usize).unwrap()
}

fn meta(m: &Metadata) -> Value {
    json!({"w": m.width, "h": m.height, "states": m.states.iter().map(state).collect::<Vec<_>>()})
}

fn state(s: &State) -> Value {
    json!({"name": s.name, "dup": s.duplicate_index, "dirs": s.dirs.count(), "frames": s.frames.count(), "n": s.num_sprites(),
        "delays": (0..s.frames.count()).map(|i| s.frames.delay(i)).collect::<Vec<_>>(), "loop": s.loop_, "rewind": s.rewind, "movement": s.movement, "offset": s.offset})
}

/// The cells of an image, left to right; a string describes anything unexpected.
fn cells(img: &Image, w: u32, h: u32) -> Value {
    let mut out = Vec::new();
    if img.height != h || img.width % w != 0 {
        return json!(format!("size {}x{}", img.width, img.height));
    }
    let px = |x: u32, y: u32| img.data.as_slice().unwrap()[(y * img.width + x) as usize];
    for c in 0..img.width / w {
        let p = px(c * w, 0);
        for y in 0..h {
            for x in 0..w {
                let q = px(c * w + x, y);
                if (q.r, q.g, q.a) != (p.r, p.g, 255) || q.b as u32 != y * w + x {
                    return json!(format!("cell {c} is not one cell of the sheet"));
                }
            }
        }
        out.push((p.r as i64 - 1) * 250 + p.g as i64 - 1);
    }
    json!(out)
}

pub fn run(req: &Value) -> Value {
    if req["compass"] == true {
        let all = Dir::ALL
            .iter()
            .map(|&d| {
                json!({"d": d.to_int(), "x": d.offset().0, "y": d.offset().1, "flip": d.flip().to_int(), "ns": d.flip_ns().to_int(), "ew": d.flip_ew().to_int(),
                "cw45": d.clockwise_45().to_int(), "ccw45": d.counterclockwise_45().to_int(), "cw90": d.clockwise_90().to_int(), "ccw90": d.counterclockwise_90().to_int(), "diag": d.is_diagonal()})
            })
            .collect::<Vec<_>>();
        let steps = Dir::ALL
            .iter()
            .map(|&d| {
                let c = dmm_tools::dmm::Coord2::new(10, 20) + d;
                json!([d.to_int(), c.x - 10, c.y - 20])
            })
            .collect::<Vec<_>>();
        return json!({"compass": all, "ints": (-3..20).map(|i| Dir::from_int(i).map(|d| d.to_int())).collect::<Vec<_>>(), "steps": steps,
            "cardinals": Dir::CARDINALS.iter().map(|d| d.to_int()).collect::<Vec<_>>(), "diagonals": Dir::DIAGONALS.iter().map(|d| d.to_int()).collect::<Vec<_>>()});
    }
    let text = req["text"].as_str();
    let (icon, m);
    if let Some(s) = req["sheet"].as_array() {
        let n = |i: usize| s[i].as_u64().unwrap() as u32;
        let png = sheet(n(0), n(1), n(2), n(3), text);
        match IconFile::from_bytes(&png) {
            Ok(i) => {
                m = i.metadata.clone();
                icon = Some(i);
            },
            Err(e) => return json!({"error": e.to_string()}),
        }
    } else {
        match Metadata::meta_from_str(text.unwrap()) {
            Ok(x) => m = x,
            Err(e) => return json!({"error": e.to_string()}),
        }
        icon = None;
    }
    let mut got = Vec::new();
    for q in req["queries"].as_array().into_iter().flatten() {
        // [name, dup, dir, frame, sheet width]
        let (name, dup) = (q[0].as_str().unwrap(), q[1].as_u64().unwrap() as u32);
        // an index by name and number is only made from a state that has them
        let index = match m.states.iter().find(|s| s.name == name && s.duplicate_index == dup) {
            Some(s) => s.get_state_name_index(),
            None if dup == 0 => name.into(),
            None => {
                got.push(Value::Null);
                continue;
            },
        };
        let (d, f, w) = (dir(&q[2]), q[3].as_u64().unwrap() as u32, q[4].as_u64().unwrap() as u32);
        let s = m.get_icon_state(&index);
        got.push(json!({"rect": m.rect_of(w, &index, d, f), "index": s.map(|s| s.index_of_frame(d, f)), "dir": s.map(|s| s.index_of_dir(d)), "offset": s.map(|s| s.offset), "shown": index.to_string()}));
    }
    let mut images = Vec::new();
    if let Some(icon) = &icon {
        for q in req["queries"].as_array().into_iter().flatten().filter(|q| q[1] == 0) {
            let d = dir(&q[2]);
            let rect = icon.rect_of(&q[0].as_str().unwrap().into(), d);
            images.push(json!(rect));
        }
    }
    let mut frames = Vec::new();
    if let (Some(icon), true) = (&icon, req["render"] == true) {
        let r = IconRenderer::new(icon);
        for s in &icon.metadata.states {
            frames.push(match r.render_to_images(&s.get_state_name_index()) {
                Ok(v) => json!(v.iter().map(|i| cells(i, m.width, m.height)).collect::<Vec<_>>()),
                Err(e) => json!(e.to_string()),
            });
            // the still picture of an unanimated state
            let mut file = Vec::new();
            let g = r.prepare_render_state(s).unwrap();
            if let dmm_tools::dmi::render::RenderType::Png = g.render_type {
                g.render(&mut file).unwrap();
                frames.push(json!({"png": cells(&Image::from_bytes(&file).unwrap(), m.width, m.height)}));
            }
        }
    }
    json!({"meta": meta(&m), "got": got, "images": images, "frames": frames})
}
