//! Prints the token sets the library loads: libcheck MODEL VERSION... -> one JSON object per line.
//! libcheck encode: single characters between two texts, as a program.
//! libcheck chars: every character as a part of a name and of a comment.
use ti_tools::calculator::program::{Destination, FileType, Header, Metadata, Program};
use ti_tools::calculator::EncodeMode;
use ti_tools::calculator::models::Model;
use ti_tools::calculator::tokens::{load_tokens, OsVersion};

/// the code points accepted behind `before` and how they are stored
fn chars(before: &str, after: &str, name: bool) -> serde_json::Value {
    let mut ok = vec![];
    for x in 1..=0x10FFFFu32 {
        let Some(c) = char::from_u32(x) else { continue };
        let s = format!("{before}{c}{after}");
        let stored = if name {
            let mut m = Metadata::new(vec![0; 19], 0x0D, 0, 2, FileType::Program, "A".into(), 0, Destination::RAM, 2, 0);
            m.rename(s).ok().map(|_| (m.bytes, m.name))
        } else {
            let mut h = Header::new(vec![0; 55], "**TI83F*".into(), vec![0x1A, 0x0A], 0, "old".into(), 19);
            h.comment(s).ok().map(|_| (h.bytes, h.comment))
        };
        if let Some((b, t)) = stored {
            ok.push(serde_json::json!([x, b, t]));
        }
    }
    serde_json::Value::Array(ok)
}
/// the code points that are encoded, and how
fn encode(path: &str, head: &str, after: &str, enc: &str, from: u32, to: u32, step: u32) -> serde_json::Value {
    let Ok(enc) = EncodeMode::from_string(enc) else { return serde_json::Value::Null };
    let mut ok = vec![];
    for x in (from..to).step_by(step as usize) {
        let Some(c) = char::from_u32(x) else { continue };
        if std::fs::write(path, format!("{head}{c}{after}")).is_err() {
            return serde_json::Value::Null;
        }
        if let Ok(p) = Program::load_from_txt(path.into(), &enc) {
            ok.push(serde_json::json!([x, p.body.bytes]));
        }
    }
    serde_json::Value::Array(ok)
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a[0] == "chars" {
        println!("{}", chars(&a[1], &a[2], a[3] == "name"));
        return;
    }
    if a[0] == "encode" {
        println!("{}", encode(&a[1], &a[2], &a[3], &a[4], a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap()));
        return;
    }
    for v in &a[1..] {
        let target = OsVersion::new(Model::from_string(&a[0]), v.clone());
        let map = match load_tokens(&target) {
            Ok(m) => m.map,
            Err(_) => {
                println!("null");
                continue;
            }
        };
        let mut o = serde_json::Map::new();
        for (k, t) in map {
            o.insert(k, serde_json::json!([t.display, t.accessible, t.ti_ascii]));
        }
        println!("{}", serde_json::Value::Object(o));
    }
}
