//! C28: what the JSON of a program says
use crate::ctx::{Ctx, Res, W};
use crate::gen;
use crate::p_convert::*;
use crate::p_edit::{strs, Edit};
use crate::spec::*;
use crate::{bad, ensure, skip};
use serde_json::{json, Value};

fn latin1(b: &[u8]) -> String {
    b.iter().filter(|b| **b != 0).map(|b| *b as char).collect()
}
/// the whole value that belongs to a program file (in 8xp form), its model and its text
fn describe(f: &[u8], m: &Model, text: &str, d: usize) -> Value {
    let n = f.len();
    let (h, md, body, sum) = (&f[..55], &f[55..74], &f[74..n - 2], &f[n - 2..]);
    let le = |b: &[u8]| u16::from_le_bytes([b[0], b[1]]);
    let kind = match md[4] {
        5 => "Program",
        6 => "LockedProgram",
        0x17 => "Group",
        _ => "FlashApplication",
    };
    let mode = match DISP[d] {
        "pretty" => "Pretty",
        "accessible" => "Accessible",
        _ => "TiAscii",
    };
    json!({
        "header": {
            "bytes": h, "signature": h[..8].iter().map(|b| *b as char).collect::<String>(), "signature_extra": &h[8..10], "product_id": h[10],
            "comment": latin1(&h[11..53]), "metadata_and_body_length": le(&h[53..]),
        },
        "metadata": {
            "bytes": md, "flag": md[0], "unknown_byte": md[1], "body_and_checksum_length": le(&md[2..]), "file_type": kind, "name": latin1(&md[5..13]),
            "version": md[13], "destination": if md[14] == 0 { "RAM" } else { "Archive" }, "body_and_checksum_length_copy": le(&md[15..]), "body_length": le(&md[17..]),
        },
        "body": {"bytes": body, "translation": text},
        "checksum": {"bytes": sum, "value": le(sum)},
        "display_mode": mode,
        "model": {"model": m.name, "signature": m.sig, "product_id": m.pid, "language": m.lang},
    })
}
fn short(v: &Value) -> String {
    v.to_string().chars().take(200).collect()
}
/// where two values differ
fn differ(at: &str, got: &Value, want: &Value) -> Option<String> {
    match (got, want) {
        (Value::Object(g), Value::Object(w)) => {
            for k in w.keys() {
                match g.get(k) {
                    None => return Some(format!("{at}/{k} is missing")),
                    Some(x) => {
                        if let Some(d) = differ(&format!("{at}/{k}"), x, &w[k]) {
                            return Some(d);
                        }
                    }
                }
            }
            g.keys().find(|k| !w.contains_key(*k)).map(|k| format!("{at}/{k} is not known"))
        }
        _ if got == want => None,
        (Value::Array(g), Value::Array(w)) => {
            let k = g.iter().zip(w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
            Some(format!("{at} has {} of {} elements, [{k}] is {} instead of {}", g.len(), w.len(), g.get(k).map(short).unwrap_or_default(), w.get(k).map(short).unwrap_or_default()))
        }
        (Value::String(g), Value::String(w)) => Some(format!("{at}: {}", parts(g, w))),
        _ => Some(format!("{at} is {} instead of {}", short(got), short(want))),
    }
}
fn says(w: &mut W, file: &str, want: &Value, what: &str) -> Res {
    let Some(j) = w.get(file) else { bad!("{what}: no {file}") };
    let Ok(v) = serde_json::from_slice::<Value>(&j) else { bad!("{what}: {file} is no json") };
    if let Some(d) = differ("", &v, want) {
        bad!("{what}: {file}: {d}");
    }
    w.count("fields compared", 26);
    Ok(())
}
/// shown with content: the same
fn shown(w: &mut W, file: &str, what: &str) -> Res {
    let r = w.run(&["convert", file, "-c"]);
    done(&r, &format!("{what}: content"))?;
    let s = r.raw_stdout();
    let Ok(v) = serde_json::from_str::<Value>(s.trim()) else { bad!("{what}: the content shown is no json: {}", shows(&s)) };
    let Some(Ok(f)) = w.get(file).map(|b| serde_json::from_slice::<Value>(&b)) else { bad!("{what}: no json") };
    if let Some(d) = differ("", &v, &f) {
        bad!("{what}: content: {d}");
    }
    w.count("contents compared", 1);
    Ok(())
}
pub fn c28(c: &Ctx) {
    c.section("programs", c.n(3500, 35000), c.n(40, 300) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 100);
        if rng.chance(1, 3) {
            p.name = (0..8).map(|_| rng.byte()).collect();
        }
        let d = rng.below(3);
        let fmt = Fmt::ALL[i % 3];
        let odd = fmt == Fmt::P8 && rng.chance(1, 2);
        let f = if odd { gen::odd_8xp(rng, &p) } else { p.file(fmt) };
        let inp = format!("a.{}", fmt.ext());
        w.put(&inp, &f);
        let what = format!("{}{} of {} bytes as {}", if odd { "odd " } else { "" }, fmt.ext(), f.len(), DISP[d]);
        let r = w.run(&["convert", &inp, "-o", "a.json", "-d", DISP[d]]);
        if r.watchdog() {
            skip!("watchdog");
        }
        done(&r, &what)?;
        w.judged(true, &f, || what.clone());
        let f8 = if fmt == Fmt::P8 {
            f
        } else {
            p.version = 0;
            p.dest = 0;
            p.file(Fmt::P8)
        };
        let Some(m) = header_model(&f8[..8], f8[10]) else { bad!("{what}: no model") };
        let Some(text) = table(m.order).decode(&f8[74..f8.len() - 2], d) else { bad!("{what}: no text") };
        w.seen("models", m.name);
        w.seen("formats, modes", format!("{} {}{odd}", fmt.ext(), DISP[d]));
        w.seen("kinds", format!("{:02X} {:02X}", f8[59], f8[69]));
        let want = describe(&f8, m, &text, d);
        says(w, "a.json", &want, &what)?;
        match i % 4 {
            0 => shown(w, "a.json", &what)?,
            1 => {
                // again, and from the other formats
                done(&w.run(&["convert", "a.json", "-o", "b.json"]), &what)?;
                says(w, "b.json", &want, &format!("{what}, json of the json"))?;
                done(&w.run(&["convert", "a.json", "-o", "b.8xp"]), &what)?;
                done(&w.run(&["convert", "b.8xp", "-o", "c.json", "-d", DISP[d]]), &what)?;
                says(w, "c.json", &want, &format!("{what}, json of the 8xp of the json"))?;
            }
            _ => {}
        }
        Ok(())
    });
    c.section("large programs", c.n(12, 80), c.n(40, 200) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 0);
        p.body = gen::body_exact(rng, &p.table(), [65516, 65515, 40000, 32767, 32768, 255, 256, 254, 253, 237, 236, 65280][i % 12]);
        let fmt = Fmt::ALL[i / 2 % 3];
        let inp = format!("a.{}", fmt.ext());
        let f = p.file(fmt);
        w.put(&inp, &f);
        let what = format!("{} with a body of {} bytes", fmt.ext(), p.body.len());
        done(&w.run(&["convert", &inp, "-o", "a.json"]), &what)?;
        w.judged(true, &f, || what.clone());
        if fmt != Fmt::P8 {
            p.version = 0;
            p.dest = 0;
        }
        let text = p.table().decode(&p.body, ACC).unwrap();
        says(w, "a.json", &describe(&p.file(Fmt::P8), p.model().unwrap(), &text, ACC), &what)?;
        w.seen("sizes", format!("{}", p.body.len()));
        Ok(())
    });
    c.section("texts", c.n(2500, 25000), c.n(40, 250) as u64, |w, rng, i| {
        let m = &MODELS[i % 25];
        let t = table(m.order);
        let d = rng.below(3);
        let e = rng.below(3);
        let text = gen::token_text(rng, &t, d, 60);
        let (f, _) = random_txt(rng, m, d, text);
        w.put("a.txt", &f);
        let Some(x) = parse_txt(&f) else { bad!("no text") };
        let text = x.body.replace("\r\n", "\n").trim_end_matches('\r').to_string();
        let what = format!("{} {} text {}", m.name, DISP[d], shows(&text));
        if !w.run(&["convert", "a.txt", "-o", "a.8xp", "-e", ENC[e]]).ok() {
            return Ok(()); // not encodable
        }
        let r = w.run(&["convert", "a.txt", "-o", "a.json", "-e", ENC[e]]);
        if r.watchdog() {
            skip!("watchdog");
        }
        done(&r, &what)?;
        w.judged(true, &[&f[..], &[e as u8]].concat(), || what.clone());
        let f8 = w.get("a.8xp").unwrap_or_default();
        ensure!(f8.len() >= 76, "{what}: no program");
        w.seen("text models", m.name);
        says(w, "a.json", &describe(&f8, m, &text, d), &what)?;
        if i % 3 == 0 {
            shown(w, "a.json", &what)?;
        }
        Ok(())
    });
    c.section("edited programs", c.n(2500, 25000), c.n(40, 250) as u64, |w, rng, _| {
        let p = gen::prog(rng, 40);
        let mut f = if rng.chance(1, 2) { p.file(Fmt::P8) } else { gen::odd_8xp(rng, &p) };
        w.put("a.8xp", &f);
        let n = rng.range(1, 4);
        let mut what = String::from("edits");
        for k in 0..n {
            let mut e = Edit::random(rng);
            if matches!(e, Edit::Rename(_)) && rng.chance(1, 2) {
                // to the name it has, in whatever case
                let name: Vec<u8> = f[60..68].iter().copied().take_while(|b| *b != 0).collect();
                if name.iter().all(|b| b.is_ascii_alphabetic()) {
                    e = Edit::Rename(name.iter().map(|b| if rng.chance(1, 2) { b.to_ascii_lowercase() } else { b.to_ascii_uppercase() } as char).collect());
                }
            }
            let mut a = e.args("a.8xp");
            let last = k + 1 == n;
            if last {
                a.extend(["-f".to_string(), "a.json".to_string()]);
            }
            what.push_str(&format!(" {}", a.join(" ")));
            let r = w.run_in(&strs(&a), "y\n");
            if r.watchdog() {
                skip!("watchdog");
            }
            done(&r, &what)?;
            e.apply_bytes(&mut f);
            w.seen("edits", format!("{} {last}", e.name()));
        }
        w.judged(true, &[&f[..], what.as_bytes()].concat(), || what.clone());
        let Some(m) = header_model(&f[..8], f[10]) else { bad!("{what}: no model") };
        let text = table(m.order).decode(&f[74..f.len() - 2], ACC).unwrap();
        says(w, "a.json", &describe(&f, m, &text, ACC), &what)
    });
}
