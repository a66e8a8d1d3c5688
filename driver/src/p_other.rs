//! C04 C10 C14 C15 C17 C18 C20
use crate::ctx::{Ctx, Res, W};
use crate::exec::{lossless, raw, snap_diff, snap_of, Node, Opt, Run};
use crate::gen;
use crate::p_convert::*;
use crate::p_edit::{strs, Edit};
use crate::rng::Rng;
use crate::spec::*;
use crate::{bad, ensure, skip};
use std::collections::BTreeMap;

fn vs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

// ------------------------------------------------------------------ C04

/// names of a display mode that several tokens of a table share
fn shared_names(t: &Table, d: usize) -> Vec<String> {
    let mut m: BTreeMap<&str, usize> = BTreeMap::new();
    for k in &t.toks {
        *m.entry(k.text[d].as_str()).or_default() += 1;
    }
    m.into_iter().filter(|(k, n)| *n > 1 && !k.contains('\n')).map(|(k, _)| k.to_string()).collect()
}
type Put = (String, Vec<u8>);
/// something that may be where an output is going to be: other programs in the same format, their
/// beginnings, noise, nothing
pub fn old_output(rng: &mut Rng, path: &str) -> (Vec<u8>, &'static str) {
    let p = gen::prog(rng, 60);
    let ext = path.rsplit('.').next().unwrap_or("");
    let mut x = match Fmt::ALL.iter().find(|f| f.ext() == ext) {
        Some(f) => p.file(*f),
        None => {
            let t = p.table();
            let text = gen::token_text(rng, &t, ACC, 40);
            random_txt(rng, p.model().unwrap(), ACC, text).0
        }
    };
    match rng.below(8) {
        0 => (vec![], "empty"),
        1 => {
            let n = rng.below(3000);
            (rng.bytes(n), "noise")
        }
        2 => {
            x.truncate(rng.below(x.len()));
            (x, "beginning of a program")
        }
        _ => (x, "another program"),
    }
}
/// runs the command several times, each in an environment of its own, and compares
fn again(w: &mut W, rng: &mut Rng, puts: &[Put], args: &[String], stdin: &[u8], times: usize, what: &str) -> Res {
    let mut first: Option<(Run, Vec<(String, Node)>)> = None;
    let mut asked = std::collections::BTreeSet::<String>::new();
    // files the program looked for in the first run, apart from those of the command line
    let mut looked: Vec<(bool, String)> = vec![];
    let key: Vec<u8> = puts.iter().flat_map(|p| p.1.clone()).chain(args.join(" ").into_bytes()).collect();
    w.judged(true, &key, || what.to_string());
    // an output that is there already, with other content in every run
    let old = args.iter().zip(args.iter().skip(1)).find(|(o, v)| (*o == "-o" || *o == "-f") && v.contains('.')).map(|x| x.1.clone());
    let old = old.filter(|o| (stdin.is_empty() || stdin == b"y\n") && !puts.iter().any(|p| p.0 == *o) && rng.chance(1, 2));
    for i in 0..times {
        let dir = if i == 0 { "d".to_string() } else { ["d", "another directory", "x/y/z", "\u{e9}t\u{e9}", "d2"][i % 5].to_string() };
        let base = format!("r{i}/{dir}");
        w.mkdir(&base);
        let at = w.path(&base);
        for (n, d) in puts {
            w.put(&format!("{base}/{n}"), d);
        }
        let mut o = Opt { stdin: stdin.to_vec(), cwd: Some(at.clone()), ..Default::default() };
        let mut before = None;
        if let Some(old) = &old {
            let (x, kind) = old_output(rng, old);
            w.put(&format!("{base}/{old}"), &x);
            w.seen("existing outputs", format!("{} {kind}", old.rsplit('.').next().unwrap()));
            o.stdin = b"y\n".to_vec();
            before = Some(x);
        }
        let mut extra = false;
        let mut added: Vec<String> = vec![];
        if i > 0 {
            let langs = ["C", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP", "POSIX"];
            o.env = vec![
                ("LANG".into(), langs[rng.below(5)].into()),
                ("LC_ALL".into(), langs[rng.below(5)].into()),
                ("TZ".into(), (*rng.pick(&["UTC", "Asia/Tokyo", "America/New_York"])).into()),
                ("HOME".into(), (*rng.pick(&["/", "/nonexistent", "/tmp"])).into()),
                (format!("VAR{}", rng.below(99)), "x".repeat(rng.below(500))),
            ];
            if rng.chance(1, 2) {
                o.env.push(((*rng.pick(&["RUST_BACKTRACE", "NO_COLOR", "TERM", "COLUMNS", "USER", "TMPDIR"])).into(), (*rng.pick(&["1", "dumb", "80", "/tmp"])).into()));
            }
            // whatever the program asked its surroundings for in the first run gets another value
            for n in &asked {
                o.env.retain(|(k, _)| k != n);
                if rng.chance(3, 4) {
                    o.env.push((n.clone(), (*rng.pick(&["9.9.9", "1", "0", "", "pretty", "max", "/tmp", "always", "\u{e9}", "TI-83"])).into()));
                }
            }
            // files it looked for appear, with one content or another
            if !looked.is_empty() && i % 4 != 3 {
                o.env.retain(|(k, _)| k != "HOME");
                for (here, n) in looked.clone() {
                    let t = if here { format!("{base}/{n}") } else { n };
                    if w.path(&t).exists() || w.path(&t).parent().map(|p| p.is_file()).unwrap_or(false) {
                        continue;
                    }
                    let x = match rng.below(4) {
                        0 => (*rng.pick(&["min", "max", "pretty", "ti", "accessible", "1", "{}", "[]", "", "y", "TI-82"])).to_string(),
                        1 => format!("{0}\n", rng.pick(&["min", "max", "pretty", "ti"])),
                        2 => {
                            let (q, e) = *rng.pick(&[("", "="), ("", ": "), ("\"", "\": \""), ("", " = ")]);
                            let mut s = String::new();
                            for k in ["encode", "encode_mode", "encode-mode", "encodeMode", "mode", "display", "display_mode", "display-mode", "displayMode", "type", "model", "lang", "language", "overwrite", "force", "yes", "color"] {
                                let v = *rng.pick(if k.starts_with("enc") { &["min", "max"][..] } else if k.starts_with("dis") { &["pretty", "ti"][..] } else { &["min", "pretty", "byte", "TI-82", "fr", "true", "always"][..] });
                                s.push_str(&format!("{q}{k}{e}{v}{q}{}\n", if q.is_empty() { "" } else { "," }));
                            }
                            if q.is_empty() { s } else { format!("{{{}}}", s.trim_end().trim_end_matches(',')) }
                        }
                        _ => puts.first().map(|p| String::from_utf8_lossy(&p.1).into_owned()).unwrap_or_else(|| "x".into()),
                    };
                    w.put(&t, x.as_bytes());
                    added.push(t);
                }
            }
            if rng.chance(2, 3) {
                o.env.push(("TIV_CLOCK".into(), if rng.chance(1, 2) { (rng.below(9_000_000_000) as i64 - 2_000_000_000).to_string() } else { (*rng.pick(&["1", "-86400", "31536000", "361000000", "2000000000", "2600000000", "7000000000", "300000000000", "-1500000000", "-2500000000"])).into() }));
            }
            if rng.chance(1, 3) {
                o.env.push(("TIV_TTY".into(), "1".into()));
            }
            if rng.chance(1, 2) {
                w.put(&format!("{base}/zz other file.8xp.bak"), b"something else");
                extra = true;
            }
        }
        let r = w.run_opt(&strs(args), &o);
        if r.watchdog() {
            skip!("watchdog");
        }
        w.count("repetitions", 1);
        let mut s = snap_of(&at);
        if let (Some(old), false) = (&old, r.ok()) {
            // nothing was written: what was there is no output
            if let Some(Node::File(x)) = s.get(old) {
                if Some(x) == before.as_ref() {
                    s.remove(old);
                }
            }
        }
        if extra {
            s.remove("zz other file.8xp.bak");
        }
        for a in added {
            if let Some(a) = a.strip_prefix(&format!("{base}/")) {
                s.remove(a);
            } else {
                w.rm(&a);
            }
        }
        let files: Vec<(String, Node)> = s.into_iter().filter(|x| x.1 != Node::Dir || puts.iter().any(|p| p.0.starts_with(&format!("{}/", x.0))) || x.0 == "out").collect();
        match &first {
            None => {
                for p in &r.ops {
                    if p.op == "env" && !p.a.starts_with("TIV_") {
                        asked.insert(p.a.clone());
                        w.seen("environment variables asked for", p.a.clone());
                    }
                    if p.op == "clock" {
                        w.count("clock readings", 1);
                    }
                }
                let real = at.canonicalize().unwrap();
                let home = w.dir.canonicalize().unwrap();
                let known: Vec<_> = args.iter().map(|a| real.join(a)).chain(puts.iter().map(|p| real.join(&p.0))).collect();
                for l in r.looks.iter().map(std::path::PathBuf::from) {
                    if known.iter().any(|k| k.starts_with(&l)) || l.exists() || r.ops.iter().any(|o| std::path::Path::new(&o.a) == l || std::path::Path::new(&o.b) == l) {
                        continue;
                    }
                    let x = match (l.strip_prefix(&real), l.strip_prefix(&home)) {
                        (Ok(p), _) => (true, p.display().to_string()),
                        (_, Ok(p)) => (false, p.display().to_string()),
                        _ => continue,
                    };
                    w.seen("other files looked for", x.1.clone());
                    if !looked.contains(&x) {
                        looked.push(x);
                    }
                }
                first = Some((r, files))
            }
            Some((f, ff)) => {
                ensure!(f.code == r.code && f.signal == r.signal, "{what}: run 1 ends with {}, run {} with {}", f.status(), i + 1, r.status());
                ensure!(f.out == r.out, "{what}: standard output differs between runs 1 and {}: {}", i + 1, part(&f.out, &r.out));
                if *ff != files {
                    for (a, b) in ff.iter().zip(&files) {
                        if let ((n, Node::File(x)), (m, Node::File(y))) = (a, b) {
                            ensure!(n == m && x == y, "{what}: {n} differs between runs 1 and {}: {}", i + 1, part(x, y));
                        }
                    }
                    bad!("{what}: the files written differ between runs 1 and {}", i + 1);
                }
            }
        }
    }
    Ok(())
}
pub fn c04(c: &Ctx) {
    let times = c.n(6, 16);
    let txt = |m: &Model, d: usize, text: &str| txt_file("ABC", "c", "Program", "RAM", DISP[d], m.name, text, true).into_bytes();
    let mut combos = vec![];
    for m in [&MODELS[0], &MODELS[1], &MODELS[5], &MODELS[9], &MODELS[16], &MODELS[17], &MODELS[24]] {
        for d in 0..3 {
            for e in 0..3 {
                combos.push((m, d, e));
            }
        }
    }
    c.section("names shared by several tokens", combos.len() * c.n(1, 4), c.n(40, 200) as u64, |w, rng, i| {
        let (m, d, e) = combos[i % combos.len()];
        let t = table(m.order);
        let mut names = shared_names(&t, d);
        w.count("shared names", names.len() as u64);
        if names.is_empty() {
            names.push("A".into());
        }
        rng.shuffle(&mut names);
        w.seen("model, display, encode", format!("{} {} {}", m.name, DISP[d], ENC[e]));
        let r = if e == 2 { Rule::Quirk } else { rule(ENC[e]) };
        let names: Vec<String> = names.into_iter().filter(|n| encode(&t, n, d, r).is_some()).collect();
        let args = vs(&["convert", "a.txt", "-o", "o.8xp", "-e", ENC[e], "-p", "-c"]);
        again(w, rng, &[("a.txt".into(), txt(m, d, &names.join("\n")))], &args, b"", times, &format!("{} {} {} shared names", m.name, DISP[d], ENC[e]))
    });
    c.section("texts", c.n(500, 4000), c.n(40, 250) as u64, |w, rng, i| {
        let (m, d, e) = combos[i % combos.len()];
        let t = table(m.order);
        let text = match rng.below(3) {
            0 => t.toks.iter().map(|x| x.text[d].as_str()).filter(|x| !x.contains('\n')).collect::<Vec<_>>().join("\n"),
            1 => gen::free_text(rng, &t, d),
            _ => gen::token_text(rng, &t, d, 200),
        };
        let out = *rng.pick(&["o.8xp", "o.json", "o.83p", "o.txt"]);
        let args = vs(&["convert", "a.txt", "-o", out, "-e", ENC[e]]);
        again(w, rng, &[("a.txt".into(), txt(m, d, &text))], &args, b"", times, &format!("{} {} {} {}", m.name, DISP[d], ENC[e], shows(&text)))
    });
    c.section("programs", c.n(400, 4000), c.n(25, 150) as u64, |w, rng, _| {
        let p = gen::prog(rng, 150);
        let fmt = *rng.pick(&Fmt::ALL);
        let inp = format!("a.{}", fmt.ext());
        let args = match rng.below(5) {
            0 => vs(&["convert", &inp, "-o", "o.txt", "-d", DISP[rng.below(3)]]),
            1 => vs(&["convert", &inp, "-o", "o.json", "-d", DISP[rng.below(3)]]),
            2 => vs(&["convert", &inp, "-p", "-c", "-d", DISP[rng.below(3)]]),
            3 => vs(&["details", &inp]),
            _ => {
                let mut a = Edit::random(rng).args(&inp);
                if rng.chance(1, 2) {
                    a.extend(vs(&["-f", "new.8xp"]));
                }
                a
            }
        };
        again(w, rng, &[(inp.clone(), p.file(fmt))], &args, b"y\n", times, &format!("{} of {}", args[0], show(&p.body)))
    });
    c.section("searches", c.n(350, 2500), c.n(30, 150) as u64, |w, rng, i| {
        let t = table(LATEST);
        let d = i % 2;
        let shared = shared_names(&t, d);
        let mut s = if rng.chance(1, 2) && !shared.is_empty() { rng.pick(&shared).clone() } else { rng.pick(&t.toks).text[d].clone() };
        if rng.chance(1, 3) {
            s.push_str(&rng.pick(&t.toks).text[d]);
        }
        w.seen("searched names", s.clone());
        again(w, rng, &[], &vs(&["search", &s, "-t", ["pretty", "accessible"][d]]), b"", times, &format!("search {s:?} {}", ["pretty", "accessible"][d]))
    });
    c.section("help and lists", 14, 0, |w, rng, i| {
        let a: &[&str] = [&["help"][..], &["version"], &["models"], &[], &["help", "convert"], &["help", "rename"], &["convert", "-h"], &["search", "--help"], &["lock", "a", "-h"], &["help", "nope"], &["nope"], &["details", "missing.8xp"], &["convert", "missing.txt", "-p"], &["search", "0x41", "-t", "byte"]][i];
        again(w, rng, &[], &vs(a), b"", times, &a.join(" "))
    });
    c.section("mass conversions", c.n(60, 500), c.n(30, 150) as u64, |w, rng, _| {
        // one file each: the order of directory entries is not part of this property
        let m = &MODELS[24];
        let d = rng.below(3);
        let t = table(m.order);
        let text = gen::token_text(rng, &t, d, 60);
        let args = vs(&["convert", "in", "-m", "-o", "out", "-p", "-d", DISP[d]]);
        again(w, rng, &[("in/a.txt".into(), txt(m, d, &text))], &args, b"y\n", times, "mass conversion")
    });
}

// ------------------------------------------------------------------ C10

fn survived(r: &Run, what: &str) -> Res {
    if r.watchdog() {
        skip!("watchdog");
    }
    ensure!(!r.panicked(), "{what}: panicked: {}", shows(&r.stderr()));
    ensure!(r.signal.is_none(), "{what}: ended by {}", r.status());
    ensure!(matches!(r.code, Some(0 | 1)), "{what}: ended with {}", r.status());
    if r.code == Some(1) {
        ensure!(!r.out.is_empty() || !r.err.is_empty(), "{what}: refused without a message");
    }
    Ok(())
}
/// all commands that read this file
fn readers(inp: &str, rng: &mut Rng) -> Vec<Vec<String>> {
    let mut v = vec![];
    let o = *rng.pick(&["o.txt", "o.8xp", "o.83p", "o.82p", "o.json"]);
    v.push(vs(&["convert", inp, "-o", o, "-p", "-c", "-d", DISP[rng.below(3)], "-e", ENC[rng.below(3)]]));
    if !inp.ends_with("txt") && !inp.ends_with("json") {
        match rng.below(3) {
            0 => v.push(vs(&["details", inp])),
            _ => {
                let mut a = Edit::random(rng).args(inp);
                if rng.chance(1, 2) {
                    a.extend(vs(&["-f", *rng.pick(&["n.8xp", "n.txt", "n.82p", "n.json"])]));
                }
                v.push(a)
            }
        }
    }
    v
}
fn feed(w: &mut W, rng: &mut Rng, inp: &str, data: &[u8], what: &str) -> Res {
    w.put(inp, data);
    for a in readers(inp, rng) {
        let r = w.run_in(&strs(&a), *rng.pick(&["", "y\n", "n\n"]));
        w.seen("statuses", format!("{} {}", a[0], r.status()));
        survived(&r, &format!("{what}: {}", a.join(" ")))?;
        w.rm("o.txt");
    }
    if rng.chance(1, 3) {
        w.put(&format!("in/{inp}"), data);
        let a = ["convert", "in", "-m", "-o", "out", "-p", "-c", "-d", DISP[rng.below(3)], "-e", ENC[rng.below(3)]];
        let r = w.run_in(&a, *rng.pick(&["y\n", "y\ny\n", "y\nn\n", "y\ny\ny\ny\n"]));
        w.seen("statuses", format!("mass {}", r.status()));
        survived(&r, &format!("{what}: {}", a.join(" ")))?;
        if let Ok(d) = std::fs::read_dir(w.path("out")) {
            w.count("files saved by mass conversions", d.count() as u64);
        }
    }
    w.judged(true, &[data, inp.as_bytes()].concat(), || format!("{what} ({} bytes)", data.len()));
    w.seen("inputs", what.to_string());
    Ok(())
}
/// values for every place of the json of a program
fn json_values() -> Vec<serde_json::Value> {
    use serde_json::json;
    let arr = |n: usize| json!((0..n).map(|i| (i * 7) as u8).collect::<Vec<u8>>());
    let mut v = vec![
        json!(null), json!(true), json!(-1), json!(0), json!(1), json!(2), json!(255), json!(256), json!(65535), json!(65536), json!(u64::MAX), json!(i64::MIN), json!(1.5), json!(-0.0), json!(1e300), json!(""), json!("x"), json!("\u{0}"), json!("\u{e9}"), json!("1234567\u{e9}"), json!("123456\u{1F600}"), json!("\u{3b8}".repeat(20)),
        json!("a".repeat(70000)), json!("\n"), json!("\r\n\u{2028}"), json!("../x"), json!("Program"), json!("RAM"), json!("TI-84+CE"), json!([]), json!([0]), json!([255, 255]), json!([256]), json!(["x"]), json!([[]]), json!([null]), json!({}), json!({"model": {}}), json!({"Program": null}), json!([0, 1, 2, 3, 4, 5]),
    ];
    for n in [1, 2, 3, 17, 18, 19, 20, 54, 55, 56, 100, 65516, 65517, 65535, 65536, 70000] {
        v.push(arr(n));
    }
    v
}
const JSON_PLACES: [&str; 36] = [
    "/header/bytes", "/header/signature", "/header/signature_extra", "/header/signature_extra/0", "/header/product_id", "/header/comment", "/header/metadata_and_body_length", "/metadata/bytes", "/metadata/bytes/4", "/metadata/bytes/14", "/metadata/flag", "/metadata/unknown_byte", "/metadata/body_and_checksum_length", "/metadata/file_type",
    "/metadata/name", "/metadata/version", "/metadata/destination", "/metadata/body_and_checksum_length_copy", "/metadata/body_length", "/body/bytes", "/body/bytes/0", "/body/translation", "/checksum/bytes", "/checksum/bytes/1", "/checksum/value", "/display_mode", "/model", "/model/model", "/model/language", "/model/product_id", "/model/signature",
    "/body", "/header", "/metadata", "/checksum", "",
];
fn random_arg(rng: &mut Rng) -> String {
    let fixed = [
        "", "-", "--", "-h", "--help", "-o", "-d", "-e", "-c", "-p", "-m", "-n", "-f", "-t", "--output", "--display-mode", "--encode-mode", "--content", "--preview", "--mass", "--name", "--new-file", "--delete-old",
        "--comment", "--type", "convert", "help", "version", "search", "rename", "comment", "lock", "unlock", "archive", "unarchive", "details", "models", "a.8xp", "a.txt", "a.json", "dir", "dir2", ".", "..", "./a.8xp", "b.8xp", "b.txt", "pretty",
        "accessible", "ti", "byte", "min", "max", "smart", "0x41", "0xBB", "0x", "$41", "[color:red]", "[", "]", "[style:]", "[color:", "ABC", "\u{e9}", "\u{1F600}", "\u{0301}", "[\u{1F600}:x]", "%s", "\u{1b}[31m", "a\nb", "/dev/null", ":", "help:x", "convert:1",
    ];
    match rng.below(10) {
        0 => (0..rng.below(20)).map(|_| char::from_u32(rng.range(1, 0x2FF) as u32).unwrap()).collect(),
        1 => "[".repeat(rng.below(40)) + &"]".repeat(rng.below(40)),
        2 => {
            let mut s = String::new();
            for _ in 0..rng.below(6) {
                s.push_str(rng.pick(&fixed));
            }
            s
        }
        3 if rng.chance(1, 10) => "x".repeat(rng.range(1000, 100000)),
        _ => (*rng.pick(&fixed)).to_string(),
    }
}
/// json of a program with hostile values
fn hostile_json(rng: &mut Rng, v: &mut serde_json::Value) {
    use serde_json::{json, Value};
    for _ in 0..rng.range(1, 4) {
        let paths = [
            "/header/bytes", "/header/signature", "/header/signature_extra", "/header/product_id", "/header/comment", "/header/metadata_and_body_length", "/metadata/bytes", "/metadata/flag", "/metadata/unknown_byte", "/metadata/body_and_checksum_length", "/metadata/file_type", "/metadata/name", "/metadata/version",
            "/metadata/destination", "/metadata/body_length", "/body/bytes", "/body/translation", "/checksum/bytes", "/checksum/value", "/display_mode", "/model", "/model/model", "/model/language", "/model/product_id", "/model/signature", "/body", "/header", "/metadata", "/checksum", "",
        ];
        let p = *rng.pick(&paths);
        let n = rng.below(9);
        let val: Value = match n {
            0 => Value::Null,
            1 => json!(rng.next()),
            2 => json!(-1),
            3 => json!((0..rng.below(80)).map(|_| char::from_u32(rng.range(1, 0x3FF) as u32).unwrap()).collect::<String>()),
            4 => json!((0..rng.below(80)).map(|_| rng.byte()).collect::<Vec<u8>>()),
            5 => json!([]),
            6 => json!({}),
            7 => json!((0..*rng.pick(&[55usize, 19, 2, 65516, 65517, 65600, 140000])).map(|_| 0x41u8).collect::<Vec<u8>>()),
            _ => json!(*rng.pick(&["Pretty", "RAM", "Archive", "Program", "TI-83+", "TI84PlusCE", "", "\u{0}", "../x", "A"])),
        };
        if let Some(x) = v.pointer_mut(p) {
            *x = val;
        }
    }
}
/// files that no one wrote on purpose, through everything that reads files
fn c10_files(c: &Ctx, on: &str, part: usize) {
    c.section(&format!("truncations{on}"), (c.n(2, 10) * 3 * 200) / part, c.n(30, 150) as u64, |w, rng, i| {
        let fmt = Fmt::ALL[i % 3];
        let mut p = gen::prog(rng, 0);
        p.body = gen::body_exact(rng, &p.table(), 130);
        let mut f = p.file(fmt);
        f.truncate((i / 3) % 200);
        w.seen("truncated lengths", ((i / 3) % 200).to_string());
        feed(w, rng, &format!("a.{}", fmt.ext()), &f, &format!("truncated {}", fmt.ext()))
    });
    c.section(&format!("damaged programs{on}"), (c.n(4000, 60000)) / part, c.n(40, 300) as u64, |w, rng, i| {
        let fmt = Fmt::ALL[i % 3];
        let p = gen::prog(rng, 60);
        let mut f = p.file(fmt);
        match rng.below(4) {
            0 => f = (0..rng.below(300)).map(|_| rng.byte()).collect(),
            1 => {
                let n = rng.range(74, 200);
                f.resize(n, rng.byte());
                for b in f.iter_mut().skip(74) {
                    *b = rng.byte();
                }
            }
            _ => gen::mutate(rng, &mut f),
        }
        feed(w, rng, &format!("a.{}", fmt.ext()), &f, &format!("damaged {}", fmt.ext()))
    });
    c.section(&format!("damaged texts{on}"), (c.n(4000, 60000)) / part, c.n(40, 300) as u64, |w, rng, i| {
        let m = &MODELS[i % 25];
        let d = rng.below(3);
        let t = table(m.order);
        let text = if rng.chance(1, 2) { gen::free_text(rng, &t, d) } else { gen::token_text(rng, &t, d, 40) };
        let (mut f, _) = random_txt(rng, m, d, text);
        match rng.below(6) {
            0 => gen::mutate(rng, &mut f),
            1 => {
                let n = rng.below(f.len() + 1);
                f.truncate(n)
            }
            2 => {
                // arbitrary characters in the body
                let mut s = txt_file("A", "", "Program", "RAM", DISP[d], m.name, "", false);
                for _ in 0..rng.below(60) {
                    s.push(char::from_u32(rng.below(0x3000) as u32).unwrap_or('\u{FFFD}'));
                }
                f = s.into_bytes();
            }
            3 => {
                // one line of the head replaced or dropped
                let s = String::from_utf8_lossy(&f).into_owned();
                let mut l: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
                let k = rng.below(6).min(l.len() - 1);
                match rng.below(3) {
                    0 => {
                        l.remove(k);
                    }
                    1 => l[k] = (0..rng.below(30)).map(|_| char::from_u32(rng.range(1, 0x2FF) as u32).unwrap()).collect(),
                    _ => l.insert(k, String::new()),
                }
                f = l.join("\n").into_bytes();
            }
            _ => {}
        }
        feed(w, rng, "a.txt", &f, "text")
    });
    c.section(&format!("texts made of quotes, arrows, names and pieces{on}"), (c.n(2500, 30000)) / part, c.n(30, 200) as u64, |w, rng, _| {
        let m = rng.pick(&MODELS);
        let d = rng.below(3);
        let mut s = txt_file("A", "", "Program", "RAM", DISP[d], m.name, "", false);
        let n = rng.below(40);
        for _ in 0..n {
            s.push_str(*rng.pick(&["\"", "->", "\u{2192}", "prgm", "smallL", "\u{29f}", "\n", "\r\n", "\r", "A", "\u{3b8}", "theta", "1", "5F", "EB", "2A", "04", "Send(", " ", "\t", "\u{0}", "\u{feff}", "\\", "u8", "[", "]"]));
        }
        feed(w, rng, "a.txt", s.as_bytes(), "pieces")
    });
    c.section(&format!("damaged json{on}"), (c.n(2500, 30000)) / part, c.n(40, 250) as u64, |w, rng, i| {
        let p = gen::prog(rng, 30);
        w.put("s.8xp", &p.file(Fmt::P8));
        w.run(&["convert", "s.8xp", "-o", "s.json"]);
        let Some(j) = w.get("s.json") else { bad!("no json written") };
        let mut j = j;
        match i % 4 {
            0 => gen::mutate(rng, &mut j),
            1 => {
                let n = rng.below(j.len());
                j.truncate(n)
            }
            2 => {
                let depth = *rng.pick(&[10usize, 120, 130, 5000, 200000]);
                j = [b"[".repeat(depth), b"]".repeat(depth)].concat();
            }
            _ => {
                let mut v: serde_json::Value = serde_json::from_slice(&j).unwrap();
                hostile_json(rng, &mut v);
                j = serde_json::to_vec(&v).unwrap();
            }
        }
        feed(w, rng, "a.json", &j, ["changed json", "truncated json", "nested json", "json with hostile values"][i % 4])
    });
    let vals = json_values();
    let nv = vals.len() + 1;
    // every value at every place of the json, or the place left out; single and mass conversion
    c.section(&format!("every value at every place of the json{on}"), (nv * JSON_PLACES.len() * c.n(1, 4)) / part, c.n(40, 250) as u64, |w, rng, i| {
        let (place, k) = (JSON_PLACES[i / nv % JSON_PLACES.len()], i % nv);
        let mut p = gen::prog(rng, 20);
        p.body.push(0x3F);
        w.put("s.8xp", &p.file(Fmt::P8));
        w.run(&["convert", "s.8xp", "-o", "s.json"]);
        let Some(Ok(mut v)) = w.get("s.json").map(|j| serde_json::from_slice::<serde_json::Value>(&j)) else { bad!("no json written") };
        let short;
        if k < vals.len() {
            let Some(x) = v.pointer_mut(place) else { skip!("no {place} in the json") };
            *x = vals[k].clone();
            short = vals[k].to_string().chars().take(30).collect::<String>();
        } else {
            let (up, key) = place.rsplit_once('/').unwrap_or(("", ""));
            match v.pointer_mut(up) {
                Some(serde_json::Value::Object(o)) => {
                    o.remove(key);
                }
                Some(serde_json::Value::Array(a)) => {
                    a.pop();
                }
                _ => {}
            }
            short = "nothing".into();
        }
        let j = serde_json::to_vec(&v).unwrap();
        w.put("in/a.json", &j);
        w.put("a.json", &j);
        let what = format!("json with {short} as {place}");
        w.judged(true, &j, || what.clone());
        w.seen("places of json values", format!("{place} {}", k));
        let o = format!("o.{}", ["8xp", "83p", "82p", "txt", "json"][rng.below(5)]);
        for a in [vec!["convert", "a.json", "-o", &o, "-p", "-c"], vec!["convert", "in", "-m", "-o", "out", "-p"]] {
            let r = w.run_in(&a, "y\ny\n");
            w.seen("statuses", format!("json {}", r.status()));
            survived(&r, &format!("{what}: {}", a.join(" ")))?;
        }
        Ok(())
    });
    // names and comments of any bytes, to every output and through the edits
    c.section(&format!("arbitrary names, comments and heads{on}"), (c.n(1500, 15000)) / part, c.n(30, 150) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 10);
        let n = rng.below(9);
        p.name = (0..n).map(|_| *rng.pick(&[b'A', b'.', b'/', b' ', 0, 0xE9, 0xFF, 0x80, 0xC3, b'\n', b'-', b'[', b']', b'%', b'{', b'~', b':'])).collect();
        if rng.chance(1, 2) {
            p.name = rng.bytes(n);
        }
        let n = rng.below(43);
        p.comment = rng.bytes(n);
        let fmt = Fmt::ALL[i % 3];
        let mut f = p.file(fmt);
        for _ in 0..rng.below(4) {
            // a length, the flags, the version or the checksum
            let n = f.len();
            let k = *rng.pick(&[8usize, 9, 53, 54, 55, 56, 57, 58, 68, 70, 71, 72, n - 2, n - 1]);
            f[k] = rng.byte();
        }
        feed(w, rng, &format!("a.{}", fmt.ext()), &f, "arbitrary head")
    });
}
pub fn c10(c: &Ctx) {
    c10_files(c, "", 1);
    // thorough tier: the same kinds of files on an AddressSanitizer build
    if c.thorough && c.scratch.join("ti-tools-asan").exists() {
        c.asan.store(true, std::sync::atomic::Ordering::Relaxed);
        c10_files(c, " (AddressSanitizer)", 4);
        c.asan.store(false, std::sync::atomic::Ordering::Relaxed);
    }
    c.section("command lines", c.n(7000, 80000), c.n(40, 250) as u64, |w, rng, _| {
        let p = gen::prog(rng, 10);
        w.put("a.8xp", &p.file(Fmt::P8));
        w.put("a.txt", b"ABC\n\nProgram\nRAM\naccessible\nlatest\nDisp A");
        w.put("dir/x.8xp", &p.file(Fmt::P8));
        w.put("dir/x.txt", b"ABC\n\nProgram\nRAM\naccessible\nlatest\nDisp A");
        if rng.chance(1, 8) {
            w.mkdir("dir/sub.8xp");
            w.put("dir/bad.json", b"{}");
        }
        let cmds = ["convert", "search", "rename", "comment", "lock", "unlock", "archive", "unarchive", "details", "models", "help", "version"];
        let mut a = vec![];
        if rng.chance(9, 10) {
            a.push((*rng.pick(&cmds)).to_string());
            if rng.chance(3, 4) {
                a.push((*rng.pick(&["a.8xp", "a.txt", "dir", "sin(", "0xBB31"])).to_string());
            }
        }
        for _ in 0..rng.below(8) {
            a.push(random_arg(rng));
        }
        a.iter_mut().for_each(|x| x.retain(|c| c != '\0'));
        let n = rng.below(6);
        let stdin: Vec<u8> = match n {
            0 => rng.bytes(20),
            1 => b"\xff\xfe\n".to_vec(),
            2 => vec![b'y'; 200000],
            3 => b"y\ny\ny\ny\ny\n".to_vec(),
            4 => b"n\n".to_vec(),
            _ => vec![],
        };
        let r = w.run_opt(&strs(&a), &Opt { stdin, ..Default::default() });
        let short: Vec<String> = a.iter().map(|x| x.chars().take(60).collect()).collect();
        let what = format!("{short:?}");
        w.judged(a.len() > 1, a.join("\u{1}").as_bytes(), || what.clone());
        w.seen("statuses", format!("{} {}", a.first().map(|s| s.chars().take(10).collect::<String>()).unwrap_or_default(), r.status()));
        survived(&r, &what)
    });
    // every place of a value on an otherwise regular command line
    let mut values: Vec<String> = ["", "0", "x", "\u{e9}", "\u{1F600}", "0x", "0\u{e9}", "0x\u{e9}", "a\u{e9}", "\u{e9}a", "0X41", "0x4", "0x414", "0x41414", "0xG1", "$", "$41", "$BB$31", " ", "  ", ".", "..", "/", "//", "a/", ".8xp", "a.", "a..8xp", "a.8xp/", "dir/", "\n", "\t", "\u{0}x", "-", "--", "[", "]", "[]", "[:]", "[color]", "[color:]", "[color:red", "[a:b:c]", "{}", "{", "}", "%n", "\\", "\"", "'", "\u{200b}", "\u{feff}", "\u{301}", "\u{3b8}", "\u{2192}", "\u{29f}", "[\u{e9}", "\u{e9}]", "[\u{e9}:\u{e9}]", "[color:\u{e9}]", "[style:\u{e9}]x"].iter().map(|s| s.replace('\0', "\u{1}")).collect();
    values.push("\u{e9}".repeat(300));
    values.push("a".repeat(5000));
    values.push("[".repeat(300));
    let places: Vec<Vec<&str>> = vec![
        vec!["search", "*"], vec!["search", "*", "-t", "byte"], vec!["search", "*", "-t", "pretty"], vec!["search", "sin(", "-t", "*"], vec!["rename", "a.8xp", "-n", "*", "-f", "n.8xp"], vec!["comment", "a.8xp", "-c", "*", "-f", "n.8xp"], vec!["convert", "*", "-p"], vec!["convert", "a.8xp", "-o", "*"],
        vec!["convert", "a.8xp", "-p", "-d", "*"], vec!["convert", "a.txt", "-p", "-e", "*"], vec!["convert", "*", "-m", "-p"], vec!["convert", "dir", "-m", "-o", "*"], vec!["lock", "*"], vec!["lock", "a.8xp", "-f", "*"], vec!["unlock", "a.8xp", "-f", "*", "-d"], vec!["details", "*"], vec!["help", "*"], vec!["*"], vec!["archive", "a.8xp", "*"],
        vec!["convert", "a.8xp", "*"], vec!["rename", "a.8xp", "-n", "A", "*"], vec!["search", "sin(", "*"],
    ];
    c.section("every value at every place", values.len() * places.len(), 0, |w, rng, i| {
        let (v, pl) = (&values[i / places.len()], &places[i % places.len()]);
        let p = gen::prog(rng, 10);
        w.put("a.8xp", &p.file(Fmt::P8));
        w.put("a.txt", b"ABC\n\nProgram\nRAM\naccessible\nlatest\nDisp A");
        w.put("dir/x.8xp", &p.file(Fmt::P8));
        let a: Vec<String> = pl.iter().map(|x| if *x == "*" { v.clone() } else { x.to_string() }).collect();
        let r = w.run_in(&strs(&a), "y\n");
        let what = format!("{:?}", a.iter().map(|x| x.chars().take(40).collect::<String>()).collect::<Vec<_>>());
        w.judged(true, a.join("\u{1}").as_bytes(), || what.clone());
        w.seen("places of values", pl.join(" "));
        survived(&r, &what)
    });
    c.section("arguments that are not UTF-8", c.n(800, 8000), c.n(20, 100) as u64, |w, rng, i| {
        let p = gen::prog(rng, 10);
        w.put("a.8xp", &p.file(Fmt::P8));
        w.put("a.txt", b"ABC\n\nProgram\nRAM\naccessible\nlatest\nDisp A");
        w.put("dir/x.8xp", &p.file(Fmt::P8));
        let mut a: Vec<String> = places[i % places.len()].iter().map(|x| if *x == "*" { "a.8xp".to_string() } else { x.to_string() }).collect();
        // bytes that are no characters by themselves, at the beginning, in the middle or at the end of an argument, or alone
        let k = rng.below(a.len());
        let n = rng.range(1, 3);
        let bad: String = (0..n).map(|_| char::from_u32(0x10FF00 + rng.range(0x80, 0xFF) as u32).unwrap()).collect();
        let plain = a[k].clone();
        let cut = *rng.pick(&[0, plain.len() / 2, plain.len()]);
        a[k] = match rng.below(5) {
            0 => bad,
            _ if plain.is_char_boundary(cut) => format!("{}{bad}{}", &plain[..cut], &plain[cut..]),
            _ => format!("{bad}{plain}"),
        };
        let named = raw(&a[k]);
        if std::str::from_utf8(named.as_encoded_bytes()).is_ok() {
            skip!("UTF-8 after all");
        }
        // there may be a file of that name
        if rng.chance(1, 2) && !named.as_encoded_bytes().contains(&b'/') {
            let _ = std::fs::copy(w.path("a.8xp"), w.path(".").join(&named));
        }
        let before = w.snap_all();
        let r = w.run_opt(&strs(&a), &Opt { stdin: b"y\n".to_vec(), raw: true, ..Default::default() });
        let what = format!("{:?}", a.iter().map(|x| lossless(raw(x))).collect::<Vec<_>>());
        w.judged(true, a.join("\u{1}").as_bytes(), || what.clone());
        w.seen("places of bytes", format!("{} {}", a[0], k));
        survived(&r, &what)?;
        if !r.ok() {
            let d = snap_diff(&before, &w.snap_all());
            ensure!(d.is_empty(), "{what} was refused, but {}", d.join(", "));
        }
        Ok(())
    });
    c.section("answers", c.n(300, 3000), 0, |w, rng, i| {
        let p = gen::prog(rng, 10);
        w.put("a.8xp", &p.file(Fmt::P8));
        let a = match i % 3 {
            0 => vs(&["lock", "a.8xp"]),
            1 => vs(&["convert", ".", "-m", "-o", "missing"]),
            _ => {
                w.put("o.txt", b"x");
                vs(&["convert", "a.8xp", "-o", "o.txt"])
            }
        };
        let n = [0, 1, 2, 5, 50, 70000][rng.below(6)];
        let stdin = if rng.chance(1, 3) { vec![*rng.pick(&[0u8, b'y', 0xFF, 0xC3, b'\r']); n] } else { rng.bytes(n) };
        let r = w.run_opt(&strs(&a), &Opt { stdin: stdin.clone(), ..Default::default() });
        let what = format!("{} with the answer {}", a.join(" "), show(&stdin));
        w.judged(true, what.as_bytes(), || what.clone());
        survived(&r, &what)
    });
    c.section("hangs on large inputs", c.n(16, 48), c.n(100, 300) as u64, |w, rng, i| {
        // sizes a user could meet; the processor time is limited
        let k = i % 8;
        let big: Vec<u8> = match k {
            0 => [txt_file("A", "", "Program", "RAM", "accessible", "latest", "", false).into_bytes(), b"A\n".repeat(32000)].concat(),
            1 => [txt_file("A", "", "Program", "RAM", "accessible", "latest", "", false).into_bytes(), b"7".repeat(65516)].concat(),
            2 => [txt_file("A", "", "Program", "RAM", "accessible", "latest", "", false).into_bytes(), b"\"".repeat(40000)].concat(),
            3 => [txt_file("A", "", "Program", "RAM", "accessible", "latest", "", false).into_bytes(), b"\n".repeat(70000)].concat(),
            4 => [txt_file("A", "", "Program", "RAM", "accessible", "latest", "", false).into_bytes(), b"prgmABCDEFGH\n".repeat(5000)].concat(),
            5 => {
                let mut p = gen::prog(rng, 0);
                p.body = gen::body_exact(rng, &p.table(), 65516);
                p.file(Fmt::P8)
            }
            6 => {
                let mut p = gen::prog(rng, 0);
                p.body = vec![0x41; 300000];
                p.file(Fmt::P8)
            }
            _ => [txt_file("A", "", "Program", "RAM", "accessible", "latest", "", false).into_bytes(), "\u{1F600}".repeat(20000).into_bytes()].concat(),
        };
        let inp = ["a.txt", "a.txt", "a.txt", "a.txt", "a.txt", "a.8xp", "a.8xp", "a.txt"][k];
        w.put(inp, &big);
        let r = w.run_opt(&["convert", inp, "-o", "o.json", "-e", ENC[i / 8 % 3]], &Opt { cpu: Some(60), ..Default::default() });
        let what = format!("{inp} of {} bytes, kind {k}", big.len());
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("large inputs", what.clone());
        ensure!(!matches!(r.signal, Some(libc::SIGXCPU | libc::SIGKILL)), "{what}: not finished after 60 s of processor time");
        survived(&r, &what)
    });
}

// ------------------------------------------------------------------ C14

struct Item {
    file: String,
    name: String,
    kind: usize,
    data: Vec<u8>,
}
/// files a mass conversion can convert; json comes from the tool
fn items(w: &mut W, rng: &mut Rng, n: usize, names: &mut dyn FnMut(&mut Rng, usize) -> Vec<u8>) -> Vec<Item> {
    let mut v = vec![];
    for i in 0..n {
        let nm = names(rng, i);
        let name: String = nm.iter().map(|b| *b as char).filter(|c| *c != '\0').collect();
        let mut p = gen::prog(rng, 40);
        p.name = nm.clone();
        let kind = rng.below(5);
        let (ext, data) = match kind {
            0..=2 => (Fmt::ALL[kind].ext(), p.file(Fmt::ALL[kind])),
            3 if nm.iter().all(|b| b.is_ascii_alphabetic()) => {
                let t = p.table();
                let d = rng.below(3);
                // encodable in every mode, and often different in each
                let mut text = String::new();
                for _ in 0..20 {
                    text = gen::token_text(rng, &t, d, 40);
                    if ENC.iter().all(|e| encode(&t, &text, d, rule(e)).is_some()) && encode(&t, &text, d, Rule::Quirk).is_some() {
                        break;
                    }
                    text.clear();
                }
                if ENC.iter().any(|e| encode(&t, &text, d, rule(e)) != encode(&t, &text, d, rule("max"))) {
                    w.count("texts that differ by encode mode", 1);
                }
                let txt = txt_file(&name, "c", type_name(p.ptype).unwrap(), dest_name(p.dest).unwrap(), DISP[d], p.model().unwrap().name, &text, true);
                ("txt", txt.into_bytes())
            }
            _ => {
                w.put("tmp.8xp", &p.file(Fmt::P8));
                w.run(&["convert", "tmp.8xp", "-o", "tmp.json", "-d", DISP[rng.below(3)]]);
                let j = w.get("tmp.json").unwrap_or_default();
                w.rm("tmp.8xp");
                w.rm("tmp.json");
                ("json", j)
            }
        };
        let kind = match ext {
            "txt" => 3,
            "json" => 4,
            _ => kind.min(2),
        };
        let file = match rng.below(14) {
            12 => format!(".ti-tools-{}-0.tmp.{i}.{ext}", rng.below(99999)),
            13 => format!("{}{i}.{ext}", rng.pick(&["ti-tools", "TI-TOOLS ", "Copy of ", "desktop", "Thumbs", "test_", "old", "backup-", "out", "in", "NAME", "temp", "new", "converted", "a copy (2)", ".DS_Store", ".git", ".nfs00", ".#", "#"])),
            0 => format!(".{i}.{ext}"),
            4 => format!("{i}~.{ext}"),
            5 => format!("~${i}.{ext}"),
            6 => format!("-o {i}.{ext}"),
            7 => format!("#{i}#.{ext}"),
            8 => format!("{i}..{ext}"),
            9 => format!("{i}.txt.json.{ext}"),
            10 => format!("._{i}.{ext}"),
            11 => format!("{i}.tmp.{ext}"),
            1 => format!("{i} with space.{ext}"),
            2 => format!("z{i}.8xp.{ext}"),
            _ => format!("\u{e9}{i}.{ext}"),
        };
        v.push(Item { file, name, kind, data });
    }
    v
}
fn clutter(w: &mut W, rng: &mut Rng, dir: &str) {
    for _ in 0..rng.below(5) {
        match rng.below(8) {
            0 => w.put(&format!("{dir}/readme.md"), b"text"),
            1 => w.put(&format!("{dir}/noext"), b"text"),
            2 => w.put(&format!("{dir}/x.8xp.bak"), b"text"),
            3 => {
                w.mkdir(&format!("{dir}/sub"));
                w.put(&format!("{dir}/sub/deep.8xp"), b"not converted");
                w.put(&format!("{dir}/sub/deep.txt"), b"not converted");
            }
            4 => w.put(&format!("{dir}/x.8XP"), b"upper case"),
            5 => w.put(&format!("{dir}/.8xp"), b"hidden"),
            6 => {
                let n = *rng.pick(&["d.8xp", "d.txt", "d.json", "d.83p"]);
                w.mkdir(&format!("{dir}/{n}"));
                w.count("directories named like programs", 1);
            }
            _ => w.put(&format!("{dir}/x.tar.gz"), b"text"),
        }
    }
}
fn c14_case(w: &mut W, rng: &mut Rng, i: usize) -> Res {
    let n = match rng.below(8) {
        0 => 0,
        1 => rng.range(10, 25),
        _ => rng.range(1, 6),
    };
    w.mkdir("in");
    let blank = if rng.chance(1, 3) { rng.below(n.max(1)) } else { usize::MAX };
    let mut its = items(w, rng, n, &mut |rng, i| {
        let mut v = gen::alpha_name(rng, 1, 6);
        v.push(b'A' + (i % 26) as u8);
        v.push(b'A' + (i / 26) as u8);
        if i == blank {
            // nothing to see in the name
            v = rng.pick(&[&b" "[..], b"  ", b"\xa0", b"\x01", b"\t", b" \0 ", b".", b"..", b"\x7f", b"~", b"-", b"        "]).to_vec();
        } else if rng.chance(1, 5) {
            // six characters at most stand before the two that keep the names apart
            let k = rng.below(6);
            let two = v[v.len() - 2..].to_vec();
            v = (0..k).map(|_| *rng.pick(b" .~-_abc\xe9\xff:#%*?\"'\x01$&")).collect();
            v.extend(two);
        }
        v
    });
    // text and json of one program both give NAME.8xp: keep names apart, and apart from file names
    let (d, e) = (rng.below(3), rng.below(3));
    let place = ["existing", "created", "same", "nested", "dot"][i % 5];
    for it in &its {
        w.put(&format!("in/{}", it.file), &it.data);
    }
    clutter(w, rng, "in");
    if rng.chance(1, 10) && n > 0 {
        // a link to a program counts as a file
        let t = its[0].file.clone();
        let ext = t.rsplit('.').next().unwrap().to_string();
        w.mkdir("elsewhere");
        let data = its[0].data.clone();
        w.put(&format!("elsewhere/p.{ext}"), &data);
        w.rm(&format!("in/{t}"));
        w.link(&format!("../elsewhere/p.{ext}"), &format!("in/{t}"));
    }
    let (out, stdin) = match place {
        "existing" => {
            w.mkdir("out");
            ("out", "")
        }
        "created" => ("out", "y\n"),
        "same" => ("in", ""),
        "nested" => ("in/results", "Y\n"),
        _ => ("./in/../in/.", ""),
    };
    let mut opts = vec![];
    if d != 1 || rng.chance(1, 2) {
        opts.extend(vs(&[*rng.pick(&["-d", "--display-mode"]), DISP[d]]));
    }
    if e != 2 || rng.chance(1, 2) {
        opts.extend(vs(&[*rng.pick(&["-e", "--encode-mode"]), ENC[e]]));
    }
    // single conversions
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut previews = vec![];
    for it in &mut its {
        let outs: &[&str] = match it.kind {
            3 => &["8xp"],
            4 => &["txt", "8xp"],
            _ => &["txt"],
        };
        for x in outs {
            let o = format!("single.{x}");
            let mut a = vs(&["convert", &format!("in/{}", it.file), "-o", &o, "-p"]);
            a.extend(opts.clone());
            let r = w.run(&strs(&a));
            let Some(g) = w.get(&o) else { bad!("single conversion of {}: {} {}", it.file, r.status(), r.stdout()) };
            w.rm(&o);
            want.insert(format!("{}.{x}", it.name), g);
            let s = r.raw_stdout();
            // what comes before the messages about saving
            let cut = s.find("Successfully saved").unwrap_or(s.len());
            let cut = s[..cut].rfind('\n').unwrap_or(0);
            let pv = s[..cut].to_string();
            let pv = match pv.rfind("Warning:") {
                Some(k) => pv[..pv[..k].rfind('\n').unwrap_or(0)].to_string(),
                None => pv,
            };
            if x == outs.last().unwrap() {
                previews.push(pv);
            }
        }
    }
    if n > 0 && rng.chance(1, 10) {
        // a file name that is not UTF-8
        use std::os::unix::ffi::OsStringExt;
        let f = &its[rng.below(n)].file;
        let mut o = b"\xff\xfe".to_vec();
        o.extend(f.as_bytes());
        let _ = std::fs::rename(w.path(&format!("in/{f}")), w.path("in").join(std::ffi::OsString::from_vec(o)));
        w.count("file names that are not UTF-8", 1);
    }
    let before = w.snap();
    let mut a = vs(&["convert", *rng.pick(&["in", "./in", "in/"]), "-o", out, *rng.pick(&["-m", "--mass"])]);
    let pv = rng.chance(1, 3);
    if pv {
        a.push("-p".into());
    }
    a.extend(opts.clone());
    let r = w.run_in(&strs(&a), stdin);
    let what = format!("mass conversion of {n} files, output {place}, {} {}", DISP[d], ENC[e]);
    let key: Vec<u8> = its.iter().flat_map(|i| i.data.clone()).chain(what.bytes()).collect();
    w.judged(n > 0, &key, || what.clone());
    w.seen("output places", place);
    w.seen("modes", format!("{} {}", DISP[d], ENC[e]));
    w.seen("kinds of input", its.iter().map(|i| i.kind.to_string()).collect::<Vec<_>>().join("").chars().take(4).collect::<String>());
    done(&r, &what)?;
    ensure!(r.denied().is_none(), "{what}: outside: {:?}", r.denied());
    let after = w.snap();
    let base = match place {
        "existing" | "created" => "out".to_string(),
        "nested" => "in/results".into(),
        _ => "in".into(),
    };
    for (name, data) in &want {
        let p = format!("{base}/{name}");
        match after.get(&p) {
            Some(Node::File(g)) if g == data => {}
            Some(Node::File(g)) => bad!("{what}: {p} differs from the single conversion: {}", part(g, data)),
            _ => bad!("{what}: {p} was not written"),
        }
        w.count("files compared", 1);
    }
    for l in snap_diff(&before, &after) {
        let (p, verb) = l.rsplit_once(' ').unwrap();
        let ours = p.strip_prefix(&format!("{base}/")).map(|x| want.contains_key(x)).unwrap_or(false) || p == base;
        ensure!(ours && verb == "appeared", "{what}: {l}");
    }
    if pv {
        let s = r.raw_stdout();
        for p in &previews {
            ensure!(s.matches(p.as_str()).count() >= 1, "{what}: preview missing: {}", shows(p));
        }
    }
    // every input once
    let opens: Vec<&str> = r.ops.iter().filter(|o| o.op == "rename" && o.ret == 0).map(|o| o.b.as_str()).collect();
    let mut u = opens.clone();
    u.sort();
    u.dedup();
    ensure!(u.len() == opens.len(), "{what}: a file was saved twice");
    Ok(())
}
pub fn c14(c: &Ctx) {
    c.section("directories", c.n(1500, 15000), c.n(80, 500) as u64, c14_case);
    c.section("views of a directory", c.n(500, 5000), c.n(30, 150) as u64, |w, rng, i| {
        let n = rng.range(1, 6);
        w.mkdir("in");
        let its = items(w, rng, n, &mut |rng, i| [gen::alpha_name(rng, 1, 6), vec![b'A' + i as u8]].concat());
        for it in &its {
            w.put(&format!("in/{}", it.file), &it.data);
        }
        clutter(w, rng, "in");
        let mut opts = vs(&["-d", DISP[rng.below(3)], "-e", ENC[rng.below(3)]]);
        opts.extend(vs([&["-p"][..], &["-c"], &["-c", "-p"]][i % 3]));
        let before = w.snap();
        let mut single = vec![];
        for it in &its {
            let mut a = vs(&["convert", &format!("in/{}", it.file)]);
            a.extend(opts.clone());
            let r = w.run(&strs(&a));
            done(&r, &format!("view of {}", it.file))?;
            single.push((it.file.clone(), r.raw_stdout()));
        }
        let mut a = vs(&["convert", "in", "-m"]);
        a.extend(opts.clone());
        let r = w.run(&strs(&a));
        let what = format!("view of {n} files: {}", a.join(" "));
        let key: Vec<u8> = its.iter().flat_map(|i| i.data.clone()).chain(what.bytes()).collect();
        w.judged(true, &key, || what.clone());
        w.seen("views of directories", opts[4..].join(" "));
        done(&r, &what)?;
        let mut out = r.raw_stdout();
        // the longest first, one may contain another
        single.sort_by_key(|x| std::cmp::Reverse(x.1.len()));
        for (f, s) in &single {
            let Some(at) = out.find(s.as_str()) else { bad!("{what}: {f} is not shown as it is singly") };
            out.replace_range(at..at + s.len(), "");
            w.count("views compared", 1);
        }
        ensure!(out.trim().is_empty(), "{what}: shows more than the files singly: {}", shows(&out));
        let diff = snap_diff(&before, &w.snap());
        ensure!(diff.is_empty(), "{what}: {}", diff.join(", "));
        Ok(())
    });
    c.section("large directories", c.n(6, 40), c.n(60, 200) as u64, |w, rng, i| {
        let n = [300, 70, 520, 130, 1100, 260][i % 6];
        let d = rng.below(3);
        let mut want = BTreeMap::new();
        for k in 0..n {
            let mut p = gen::prog(rng, 6);
            p.name = format!("P{k}").into_bytes();
            let fmt = *rng.pick(&Fmt::ALL);
            w.put(&format!("in/{}{k}.{}", rng.pick(&["", ".", "z", "\u{e9}"]), fmt.ext()), &p.file(fmt));
            let Some(t) = p.txt(fmt, d) else { skip!("no text") };
            want.insert(format!("out/P{k}.txt"), t.into_bytes());
        }
        w.mkdir("out");
        let before = w.snap();
        let r = w.run_in(&["convert", "in", "-m", "-o", "out", "-d", DISP[d]], "");
        let what = format!("mass conversion of {n} programs");
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("sizes of directories", n.to_string());
        done(&r, &what)?;
        let after = w.snap();
        for (p, data) in &want {
            match after.get(p) {
                Some(Node::File(g)) if g == data => w.count("files compared", 1),
                Some(Node::File(g)) => bad!("{what}: {p}: {}", part(g, data)),
                _ => bad!("{what}: {p} was not written"),
            }
        }
        for l in snap_diff(&before, &after) {
            let (p, verb) = l.rsplit_once(' ').unwrap();
            ensure!(want.contains_key(p) && verb == "appeared", "{what}: {l}");
        }
        Ok(())
    });
    c.section("large files", c.n(24, 160), c.n(60, 200) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 20);
        p.name = b"LARGE".to_vec();
        let text = |b: &str| txt_file("LARGE", "c", "Program", "RAM", "accessible", "latest", b, true).into_bytes();
        let (f, data): (&str, Vec<u8>) = match i % 8 {
            0 => ("l.8xp", {
                p.body = gen::body_exact(rng, &p.table(), 65516);
                p.file(Fmt::P8)
            }),
            1 => ("l.83p", {
                p.body = gen::body_exact(rng, &p.table(), 65516);
                p.file(Fmt::P83)
            }),
            2 => ("l.82p", {
                let n = rng.range(20000, 65000);
                p.body = gen::body_exact(rng, &p.table(), n);
                p.file(Fmt::P82)
            }),
            // the text of a program is larger than the program
            3 => ("l.txt", text(&"Disp 1\n".repeat(rng.range(9400, 16000)))),
            4 => ("l.txt", text(&"RegEQ(x)".repeat(rng.range(100, 500)))),
            5 => ("l.txt", text(&format!("{}1", "\n".repeat(rng.range(30000, 65000))))),
            k => ("l.json", {
                if k == 6 {
                    p.body = gen::body_exact(rng, &p.table(), 30000);
                }
                w.put("t.8xp", &p.file(Fmt::P8));
                w.run(&["convert", "t.8xp", "-o", "t.json"]);
                let Some(mut v) = w.get("t.json") else { bad!("no json") };
                v.extend(b" \n".repeat(if k == 6 { 0 } else { 100000 }));
                w.rm("t.8xp");
                w.rm("t.json");
                v
            }),
        };
        w.mkdir("out");
        w.put(&format!("in/{f}"), &data);
        let mut q = gen::prog(rng, 10);
        q.name = b"SMALL".to_vec();
        w.put("in/s.8xp", &q.file(Fmt::P8));
        let what = format!("mass conversion with {f} of {} bytes", data.len());
        let mut want = vec![("SMALL.txt", q.txt(Fmt::P8, ACC).unwrap().into_bytes())];
        for x in match f.rsplit('.').next().unwrap() {
            "txt" => vec!["LARGE.8xp"],
            "json" => vec!["LARGE.txt", "LARGE.8xp"],
            _ => vec!["LARGE.txt"],
        } {
            let o = format!("one{}", &x[5..]);
            w.run(&["convert", &format!("in/{f}"), "-o", &o]);
            let Some(g) = w.get(&o) else { skip!("cannot be converted alone") };
            w.rm(&o);
            want.push((x, g));
        }
        let before = w.snap();
        let r = w.run(&["convert", "in", "-m", "-o", "out"]);
        done(&r, &what)?;
        w.judged(true, &data, || what.clone());
        w.seen("large files", format!("{} {}", i % 8, data.len() > 65535));
        let after = w.snap();
        for (x, d) in &want {
            match after.get(&format!("out/{x}")) {
                Some(Node::File(g)) if g == d => w.count("files compared", 1),
                Some(Node::File(g)) => bad!("{what}: {x}: {}", part(g, d)),
                _ => bad!("{what}: {x} was not written"),
            }
        }
        ensure!(snap_diff(&before, &after).len() == want.len(), "{what}: {}", snap_diff(&before, &after).join(", "));
        Ok(())
    });
    c.section("files with the same program name", c.n(200, 2000), c.n(20, 100) as u64, |w, rng, _| {
        // both give the same output path: the second one asks
        let mut p = gen::prog(rng, 20);
        let mut q = gen::prog(rng, 20);
        p.name = b"SAME".to_vec();
        q.name = b"SAME".to_vec();
        w.put("in/a.8xp", &p.file(Fmt::P8));
        w.put("in/b.8xp", &q.file(Fmt::P8));
        w.mkdir("out");
        w.run(&["convert", "in/a.8xp", "-o", "x.txt"]);
        w.run(&["convert", "in/b.8xp", "-o", "y.txt"]);
        let yes = rng.chance(1, 2);
        let r = w.run_in(&["convert", "in", "-m", "-o", "out"], if yes { "y\n" } else { "n\ny\n" });
        let what = format!("two programs of one name, answer {}", if yes { "y" } else { "n, then skip" });
        w.judged(true, &[p.file(Fmt::P8), q.file(Fmt::P8)].concat(), || what.clone());
        done(&r, &what)?;
        let g = w.get("out/SAME.txt");
        ensure!(g.is_some() && (g == w.get("x.txt") || g == w.get("y.txt")), "{what}: the result is neither conversion");
        Ok(())
    });
    // outputs that are there: all replaced, or all kept and their files skipped; the others are converted
    c.section("outputs that are there", c.n(500, 5000), c.n(40, 250) as u64, |w, rng, i| {
        w.mkdir("in");
        w.mkdir("out");
        let n = rng.range(2, 9);
        let its = items(w, rng, n, &mut |rng, i| [gen::alpha_name(rng, 1, 6), vec![b'A' + i as u8]].concat());
        let yes = i % 2 == 0;
        let mut want: Vec<(String, Vec<u8>, Option<Vec<u8>>)> = vec![];
        for it in &its {
            w.put(&format!("in/{}", it.file), &it.data);
            let outs: &[&str] = match it.kind {
                3 => &["8xp"],
                4 => &["txt", "8xp"],
                _ => &["txt"],
            };
            let old: Vec<bool> = outs.iter().map(|_| rng.chance(1, 3)).collect();
            for (x, old) in outs.iter().zip(&old) {
                let o = format!("single.{x}");
                w.run(&["convert", &format!("in/{}", it.file), "-o", &o]);
                let Some(g) = w.get(&o) else { bad!("single conversion of {}", it.file) };
                w.rm(&o);
                let to = format!("out/{}.{x}", it.name);
                let old = old.then(|| old_output(rng, &to).0);
                if let Some(old) = &old {
                    w.put(&to, old);
                }
                // a file that is skipped for its text is skipped as a whole
                want.push((to, g, old));
            }
        }
        let there = want.iter().filter(|x| x.2.is_some()).count();
        let before = w.snap();
        let r = w.run_in(&["convert", "in", "-m", "-o", "out"], &if yes { "y\n".repeat(there) } else { "n\ny\n".repeat(there) });
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("mass conversion of {n} files, {there} of {} outputs are there and {}", want.len(), if yes { "replaced" } else { "kept" });
        let key: Vec<u8> = its.iter().flat_map(|i| i.data.clone()).chain(what.bytes()).collect();
        w.judged(true, &key, || what.clone());
        w.seen("outputs that are there", format!("{there} {yes}"));
        done(&r, &what)?;
        for (k, (to, new, old)) in want.iter().enumerate() {
            let g = w.get(to);
            match old {
                Some(old) if !yes => ensure!(g.as_ref() == Some(old), "{what}: {to} was not kept"),
                _ => {
                    let skipped = !yes && to.ends_with(".8xp") && k > 0 && want[k - 1].2.is_some() && want[k - 1].0 == to.replace(".8xp", ".txt");
                    ensure!(g.as_ref() == Some(new) || skipped && g.is_none(), "{what}: {to} {}", g.map(|g| part(&g, new)).unwrap_or("was not written".into()));
                }
            }
            w.count("outputs compared", 1);
        }
        for l in snap_diff(&before, &w.snap()) {
            let (p, verb) = l.rsplit_once(' ').unwrap();
            ensure!(verb != "disappeared" && want.iter().any(|x| x.0 == p), "{what}: {l}");
        }
        Ok(())
    });
    c.section("a file that cannot be converted", c.n(300, 3000), c.n(20, 100) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 20);
        p.name = b"GOOD".to_vec();
        w.put("in/a.8xp", &p.file(Fmt::P8));
        let (n, d): (&str, &[u8]) = [("in/bad.8xp", &b"short"[..]), ("in/bad.txt", b"X\n"), ("in/bad.json", b"{}"), ("in/bad.83p", b"")][i % 4];
        w.put(n, d);
        w.mkdir("out");
        w.run(&["convert", "in/a.8xp", "-o", "x.txt"]);
        let before = w.snap();
        let r = w.run_in(&["convert", "in", "-m", "-o", "out"], "");
        let what = format!("mass conversion with {n}");
        w.judged(true, &[p.file(Fmt::P8), n.as_bytes().to_vec()].concat(), || what.clone());
        ensure!(!r.panicked(), "{what}: panicked");
        ensure!(r.failed() || r.stdout().contains("rror"), "{what}: nothing reported");
        for l in snap_diff(&before, &w.snap()) {
            ensure!(l == "out/GOOD.txt appeared" && w.get("out/GOOD.txt") == w.get("x.txt"), "{what}: {l}");
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C15

fn hostile_name(rng: &mut Rng) -> Vec<u8> {
    let fixed: [&[u8]; 26] = [
        b"../X", b"../../X", b"/tmp/X", b"/X", b"..", b".", b"", b"a/b", b"a\\b", b"..\\X", b"X/..", b"./X", b"X/", b"/", b"//", b"\\", b"../../..", b"\x01\x02", b"a\nb", b"\xe9\xe8", b"X.8xp", b"../in/A", b"~/X", b"*", b"C:\\X", b"\0../X",
    ];
    let mut v = match rng.below(3) {
        0 | 1 => rng.pick(&fixed).to_vec(),
        _ => (0..rng.below(9)).map(|_| *rng.pick(b"./\\AB\x00~:\xff ")).collect(),
    };
    v.truncate(8);
    v
}
pub fn c15(c: &Ctx) {
    c.section("hostile program names", c.n(3000, 40000), c.n(50, 300) as u64, |w, rng, i| {
        let n = rng.range(1, 3);
        let mut desc = vec![];
        for k in 0..n {
            let mut p = gen::prog(rng, 20);
            let json = rng.chance(1, 2);
            p.name = hostile_name(rng);
            let mut name: String = p.name_str();
            if json {
                w.put("tmp.8xp", &p.file(Fmt::P8));
                w.run(&["convert", "tmp.8xp", "-o", "tmp.json"]);
                let Some(Ok(mut v)) = w.get("tmp.json").map(|j| serde_json::from_slice::<serde_json::Value>(&j)) else { bad!("no json") };
                name = match rng.below(5) {
                    0 => (*rng.pick(&["../escaped", "../../../escaped", "../in/f0", "sub/x", "../secret", "..", "\u{0}", "a\u{0}/b", "....//x", "\u{2215}x", "../..", "in/f0"])).to_string(),
                    1 => w.path("abs").display().to_string(),
                    2 => w.top.join("l1/abs").display().to_string(),
                    3 => "../".repeat(rng.below(9)) + "x",
                    _ => name,
                };
                v["metadata"]["name"] = serde_json::Value::from(name.clone());
                w.rm("tmp.8xp");
                w.rm("tmp.json");
                w.put(&format!("in/f{k}.json"), &serde_json::to_vec(&v).unwrap());
            } else {
                let fmt = *rng.pick(&Fmt::ALL);
                w.put(&format!("in/f{k}.{}", fmt.ext()), &p.file(fmt));
            }
            desc.push(name);
        }
        w.mkdir("out/sub");
        w.put("secret.txt", b"secret");
        w.put("secret.8xp", b"secret");
        w.put("in/A.md", b"other");
        let same = rng.chance(1, 6);
        let out = if same { "in" } else { *rng.pick(&["out", "./out", "out/", "out/sub"]) };
        let before = w.snap_all();
        let stdin = if rng.chance(1, 2) { "y\n".repeat(12) } else { String::new() };
        let r = w.run_in(&["convert", "in", "-m", "-o", out], &stdin);
        let what = format!("mass conversion into {out} of programs named {desc:?}");
        if r.watchdog() {
            skip!("watchdog");
        }
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        for d in &desc {
            w.seen("names", d.clone());
        }
        if let Some(d) = r.denied() {
            bad!("{what}: {} {} outside of the output directory", d.a, d.b);
        }
        ensure!(!r.panicked(), "{what}: panicked");
        let base = if same { "in" } else { out.trim_start_matches("./").trim_end_matches('/') };
        let base = format!("l1/l2/l3/l4/l5/l6/work/{base}/");
        for l in snap_diff(&before, &w.snap_all()) {
            let (p, verb) = l.rsplit_once(' ').unwrap();
            let inside = p.strip_prefix(&base).map(|x| !x.is_empty() && !x.contains('/')).unwrap_or(false);
            // an input may be replaced where it stands at an output path and that was confirmed
            let input = p.contains("/work/in/f");
            ensure!(inside && verb == "appeared" || (inside && verb == "changed" && !stdin.is_empty() && !input), "{what}: {l}");
            w.count("files written inside", 1);
        }
        Ok(())
    });
    c.section("output directory settings", c.n(600, 6000), c.n(30, 150) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 20);
        p.name = b"PROG".to_vec();
        w.put("in/a.8xp", &p.file(Fmt::P8));
        w.put("file", b"a file");
        w.put("file.8xp", b"a file");
        let answers = ["", "n\n", "N\n", "\n", "yes\n", "no\n", "x\ny\n", "\u{fffd}\n"];
        let (args, stdin, why): (Vec<&str>, &str, &str) = match i % 8 {
            0 => (vec!["convert", "in", "-m", "-p"], "y\n", "no output directory"),
            1 => (vec!["convert", "in", "-m", "-c"], "y\n", "no output directory, content"),
            2 => (vec!["convert", "in", "-m"], "y\n", "no output at all"),
            3 => (vec!["convert", "in", "-m", "-o", "new"], *rng.pick(&answers), "creation declined"),
            4 => (vec!["convert", "in", "-m", "-o", "none/new"], "y\ny\n", "parent missing"),
            5 => (vec!["convert", "in", "-m", "-o", "file"], "y\n", "output is a file"),
            6 => (vec!["convert", "in/a.8xp", "-m", "-o", "new"], "y\n", "input is a file"),
            _ => (vec!["convert", "missing", "-m", "-o", "new"], "y\n", "input is missing"),
        };
        let before = w.snap_all();
        let r = w.run_in(&args, stdin);
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{why}: {} {stdin:?}", args.join(" "));
        w.judged(true, what.as_bytes(), || what.clone());
        w.seen("settings", why);
        let d = snap_diff(&before, &w.snap_all());
        ensure!(d.is_empty(), "{what}: {}", d.join(", "));
        Ok(())
    });
    c.section("existing files in the output directory", c.n(600, 6000), c.n(30, 150) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 20);
        p.name = b"PROG".to_vec();
        w.put("in/a.8xp", &p.file(Fmt::P8));
        let same = i % 3 == 0;
        let out = if same { "in" } else { "out" };
        let txt = format!("{out}/PROG.txt");
        if same {
            // the output path of a.8xp is an input itself, read before or after it is replaced
            w.put(&txt, b"LATER\n\nProgram\nRAM\naccessible\nlatest\nA");
        } else {
            w.put(&txt, b"precious");
        }
        let yes = rng.chance(1, 2);
        let stdin = if yes { "y\ny\ny\n" } else { *rng.pick(&["", "n\n", "n\ny\n", "n\nn\n"]) };
        let before = w.snap();
        let r = w.run_in(&["convert", "in", "-m", "-o", out], stdin);
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{txt} exists, answers {stdin:?}");
        w.judged(true, format!("{what}{}", show(&p.body)).as_bytes(), || what.clone());
        for l in snap_diff(&before, &w.snap()) {
            let ok = (l == format!("{txt} changed") && yes) || (same && l == "in/LATER.8xp appeared") || (same && yes && l == "in/PROG.8xp appeared");
            ensure!(ok, "{what}: {l}");
        }
        if yes && !same {
            let g = w.get(&txt).unwrap_or_default();
            ensure!(g == p.txt(Fmt::P8, ACC).unwrap().into_bytes(), "{what}: not replaced by the conversion");
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C17

fn lines_of(s: &str) -> Vec<String> {
    s.lines().map(|l| l.trim_end().to_string()).filter(|l| !l.is_empty() && !l.starts_with("Warning:")).collect()
}
fn def_key(k: &[u8]) -> String {
    format!("0x{}", k.iter().map(|b| format!("{b:02X}")).collect::<String>())
}
fn search_case(w: &mut W, text: &str, ty: usize, default: bool) -> Res {
    let mut a = vec!["search", text, "-t", ["pretty", "accessible", "byte"][ty]];
    if default {
        a.truncate(2);
    }
    let t = table(LATEST);
    let key = match ty {
        2 => Some(text.to_string()),
        d => t.longest(text, d).map(|t| def_key(&t.key)),
    };
    let def = key.as_ref().and_then(|k| sheet().definitions.get(k));
    let r = w.run(&a);
    let what = format!("search {text:?} as {}", a.get(3).unwrap_or(&"default"));
    w.judged(!text.is_empty(), what.as_bytes(), || what.clone());
    match def {
        None => {
            w.count("refused", 1);
            ensure!(!r.panicked() && r.failed(), "{what}: not refused ({})", r.status());
            ensure!(!r.stdout().contains("syntax:"), "{what}: refused, but shows {}", shows(&r.stdout()));
            Ok(())
        }
        Some(def) => {
            done(&r, &what)?;
            let want: String = def.iter().map(|(s, d)| format!("syntax: {s}\n{d}\n")).collect();
            let (x, y) = (lines_of(&r.stdout()), lines_of(&crate::exec::strip_ansi(&want)));
            if x != y {
                bad!("{what} ({}): shows {} instead of {}", key.unwrap(), shows(&x.join("\n")), shows(&y.join("\n")));
            }
            w.seen("tokens found", key.unwrap());
            w.count("variations shown", def.len() as u64);
            Ok(())
        }
    }
}
pub fn c17(c: &Ctx) {
    let t = table(LATEST);
    let k = t.toks.len();
    c.section("every token name", k * 2, 0, |w, rng, i| {
        let d = i / k;
        search_case(w, &t.toks[i % k].text[d], d, d == 1 && rng.chance(1, 3))
    });
    c.section("every token name with text behind it", k * 2 * c.n(1, 5), c.n(60, 200) as u64, |w, rng, i| {
        let d = (i / k) % 2;
        let mut s = t.toks[i % k].text[d].clone();
        match rng.below(4) {
            0 => s.push_str("A"),
            1 => s.push_str(&rng.pick(&t.toks).text[d]),
            2 => s.push_str("\u{1F600}x"),
            _ => s.push_str(["(1)", " ", "\"", ")", ",2", "LEFT", "T"][rng.below(7)]),
        }
        search_case(w, &s, d, d == 1 && rng.chance(1, 3))
    });
    // names of the other spellings, languages and times
    let all = spellings();
    c.section("other spellings", all.len() * 2 + 600, c.n(60, 200) as u64, |w, rng, i| {
        let (s, d) = if i < all.len() * 2 {
            (all[i / 2].clone(), i % 2)
        } else {
            // bytes as a name, names as bytes
            let x = rng.pick(&t.toks);
            match i % 4 {
                0 => (def_key(&x.key), rng.below(2)),
                1 => (x.key.iter().map(|b| format!("{b:02X}")).collect(), rng.below(2)),
                2 => (rng.pick(all).clone(), 2),
                _ => (x.text[2].clone(), 2),
            }
        };
        w.count("other spellings", 1);
        search_case(w, &s, d, d == 1 && rng.chance(1, 3))
    });
    // bytes: definitions of bytes that are no token are not judged
    let undecided = ["0xBB6D", "0xBBD0", "0xEF36", "0xEF69", "0xEF7B"];
    let leads: Vec<u8> = t.lead.clone();
    let total = 256 + leads.len() * 256;
    c.section("every byte value", total, c.n(60, 0) as u64, |w, _, i| {
        let s = if i < 256 { format!("0x{i:02X}") } else { format!("0x{:02X}{:02X}", leads[(i - 256) / 256], (i - 256) % 256) };
        if undecided.contains(&s.as_str()) {
            return Ok(());
        }
        search_case(w, &s, 2, false)
    });
    c.section("everything else", c.n(2500, 30000), c.n(30, 150) as u64, |w, rng, i| {
        let ty = i % 3;
        let s: String = match rng.below(8) {
            7 => {
                // nearly the bytes of a token
                let k = rng.pick(&t.toks).key.iter().map(|b| format!("{b:02X}")).collect::<String>();
                match rng.below(9) {
                    0 => format!("0x{k}{:02X}", rng.below(256)),
                    1 => format!("0x{k}{}", rng.pick(&["0", " ", "00", "\n", "h", "ABC", "0x41", ",", "\t"])),
                    2 => format!("0x0x{k}"),
                    3 => format!("0x{}", &k[..k.len() - 1]),
                    4 => format!("0x0{k}"),
                    5 => format!("0x00{k}"),
                    6 => format!("0x{}", k.chars().rev().collect::<String>()),
                    7 => format!("0x{} {}", &k[..2], &k[2..]),
                    _ => format!("0X{k}"),
                }
            }
            0 => (0..rng.below(6)).map(|_| char::from_u32(rng.range(1, 0x3FF) as u32).unwrap()).collect(),
            1 => (*rng.pick(&["", " ", "0x", "0x0", "0x000", "0X41", "$41", "41", "0x41 ", " 0x41", "0xGG", "x41", "0x041", "0x00000041", "$BB$31", "BB31"])).to_string(),
            2 => {
                // cut names
                let x = &rng.pick(&t.toks).text[ty.min(1)];
                let n = rng.below(x.chars().count() + 1);
                x.chars().take(n).collect()
            }
            3 => gen::free_text(rng, &t, ty.min(1)),
            4 => {
                let x = &rng.pick(&t.toks).text[ty.min(1)];
                if rng.chance(1, 2) { x.to_lowercase() } else { x.to_uppercase() }
            }
            5 => format!("0x{:04X}", rng.below(65536)),
            _ => {
                let a = rng.pick(&t.toks);
                let b = rng.pick(&t.toks);
                format!("{}{}", a.text[ty.min(1)], b.text[ty.min(1)])
            }
        };
        if undecided.contains(&s.as_str()) || (ty == 2 && s.starts_with("0x") && s.to_ascii_uppercase() != s.to_ascii_uppercase().replace("0X", "0x")) && s[2..] != s[2..].to_ascii_uppercase() {
            return Ok(());
        }
        search_case(w, &s, ty, ty == 1 && rng.chance(1, 3))
    });
    c.section("unknown types", c.n(60, 300), 0, |w, rng, _| {
        let ty = *rng.pick(&["Pretty", "ti", "bytes", "", "ACCESSIBLE", "x", "acc"]);
        let s = &rng.pick(&t.toks).text[1];
        let r = w.run(&["search", s, "-t", ty]);
        let what = format!("search {s:?} with the type {ty:?}");
        w.judged(true, what.as_bytes(), || what.clone());
        ensure!(r.failed() && !r.panicked() && !r.stdout().contains("syntax:"), "{what}: not refused ({})", r.status());
        Ok(())
    });
}

// ------------------------------------------------------------------ C18

pub fn field(s: &str, k: &str) -> Option<String> {
    s.lines().find_map(|l| l.strip_prefix(k).map(|x| x.to_string()))
}
/// the fields shown for a program, in `s` behind name and comment
fn fields(s: &str, p: &Prog, fmt: Fmt, len: usize, what: &str) -> Res {
    let (name, comment) = (p.name_str(), p.comment_str());
    let head = format!("{name}\n{comment}\n");
    ensure!(s.starts_with(&head), "{what}: name and comment are shown as {}, not {}", shows(s), shows(&head));
    let s = &s[head.len()..];
    let m = p.model().unwrap();
    let dest = if fmt == Fmt::P8 { p.dest } else { 0 };
    let mut want = vec![
        ("Body Size: ", format!("{} bytes", p.body.len())),
        ("model: ", m.name.to_string()),
        ("language: ", m.lang.to_string()),
        ("Destination: ", dest_name(dest).unwrap().to_string()),
        ("File Type: ", type_name(p.ptype).unwrap().to_string()),
    ];
    if fmt == Fmt::P8 {
        want.push(("Total Size: ", format!("{len} bytes")));
    }
    let s = s.split("----- Program -----").next().unwrap();
    for (k, v) in want {
        let got = field(s, k);
        ensure!(got.as_deref() == Some(&v[..]), "{what}: {k}{} instead of {v}", got.unwrap_or("nothing".into()));
    }
    Ok(())
}
/// bytes printed in hexadecimal at the start of the text
fn hex_dump(s: &str) -> (Vec<u8>, &str) {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i + 1 < b.len() {
        let h = |c: u8| (c as char).to_digit(16).filter(|_| !c.is_ascii_lowercase());
        match (h(b[i]), h(b[i + 1])) {
            (Some(x), Some(y)) if i + 2 == b.len() || matches!(b[i + 2], b',' | b'\n') => {
                v.push((x * 16 + y) as u8);
                i += 2;
                if b[i..].starts_with(b", ") {
                    i += 2;
                } else if b[i..].starts_with(b"\n") {
                    i += 1;
                }
            }
            _ => break,
        }
    }
    (v, s[i..].trim_start_matches('\n'))
}
pub fn c18(c: &Ctx) {
    // what no type and destination stand for cannot be shown
    c.section("every type and destination", 256 * 2 * c.n(2, 8), c.n(30, 120) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 20);
        let fmt = *rng.pick(&[Fmt::P8, Fmt::P8, Fmt::P83, Fmt::P82]);
        let fmt = if i / 256 % 2 == 1 { Fmt::P8 } else { fmt };
        let b = i as u8;
        let known = if i / 256 % 2 == 0 {
            p.ptype = b;
            type_name(b)
        } else {
            p.dest = b;
            dest_name(b)
        };
        let inp = format!("a.{}", fmt.ext());
        w.put(&inp, &p.file(fmt));
        let before = w.snap();
        let k = rng.below(5);
        let a = [vec!["details", &inp], vec!["convert", &inp, "-p"], vec!["convert", &inp, "-o", "o.txt"], vec!["convert", &inp, "-o", "o.json"], vec!["archive", &inp, "-f", "o.8xp"]];
        let r = w.run(&a[k]);
        let what = format!("{} with the {} {b:02X}", a[k].join(" "), if i / 256 % 2 == 0 { "type" } else { "destination" });
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("types and destinations", format!("{} {b:02X}", i / 256 % 2));
        match known {
            None => {
                w.count("unknown types and destinations", 1);
                refused(w, &r, &before, &what)
            }
            Some(n) => {
                done(&r, &what)?;
                let s = if k == 2 { String::from_utf8_lossy(&w.get("o.txt").unwrap_or_default()).to_string() } else { r.stdout() };
                ensure!(k > 2 || s.lines().any(|l| l == n || l.ends_with(&format!(": {n}"))), "{what}: not shown as {n}: {s}");
                Ok(())
            }
        }
    });
    c.section("programs", c.n(5000, 50000), c.n(50, 350) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 80);
        if rng.chance(1, 4) {
            p.name = (0..rng.range(0, 8)).map(|_| rng.byte()).collect();
        }
        if rng.chance(1, 5) {
            // text behind the padding
            p.comment = (0..rng.range(2, 42)).map(|_| if rng.chance(1, 4) { 0 } else { *rng.pick(b"abcXYZ 09\xE9\n") }).collect();
            w.count("comments with zeros", 1);
        }
        if rng.chance(1, 12) {
            p.name = (0..rng.range(2, 8)).map(|_| if rng.chance(1, 4) { 0 } else { *rng.pick(b"ABCXYZ09[\xE9") }).collect();
            w.count("names with zeros", 1);
        }
        if rng.chance(1, 50) {
            let n = *rng.pick(&[65516, 1000, 20000]);
            p.body = gen::body_exact(rng, &p.table(), n);
        }
        let fmt = if rng.chance(2, 3) { Fmt::P8 } else { *rng.pick(&Fmt::ALL) };
        let inp = format!("a.{}", fmt.ext());
        let mut f = p.file(fmt);
        let mut odd = false;
        if fmt == Fmt::P8 && rng.chance(1, 5) {
            // fields that are not shown
            for at in [53, 57, 70, 72, f.len() - 2] {
                let r = rng.next() as u16;
                if rng.chance(1, 2) {
                    f[at..at + 2].copy_from_slice(&rng.pick(&[0, 1, 2, 19, 0x7FFF, 0xFFFF, r]).to_le_bytes());
                }
            }
            odd = true;
        }
        w.put(&inp, &f);
        let before = w.snap_all();
        let d = rng.below(3);
        let k = i % 4;
        let a: Vec<&str> = match k {
            0 => vec!["details", &inp],
            1 => vec!["convert", &inp, "-p", "-d", DISP[d]],
            2 => vec!["convert", &inp, "-c"],
            _ => vec!["convert", &inp, "-c", "-p", "-d", DISP[d]],
        };
        let r = w.run(&a);
        let what = format!("{} of {} {:?}", a.join(" "), p.model().unwrap().name, p.name_str());
        w.judged(true, &[&f[..], a.join(" ").as_bytes()].concat(), || what.clone());
        w.seen("views", format!("{} {}", ["details", "preview", "content", "both"][k], fmt.ext()));
        w.seen("model, type, destination", format!("{} {:02X} {:02X}", p.model().unwrap().name, p.ptype, p.dest));
        done(&r, &what)?;
        let changed = r.ops.iter().find(|o| o.op != "close" && o.op != "openr");
        ensure!(changed.is_none(), "{what}: changes files: {changed:?}");
        let diff = snap_diff(&before, &w.snap_all());
        ensure!(diff.is_empty(), "{what}: {}", diff.join(", "));
        let out = r.raw_stdout();
        let mut s = &out[..];
        if k >= 2 {
            let (bytes, rest) = hex_dump(s);
            let want = if fmt == Fmt::P8 {
                f.clone()
            } else {
                let mut q = p.clone();
                q.dest = 0;
                q.version = 0;
                q.file(Fmt::P8)
            };
            // names of hexadecimal digits can follow the last line
            ensure!(bytes.starts_with(&want) || (bytes == want), "{what}: the bytes shown differ: {}", part(&bytes, &want));
            ensure!(bytes.len() == want.len() || k == 3, "{what}: {} bytes shown instead of {}", bytes.len(), want.len());
            s = rest;
            if k == 3 {
                // from the blank line behind the bytes
                let lines = want.len().div_ceil(16);
                let mut at = 0;
                for _ in 0..lines {
                    at += out[at..].find('\n').map(|x| x + 1).unwrap_or(out.len() - at);
                }
                // an incomplete last line ends with the blank line's own line end
                let blank = &out[at..];
                s = blank.strip_prefix(if want.len() % 16 == 0 { "\n\n" } else { "\n" }).unwrap_or(blank);
            }
        }
        if k != 2 {
            fields(s, &p, fmt, f.len(), &what)?;
        }
        if k == 1 || k == 3 {
            let Some(x) = preview_text(s) else { bad!("{what}: no program shown") };
            let e = p.table().decode(&p.body, d).unwrap();
            ensure!(x.trim_end_matches('\n') == e.trim_end_matches('\n') && x.len() >= e.len(), "{what}: the program shown differs, {}", parts(x, &e));
        }
        if odd {
            w.count("odd files", 1);
        }
        Ok(())
    });
    c.section("texts", c.n(3000, 30000), c.n(40, 250) as u64, |w, rng, i| {
        let m = &MODELS[i % 25];
        let d = rng.below(3);
        let t = table(m.order);
        let text = gen::token_text(rng, &t, d, 40);
        let (f, want) = random_txt(rng, m, d, text.clone());
        let e = rng.below(3);
        w.put("a.txt", &f);
        let r0 = w.run(&["convert", "a.txt", "-o", "ref.8xp", "-e", ENC[e]]);
        if !r0.ok() {
            return Ok(());
        }
        let file = w.get("ref.8xp").unwrap_or_default();
        let before = w.snap_all();
        let k = rng.below(3);
        let a: Vec<&str> = match k {
            0 => vec!["convert", "a.txt", "-p", "-e", ENC[e]],
            1 => vec!["convert", "a.txt", "-c", "-e", ENC[e]],
            _ => vec!["convert", "a.txt", "-p", "-o", "again.8xp", "-e", ENC[e]],
        };
        let r = w.run(&a);
        let what = format!("{} of a text for {}", a.join(" "), m.name);
        w.judged(true, &[&f[..], a.join(" ").as_bytes()].concat(), || what.clone());
        w.seen("text views", ["preview", "content", "preview and save"][k]);
        done(&r, &what)?;
        let out = r.raw_stdout();
        if k != 1 {
            let (bytes, _) = hex_dump(&out);
            ensure!(bytes.starts_with(&file) && bytes.len() - file.len() <= 16, "{what}: the bytes shown are not those of the program: {}", part(&bytes, &file));
        } else {
            let p = match well_formed(&file, Fmt::P8) {
                Ok(p) => p,
                Err(e) => bad!("{what}: {e}"),
            };
            let mut q = p.clone();
            // the exact model of the text
            q.sig = p.sig.clone();
            let head = format!("{}\n{}\n", want.name_str(), p.comment_str());
            ensure!(out.starts_with(&head), "{what}: name and comment shown as {}", shows(&out));
            for (k, v) in [
                ("Body Size: ", format!("{} bytes", p.body.len())),
                ("Total Size: ", format!("{} bytes", file.len())),
                ("model: ", m.name.to_string()),
                ("language: ", m.lang.to_string()),
                ("Destination: ", dest_name(want.dest).unwrap().to_string()),
                ("File Type: ", type_name(want.ptype).unwrap().to_string()),
            ] {
                let got = field(&out, k);
                ensure!(got.as_deref() == Some(&v[..]), "{what}: {k}{} instead of {v}", got.unwrap_or("nothing".into()));
            }
            let Some(x) = preview_text(&out) else { bad!("{what}: no program shown") };
            let x = x.trim_end_matches('\n');
            ensure!(x == text.trim_end_matches('\n') || x == normalize(&text).trim_end_matches('\n'), "{what}: the program shown differs, {}", parts(x, &text));
        }
        let diff = snap_diff(&before, &w.snap_all());
        ensure!(diff.is_empty() || k == 2, "{what}: {}", diff.join(", "));
        Ok(())
    });
    c.section("json", c.n(1200, 10000), c.n(30, 150) as u64, |w, rng, i| {
        let p = gen::prog(rng, 40);
        let f = p.file(Fmt::P8);
        let d = rng.below(3);
        w.put("a.8xp", &f);
        w.run(&["convert", "a.8xp", "-o", "a.json", "-d", DISP[d]]);
        let Some(j) = w.get("a.json") else { bad!("no json") };
        let before = w.snap_all();
        let (pv, ct) = [(true, false), (false, true), (true, true)][i % 3];
        let mut a = vec!["convert", "a.json"];
        if ct {
            a.push("-c");
        }
        if pv {
            a.push("-p");
        }
        if rng.chance(1, 3) {
            a.extend(["-d", *rng.pick(&DISP)]);
        }
        let r = w.run(&a);
        let what = format!("{} of json of {}", a.join(" "), p.model().unwrap().name);
        w.judged(true, &[&f[..], &[pv as u8, ct as u8, d as u8]].concat(), || what.clone());
        w.seen("json views", format!("{pv} {ct}"));
        done(&r, &what)?;
        let mut out = r.raw_stdout();
        if ct {
            let b: Option<serde_json::Value> = serde_json::from_slice(&j).ok();
            let mut it = serde_json::Deserializer::from_str(&out).into_iter::<serde_json::Value>();
            let a = it.next().and_then(|x| x.ok());
            let end = it.byte_offset();
            ensure!(a.is_some() && a == b, "{what}: shows other json");
            out = out[end..].trim_start_matches('\n').to_string();
            ensure!(pv || out.trim().is_empty(), "{what}: shows more than the json: {}", shows(&out));
        }
        if pv {
            let (bytes, _) = hex_dump(&out);
            ensure!(bytes.starts_with(&f), "{what}: the bytes shown differ: {}", part(&bytes, &f));
            let lines = f.len().div_ceil(16);
            let mut at = 0;
            for _ in 0..lines {
                at += out[at..].find('\n').map(|x| x + 1).unwrap_or(out.len() - at);
            }
            let s = out[at..].strip_prefix(if f.len() % 16 == 0 { "\n\n" } else { "\n" }).unwrap_or(&out[at..]);
            fields(s, &p, Fmt::P8, f.len(), &what)?;
            let Some(x) = preview_text(s) else { bad!("{what}: no program shown") };
            let e = p.table().decode(&p.body, d).unwrap();
            ensure!(x.trim_end_matches('\n') == e.trim_end_matches('\n'), "{what}: the program shown differs, {}", parts(x, &e));
        }
        let diff = snap_diff(&before, &w.snap_all());
        ensure!(diff.is_empty(), "{what}: {}", diff.join(", "));
        Ok(())
    });
}

// ------------------------------------------------------------------ C20

type HelpLine = (&'static str, &'static str, bool, &'static [&'static str]);
const NEWFILE: HelpLine = ("-f", "--new-file", true, &[]);
const DELOLD: HelpLine = ("-d", "--delete-old", false, &[]);
/// every command and its options: short, long, takes a value, what the help says of it
const HELP: &[(&str, &[HelpLine])] = &[
    ("help", &[]),
    ("version", &[]),
    (
        "convert",
        &[
            ("-o", "--output", true, &[]),
            ("-d", "--display-mode", true, &["[pretty, accessible, ti]", "Default: accessible"]),
            ("-e", "--encode-mode", true, &["[min, max, smart]", "Default: smart"]),
            ("-c", "--content", false, &[]),
            ("-p", "--preview", false, &[]),
            ("-m", "--mass", false, &[]),
        ],
    ),
    ("search", &[("-t", "--type", true, &["[accessible, pretty, byte]", "Default: accessible"])]),
    ("rename", &[("-n", "--name", true, &[]), NEWFILE, DELOLD]),
    ("comment", &[("-c", "--comment", true, &[]), NEWFILE, DELOLD]),
    ("lock", &[NEWFILE, DELOLD]),
    ("unlock", &[NEWFILE, DELOLD]),
    ("archive", &[NEWFILE, DELOLD]),
    ("unarchive", &[NEWFILE, DELOLD]),
    ("details", &[]),
    ("models", &[]),
];
/// without the colours
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(x) = it.next() {
        if x == '\x1b' {
            for y in it.by_ref() {
                if y.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(x);
        }
    }
    out
}
/// one command with its options; each option is (short, long, value)
struct Line {
    cmd: &'static str,
    input: String,
    opts: Vec<(&'static str, &'static str, Option<String>)>,
    stdin: &'static str,
}
fn render(rng: &mut Rng, l: &Line, order: &[usize], long: &[bool]) -> Vec<String> {
    let _ = rng;
    let mut v = vec![l.cmd.to_string(), l.input.clone()];
    for i in order {
        let o = &l.opts[*i];
        v.push(if long[*i] { o.1.to_string() } else { o.0.to_string() });
        if let Some(x) = &o.2 {
            v.push(x.clone());
        }
    }
    v
}
fn world(w: &mut W, p: &Prog, extra: &[Put]) {
    w.put("a.8xp", &p.file(Fmt::P8));
    w.put("a.txt", b"ABC\nc\nProgram\nRAM\naccessible\nlatest\n\"LEFT\"\nprgmSINX\nDisp sin(A\n->");
    w.put("in/p.8xp", &p.file(Fmt::P8));
    w.mkdir("out");
    for (n, d) in extra {
        w.put(n, d);
    }
}
fn options(rng: &mut Rng) -> Line {
    let o = |s, l, v: Option<&str>| (s, l, v.map(|x| x.to_string()));
    let mut opts = vec![];
    let cmd = *rng.pick(&["convert", "convert", "convert", "search", "rename", "comment", "lock", "unlock", "archive", "unarchive"]);
    let mut input = "a.8xp".to_string();
    let mut stdin = "";
    match cmd {
        "convert" => {
            let mass = rng.chance(1, 4);
            input = if mass { "in".into() } else { (*rng.pick(&["a.8xp", "a.txt"])).to_string() };
            if rng.chance(4, 5) {
                let p = if mass { "out" } else { *rng.pick(&["o.8xp", "o.txt", "o.json", "o.83p"]) };
                opts.push(o("-o", "--output", Some(p)));
            }
            if rng.chance(1, 2) {
                opts.push(o("-d", "--display-mode", Some(DISP[rng.below(3)])));
            }
            if rng.chance(1, 2) {
                opts.push(o("-e", "--encode-mode", Some(ENC[rng.below(3)])));
            }
            if rng.chance(1, 3) {
                opts.push(o("-c", "--content", None));
            }
            if rng.chance(1, 3) {
                opts.push(o("-p", "--preview", None));
            }
            if mass {
                opts.push(o("-m", "--mass", None));
            }
        }
        "search" => {
            let k = rng.below(3);
            input = ["sin(", "Disp ", "0xBB31"][k].into();
            opts.push(o("-t", "--type", Some(["pretty", "accessible", "byte"][k])));
        }
        _ => {
            if cmd == "rename" {
                opts.push(o("-n", "--name", Some(*rng.pick(&["NEW", "abc", "PROGRAMX"]))));
            }
            if cmd == "comment" {
                opts.push(o("-c", "--comment", Some(*rng.pick(&["hello", "-d", "-f", "--new-file", "-c", "-h", "--help", "--delete-old", "", "-", "--"]))));
            }
            if rng.chance(2, 3) {
                opts.push(o("-f", "--new-file", Some("n.8xp")));
                if rng.chance(1, 2) {
                    opts.push(o("-d", "--delete-old", None));
                }
            } else {
                stdin = "y\n";
            }
        }
    }
    Line { cmd, input, opts, stdin }
}
fn outcome(w: &mut W, p: &Prog, args: &[String], stdin: &str) -> (Run, crate::exec::Snap) {
    let (j, pu) = (std::mem::take(&mut w.b.journal), std::mem::take(&mut w.b.puts));
    w.b.clean();
    w.b.journal = j;
    world(w, p, &[]);
    w.b.puts = pu;
    let r = w.run_in(&strs(args), stdin);
    let s = w.snap();
    (r, s)
}
/// a value that is almost this one, and none of the supported ones
fn near(rng: &mut Rng, word: &str, ok: &[&str]) -> String {
    loop {
        let k = rng.below(word.len());
        let mut v = match rng.below(17) {
            0 => word.to_uppercase(),
            1 => word[..1].to_uppercase() + &word[1..],
            2 => format!(" {word}"),
            3 => format!("{word} "),
            4 => format!("{word}\n"),
            5 => format!("\t{word}"),
            6 => word[..k].to_string(),
            7 => word[k..].to_string(),
            8 => format!("{word}s"),
            9 => format!("{word}{word}"),
            10 => format!("{}{}", &word[..k], &word[k + 1..]),
            11 => format!("{}{}{}", &word[..k], word[k..k + 1].to_uppercase(), &word[k + 1..]),
            12 => format!("\u{feff}{word}"),
            13 => format!("--{word}"),
            14 => format!("{word}\u{a0}"),
            15 => format!("\"{word}\""),
            _ => (*rng.pick(&["ti", "byte", "smart", "min", "max", "pretty", "accessible", "true", "0", "default", "latest"])).to_string(),
        };
        if rng.chance(1, 10) {
            v.push(*rng.pick(&[',', '.', '=', '_', '0']));
        }
        if !ok.contains(&v.as_str()) && !["-h", "--help"].contains(&v.as_str()) {
            return v;
        }
    }
}
pub fn c20(c: &Ctx) {
    c.section("long, short, order", c.n(1200, 12000), c.n(50, 350) as u64, |w, rng, _| {
        let p = gen::prog(rng, 20);
        let l = options(rng);
        let n = l.opts.len();
        let base = render(rng, &l, &(0..n).collect::<Vec<_>>(), &vec![false; n]);
        let (r0, s0) = outcome(w, &p, &base, l.stdin);
        if r0.watchdog() {
            skip!("watchdog");
        }
        w.judged(n > 0, format!("{base:?}{}", show(&p.body)).as_bytes(), || base.join(" "));
        w.seen("commands", format!("{} {}", l.cmd, l.opts.iter().map(|o| o.0).collect::<String>()));
        for _ in 0..3 {
            let mut order: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut order);
            let long: Vec<bool> = (0..n).map(|_| rng.chance(1, 2)).collect();
            let a = render(rng, &l, &order, &long);
            let (r, s) = outcome(w, &p, &a, l.stdin);
            w.count("variants compared", 1);
            ensure!(r.code == r0.code && r.out == r0.out, "{} and {} print different things ({} {}): {}", base.join(" "), a.join(" "), r0.status(), r.status(), part(&r.out, &r0.out));
            let d = snap_diff(&s0, &s);
            ensure!(d.is_empty(), "{} and {} leave different files: {}", base.join(" "), a.join(" "), d.join(", "));
        }
        Ok(())
    });
    c.section("meaning", c.n(1500, 15000), c.n(50, 350) as u64, |w, rng, _| {
        // what each option does, on its own terms
        let p = gen::prog(rng, 20);
        let l = options(rng);
        if l.cmd == "search" || l.input == "in" {
            return Ok(());
        }
        let n = l.opts.len();
        let mut order: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut order);
        let long: Vec<bool> = (0..n).map(|_| rng.chance(1, 2)).collect();
        let a = render(rng, &l, &order, &long);
        let (r, s) = outcome(w, &p, &a, l.stdin);
        let what = a.join(" ");
        w.judged(true, format!("{a:?}{}", show(&p.body)).as_bytes(), || what.clone());
        let val = |k: &str| l.opts.iter().find(|o| o.0 == k).map(|o| o.2.clone().unwrap_or_default());
        let file = |n: &str| match s.get(n) {
            Some(Node::File(d)) => Some(d.clone()),
            _ => None,
        };
        if l.cmd == "convert" {
            let d = val("-d").map(|v| DISP.iter().position(|x| *x == v).unwrap()).unwrap_or(ACC);
            let (out, shows_any) = (val("-o"), val("-c").is_some() || val("-p").is_some());
            if out.is_none() && !shows_any {
                ensure!(r.failed(), "{what}: nothing to do, but {}", r.status());
                return Ok(());
            }
            done(&r, &what)?;
            if l.input == "a.8xp" {
                if let Some(o) = &out {
                    match o.as_str() {
                        "o.txt" => ensure!(file(o) == p.txt(Fmt::P8, d).map(|s| s.into_bytes()), "{what}: {o} is not the text in {} mode", DISP[d]),
                        "o.8xp" => ensure!(file(o) == Some(p.file(Fmt::P8)), "{what}: {o} is not the program"),
                        "o.83p" => ensure!(file(o) == Some(p.file(Fmt::P83)), "{what}: {o} is not the program"),
                        _ => ensure!(file(o).is_some(), "{what}: {o} is missing"),
                    }
                }
                ensure!(val("-p").is_some() == r.stdout().contains("----- Program -----"), "{what}: preview {}", if val("-p").is_some() { "missing" } else { "not asked for" });
                let hex = field(&r.stdout(), &format!("{:02X}, {:02X}, ", p.sig[0], p.sig[1])).is_some();
                ensure!(val("-c").is_some() == hex, "{what}: content {}", if hex { "not asked for" } else { "missing" });
            } else {
                let e = val("-e").unwrap_or("smart".into());
                if out.as_deref() == Some("o.8xp") {
                    let b = file("o.8xp").unwrap_or_default();
                    let t = table(LATEST);
                    let want = encode(&t, "\"LEFT\"\nprgmSINX\nDisp sin(A\n->", ACC, if e == "smart" { Rule::Quirk } else { rule(&e) });
                    ensure!(b.len() > 76 && Some(b[74..b.len() - 2].to_vec()) == want, "{what}: not encoded in {e} mode");
                }
            }
            let known = ["a.8xp", "a.txt", "in", "in/p.8xp", "out"];
            for k in s.keys() {
                ensure!(known.contains(&k.as_str()) || Some(k) == out.as_ref(), "{what}: {k} appeared");
            }
            return Ok(());
        }
        done(&r, &what)?;
        let e = match l.cmd {
            "rename" => Edit::Rename(val("-n").unwrap()),
            "comment" => Edit::Comment(val("-c").unwrap()),
            "lock" => Edit::Lock,
            "unlock" => Edit::Unlock,
            "archive" => Edit::Archive,
            _ => Edit::Unarchive,
        };
        let mut f = p.file(Fmt::P8);
        e.apply_bytes(&mut f);
        match val("-f") {
            None => ensure!(file("a.8xp") == Some(f), "{what}: a.8xp is not edited"),
            Some(o) => {
                ensure!(file(&o) == Some(f), "{what}: {o} is not the edited program");
                let del = l.opts.iter().any(|o| o.0 == "-d");
                ensure!(del == file("a.8xp").is_none(), "{what}: delete-old {}", if del { "ignored" } else { "not asked for" });
            }
        }
        Ok(())
    });
    c.section("defaults", c.n(500, 5000), c.n(30, 200) as u64, |w, rng, i| {
        let p = gen::prog(rng, 20);
        let (short, full): (Vec<&str>, Vec<&str>) = match i % 6 {
            0 => (vec!["convert", "a.8xp", "-o", "o.txt"], vec!["convert", "a.8xp", "-o", "o.txt", "-d", "accessible"]),
            1 => (vec!["convert", "a.txt", "-o", "o.8xp"], vec!["convert", "a.txt", "-o", "o.8xp", "-e", "smart"]),
            2 => (vec!["search", "sin("], vec!["search", "sin(", "-t", "accessible"]),
            3 => (vec!["convert", "a.8xp", "-p"], vec!["convert", "a.8xp", "-p", "-d", "accessible", "-e", "smart"]),
            4 => (vec!["convert", "in", "-m", "-o", "out"], vec!["convert", "in", "-m", "-o", "out", "-d", "accessible", "-e", "smart"]),
            _ => (vec!["convert", "a.txt", "-p", "-c"], vec!["convert", "a.txt", "-p", "-c", "--encode-mode", "smart", "--display-mode", "accessible"]),
        };
        let (r0, s0) = outcome(w, &p, &vs(&short), "");
        let (r1, s1) = outcome(w, &p, &vs(&full), "");
        let what = format!("{} and {}", short.join(" "), full.join(" "));
        w.judged(true, format!("{what}{}", show(&p.body)).as_bytes(), || what.clone());
        w.seen("defaults", what.clone());
        done(&r0, &what)?;
        ensure!(r0.out == r1.out && r0.code == r1.code, "{what} print different things");
        let d = snap_diff(&s0, &s1);
        ensure!(d.is_empty(), "{what} leave different files: {}", d.join(", "));
        Ok(())
    });
    c.section("help", HELP.len() * 4 + 2, 0, |w, rng, i| {
        // the help names every option of the command, in both forms, with its values and default
        let p = gen::prog(rng, 20);
        world(w, &p, &[]);
        let before = w.snap_all();
        let (a, of): (Vec<String>, Vec<usize>) = match i / 4 {
            k if k < HELP.len() => {
                let cmd = HELP[k].0;
                let a = match i % 4 {
                    0 => vs(&["help", cmd]),
                    1 => vs(&[cmd, "-h"]),
                    2 => vs(&[cmd, "--help"]),
                    _ => vs(&[cmd, "a.8xp", *rng.pick(&["-h", "--help"])]),
                };
                (a, vec![k])
            }
            _ => (if i % 4 == 0 { vs(&["help"]) } else { vec![] }, (0..HELP.len()).collect()),
        };
        let r = w.run(&strs(&a));
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{:?}", a.join(" "));
        done(&r, &what)?;
        let d = snap_diff(&before, &w.snap_all());
        ensure!(d.is_empty(), "{what}: {}", d.join(", "));
        w.judged(true, what.as_bytes(), || what.clone());
        w.seen("help asked for", what.clone());
        let out = plain(&r.stdout());
        // the lines of each command: a command is named by "NAME - description"
        let mut lines: Vec<(String, String)> = vec![];
        let mut cmd = String::new();
        for l in out.lines() {
            let t = l.trim();
            if let Some((n, _)) = t.split_once(" - ") {
                if !t.starts_with('-') && !n.is_empty() && n.chars().all(|x| x.is_ascii_lowercase()) {
                    cmd = n.into();
                    lines.push((cmd.clone(), String::new()));
                    continue;
                }
            }
            lines.push((cmd.clone(), t.into()));
        }
        for k in of {
            let (cmd, opts) = HELP[k];
            ensure!(lines.iter().any(|l| l.0 == cmd), "{what}: {cmd} is not named");
            let mine: Vec<&str> = lines.iter().filter(|l| l.0 == cmd && l.1.starts_with('-')).map(|l| l.1.as_str()).collect();
            ensure!(mine.len() == opts.len(), "{what}: {cmd} has {} options, {} are shown", opts.len(), mine.len());
            for (short, long, value, words) in opts {
                let Some(l) = mine.iter().find(|l| l.split_whitespace().next() == Some(*short)) else {
                    bad!("{what}: {short} of {cmd} is not shown");
                };
                let mut t = l.split_whitespace();
                t.next();
                ensure!(t.next() == Some(*long), "{what}: the long form of {short} of {cmd} is not shown as {long}: {l}");
                ensure!(t.next().is_some_and(|x| x.starts_with('<')) == *value, "{what}: {short} of {cmd} is shown {} a value: {l}", if *value { "without" } else { "with" });
                for x in *words {
                    ensure!(l.contains(x), "{what}: {short} of {cmd} is shown without {x:?}: {l}");
                }
            }
        }
        Ok(())
    });
    c.section("refused command lines and help", c.n(2500, 25000), c.n(40, 250) as u64, |w, rng, i| {
        let p = gen::prog(rng, 20);
        world(w, &p, &[]);
        w.put("n.8xp", b"precious");
        let cmds = ["rename", "comment", "lock", "unlock", "archive", "unarchive"];
        let cmd = *rng.pick(&cmds);
        let val = |a: &mut Vec<String>, rng: &mut Rng| {
            if cmd == "rename" {
                a.extend(vs(&[*rng.pick(&["-n", "--name"]), "NEW"]));
            }
            if cmd == "comment" {
                a.extend(vs(&[*rng.pick(&["-c", "--comment"]), *rng.pick(&["hello", "x -f y"])]));
            }
        };
        let mut must_fail = true;
        let (why, a): (&str, Vec<String>) = match i % 12 {
            0 => {
                let mut a = vs(&[cmd, "a.8xp"]);
                let mut d = vs(&[*rng.pick(&["-d", "--delete-old"])]);
                if rng.chance(1, 2) {
                    val(&mut a, rng);
                    a.append(&mut d);
                } else {
                    a.append(&mut d);
                    val(&mut a, rng);
                }
                ("delete-old without a new file", a)
            }
            1 => {
                let mut a = vs(&[*rng.pick(&["rename", "comment"]), "a.8xp"]);
                if rng.chance(1, 2) {
                    a.extend(vs(&["-f", "q.8xp"]));
                }
                if rng.chance(1, 2) && a.len() > 2 {
                    a.push("-d".into());
                }
                ("a required option is missing", a)
            }
            2 => {
                let a = match rng.below(3) {
                    0 => vs(&["rename", "a.8xp", "-n"]),
                    1 => vs(&["comment", "a.8xp", "-f", "q.8xp", "--comment"]),
                    _ => vs(&["rename", "a.8xp", "-f", "q.8xp", "-d", "-n"]),
                };
                ("a required value is missing", a)
            }
            3 => ("no input", vs(&[*rng.pick(&["convert", "rename", "comment", "lock", "unlock", "archive", "unarchive", "details", "search"])])),
            4 if rng.chance(2, 3) => {
                let d = *rng.pick(&DISP);
                let v = near(rng, d, &DISP);
                ("unsupported mode", vs(&["convert", *rng.pick(&["a.8xp", "a.txt"]), "-o", "q.json", *rng.pick(&["-d", "--display-mode"]), &v]))
            }
            5 if rng.chance(2, 3) => {
                let d = *rng.pick(&ENC);
                let v = near(rng, d, &ENC);
                ("unsupported encode mode", vs(&["convert", *rng.pick(&["a.8xp", "a.txt"]), "-o", "q.json", *rng.pick(&["-e", "--encode-mode"]), &v]))
            }
            6 if rng.chance(2, 3) => {
                let ok = ["pretty", "accessible", "byte"];
                let d = *rng.pick(&ok);
                let v = near(rng, d, &ok);
                ("unsupported type", vs(&["search", "sin(", *rng.pick(&["-t", "--type"]), &v]))
            }
            4 => ("unsupported mode", vs(&["convert", "a.8xp", "-o", "q.txt", *rng.pick(&["-d", "--display-mode"]), *rng.pick(&["Accessible", "x", "", "byte", "smart", "-p"])])),
            5 => ("unsupported encode mode", vs(&["convert", "a.txt", "-o", "q.8xp", *rng.pick(&["-e", "--encode-mode"]), *rng.pick(&["Smart", "x", "", "medium", "ti", "-p"])])),
            6 => ("unsupported type", vs(&["search", "sin(", *rng.pick(&["-t", "--type"]), *rng.pick(&["Byte", "", "ti", "x"])])),
            7 => {
                must_fail = false;
                let mut a = vs(&[cmd, "a.8xp"]);
                val(&mut a, rng);
                if rng.chance(1, 2) {
                    a.extend(vs(&["-f", "q.8xp"]));
                    if rng.chance(1, 2) {
                        a.push("-d".into());
                    }
                }
                // anywhere but as a value
                let at = *rng.pick(&[2, a.len()]);
                a.insert(at, (*rng.pick(&["-h", "--help"])).into());
                ("help of a command", a)
            }
            8 => {
                must_fail = false;
                ("help of convert", vs(&["convert", "a.8xp", "-o", "q.txt", *rng.pick(&["-h", "--help"])]))
            }
            9 => {
                let c = *rng.pick(&["help", "version", "models", "", "nope", "-h", "--help", "Convert", "LOCK"]);
                must_fail = !["help", "version", "models", "-h", "--help"].contains(&c);
                let mut a = vs(&[c]);
                if rng.chance(1, 2) {
                    a.extend(vs(&["a.8xp", "-o", "q.txt"]));
                }
                ("help, version, models and unknown commands", a)
            }
            10 => {
                // the value of one option names another
                let a = match rng.below(4) {
                    0 => vs(&["rename", "a.8xp", "-n", "-f", "q.8xp"]),
                    1 => vs(&["rename", "a.8xp", "-n", "-d"]),
                    2 => vs(&["rename", "a.8xp", "--name", "--delete-old", "-f", "q.8xp"]),
                    _ => vs(&["convert", "a.8xp", "-o", "-p"]),
                };
                ("a value that looks like an option and is not valid", a)
            }
            _ => ("a directory without mass or a file with it", if rng.chance(1, 2) { vs(&["convert", "in", "-o", "q.txt"]) } else { vs(&["convert", "a.8xp", "-m", "-o", "out"]) }),
        };
        let before = w.snap_all();
        let r = w.run_in(&strs(&a), "y\ny\n");
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{why}: {}", a.join(" "));
        w.judged(true, what.as_bytes(), || what.clone());
        w.seen("refusals", why);
        ensure!(!r.panicked() && r.signal.is_none(), "{what}: {}", r.status());
        if must_fail {
            ensure!(r.failed(), "{what}: not refused: {}", r.stdout());
        }
        let d = snap_diff(&before, &w.snap_all());
        ensure!(d.is_empty(), "{what}: {}", d.join(", "));
        if why.starts_with("help of") {
            ensure!(r.ok() && r.stdout().contains(&a[0]), "{what}: no help shown");
        }
        ensure!(!r.out.is_empty() || !r.err.is_empty(), "{what}: no message");
        Ok(())
    });
    // what is no option in a form that the help names is not taken for one
    c.section("arguments that are nearly options", c.n(1500, 15000), c.n(40, 250) as u64, |w, rng, i| {
        let p = gen::prog(rng, 20);
        let l = options(rng);
        let Some((_, known)) = HELP.iter().find(|h| h.0 == l.cmd) else { skip!("no options") };
        let real: Vec<&str> = known.iter().flat_map(|h| [h.0, h.1]).chain(["-h", "--help"]).collect();
        let k = rng.below(known.len() + 1);
        let (s, o) = known.get(k).map(|h| (h.0, h.1)).unwrap_or(("-h", "--help"));
        let v = *rng.pick(&["z.8xp", "z.txt", "ti", "pretty", "min", "byte", "ZZZ"]);
        let forms = [
            ("upper case", o.to_uppercase()),
            ("capital", format!("--{}{}", o[2..3].to_uppercase(), &o[3..])),
            ("without its last letter", o[..o.len() - 1].to_string()),
            ("first letters", o[..o.len().min(5)].to_string()),
            ("another letter", format!("{o}x")),
            ("= value", format!("{o}={v}")),
            ("one dash", o[1..].to_string()),
            ("no dash", o[2..].to_string()),
            ("three dashes", format!("-{o}")),
            ("short in upper case", s.to_uppercase()),
            ("short with two dashes", format!("-{s}")),
            ("short without dash", s[1..].to_string()),
            ("short with its value", format!("{s}{v}")),
            ("short = value", format!("{s}={v}")),
            ("space behind", format!("{o} ")),
            ("space before", format!(" {s}")),
            ("slash", format!("/{}", &s[1..])),
            ("another dash", format!("\u{2212}{}", &s[1..])),
            ("underscores", o.replace('-', "_")),
            ("no dash inside", format!("--{}", o[2..].replace('-', ""))),
            ("two dashes", "--".to_string()),
            ("one dash alone", "-".to_string()),
            ("empty", String::new()),
            ("two shorts", format!("{s}{}", &known[rng.below(known.len().max(1)).min(known.len() - 1)].0[1..])),
        ];
        let (form, near) = &forms[i % forms.len()];
        if real.contains(&&near[..]) {
            skip!("an option");
        }
        let n = l.opts.len();
        let order: Vec<usize> = (0..n).collect();
        let long: Vec<bool> = (0..n).map(|_| rng.chance(1, 2)).collect();
        let base = render(rng, &l, &order, &long);
        // between the options, never as the value of one
        let mut places = vec![2];
        for o in &l.opts {
            places.push(places[places.len() - 1] + 1 + o.2.is_some() as usize);
        }
        let at = *rng.pick(&places);
        let mut a = base.clone();
        a.insert(at, near.clone());
        if rng.chance(1, 2) {
            a.insert(at + 1, v.to_string());
        }
        let (r0, s0) = outcome(w, &p, &base, l.stdin);
        let (r, s) = outcome(w, &p, &a, l.stdin);
        if r0.watchdog() || r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{a:?}");
        w.judged(true, format!("{what}{}", show(&p.body)).as_bytes(), || what.clone());
        w.seen("near options", *form);
        // it may be refused, but not change what the others mean
        if r0.ok() && !r.ok() {
            let (_, s1) = outcome(w, &p, &vs(&["models"]), "");
            let d = snap_diff(&s1, &s);
            ensure!(d.is_empty(), "{what} is refused, but {}", d.join(", "));
            return Ok(());
        }
        ensure!(r.code == r0.code && r.out == r0.out, "{what} and {base:?} print different things ({} {}): {}", r.status(), r0.status(), part(&r.out, &r0.out));
        let d = snap_diff(&s0, &s);
        ensure!(d.is_empty(), "{what} and {base:?} leave different files: {}", d.join(", "));
        Ok(())
    });
    c.section("values that look like options", c.n(600, 6000), c.n(30, 150) as u64, |w, rng, i| {
        let p = gen::prog(rng, 20);
        let v = *rng.pick(&[
            "-f", "-d", "-h", "-c", "--help", "--new-file", "--delete-old", "--comment", "-n", "-o", "-p", "-m", "--", "-",
            "=3", "=", "-c=x", "--comment=x", "a=b", "\"q\"", "'q'", " x", "x ", " ", "%s", "{}", "$HOME", "${x}", "`x`", "~", "~/x", "@a.8xp", "\\n", "\\", "x,y", "a:b", "a;b", "#x", "/d", "+d", "a|b", "*", "?", "<x>", "a.8xp", "n.8xp", "lock", "comment", "help", "true", "0", "null",
        ]);
        let mut a = vs(&["comment", "a.8xp", *rng.pick(&["-c", "--comment"]), v]);
        let newf = i % 3;
        if newf > 0 {
            a.extend(vs(&[*rng.pick(&["-f", "--new-file"]), "n.8xp"]));
        }
        if newf > 1 {
            a.push((*rng.pick(&["-d", "--delete-old"])).into());
        }
        let (r, s) = outcome(w, &p, &a, "y\n");
        let what = a.join(" ");
        w.judged(true, format!("{what}{}", show(&p.body)).as_bytes(), || what.clone());
        w.seen("values", v);
        done(&r, &what)?;
        let mut f = p.file(Fmt::P8);
        Edit::Comment(v.into()).apply_bytes(&mut f);
        let at = if newf > 0 { "n.8xp" } else { "a.8xp" };
        ensure!(s.get(at) == Some(&Node::File(f.clone())), "{what}: the comment is not {v:?}");
        ensure!(s.contains_key("a.8xp") == (newf < 2), "{what}: the input {}", if newf < 2 { "was deleted" } else { "is still there" });
        for k in s.keys() {
            ensure!(["a.8xp", "a.txt", "in", "in/p.8xp", "out", "n.8xp"].contains(&k.as_str()), "{what}: {k} appeared");
        }
        Ok(())
    });
}
