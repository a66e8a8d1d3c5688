//! C23: malformed interchange files; C24: calls in one process
use crate::ctx::{Ctx, Res, W};
use crate::exec::{snap_diff, Opt};
use crate::gen;
use crate::p_convert::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::{bad, ensure, skip};
use serde_json::{json, Value};
use std::os::unix::process::CommandExt;

// ------------------------------------------------------------------ C23

/// the file must be refused on every way in
fn refused_everywhere(w: &mut W, rng: &mut Rng, inp: &str, what: &str) -> Res {
    let ext = inp.rsplit('.').next().unwrap().to_string();
    w.put("have.8xp", b"an existing file");
    w.put("have.txt", b"an existing file");
    let f = w.get(inp).unwrap_or_default();
    w.put(&format!("dir/x.{ext}"), &f);
    w.mkdir("res");
    let o = *rng.pick(&["new.8xp", "new.83p", "new.82p", "new.txt", "new.json", "have.8xp", "have.txt"]);
    let e = ENC[rng.below(3)];
    let all: [Vec<&str>; 5] = [
        vec!["convert", inp, "-o", o, "-e", e],
        vec!["convert", inp, "-p", "-e", e],
        vec!["convert", inp, "-c", "-e", e],
        vec!["convert", inp, "-o", o, "-p", "-c", "-e", e],
        vec!["convert", "dir", "-m", "-o", "res", "-e", e],
    ];
    // all of them from time to time
    let some: Vec<usize> = if rng.chance(1, 8) { (0..5).collect() } else { vec![rng.below(5)] };
    for k in some {
        let before = w.snap();
        let r = w.run_opt(&all[k], &Opt { stdin: b"y\ny\ny\n".to_vec(), ..Default::default() });
        let what = format!("{what}: {}", all[k].join(" "));
        refused(w, &r, &before, &what)?;
        let s = format!("{}{}", r.stdout(), r.stderr());
        ensure!(s.contains(|c: char| c.is_alphanumeric()), "{what}: refused without a message");
        ensure!(!s.contains("----- Program -----"), "{what}: refused, but a program is shown: {}", shows(&s));
        w.seen("ways in", ["output", "preview", "content", "all", "mass"][k]);
    }
    Ok(())
}
const NEAR: [fn(&str) -> String; 14] = [
    |s| s.to_lowercase(),
    |s| s.to_uppercase(),
    |s| format!(" {s}"),
    |s| format!("{s} "),
    |s| format!("{s}\t"),
    |s| format!("{s}s"),
    |s| format!("{s}{s}"),
    |s| s[..s.len() - 1].into(),
    |s| s[1..].into(),
    |s| format!("{s}\0"),
    |s| format!("{s}\u{a0}"),
    |s| format!("\"{s}\""),
    |s| format!("\u{feff}{s}"),
    |s| format!("{s}:"),
];
const ODD: [&[&str]; 3] = [
    &["", "0", "5", "05", "0x05", "Protected Program", "LockedProgram", "Locked", "Programm", "Locked  Program", "Locked\tProgram", "Appvar", "FlashApplication", "Flash", "App", "RAM", "Program\u{301}", "Рrogram", "?"],
    &["", "0", "00", "0x80", "128", "ROM", "Flash", "Archived", "Unarchived", "R A M", "RAM/Archive", "Program", "АRCHIVE", "none"],
    &["", "0", "display", "TiAscii", "ti-ascii", "ascii", "TI", "Pretty", "access", "accessible mode", "pretty,ti", "min", "smart", "latest", "t\u{131}"],
];
/// places in the json of a program and what belongs there
const PLACES: [(&str, char); 28] = [
    ("/header/bytes", 'b'), ("/header/signature", 's'), ("/header/signature_extra", 'b'), ("/header/product_id", '1'), ("/header/comment", 's'), ("/header/metadata_and_body_length", '2'),
    ("/metadata/bytes", 'b'), ("/metadata/flag", '1'), ("/metadata/unknown_byte", '1'), ("/metadata/body_and_checksum_length", '2'), ("/metadata/file_type", 'e'), ("/metadata/name", 's'), ("/metadata/version", '1'), ("/metadata/destination", 'e'),
    ("/metadata/body_and_checksum_length_copy", '2'), ("/metadata/body_length", '2'), ("/body/bytes", 'b'), ("/body/translation", 's'), ("/checksum/bytes", 'b'), ("/checksum/value", '2'), ("/display_mode", 'e'),
    ("/model/model", 's'), ("/model/signature", 's'), ("/model/product_id", '1'), ("/model/language", 's'), ("/header", 'o'), ("/body", 'o'), ("/model", 'o'),
];
fn wrong(kind: char, old: &Value) -> Vec<Value> {
    let mut v = vec![Value::Null, json!(true), json!(1.5), json!(-1), json!({"x": 1}), json!([[0]]), json!([null])];
    match kind {
        's' => v.extend([json!(0), json!(["A"]), json!([65])]),
        '1' => v.extend([json!("5"), json!(256), json!(u64::MAX), json!([0]), json!("")]),
        '2' => v.extend([json!("5"), json!(65536), json!(u64::MAX), json!([0, 0])]),
        'b' => {
            v.extend([json!("AA"), json!(0)]);
            for x in [json!(256), json!(-1), json!("A"), json!(null), json!(1.5), json!([0])] {
                let mut a = old.as_array().cloned().unwrap_or_default();
                if a.is_empty() {
                    a.push(x)
                } else {
                    let n = a.len();
                    a[n / 2] = x
                }
                v.push(Value::Array(a));
            }
        }
        'e' => {
            v.push(json!(0));
            for n in NEAR {
                if let Some(s) = old.as_str() {
                    v.push(json!(n(s)));
                }
            }
            v.extend(["", "X", "Program ", "Locked Program", "ram", "archive", "accessible", "pretty", "ti", "Ti", "Flash Application", "AppVar"].map(|s| json!(s)));
        }
        _ => v.extend([json!("x"), json!(0), json!([]), json!({})]),
    }
    v.retain(|x| x != old);
    v
}
pub fn c23(c: &Ctx) {
    let text = |rng: &mut Rng| -> (Vec<String>, String) {
        let m = rng.pick(&MODELS);
        let t = table(m.order);
        let d = rng.below(3);
        let name = String::from_utf8(gen::alpha_name(rng, 0, 8)).unwrap();
        let comment = *rng.pick(&["", "a comment", "RAM", "Program", "accessible"]);
        let head = [&name[..], comment, rng.pick(&TYPES).1, rng.pick(&DESTS).1, DISP[d], m.name].map(String::from).to_vec();
        let body = if rng.chance(1, 3) { String::new() } else { t.tok(&[0x41]).unwrap().text[d].clone() };
        (head, body)
    };
    let accepted = |w: &mut W, inp: &str, what: &str| -> Res {
        let r = w.run(&["convert", inp, "-o", "control.8xp"]);
        done(&r, &format!("{what}: the file without the flaw"))?;
        w.rm("control.8xp");
        w.count("controls accepted", 1);
        Ok(())
    };
    c.section("texts without all of their head", 40 * c.n(8, 60), c.n(20, 120) as u64, |w, rng, i| {
        let (head, body) = text(rng);
        w.put("a.txt", format!("{}\n{body}", head.join("\n")).as_bytes());
        accepted(w, "a.txt", "text")?;
        let nl = ["\n", "\r\n"][i / 20 % 2];
        let f = match i % 20 {
            // the first lines only
            k @ 0..=4 => head[..k + 1].join(nl),
            // with a line end behind them
            k @ 5..=8 => head[..k - 4].join(nl) + nl,
            9 => head[..5].join(nl) + nl,
            10 => String::new(),
            11 => nl.repeat(rng.range(1, 3)),
            // a line in between is missing, the body follows
            k @ 12..=14 => {
                let mut h = head.clone();
                h.remove(k - 10);
                format!("{}{nl}{body}", h.join(nl))
            }
            // an additional line
            k @ 15..=17 => {
                let mut h = head.clone();
                h.insert(k - 13, (*rng.pick(&["", "x", "Program X"])).into());
                format!("{}{nl}{body}", h.join(nl))
            }
            // two lines in the other order
            18 => {
                let mut h = head.clone();
                h.swap(2, 3);
                format!("{}{nl}{body}", h.join(nl))
            }
            _ => head.join(" ") + nl + &body,
        };
        // line ends other than these two do not separate lines
        let f = if i % 20 < 10 && rng.chance(1, 6) { f.replace(nl, "\r") } else { f };
        // only the last five lines can decide; anything left that is a valid head is no case
        let l: Vec<&str> = f.lines().collect();
        let valid = l.len() >= 6 && TYPES.iter().any(|t| t.1 == l[2]) && DESTS.iter().any(|t| t.1 == l[3]) && DISP.contains(&l[4]);
        if valid {
            return Ok(());
        }
        let what = format!("text {f:?}");
        w.put("a.txt", f.as_bytes());
        w.judged(!f.is_empty(), f.as_bytes(), || what.clone());
        w.seen("heads", format!("{}", i % 20));
        refused_everywhere(w, rng, "a.txt", &what)
    });
    let odd: usize = ODD.iter().map(|o| o.len()).sum::<usize>() + 3 * NEAR.len();
    c.section("texts with another value in the head", odd * c.n(8, 60), c.n(30, 200) as u64, |w, rng, i| {
        let (mut head, body) = text(rng);
        w.put("a.txt", format!("{}\n{body}", head.join("\n")).as_bytes());
        accepted(w, "a.txt", "text")?;
        let mut k = i % odd;
        let place;
        if k < 3 * NEAR.len() {
            place = k % 3;
            head[2 + place] = NEAR[k / 3](&head[2 + place]);
        } else {
            k -= 3 * NEAR.len();
            let mut p = 0;
            while k >= ODD[p].len() {
                k -= ODD[p].len();
                p += 1;
            }
            place = p;
            head[2 + place] = ODD[p][k].into();
        }
        let v = &head[2 + place];
        if [TYPES.iter().map(|t| t.1).collect::<Vec<_>>(), DESTS.iter().map(|t| t.1).collect(), DISP.to_vec()][place].contains(&&v[..]) {
            return Ok(());
        }
        let f = format!("{}\n{body}", head.join("\n"));
        let what = format!("text with {v:?} as {}", ["type", "destination", "display mode"][place]);
        w.put("a.txt", f.as_bytes());
        w.judged(true, f.as_bytes(), || what.clone());
        w.seen("values in texts", format!("{place} {v}"));
        refused_everywhere(w, rng, "a.txt", &what)
    });
    let json_of = |w: &mut W, rng: &mut Rng| -> Result<(Vec<u8>, Value), crate::ctx::Bad> {
        let mut p = gen::prog(rng, 20);
        p.body.push(0x3F);
        let fmt = *rng.pick(&Fmt::ALL);
        let inp = format!("s.{}", fmt.ext());
        w.put(&inp, &p.file(fmt));
        done(&w.run(&["convert", &inp, "-o", "a.json", "-d", DISP[rng.below(3)]]), "program to json")?;
        let j = w.get("a.json").unwrap_or_default();
        w.rm(&inp);
        match serde_json::from_slice(&j) {
            Ok(v) => Ok((j, v)),
            Err(e) => bad!("the json written cannot be read: {e}"),
        }
    };
    let sample = json!("Program");
    let n = PLACES.iter().map(|p| wrong(p.1, &sample).len().max(14) + 1).max().unwrap();
    c.section("json with parts missing or of a wrong kind", PLACES.len() * n * c.n(2, 12), c.n(60, 300) as u64, |w, rng, i| {
        let (place, kind) = PLACES[i % PLACES.len()];
        let k = i / PLACES.len() % n;
        let (_, mut v) = json_of(w, rng)?;
        accepted(w, "a.json", "json")?;
        let Some(old) = v.pointer(place).cloned() else { bad!("the json has no {place}") };
        let what;
        if k == 0 {
            let (up, key) = place.rsplit_once('/').unwrap();
            v.pointer_mut(up).unwrap().as_object_mut().unwrap().remove(key);
            what = format!("json without {place}");
        } else {
            let all = wrong(kind, &old);
            let Some(x) = all.get(k - 1) else { return Ok(()) };
            *v.pointer_mut(place).unwrap() = x.clone();
            what = format!("json with {} as {place}", x.to_string().chars().take(60).collect::<String>());
        }
        let f = serde_json::to_vec(&v).unwrap();
        w.put("a.json", &f);
        w.judged(true, &f, || what.clone());
        w.seen("places in json", place);
        w.seen("values in json", format!("{kind} {k}"));
        refused_everywhere(w, rng, "a.json", &what)
    });
    c.section("json that is none", 26 * c.n(10, 60), c.n(20, 120) as u64, |w, rng, i| {
        let (j, v) = json_of(w, rng)?;
        accepted(w, "a.json", "json")?;
        let s = String::from_utf8(j.clone()).unwrap();
        let last = s.trim_end().len() - 1;
        let f: Vec<u8> = match i % 26 {
            0 => vec![],
            1 => b"\n".to_vec(),
            2 => b"{}".to_vec(),
            3 => b"[]".to_vec(),
            4 => b"null".to_vec(),
            5 => s[..last].into(),
            6 => {
                let mut n = rng.range(1, last);
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s[..n].into()
            }
            7 => (s.clone() + "x").into(),
            8 => (s.clone() + &s).into(),
            9 => s.replacen(':', "=", 1).into(),
            10 => s.replacen('"', "'", 2).into(),
            11 => s.replacen(',', ",,", 1).into(),
            12 => (s[..last].to_string() + ",}").into(),
            13 => ("\u{feff}".to_string() + &s).into(),
            14 => {
                // a byte that is not UTF-8
                let at = s.find("en\"").or(s.find("fr\"")).unwrap_or(1);
                let mut b = j.clone();
                b[at] = 0xFF;
                b
            }
            15 => (s.clone() + "\0").into(),
            16 => (s.clone() + *rng.pick(&["\0\0\0", "\x1A", "\x0C", "\u{a0}", "\u{feff}", "//", "/**/", ";", "#", ",", "}", "]", "null", "\"\"", "\x0B", "\u{2028}"])).into(),
            17 => (rng.pick(&["//\n", "\0", "\x0C", "\u{a0}", ",", "/**/", "#\n", ")]}'\n", "x=", "\x0B"]).to_string() + &s).into(),
            18 => (s[..last].to_string() + ",").into(),
            19 => format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")).into(),
            20 => s.replace("true", "True").replacen(":{", ":({", 1).replacen(": {", ": ({", 1).into(),
            21 => s.replacen(':', "::", 1).into(),
            22 => s.replacen('{', "{/* */", 1).into(),
            23 => s.replacen('"', "", 2).into(),
            24 => s.encode_utf16().flat_map(|x| x.to_le_bytes()).collect(),
            _ => serde_json::to_vec(&json!([v])).unwrap(),
        };
        let what = format!("json kind {}: {}", i % 26, show(&f[..f.len().min(40)]));
        w.put("a.json", &f);
        w.judged(true, &f, || what.clone());
        w.seen("no json", (i % 26).to_string());
        refused_everywhere(w, rng, "a.json", &what)
    });
    c.section("texts that are not UTF-8", c.n(100, 800), 0, |w, rng, i| {
        let (head, body) = text(rng);
        let f = format!("{}\n{body}", head.join("\n"));
        w.put("a.txt", f.as_bytes());
        accepted(w, "a.txt", "text")?;
        let mut b = f.into_bytes();
        let at = [0, b.len(), rng.below(b.len() + 1)][i % 3];
        let bytes: &[u8] = *rng.pick(&[&b"\xFF"[..], b"\xC3", b"\x80", b"\xED\xA0\x80", b"\xC0\x80", b"\xF4\x90\x80\x80", b"\xFE\xFF\x00A"]);
        b.splice(at..at, bytes.iter().copied());
        if std::str::from_utf8(&b).is_ok() {
            return Ok(());
        }
        let what = format!("text with {} at {at}", show(bytes));
        w.put("a.txt", &b);
        w.judged(true, &b, || what.clone());
        refused_everywhere(w, rng, "a.txt", &what)
    });
}

// ------------------------------------------------------------------ C24

/// files of several models and kinds, some of them unreadable
fn some_files(w: &mut W, rng: &mut Rng, n: usize, dir: &str) -> Vec<(String, &'static str)> {
    let mut v = vec![];
    for i in 0..n {
        let h = HEADERS[rng.below(HEADERS.len())];
        let mut p = gen::prog_for(rng, h, 40);
        p.name = format!("N{}", (b'A' + i as u8) as char).into_bytes();
        match rng.below(6) {
            0 | 1 | 2 => {
                let fmt = if rng.chance(2, 3) { Fmt::P8 } else { *rng.pick(&Fmt::ALL) };
                let f = format!("{dir}f{i}.{}", fmt.ext());
                let mut b = p.file(fmt);
                if rng.chance(1, 8) {
                    // no token of any model
                    let at = b.len() - 3;
                    b[at] = 0xBB;
                }
                w.put(&f, &b);
                v.push((f, "program"));
            }
            3 | 4 => {
                let m = rng.pick(&MODELS);
                let t = table(m.order);
                let d = rng.below(3);
                // names that only some models have, and ones that read differently
                let text = gen::token_text(rng, &t, d, 20);
                let (b, _) = random_txt(rng, m, d, text);
                let f = format!("{dir}f{i}.txt");
                w.put(&f, &b);
                v.push((f, "text"));
            }
            _ => {
                w.put("tmp.8xp", &p.file(Fmt::P8));
                w.run(&["convert", "tmp.8xp", "-o", "tmp.json", "-d", DISP[rng.below(3)]]);
                let f = format!("{dir}f{i}.json");
                let b = w.get("tmp.json").unwrap_or_default();
                w.put(&f, &b);
                w.rm("tmp.8xp");
                w.rm("tmp.json");
                v.push((f, "json"));
            }
        }
    }
    v
}
pub fn c24(c: &Ctx) {
    // the library, when it has the interface the harness was written for
    // thorough tier: also built with ThreadSanitizer
    for (bin, on) in [("libjobs", ""), ("libjobs-tsan", " (ThreadSanitizer)")] {
        let lib = c.scratch.join(bin);
        if !lib.exists() {
            continue;
        }
        let n = if on.is_empty() { c.n(400, 4000) } else { 800 };
        c.section(&format!("calls of the library in one process{on}"), n, c.n(100, 600) as u64, |w, rng, i| {
            let n = rng.range(4, 9);
            let files = some_files(w, rng, n, "");
            let mut jobs: Vec<Vec<String>> = vec![];
            for _ in 0..rng.range(6, 14) {
                let (f, k) = rng.pick(&files).clone();
                let mut j = vec![k.to_string(), w.path(&f).display().to_string(), if k == "text" { ENC } else { DISP }[rng.below(3)].to_string()];
                for _ in 0..rng.below(5) {
                    let e = match rng.below(9) {
                        0 => format!("rename {}", String::from_utf8(gen::alpha_name(rng, 0, 10)).unwrap()),
                        1 => format!("comment {}", "abc ".repeat(rng.below(13))),
                        2 => "lock".into(),
                        3 => "unlock".into(),
                        4 => "archive".into(),
                        5 => "unarchive".into(),
                        _ => ["8xp", "83p", "82p", "txt", "json"][rng.below(5)].to_string(),
                    };
                    j.push(e);
                }
                jobs.push(j);
            }
            let jf = w.path("jobs.json");
            std::fs::write(&jf, serde_json::to_vec(&jobs).unwrap()).unwrap();
            let (here, drop) = (w.path("."), w.drop_root);
            let run = |orders: &[Vec<usize>]| -> Option<(bool, Vec<Vec<String>>)> {
                let mut c = std::process::Command::new("timeout");
                if drop {
                    c.uid(crate::exec::UID).gid(crate::exec::UID);
                }
                let o = c.current_dir(&here).arg("120").arg(&lib).arg(&jf).arg(&here).args(orders.iter().map(|o| o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).env_clear().env("PATH", "/usr/bin:/bin").stdin(std::process::Stdio::null()).output().ok()?;
                let lines: Vec<Vec<String>> = String::from_utf8_lossy(&o.stdout).lines().rev().find_map(|l| serde_json::from_str(l).ok()).unwrap_or_default();
                let race = String::from_utf8_lossy(&o.stderr).contains("ThreadSanitizer");
                (o.status.code() != Some(124)).then_some((o.status.success() && !race, lines))
            };
            // each alone, in a process of its own
            let mut alone = vec![];
            for k in 0..jobs.len() {
                match run(&[vec![k]]) {
                    Some((true, r)) if r.len() == 1 && r[0].len() == 1 => alone.push(r[0][0].clone()),
                    Some(_) => bad!("library: {:?} ends its process", jobs[k]),
                    None => skip!("libjobs does not run"),
                }
            }
            let refused = alone.iter().filter(|a| *a == "refused").count();
            let panicked = alone.iter().position(|a| *a == "panicked");
            ensure!(panicked.is_none(), "library: {:?} panics", jobs[panicked.unwrap()]);
            let shuffled = |rng: &mut Rng| -> Vec<usize> {
                let mut o: Vec<usize> = (0..jobs.len()).chain(0..jobs.len()).collect();
                for i in (1..o.len()).rev() {
                    o.swap(i, rng.below(i + 1));
                }
                o
            };
            let threads = [1, 1, 2, 4, 8][i % 5];
            let orders: Vec<Vec<usize>> = (0..threads).map(|_| shuffled(rng)).collect();
            let what = format!("{} calls of the library in {threads} threads", orders.iter().map(|o| o.len()).sum::<usize>());
            w.judged(true, &serde_json::to_vec(&(&jobs, &orders)).unwrap(), || what.clone());
            let Some((ok, r)) = run(&orders) else { skip!("libjobs does not run") };
            ensure!(ok && r.len() == threads, "{what}: the process ended abnormally (a data race or a crash)");
            for (t, (o, r)) in orders.iter().zip(&r).enumerate() {
                ensure!(o.len() == r.len(), "{what}: thread {t} gave {} results", r.len());
                for (k, j) in o.iter().enumerate() {
                    ensure!(r[k] == alone[*j], "{what}: {:?} (call {k} of thread {t}, order {o:?}) gives another result than alone, {}", jobs[*j], parts(&r[k], &alone[*j]));
                }
                w.count("results compared", o.len() as u64);
            }
            w.count("refused alone", refused as u64);
            w.seen("threads", threads.to_string());
            w.seen("orders", format!("{:?}", orders[0]));
            let left = w.snap().keys().filter(|k| k.contains(&std::path::MAIN_SEPARATOR.to_string()) || k.starts_with(".ti")).count();
            ensure!(left == 0, "{what}: files were left behind");
            Ok(())
        });
    }
    // many files in one process of the tool, against a process for each
    c.section("many files in one process of the tool", c.n(300, 3000), c.n(60, 300) as u64, |w, rng, i| {
        let n = rng.range(3, 10);
        let files = some_files(w, rng, n, "");
        let (d, e) = (DISP[rng.below(3)], ENC[rng.below(3)]);
        // what each gives alone; unreadable files would end the mass conversion
        let mut want = String::new();
        let mut pieces = vec![];
        for (f, _) in &files {
            let r = w.run(&["convert", f, "-p", "-d", d, "-e", e]);
            if r.watchdog() {
                skip!("watchdog");
            }
            if r.ok() {
                let b = w.get(f).unwrap();
                w.put(&format!("in/{f}"), &b);
                pieces.push(r.raw_stdout());
                want.push_str(&r.raw_stdout());
            }
        }
        if pieces.len() < 2 {
            return Ok(());
        }
        let before = w.snap();
        let r = w.run(&["convert", "in", "-m", "-p", "-d", d, "-e", e]);
        let what = format!("preview of {} files at once, {d} {e}", pieces.len());
        w.judged(true, format!("{what}{want}{i}").as_bytes(), || what.clone());
        done(&r, &what)?;
        let diff = snap_diff(&before, &w.snap());
        ensure!(diff.is_empty(), "{what}: {}", diff.join(", "));
        // in any order
        let out = r.raw_stdout();
        for p in &pieces {
            ensure!(out.contains(&p[..]), "{what}: one of them is shown differently than alone: {} is not in {}", shows(p), shows(&out));
        }
        ensure!(out.len() == want.len(), "{what}: {} bytes shown instead of {}", out.len(), want.len());
        w.count("files in one process", pieces.len() as u64);
        if i % 2 == 0 {
            // the same while they are saved; files with the same name ask
            w.mkdir("out");
            let r = w.run_in(&["convert", "in", "-m", "-p", "-d", d, "-e", e, "-o", "out"], &"y\n".repeat(40));
            let what = format!("preview of {} files while they are saved, {d} {e}", pieces.len());
            if r.watchdog() {
                skip!("watchdog");
            }
            let out = r.raw_stdout();
            for p in &pieces {
                ensure!(out.contains(&p[..]), "{what}: one of them is shown differently than alone: {} is not in {}", shows(p), shows(&out));
            }
            w.count("previews while saving", 1);
        }
        Ok(())
    });
}
