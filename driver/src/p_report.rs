//! C26: what a command says it did
use crate::ctx::{Ctx, Res, W};
use crate::exec::{snap_diff, Node, Opt, Run, Snap};
use crate::gen;
use crate::p_convert::*;
use crate::p_edit::{changing, restore, scene, strs, Edit, Scene, SCENES};
use crate::rng::Rng;
use crate::spec::*;
use crate::{bad, ensure, skip};
use std::collections::{BTreeMap, BTreeSet};

const SAVED: &str = "Successfully";
const DELETED: &str = "Deleted old file";
const ASKS: &str = "already exists";

/// the name of the program in a saved file, as the tool shows it
fn name_in(path: &str, data: &[u8]) -> Option<String> {
    if path.ends_with(".txt") {
        return String::from_utf8(data.to_vec()).ok()?.lines().next().map(|x| x.to_string());
    }
    if path.ends_with(".json") || data.len() < 70 {
        return None;
    }
    Some(data[60..68].iter().filter(|b| **b != 0).map(|b| *b as char).collect())
}
fn shown(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|x| x.is_ascii_graphic() && x != '[')
}
fn file<'a>(s: &'a Snap, n: &str) -> Option<&'a Vec<u8>> {
    match s.get(n) {
        Some(Node::File(d)) => Some(d),
        _ => None,
    }
}
/// every answer is read after its question is on the screen
fn asked(w: &mut W, r: &Run, what: &str) -> Res {
    let mut seen = 0;
    for n in &r.asks {
        if *n == seen {
            continue; // the same question, there was no line
        }
        let part = r.out.get(seen..*n).unwrap_or_default();
        let text = crate::exec::strip_ansi(&String::from_utf8_lossy(part));
        ensure!(text.contains('?') && text.ends_with("> "), "{what}: an answer is read when the screen shows {:?}", text.chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect::<String>());
        seen = *n;
        w.count("questions seen before the answer was read", 1);
    }
    let rest = crate::exec::strip_ansi(&String::from_utf8_lossy(&r.out[seen..]));
    ensure!(!rest.contains("[y/N]"), "{what}: asks without reading the answer: {rest}");
    ensure!(seen == 0 || r.asks[0] > 0, "{what}: an answer is read before anything is asked");
    Ok(())
}
struct How<'a> {
    fault: bool,
    agreed: bool,
    what: &'a str,
}
fn judge(s: &Scene, r: &Run, before: &Snap, after: &Snap, now: &Snap, h: &How) -> Res {
    let what = h.what;
    let out = r.stdout();
    let whole = snap_diff(after, now).is_empty();
    let changes = before != after;
    let claims = out.matches(SAVED).count();
    ensure!(claims <= 1, "{what}: claims success {claims} times: {out}");
    if claims > 0 {
        ensure!(whole, "{what}: claims success, but {}", snap_diff(after, now).join(", "));
        ensure!(r.ok(), "{what}: claims success, but {}", r.status());
        ensure!(h.agreed || !changes, "{what}: claims success without consent");
    } else {
        ensure!(!out.trim().is_empty() || !r.stderr().trim().is_empty(), "{what}: does nothing and says nothing");
        if !h.fault {
            ensure!(!whole || !changes, "{what}: was done, but does not say so: {out}{}", r.stderr());
        }
        if h.agreed {
            ensure!(r.failed(), "{what}: was not done and does not fail: {} {out}{}", r.status(), r.stderr());
        }
    }
    // what was deleted
    let gone = s.delete.as_ref().is_some_and(|(old, _)| before.contains_key(old) && !now.contains_key(old));
    ensure!(gone == out.contains(DELETED), "{what}: the old file is {}, the report is {out}", if gone { "gone" } else { "still there" });
    // what it asks
    let outpath = s.args.iter().skip(1).zip(&s.args).find(|(_, a)| *a == "-o" || *a == "-f").map(|(b, _)| b.clone()).unwrap_or(s.args[1].clone());
    if !h.fault {
        let there = before.contains_key(&outpath);
        ensure!(there == out.contains(ASKS), "{what}: {outpath} {}, the report is {out}", if there { "existed" } else { "did not exist" });
    }
    ensure!(!out.contains("Replacing") || h.agreed, "{what}: claims to replace without consent: {out}");
    if claims == 0 {
        return Ok(());
    }
    // what it says of the program
    let Some(line) = out.lines().find(|l| l.contains(SAVED)) else { bad!("{what}: no line") };
    let words = |x: &str| line.split_whitespace().any(|y| y == x);
    match s.args[0].as_str() {
        "convert" => {
            ensure!(words(&outpath), "{what}: does not say where it is saved: {line}");
            let data = now.get(&outpath).and_then(|n| match n {
                Node::File(d) => Some(d),
                _ => s.outs.first().and_then(|o| file(now, o)),
            });
            if let Some(n) = data.and_then(|d| name_in(&outpath, d)).filter(|n| shown(n)) {
                ensure!(words(&n), "{what}: the program saved is {n}: {line}");
            }
            let pretty = s.args.iter().skip(1).zip(&s.args).any(|(b, a)| a == "-d" && b == "pretty");
            ensure!(pretty == out.contains("Warning"), "{what}: the warning about pretty tokens {}: {out}", if pretty { "is missing" } else { "is wrong" });
        }
        "rename" | "comment" => {
            let v = &s.args[3];
            if shown(v) {
                ensure!(line.to_uppercase().ends_with(&v.to_uppercase()), "{what}: set to {v:?}: {line}");
            }
            ensure!(line.contains(if s.args[0] == "rename" { "name" } else { "comment" }), "{what}: what was set: {line}");
        }
        c => {
            let (field, value, not) = match c {
                "lock" => ("file type", "locked", ""),
                "unlock" => ("file type", "program", "locked"),
                "archive" => ("destination", "archive", "RAM"),
                _ => ("destination", "RAM", "archive"),
            };
            ensure!(line.contains(field) && line.contains(value) && (not.is_empty() || !line.contains(not)), "{what}: {line}");
        }
    }
    Ok(())
}
struct Input {
    path: String,
    name: String,
    outs: Vec<String>,
}
/// a directory of programs with names of their own
fn directory(w: &mut W, rng: &mut Rng) -> Vec<Input> {
    let n = rng.range(1, 5);
    let mut v = vec![];
    let mut json = vec![];
    w.mkdir("in");
    for i in 0..n {
        let mut p = gen::prog(rng, 20);
        let name = format!("{}{}", (b'A' + i as u8) as char, gen::alpha_name(rng, 1, 6).iter().map(|b| *b as char).collect::<String>());
        p.name = name.clone().into_bytes();
        let kind = rng.below(5);
        let path = format!("in/{}.{}", gen::alpha_name(rng, 1, 5).iter().map(|b| *b as char).collect::<String>(), ["8xp", "83p", "82p", "txt", "json"][kind]);
        if v.iter().any(|x: &Input| x.path == path) {
            continue;
        }
        match kind {
            0..=2 => {
                let f = p.file(Fmt::ALL[(0..3).find(|k| Fmt::ALL[*k].ext() == ["8xp", "83p", "82p"][kind]).unwrap()]);
                w.put(&path, &f);
            }
            3 => {
                let t = txt_file(&name, "c", "Program", "RAM", "accessible", "latest", *rng.pick(&["Disp 1", "A->B", "", "\"LEFT\"\nDisp 2"]), true);
                w.put(&path, t.as_bytes());
            }
            _ => json.push((path.clone(), p.file(Fmt::P8))),
        }
        let outs = match kind {
            0..=2 => vec![format!("res/{name}.txt")],
            3 => vec![format!("res/{name}.8xp")],
            _ => vec![format!("res/{name}.txt"), format!("res/{name}.8xp")],
        };
        v.push(Input { path, name, outs });
    }
    for (path, f) in json {
        w.put("x.8xp", &f);
        w.run(&["convert", "x.8xp", "-o", &path]);
        w.rm("x.8xp");
    }
    v
}
/// the files a mass conversion says it saved: path, name
fn claimed(out: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in out.lines() {
        if let Some(k) = l.find("Successfully saved ") {
            let rest = &l[k + "Successfully saved ".len()..];
            if let Some((n, p)) = rest.split_once(" to ") {
                v.push((p.trim().to_string(), n.trim().to_string()));
            } else {
                v.push((rest.into(), String::new()));
            }
        }
    }
    v
}
pub fn c26(c: &Ctx) {
    c.section("single commands", SCENES * c.n(18, 150), c.n(80, 400) as u64, |w, rng, i| {
        let s = scene(w, rng, i % SCENES);
        if s.mass {
            return Ok(());
        }
        let before = w.snap();
        let ok = Opt { stdin: s.stdin.clone(), ..Default::default() };
        let r = w.run_opt(&strs(&s.args), &ok);
        if r.watchdog() {
            skip!("watchdog");
        }
        let after = w.snap();
        done(&r, &s.desc)?;
        w.judged(true, format!("{}{i}", s.desc).as_bytes(), || s.desc.clone());
        w.seen("scenes", s.desc.clone());
        asked(w, &r, &s.desc)?;
        judge(&s, &r, &before, &after, &after, &How { fault: false, agreed: true, what: &s.desc })?;
        // not agreed to
        let asks = r.stdout().contains(ASKS);
        for stdin in ["n\n", "", "yes\n"] {
            restore(w, &before);
            let r = w.run_in(&strs(&s.args), stdin);
            let what = format!("{}, answered {stdin:?}", s.desc);
            w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
            w.seen("answers", format!("{stdin:?} {asks}"));
            asked(w, &r, &what)?;
            let now = w.snap();
            judge(&s, &r, &before, &after, &now, &How { fault: false, agreed: !asks, what: &what })?;
        }
        // with faults at every operation
        for op in changing(&r.ops) {
            let k = *rng.pick(&["err:28", "err:13", "err:5", "errp:28", "errp:5"]);
            restore(w, &before);
            let o = Opt { stdin: s.stdin.clone(), fault: Some(('w', op.seq, k.into())), ..Default::default() };
            let r = w.run_opt(&strs(&s.args), &o);
            if r.watchdog() || !r.ops.iter().any(|o| o.op == "FAULT") {
                continue;
            }
            let what = format!("{}, {k} at {}", s.desc, op.op);
            w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
            w.seen("faults", format!("{k} {}", op.op));
            asked(w, &r, &what)?;
            let now = w.snap();
            judge(&s, &r, &before, &after, &now, &How { fault: true, agreed: true, what: &what })?;
            w.count(if r.ok() { "faults that were survived" } else { "failures reported" }, 1);
        }
        Ok(())
    });
    c.section("mass conversions", c.n(500, 5000), c.n(60, 400) as u64, |w, rng, i| {
        let ins = directory(w, rng);
        let outs: BTreeSet<String> = ins.iter().flat_map(|x| x.outs.clone()).collect();
        let names: BTreeMap<String, String> = ins.iter().flat_map(|x| x.outs.iter().map(|o| (o.clone(), x.name.clone()))).collect();
        let args = vec!["convert".to_string(), "in".into(), "-m".into(), "-o".into(), "res".into()];
        // what each file gives
        let clean = w.snap();
        let r = w.run_in(&strs(&args), "y\n");
        done(&r, "mass conversion")?;
        asked(w, &r, "mass conversion")?;
        let after = w.snap();
        let what = format!("mass conversion of {}", ins.iter().map(|x| x.path.clone()).collect::<Vec<_>>().join(" "));
        let mut first: Vec<(String, String)> = claimed(&r.stdout());
        first.sort();
        let want: Vec<(String, String)> = names.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        ensure!(first == want, "{what}: says it saved {first:?} instead of {want:?}");
        w.count("files said to be saved", first.len() as u64);
        ensure!(r.stdout().contains("does not exist"), "{what}: creates a directory without asking");
        // again over what is there, with every answer, and with faults
        for round in 0..c.n(3, 6) {
            restore(w, &clean);
            w.mkdir("res");
            for o in &outs {
                if rng.chance(1, 2) {
                    w.put(o, b"what was there");
                }
            }
            let before = w.snap();
            let answers: Vec<&str> = (0..2 * outs.len() + 2).map(|_| *rng.pick(&["y\n", "y\n", "n\n", "Y\n", "\n", "no\n"])).collect();
            let mut stdin = answers.concat();
            if rng.chance(1, 4) {
                stdin.clear();
            }
            let fault = if round > 0 { Some(('w', rng.range(1, 6 * outs.len()), rng.pick(&["err:28", "err:13", "err:5", "errp:28"]).to_string())) } else { None };
            let o = Opt { stdin: stdin.clone().into_bytes(), fault: fault.clone(), ..Default::default() };
            let r = w.run_opt(&strs(&args), &o);
            if r.watchdog() {
                skip!("watchdog");
            }
            let now = w.snap();
            let hit = r.ops.iter().any(|o| o.op == "FAULT");
            let what = format!("{what}, answers {stdin:?}{}", fault.as_ref().filter(|_| hit).map(|f| format!(", {} at operation {}", f.2, f.1)).unwrap_or_default());
            w.judged(true, format!("{what}{i}{round}").as_bytes(), || what.clone());
            asked(w, &r, &what)?;
            let out = r.stdout();
            let said = claimed(&out);
            let paths: Vec<&String> = said.iter().map(|x| &x.0).collect();
            for (p, n) in &said {
                let Some(name) = names.get(p) else { bad!("{what}: says it saved {p:?}, which is no program of the directory") };
                ensure!(n == name, "{what}: says {p} is {n}");
                ensure!(paths.iter().filter(|x| **x == p).count() == 1, "{what}: says twice that it saved {p}");
                ensure!(now.get(p).is_some() && now.get(p) == after.get(p), "{what}: says it saved {p}, but it did not");
            }
            let mut not = 0;
            for o in &outs {
                if now.get(o) == before.get(o) {
                    not += 1;
                } else if !hit {
                    ensure!(paths.contains(&o), "{what}: {o} was saved, but it does not say so: {out}");
                }
            }
            if not == 0 && !hit {
                ensure!(r.ok(), "{what}: everything was saved, but {}", r.status());
            }
            // every failure is told
            let told = out.matches("Failed to save file").count();
            if not > 0 {
                ensure!(told > 0, "{what}: {not} files were not saved, which it does not say: {out}{}", r.stderr());
                ensure!(told <= not, "{what}: tells of {told} files that were not saved, there are {not}: {out}");
            } else if !hit {
                ensure!(told == 0, "{what}: everything was saved, but it tells of {told} failures: {out}");
            }
            w.count("files not saved", not as u64);
            w.seen("kinds of mass conversion", format!("fault {hit}, {} files, {not} not saved, {told} failures told, {}", outs.len(), r.status()));
        }
        Ok(())
    });
    c.section("directories that cannot be listed", c.n(200, 2000), c.n(20, 100) as u64, |w, rng, i| {
        let ins = directory(w, rng);
        let outs: BTreeSet<String> = ins.iter().flat_map(|x| x.outs.clone()).collect();
        let args = ["convert", "in", "-m", "-o", "res"];
        w.mkdir("res");
        let before = w.snap();
        let r = w.run_in(&args, "");
        done(&r, "mass conversion")?;
        let (after, clean) = (w.snap(), r.stdout());
        let at = if i % 3 == 0 { 1 } else { rng.range(2, ins.len() + 4) };
        let k = *rng.pick(&["err:5", "err:13", "err:24", "err:75"]);
        restore(w, &before);
        let r = w.run_opt(&args, &Opt { fault: Some(('d', at, k.into())), ..Default::default() });
        if r.watchdog() || !r.ops.iter().any(|o| o.op == "FAULT") {
            skip!("not reached");
        }
        let what = format!("mass conversion of {} files, {k} when it lists the directory for the {at}. time", ins.len());
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("places of the failure", at.to_string());
        let (now, out) = (w.snap(), r.stdout());
        ensure!(r.code.is_some(), "{what}: {}", r.status());
        let said = claimed(&out);
        for (p, _) in &said {
            ensure!(outs.contains(p) && now.get(p) == after.get(p), "{what}: says it saved {p}, but it did not");
        }
        let not = outs.iter().filter(|o| !said.iter().any(|x| &x.0 == *o)).count();
        for o in outs.iter().filter(|o| !said.iter().any(|x| &x.0 == *o)) {
            ensure!(now.get(o) == before.get(o), "{what}: {o} was saved, but it does not say so");
        }
        if at == 1 {
            ensure!(r.failed() && now == before, "{what}: not refused: {} {out}", r.status());
        }
        // it says more than it does when all is well
        let said_so = !r.stderr().trim().is_empty() || out.lines().any(|l| !clean.contains(l));
        ensure!(said_so, "{what}: {not} files were not converted, which it does not say: {out}");
        Ok(())
    });
    c.section("brackets that are no colour", c.n(600, 6000), c.n(30, 100) as u64, |w, rng, i| {
        let words: &[&str] = &["[a:b]", "[x]", "[]", "[", "]", "[:]", "[a:b:c]", "[colour:red]", "[styles:bold]", "[fg:red]", "[Color]", "[bgs:red]", "[i:j]", "][", "[[a:b]]", "[A:B]", "[1:2]", "[color", "[bold]", "[red]", "[\u{e9}:x]", "[a::b]", "[:b]", "[a:]"];
        let word = words[i % words.len()];
        let word = &match rng.below(4) {
            0 => format!("{word}{}", rng.pick(words)),
            1 => format!("A{word}"),
            2 => format!("{word}B"),
            _ => word.to_string(),
        };
        let mut p = gen::prog(rng, 20);
        p.name = b"AB".to_vec();
        w.put("a.8xp", &p.file(Fmt::P8));
        let kind = i / words.len() % 4;
        let (args, want) = match kind {
            0 => {
                let o = format!("{word}.{}", rng.pick(&["txt", "json", "83p", "8xp"]));
                (vec!["convert".to_string(), "a.8xp".into(), "-o".into(), o.clone()], format!("Successfully saved AB to {o}"))
            }
            1 if word.chars().count() <= 42 => (vec!["comment".to_string(), "a.8xp".into(), "-c".into(), word.clone(), "-f".into(), "b.8xp".into()], format!("Successfully set comment to {word}")),
            2 if word.is_ascii() && word.len() <= 8 => {
                p.name = word.clone().into_bytes();
                w.put("a.8xp", &p.file(Fmt::P8));
                (vec!["convert".to_string(), "a.8xp".into(), "-o".into(), "b.txt".into()], format!("Successfully saved {word} to b.txt"))
            }
            _ => {
                let d = format!("{word}d");
                w.mkdir("in");
                w.mkdir(&d);
                w.put("in/a.8xp", &p.file(Fmt::P8));
                (vec!["convert".to_string(), "in".into(), "-m".into(), "-o".into(), d.clone()], format!("Successfully saved AB to {d}/AB.txt"))
            }
        };
        let r = w.run_in(&strs(&args), "y\n");
        let what = args.join(" ");
        done(&r, &what)?;
        w.judged(true, what.as_bytes(), || what.clone());
        w.seen("texts in brackets", format!("{kind} {word}"));
        ensure!(r.ok() && r.stdout().lines().any(|l| l.trim() == want), "{what}: no line {want:?}: {}", r.stdout());
        Ok(())
    });
    const KINDS: usize = 29;
    c.section("refused commands", c.n(29 * 60, 29 * 600), c.n(40, 200) as u64, |w, rng, i| {
        let p = gen::prog(rng, 20);
        let good = p.file(Fmt::P8);
        w.put("a.8xp", &good);
        w.put("a.txt", txt_file("ABC", "c", "Program", "RAM", "accessible", "latest", "Disp 1", true).as_bytes());
        w.put("bad.txt", b"ABC\nc\nProgram\nRAM\naccessible\nlatest\n\xe2\x98\x83");
        w.put("bad.8xp", &p.file(Fmt::P8)[..rng.below(70)]);
        w.put("bad.json", b"{}");
        w.mkdir("dir.8xp");
        w.mkdir("in");
        w.put("in/bad.8xp", b"nothing");
        // one thing wrong with what is otherwise a program
        let mut b = good.clone();
        match i / KINDS % 4 {
            0 => b[10] = *rng.pick(&[1, 2, 5, 0x14, 0xFF]),
            1 => b[59] = *rng.pick(&[0, 1, 4, 7, 0x15]),
            2 => b[69] = *rng.pick(&[1, 0x7F, 0x81]),
            _ => {
                let mut q = p.clone();
                q.body = rng.pick(&[&b"AB\xBB"[..], b"\xFF\xFF", b"A\xBB\xFF", b"\x5D", b"\x5E\x00"]).to_vec();
                if p.table().decode(&q.body, 1).is_some() {
                    q.body = b"AB\xBB".to_vec();
                }
                b = q.file(Fmt::P8);
            }
        }
        w.put("odd.8xp", &b);
        let head = ["ABC", "c", "Program", "RAM", "accessible", "latest", "Disp 1"];
        let mut t: Vec<&str> = head.to_vec();
        match i / KINDS % 5 {
            0 => t.truncate(rng.range(1, 5)),
            1 => t[2] = *rng.pick(&["", "program", "Prgm", "Locked", "Protected program"]),
            2 => t[3] = *rng.pick(&["", "ram", "Flash", "archive", "archived"]),
            3 => t[4] = *rng.pick(&["", "Accessible", "plain", "en", "pretty "]),
            _ => t[0] = *rng.pick(&["9A", "A B", "TOOLONGNAME"]),
        }
        w.put("odd.txt", t.join("\n").as_bytes());
        let mut t = head.join("\n").into_bytes();
        t.insert(rng.below(t.len() + 1), 0xFF);
        w.put("byte.txt", &t);
        w.put("byte.json", b"{\"metadata\":\"\xFF\"}");
        let e = Edit::random(rng);
        let edit = |f: &str, rest: &[&str]| {
            let mut a = e.args(f);
            a.extend(rest.iter().map(|x| x.to_string()));
            a
        };
        let v = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        let args = match i % KINDS {
            0 => edit("bad.8xp", &[]),
            1 => edit("bad.8xp", &["-f", "n.8xp", "-d"]),
            2 => edit("a.8xp", &["-f", "n.exe", "-d"]),
            3 => edit("a.8xp", &["-f", "nowhere/n.8xp", "-d"]),
            4 => edit("a.8xp", &["-f", "dir.8xp", "-d"]),
            5 => edit("missing.8xp", &["-f", "n.8xp"]),
            6 => v(&["rename", "a.8xp", "-n", *rng.pick(&["TOOLONGNAME", "A B", "9", "é"]), "-f", "n.8xp", "-d"]),
            7 => v(&["comment", "a.8xp", "-c", *rng.pick(&["☃", "a comment that is longer than the 42 bytes there are for it"]), "-f", "n.8xp", "-d"]),
            8 => v(&["convert", *rng.pick(&["bad.txt", "bad.8xp", "bad.json", "missing.txt"]), "-o", "n.json"]),
            9 => v(&["convert", "a.8xp", "-o", *rng.pick(&["n", "n.exe", "nowhere/n.txt", ".", "dir.8xp"])]),
            10 => v(&["convert", "a.txt", "-o", *rng.pick(&["n", "n.8xpp", "nowhere/n.8xp", "dir.8xp"])]),
            11 => v(&["convert", "in", "-m", "-o", "dir.8xp"]),
            12 => v(&["convert", "a.8xp", "-m", "-o", "dir.8xp"]),
            13 => v(&["convert", "in", "-o", "n.txt"]),
            14 => v(&["convert", "a.8xp", "-o", "n.txt", "-d", "nice"]),
            15 => edit("a.8xp", &["-d"]),
            16 => v(&[*rng.pick(&["Convert", "LOCK", "renam", "del", ""]), "a.8xp", "-o", "n.txt"]),
            17 => v(&["convert", "odd.8xp", "-o", *rng.pick(&["n.txt", "n.json", "n.83p"])]),
            18 => v(&["details", "odd.8xp"]),
            19 => edit("odd.8xp", &["-f", "n.8xp", "-d"]),
            20 => v(&["convert", "odd.txt", "-o", *rng.pick(&["n.8xp", "n.json", "n.82p"])]),
            21 => v(&["convert", "odd.txt", "-c"]),
            22 => v(&["convert", *rng.pick(&["byte.txt", "byte.json"]), "-o", "n.8xp"]),
            23 => v(&["convert", "in", "-m", "-o", *rng.pick(&["nowhere/n", "a.8xp/n"])]),
            24 => v(&["convert", "a.8xp", "-o", "n.txt", "-d", *rng.pick(&["Pretty", "ACCESSIBLE", "plain", "0"])]),
            25 => v(&["convert", "in", "-m", "-o", "out"]),
            26 => v(&["convert", *rng.pick(&["missing", "missing.8xp", "a.8xp/in"]), "-m", "-o", "out"]),
            27 => v(&["details", *rng.pick(&["missing.8xp", "a.txt", "in", "bad.8xp", "bad.json"])]),
            _ => edit(*rng.pick(&["a.txt", "bad.json"]), &["-f", "n.8xp", "-d"]),
        };
        let mut o = Opt { stdin: b"y\ny\n".to_vec(), ..Default::default() };
        if i % KINDS == 25 {
            // a directory that cannot be listed
            let k = *rng.pick(&["err:13", "err:5", "err:24"]);
            o.fault = Some(('d', 1, k.into()));
        }
        let r = w.run_opt(&strs(&args), &o);
        if r.watchdog() {
            skip!("watchdog");
        }
        if i % KINDS == 25 && !r.ops.iter().any(|o| o.op == "FAULT") {
            skip!("directories are listed in another way");
        }
        let what = args.join(" ");
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("refusals", format!("{}", i % KINDS));
        let out = r.stdout();
        ensure!(r.failed(), "{what}: not refused: {} {out}", r.status());
        ensure!(!out.contains(SAVED) && !out.contains(DELETED), "{what}: is refused, but says {out}");
        ensure!(!out.trim().is_empty() || !r.stderr().trim().is_empty(), "{what}: is refused without a word");
        Ok(())
    });
}
