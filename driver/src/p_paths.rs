//! C27: a path only says where a file is
use crate::ctx::{Ctx, W};
use crate::exec::{snap_diff, Node, Opt, Snap};
use crate::gen;
use crate::p_convert::*;
use crate::p_edit::{restore, saver, strs, SAVERS};
use crate::rng::Rng;
use crate::spec::*;
use crate::{bad, ensure, skip};

const DIRS: usize = 30;
/// a directory and how it is written: (name in the working directory, as given on the command line)
fn dir(w: &mut W, k: usize, way: &str) -> (String, String, &'static str) {
    let abs = w.dir.canonicalize().unwrap().display().to_string();
    let at = |d: &str, g: String, n| (d.to_string(), g, n);
    let plain = |n: &str| format!("{n}{way}/");
    let (d, g, n) = match k {
        0 => at("", String::new(), "here"),
        1 => at("", "./".into(), "dot"),
        2 => {
            w.mkdir("d1");
            at("", "d1/../".into(), "there and back")
        }
        3 => at("", ".//./".into(), "dots and slashes"),
        4 => at("", format!("{abs}/"), "absolute"),
        5 => at("", format!("../{}/", w.dir.file_name().unwrap().to_str().unwrap()), "over the parent"),
        6 => at(&plain("dir"), plain("dir"), "directory"),
        7 => at(&plain("dir"), format!("dir{way}//"), "doubled slash"),
        8 => at(&plain("a/b/c/d/e/f/g"), plain("a/b/c/d/e/f/g"), "deep"),
        9 => at(&plain("real"), format!("{abs}/real{way}/"), "absolute directory"),
        10 => {
            w.mkdir(&plain("real"));
            let l = format!("lnk{way}");
            if !w.path(&l).exists() {
                w.link(&format!("real{way}"), &l);
            }
            at(&plain("real"), format!("{l}/"), "linked directory")
        }
        11 => at(&plain("a name"), plain("a name"), "space"),
        12 => at(&plain("ünï☃日"), plain("ünï☃日"), "other letters"),
        13 => at(&plain(".hidden"), plain(".hidden"), "hidden"),
        14 => at(&plain("d.8xp"), plain("d.8xp"), "named like a program"),
        15 => at(&plain("d.txt"), plain("d.txt"), "named like a text"),
        16 => at(&plain("-o"), plain("-o"), "named like an option"),
        17 => at(&plain("--delete-old"), format!("./--delete-old{way}/"), "named like a long option"),
        18 => at(&plain("a:b"), plain("a:b"), "colon"),
        19 => at(&plain("[x] {} %s"), plain("[x] {} %s"), "format characters"),
        20 => at(&plain("*?"), plain("*?"), "stars"),
        21 => at(&plain("~"), plain("~"), "tilde"),
        22 => at(&plain("$HOME"), plain("$HOME"), "variable"),
        23 => at(&plain(&"n".repeat(250)), plain(&"n".repeat(250)), "long name"),
        24 => {
            let d = format!("{}/", "long/".repeat(300).trim_end_matches('/'));
            at(&d, d.clone(), "long path")
        }
        25 => at(&plain("back\\slash"), plain("back\\slash"), "backslash"),
        26 => at(&plain("file:a"), plain("file:a"), "scheme"),
        27 => at(&plain("file:/x"), format!("file://x{way}/"), "address"),
        28 => at(&plain("a%20b"), plain("a%20b"), "percent"),
        _ => at(&plain("%41%2F+b"), plain("%41%2F+b"), "escaped letters"),
    };
    if !d.is_empty() {
        w.mkdir(d.trim_end_matches('/'));
    }
    (d, g, n)
}
fn stem(rng: &mut Rng, ext: &str) -> (String, &'static str) {
    match rng.below(25) {
        0 => ("PROG".into(), "capitals"),
        1 => ("a.b.c".into(), "dots"),
        2 => (".x".into(), "hidden"),
        3 => ("x.".into(), "dot at the end"),
        4 => ("..x".into(), "two dots"),
        5 => ((*rng.pick(&[" lead", "  lead", "\u{a0}lead", "\tlead"])).into(), "space in front"),
        6 => ("trail ".into(), "space at the end"),
        7 => ("in the middle".into(), "spaces"),
        8 => ("é\u{e8}ü☃".into(), "letters of all kinds"),
        9 => ("日本語プログラム".into(), "wide letters"),
        10 => ("n".repeat(251 - (ext.len().max(3) - 3)), "long"),
        11 => ((*rng.pick(&["-f", "-d", "-h", "--help", "-", "--", "-o", "-m", "-p"])).into(), "option"),
        12 => ((*rng.pick(&["help", "convert", "version", "lock", "models"])).into(), "command"),
        13 => ((*rng.pick(&["8xp", "txt", "json", "83p"])).into(), "extension"),
        14 => ((*rng.pick(&["x.txt", "x.8xp", "x.json", "x.82p", "x.83p", "x.8xp.txt"])).into(), "two extensions"),
        15 => ((*rng.pick(&["CON", "nul", "aux.8xp", "desktop"])).into(), "device"),
        16 => ("q'\"`".into(), "quotes"),
        17 => ("$(x);&|<>".into(), "shell"),
        18 => ("%00%2e{}\\n".into(), "escapes"),
        19 => ("tab\there".into(), "tab"),
        20 => ("line\nend".into(), "newline"),
        21 => ("\u{1b}x\u{7f}".into(), "control"),
        22 => ("a[b]c".into(), "brackets"),
        23 => ((*rng.pick(&["file:x", "C:x", "x%20y", "%41", "a+b"])).into(), "escaped"),
        _ => ((*rng.pick(&["~x", "#x#", "x~", "0", "1e9", "null", "x,y", "a=b", "@x", "!x", "x:y", "file:x", "x%20y", "%41", "a+b", "x;y", "x#y", "x?y=z"])).into(), "odd"),
    }
}
fn ext_of(p: &str) -> &str {
    p.rsplit_once('.').map(|x| x.1).unwrap_or("")
}
fn data(s: &Snap, p: &str) -> Option<Vec<u8>> {
    match s.get(p) {
        Some(Node::File(d)) => Some(d.clone()),
        _ => None,
    }
}
/// what is printed, with the paths in it replaced
fn masked(out: &str, from: &[(&str, &str)]) -> String {
    let mut v: Vec<&(&str, &str)> = from.iter().filter(|x| !x.0.is_empty()).collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
    let mut out = out.to_string();
    for (a, b) in v {
        out = out.replace(a, b);
    }
    out
}
pub fn c27(c: &Ctx) {
    c.section("saving commands", SAVERS * DIRS * c.n(8, 50), c.n(80, 500) as u64, |w, rng, i| {
        let s = saver(w, rng, i % SAVERS, "out");
        let (k, in_place) = (i / SAVERS % DIRS, s.in_place());
        let over = !in_place && rng.chance(1, 2);
        if over {
            w.put(&s.out, b"old content");
        }
        let start = w.snap();
        let r0 = w.run_in(&strs(&s.args), "y\n");
        done(&r0, &s.desc)?;
        let plain = w.snap();
        let Some(want) = data(&plain, &s.out) else { bad!("{}: no output", s.desc) };
        let Some(source) = data(&start, &s.inp) else { bad!("no input") };
        // elsewhere
        restore(w, &Snap::new());
        let (id, ig, idn) = dir(w, if i % 4 == 1 { k } else if rng.chance(2, 3) { 0 } else { rng.below(DIRS) }, "");
        let (ist, isn) = stem(rng, ext_of(&s.inp));
        let (ifile, igiven) = (format!("{id}{ist}.{}", ext_of(&s.inp)), format!("{ig}{ist}.{}", ext_of(&s.inp)));
        let (odir, og, odn) = dir(w, if i % 4 == 2 { k } else if rng.chance(1, 2) { 0 } else { rng.below(DIRS) }, if rng.chance(1, 2) { "2" } else { "" });
        let (ost, osn) = stem(rng, ext_of(&s.out));
        let (mut ofile, mut ogiven) = (format!("{odir}{ost}.{}", ext_of(&s.out)), format!("{og}{ost}.{}", ext_of(&s.out)));
        if in_place {
            (ofile, ogiven) = (ifile.clone(), igiven.clone());
        } else if ofile == ifile || ogiven == igiven {
            skip!("the same file");
        }
        // a path that is an option is no path
        for g in [&mut ogiven, &mut { igiven.clone() }] {
            if ["-o", "-f", "-d"].contains(&g.as_str()) {
                skip!("an option");
            }
        }
        w.put(&ifile, &source);
        if over {
            w.put(&ofile, b"old content");
        }
        let before = w.snap();
        let args: Vec<String> = s.args.iter().enumerate().map(|(n, a)| if n == 1 { igiven.clone() } else if n > 1 && *a == s.out && matches!(s.args[n - 1].as_str(), "-o" | "-f") { ogiven.clone() } else { a.clone() }).collect();
        let r = w.run_in(&strs(&args), "y\n");
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{} of {igiven:.60?} ({idn}, {isn}) to {ogiven:.60?} ({odn}, {osn})", s.desc);
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("commands", s.desc.clone());
        w.seen("directories", idn);
        w.seen("directories of outputs", odn);
        w.seen("names", isn);
        w.seen("names of outputs", osn);
        ensure!(r.code == r0.code, "{what}: ends with {}, elsewhere {}: {} {}", r.status(), r0.status(), r.stdout(), r.stderr());
        let after = w.snap();
        let Some(got) = data(&after, &ofile) else { bad!("{what}: not saved there: {}", snap_diff(&before, &after).join(", ")) };
        ensure!(got == want, "{what}: another content: {}", part(&got, &want));
        ensure!(in_place || plain.contains_key(&s.inp) == after.contains_key(&ifile), "{what}: the input is {}", if after.contains_key(&ifile) { "still there" } else { "gone" });
        for l in snap_diff(&before, &after) {
            let (p, _) = l.rsplit_once(' ').unwrap();
            ensure!(p == ofile || (s.delete && p == ifile), "{what}: {l}");
        }
        // what it says
        let (a, b) = (masked(&r0.stdout(), &[(&s.inp, "«in»"), (&s.out, "«out»")]), masked(&r.stdout(), &[(&igiven, "«in»"), (&ogiven, "«out»")]));
        let odd = |x: &str| x.chars().any(|c| c.is_control() || c == '[') || x.len() < 8;
        if !in_place && !odd(&ogiven) && !odd(&igiven) {
            ensure!(a == b, "{what}: says {b} instead of {a}");
            w.count("outputs compared", 1);
        }
        Ok(())
    });
    c.section("showing commands", DIRS * c.n(20, 200), c.n(60, 300) as u64, |w, rng, i| {
        let p = gen::prog(rng, 40);
        let fmt = *rng.pick(&Fmt::ALL);
        let kind = i / DIRS % 5;
        let (ext, source): (&str, Vec<u8>) = match kind {
            0..=2 => (fmt.ext(), p.file(fmt)),
            3 => ("txt", txt_file("ABC", "c", "Program", "RAM", "accessible", "latest", "Disp 1\nA->B", true).into_bytes()),
            _ => {
                w.put("t.8xp", &p.file(Fmt::P8));
                w.run(&["convert", "t.8xp", "-o", "t.json"]);
                ("json", w.get("t.json").unwrap_or_default())
            }
        };
        restore(w, &Snap::new());
        let name = format!("plain.{ext}");
        w.put(&name, &source);
        let args = |p: &str| -> Vec<String> {
            match (kind, i % 2) {
                (0..=2, 0) => vec!["details".into(), p.into()],
                (_, 0) => vec!["convert".into(), p.into(), "-p".into()],
                _ => vec!["convert".into(), p.into(), "-c".into(), "-p".into()],
            }
        };
        let r0 = w.run(&strs(&args(&name)));
        done(&r0, "showing")?;
        restore(w, &Snap::new());
        let (d, g, dn) = dir(w, i % DIRS, "");
        let (st, sn) = stem(rng, ext);
        let (file, mut given) = (format!("{d}{st}.{ext}"), format!("{g}{st}.{ext}"));
        w.put(&file, &source);
        let mut way = "";
        match rng.below(4) {
            0 => {
                // a link whose own name counts
                w.link(&file, &format!("link.{ext}"));
                given = format!("link.{ext}");
                way = ", by a link";
            }
            1 => {
                w.put("other.data", &source);
                w.link("other.data", &format!("link.{ext}"));
                given = format!("link.{ext}");
                way = ", by a link to a file of another name";
            }
            _ => {}
        }
        let before = w.snap();
        let r = w.run(&strs(&args(&given)));
        let what = format!("{} of {given:.60?} ({dn}, {sn}{way})", args("x")[0]);
        if r.watchdog() {
            skip!("watchdog");
        }
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("directories", dn);
        w.seen("names", sn);
        w.seen("views", format!("{} {ext} {way}", args("x").len()));
        ensure!(r.code == r0.code, "{what}: ends with {}, elsewhere {}: {} {}", r.status(), r0.status(), r.stdout(), r.stderr());
        ensure!(r.raw_stdout() == r0.raw_stdout(), "{what}: shows {} instead of {}", shows(&r.stdout()), shows(&r0.stdout()));
        ensure!(snap_diff(&before, &w.snap()).is_empty(), "{what}: changed something");
        Ok(())
    });
    c.section("mass conversions", DIRS * c.n(14, 140), c.n(60, 300) as u64, |w, rng, i| {
        let n = rng.range(1, 4);
        let mut files = vec![];
        for k in 0..n {
            let mut p = gen::prog(rng, 20);
            p.name = format!("N{k}").into_bytes();
            if rng.chance(2, 3) {
                let fmt = *rng.pick(&Fmt::ALL);
                files.push((format!("f{k}.{}", fmt.ext()), p.file(fmt)));
            } else {
                files.push((format!("f{k}.txt"), txt_file(&format!("N{}", (b'A' + k as u8) as char), "c", "Program", "RAM", "accessible", "latest", "Disp 1", true).into_bytes()));
            }
        }
        for (f, d) in &files {
            w.put(&format!("in/{f}"), d);
        }
        w.mkdir("res");
        let r0 = w.run(&["convert", "in", "-m", "-o", "res"]);
        done(&r0, "mass conversion")?;
        let plain = w.snap();
        restore(w, &Snap::new());
        let (id, ig, idn) = dir(w, i % DIRS, "");
        let (od, og, odn) = dir(w, rng.below(DIRS), "2");
        let strip = |g: &str, rng: &mut Rng| {
            let t = g.trim_end_matches('/');
            if g.is_empty() {
                ".".to_string()
            } else if rng.chance(1, 2) && !t.is_empty() && t != "-o" {
                t.to_string()
            } else {
                g.to_string()
            }
        };
        let (ia, oa) = (strip(&ig, rng), strip(&og, rng));
        for (f, d) in &files {
            w.put(&format!("{id}{f}"), d);
        }
        let before = w.snap();
        let r = w.run(&["convert", &ia, "-m", "-o", &oa]);
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("mass conversion of {ia:.60?} ({idn}) to {oa:.60?} ({odn})");
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("directories", idn);
        w.seen("directories of outputs", odn);
        ensure!(r.code == r0.code, "{what}: ends with {}, elsewhere {}: {} {}", r.status(), r0.status(), r.stdout(), r.stderr());
        let after = w.snap();
        let mut want = 0;
        for (p, x) in plain.iter().filter(|(p, _)| p.starts_with("res/")) {
            let to = format!("{od}{}", &p[4..]);
            ensure!(after.get(&to) == Some(x), "{what}: {to:?} is not what {p} is elsewhere");
            want += 1;
        }
        let d = snap_diff(&before, &after);
        ensure!(d.len() == want, "{what}: {}", d.join(", "));
        w.count("files of mass conversions", want as u64);
        Ok(())
    });
    c.section("other working directories", c.n(400, 4000), c.n(30, 150) as u64, |w, rng, i| {
        let s = saver(w, rng, i % SAVERS, "out");
        let start = w.snap();
        let r0 = w.run_in(&strs(&s.args), "y\n");
        done(&r0, &s.desc)?;
        let plain = w.snap();
        restore(w, &start);
        w.mkdir("x y/z");
        w.mkdir("locked");
        let (cwd, pre) = *rng.pick(&[("x y", "../"), ("x y/z", "../../"), ("x y/z", ".././../x y/../"), ("locked", "../")]);
        let locked = cwd == "locked" && !s.in_place();
        if locked {
            w.mode("locked", 0o555);
        }
        let n = s.args.len();
        let args: Vec<String> = (0..n).map(|k| if k == 1 || (k > 1 && s.args[k] == s.out && matches!(s.args[k - 1].as_str(), "-o" | "-f")) { format!("{pre}{}", s.args[k]) } else { s.args[k].clone() }).collect();
        let o = Opt { stdin: b"y\n".to_vec(), cwd: Some(w.path(cwd)), ..Default::default() };
        let r = w.run_opt(&strs(&args), &o);
        w.mode("locked", 0o755);
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{} from {cwd:?}", s.desc);
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("working directories", cwd);
        ensure!(r.code == r0.code, "{what}: ends with {}, elsewhere {}: {} {}", r.status(), r0.status(), r.stdout(), r.stderr());
        let after = w.snap();
        for (p, x) in &plain {
            ensure!(after.get(p) == Some(x), "{what}: {p} is not as when run beside it");
        }
        ensure!(after.len() == plain.len() + 3, "{what}: {}", snap_diff(&plain, &after).join(", "));
        Ok(())
    });
    // directories whose names are no text
    c.section("working directories that are not UTF-8", c.n(120, 1200), c.n(20, 100) as u64, |w, rng, i| {
        use std::os::unix::{ffi::OsStrExt, fs::PermissionsExt};
        let s = saver(w, rng, i % SAVERS, "out");
        if rng.chance(1, 3) && !s.in_place() {
            w.put(&s.out, b"what was there");
        }
        let start = w.snap();
        let r0 = w.run_in(&strs(&s.args), "y\n");
        done(&r0, &s.desc)?;
        let plain = w.snap();
        restore(w, &start);
        let name: &[u8] = *rng.pick(&[&b"\xFF"[..], b"d\xC3", b"\xE9t\xE9", b"a\x80b", b"\xED\xA0\x80", b"\xC0\xAF", b"x\xFE.8xp"]);
        let dir = w.dir.join(std::ffi::OsStr::from_bytes(name));
        let ok = (|| -> std::io::Result<()> {
            std::fs::create_dir(&dir)?;
            std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o777))?;
            for f in start.keys().filter(|f| !f.contains('/')) {
                std::fs::rename(w.path(f), dir.join(f))?;
            }
            Ok(())
        })();
        if ok.is_err() {
            skip!("no such directories here");
        }
        let o = Opt { stdin: b"y\n".to_vec(), cwd: Some(dir.clone()), ..Default::default() };
        let r = w.run_opt(&strs(&s.args), &o);
        for f in std::fs::read_dir(&dir).unwrap().flatten() {
            let _ = std::fs::rename(f.path(), w.dir.join(f.file_name()));
        }
        let _ = std::fs::remove_dir(&dir);
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{} in the directory {}", s.desc, show(name));
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("directories that are not UTF-8", show(name));
        ensure!(r.code == r0.code && r.stdout() == r0.stdout(), "{what}: ends with {}, elsewhere {}: {} {}", r.status(), r0.status(), r.stdout(), r.stderr());
        let d = snap_diff(&plain, &w.snap());
        ensure!(d.is_empty(), "{what}: not as elsewhere: {}", d.join(", "));
        Ok(())
    });
    // only these five, exactly
    c.section("extensions", c.n(1500, 15000), c.n(40, 200) as u64, |w, rng, i| {
        let near = ["8XP", "8xP", "TXT", "Txt", "JSON", "Json", "83P", "82P", "8xp ", " 8xp", "8xpp", "8x", "xp", "8p", "81p", "84p", "86p", "85p", "89p", "8xg", "8xv", "8ck", "73p", "txt~", "text", "tx", "jso", "jsonl", "js", "8xp\n", "8xp\u{301}", "８xp", "8\u{445}p", "", "p", "md", "8xp.bak", "txt.gz", "json5", "bin", "zip", "\u{ff}"];
        let e = if rng.chance(4, 5) { near[i % near.len()].to_string() } else { gen::alpha_name(rng, 1, 4).iter().map(|b| (*b as char).to_ascii_lowercase()).collect() };
        if ["8xp", "83p", "82p", "txt", "json"].contains(&e.as_str()) {
            skip!("an extension");
        }
        let p = gen::prog(rng, 20);
        let bad = match rng.below(4) {
            0 => format!("x{}", e.replace('.', "")), // none at all
            1 => format!(".{}", *rng.pick(&["8xp", "txt", "json"])), // hidden, no extension
            _ => format!("x.{e}"),
        };
        w.put(&bad, &p.file(Fmt::P8));
        w.put("ok.8xp", &p.file(Fmt::P8));
        let args: Vec<&str> = match i % 7 {
            0 => vec!["details", &bad],
            1 => vec!["convert", &bad, "-o", "n.txt"],
            2 => vec!["convert", &bad, "-p", "-c"],
            3 => vec!["lock", &bad],
            4 => vec!["rename", &bad, "-n", "NEW", "-f", "n.8xp", "-d"],
            5 => vec!["convert", "ok.8xp", "-o", &bad],
            _ => vec!["archive", "ok.8xp", "-f", &bad, "-d"],
        };
        let before = w.snap();
        let r = w.run_in(&args, "y\ny\n");
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{args:?}");
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("near extensions", bad.clone());
        ensure!(r.failed(), "{what}: not refused: {} {}", r.status(), r.stdout());
        ensure!(snap_diff(&before, &w.snap()).is_empty(), "{what}: refused, but {}", snap_diff(&before, &w.snap()).join(", "));
        Ok(())
    });
}
