//! C25: the files a command has nothing to do with
use crate::ctx::{Ctx, Res, W};
use crate::exec::{lossless, Node, Opt, Run, Snap};
use crate::gen;
use crate::p_convert::*;
use crate::p_edit::{bystanders, restore, scene, strs, Scene, SCENES};
use crate::rng::Rng;
use crate::spec::*;
use crate::{ensure, skip};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::Path;

/// what else there is to know about a file or directory
#[derive(Clone, PartialEq, Debug)]
struct Meta {
    mode: u32,
    owner: (u32, u32),
    ino: u64,
    links: u64,
    /// of directories it says when something appeared in them
    mtime: (i64, i64),
}
fn metas(root: &Path) -> BTreeMap<String, Meta> {
    fn walk(root: &Path, p: &Path, s: &mut BTreeMap<String, Meta>) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let path = e.path();
            let Ok(m) = std::fs::symlink_metadata(&path) else { continue };
            let dir = m.is_dir();
            let k = lossless(path.strip_prefix(root).unwrap().to_path_buf().into_os_string());
            s.insert(k, Meta { mode: m.mode(), owner: (m.uid(), m.gid()), ino: m.ino(), links: if dir { 0 } else { m.nlink() }, mtime: if dir { (0, 0) } else { (m.mtime(), m.mtime_nsec()) } });
            if dir {
                walk(root, &path, s);
            }
        }
    }
    let mut s = BTreeMap::new();
    walk(root, root, &mut s);
    s
}
/// a place that looks like one where tools keep, save or look for something
fn surroundings(w: &mut W, rng: &mut Rng, s: &Scene) {
    let mut paths: Vec<String> = s.outs.clone();
    for n in w.snap().keys() {
        if n.contains('.') && !paths.contains(n) {
            paths.push(n.clone());
        }
    }
    bystanders(w, &strs(&paths));
    for p in &paths {
        let (dir, file) = match p.rsplit_once('/') {
            Some((d, f)) => (format!("{d}/"), f),
            None => (String::new(), &p[..]),
        };
        if s.mass && !w.path(&dir).exists() {
            continue; // the command creates it
        }
        for n in [format!(".{file}.swp"), format!(".{file}.tmp"), format!("#{file}#"), format!(".#{file}"), format!("{file}.lock"), format!("{file}.orig"), format!("{file}.new"), ".ti-tools.tmp".into(), "tmp".into(), "core".into(), ".ti-tools-1-0.tmp".into()] {
            let n = format!("{dir}{n}");
            if w.path(&n).symlink_metadata().is_err() && rng.chance(2, 3) {
                w.put(&n, format!("bystander {n}").as_bytes());
            }
        }
    }
    for d in ["home/.config/ti-tools", "home/.cache", "tmp.d/ti-tools", "empty.d"] {
        w.mkdir(d);
    }
    w.put("home/.config/ti-tools/config.json", b"{}");
    w.put("home/.cache/tokens.json", b"{}");
    w.put("tmp.d/something", b"something");
    w.link("tmp.d/something", "link-to-something");
    w.link("nowhere", "link-to-nowhere");
    let all: Vec<String> = w.snap().iter().filter(|(_, n)| matches!(n, Node::File(_))).map(|(k, _)| k.clone()).collect();
    for f in &all {
        if !paths.contains(f) {
            w.mode(f, *rng.pick(&[0o600u32, 0o644, 0o400, 0o444, 0o755, 0o666, 0o000]));
        }
        // an old time, so that a change shows
        let p = std::ffi::CString::new(w.path(f).to_str().unwrap()).unwrap();
        let t = libc::timespec { tv_sec: 1_000_000_000 + rng.below(1000) as i64, tv_nsec: 0 };
        unsafe { libc::utimensat(libc::AT_FDCWD, p.as_ptr(), [t, t].as_ptr(), 0) };
    }
}
/// a process changes only files it may change or made itself
fn trace(w: &W, r: &Run, before: &Snap, may: &BTreeSet<String>, what: &str) -> Res {
    let rel = |p: &str| p.strip_prefix(w.dir.to_str().unwrap()).map(|x| x.trim_start_matches('/').to_string());
    let mut own: BTreeSet<String> = BTreeSet::new();
    for op in r.ops.iter().filter(|o| o.ret >= 0 && o.seq > 0) {
        let targets: Vec<&str> = match op.op.as_str() {
            "opent" | "openw" | "openx" | "write" | "ftruncate" | "fchmod" | "truncate" | "chmod" | "chown" | "unlink" | "rmdir" | "mkdir" | "symlink" => vec![&op.a],
            "rename" => vec![&op.a, &op.b],
            "link" => vec![&op.b],
            _ => vec![],
        };
        for t in targets {
            let Some(p) = rel(t) else { crate::bad!("{what}: {} {t}, which is outside of the working directory", op.op) };
            if may.contains(&p) || own.contains(&p) {
                continue;
            }
            ensure!(!before.contains_key(&p), "{what}: {} {p}, which the command has nothing to do with", op.op);
            own.insert(p);
        }
    }
    if let Some(d) = r.denied() {
        crate::bad!("{what}: {} {}, which is far outside of its directories", d.b, d.a);
    }
    Ok(())
}
fn compare(before: &(Snap, BTreeMap<String, Meta>), after: &(Snap, BTreeMap<String, Meta>), may: &BTreeSet<String>, what: &str) -> Res {
    for (p, n) in &before.0 {
        if may.contains(p) {
            continue;
        }
        let now = after.0.get(p);
        ensure!(now.is_some(), "{what}: {p} disappeared");
        ensure!(now == Some(n), "{what}: {p} changed");
        ensure!(before.1.get(p) == after.1.get(p), "{what}: {p} is not what it was: {:?} instead of {:?}", after.1.get(p), before.1.get(p));
    }
    for p in after.0.keys() {
        ensure!(before.0.contains_key(p) || may.contains(p), "{what}: {p} appeared");
    }
    Ok(())
}
fn state(w: &W) -> (Snap, BTreeMap<String, Meta>) {
    (w.snap_all().into_iter().map(|(k, v)| (strip(w, &k), v)).collect(), metas(&w.top).into_iter().map(|(k, v)| (strip(w, &k), v)).collect())
}
/// paths below the working directory as the commands see them
fn strip(w: &W, k: &str) -> String {
    let d = w.dir.strip_prefix(&w.top).unwrap().to_str().unwrap();
    match k.strip_prefix(&format!("{d}/")) {
        Some(x) => x.to_string(),
        None => format!("/{k}"),
    }
}
fn may(s: &Scene) -> BTreeSet<String> {
    let mut m: BTreeSet<String> = s.outs.iter().cloned().collect();
    if let Some((old, _)) = &s.delete {
        m.insert(old.clone());
    }
    if s.mass {
        m.insert("res".into());
    }
    m
}
/// the settings a program could take a place from
fn settings(w: &W, rng: &mut Rng) -> Vec<(String, String)> {
    let d = |n: &str| w.path(n).to_str().unwrap().to_string();
    let mut v: Vec<(String, String)> = vec![("HOME".into(), d("home")), ("TMPDIR".into(), d("tmp.d")), ("XDG_CONFIG_HOME".into(), d("home/.config")), ("XDG_CACHE_HOME".into(), d("home/.cache"))];
    if rng.chance(1, 3) {
        v.truncate(rng.below(4));
    }
    v.push(("TIV_PID".into(), "7".into()));
    v
}
pub fn c25(c: &Ctx) {
    c.section("the files around", SCENES * c.n(50, 400), c.n(60, 400) as u64, |w, rng, i| {
        let s = scene(w, rng, i % SCENES);
        surroundings(w, rng, &s);
        for o in &s.outs {
            if rng.chance(1, 2) && w.path(o).symlink_metadata().is_ok_and(|m| m.is_file()) {
                // its owner can read it, which is all that replacing it needs
                w.mode(o, 0o400 | *rng.pick(&[0u32, 0o200, 0o100, 0o300, 0o377, 0o044, 0o244, 0o055, 0o266, 0o277, 0o007, 0o020]));
            }
        }
        let before = state(w);
        // agreed to, declined, or failing somewhere
        let way = i / SCENES % 4;
        let stdin = if way == 1 { b"n\n".to_vec() } else { s.stdin.clone() };
        let fault = if way == 2 { Some(('w', rng.range(1, 9), rng.pick(&["err:28", "err:13", "err:5", "short"]).to_string())) } else { None };
        let umask = *rng.pick(&[0o022u32, 0o022, 0o002, 0o077, 0o027, 0o000]);
        let o = Opt { stdin, env: settings(w, rng), fault, umask: Some(umask), ..Default::default() };
        let r = w.run_opt(&strs(&s.args), &o);
        if r.watchdog() {
            skip!("watchdog");
        }
        let after = state(w);
        let what = format!("{}{}", s.desc, [", agreed to", ", declined", ", with a fault", ", agreed to"][way]);
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("scenes", what.clone());
        w.count("files around", before.0.len() as u64);
        w.count("operations judged", r.ops.len() as u64);
        let may = may(&s);
        compare(&before, &after, &may, &what)?;
        trace(w, &r, &before.0, &may, &what)?;
        // what is new is as the user wants new files to be
        for (p, n) in &after.0 {
            let want = match n {
                Node::File(_) => 0o666 & !umask,
                Node::Dir => 0o777 & !umask,
                Node::Link(_) => continue,
            };
            if before.0.contains_key(p) {
                let (b, a) = (before.1[p].mode & 0o7777, after.1[p].mode & 0o7777);
                ensure!(a == b, "{what}: {p} had the permissions {b:o} and has {a:o}");
                w.count("permissions kept", 1);
            } else {
                let mode = after.1[p].mode & 0o7777;
                ensure!(mode == want, "{what}: with the umask {umask:o} the new {p} has the permissions {mode:o} instead of {want:o}");
                w.count("permissions of new files", 1);
                w.seen("umasks", format!("{umask:o}"));
            }
        }
        if way == 1 && r.failed() {
            compare(&before, &after, &BTreeSet::new(), &what)?;
        }
        Ok(())
    });
    c.section("commands that save nothing", c.n(700, 7000), c.n(40, 200) as u64, |w, rng, i| {
        let s = scene(w, rng, i % SCENES);
        surroundings(w, rng, &s);
        let files: Vec<String> = w.snap().iter().filter(|(k, n)| matches!(n, Node::File(_)) && [".8xp", ".83p", ".82p", ".txt", ".json"].iter().any(|e| k.ends_with(e))).map(|(k, _)| k.clone()).collect();
        let f = rng.pick(&files).clone();
        let mut a: Vec<String> = match i / SCENES % 9 {
            0 => vec!["details".into(), f],
            1 => vec!["convert".into(), f, "-p".into()],
            2 => vec!["convert".into(), f, "-c".into(), "-p".into()],
            3 => vec!["search".into(), "Disp ".into()],
            4 => vec!["models".into()],
            5 => vec!["help".into()],
            6 => vec!["version".into()],
            7 => vec!["convert".into(), if s.mass { "in".into() } else { ".".into() }, "-m".into(), "-p".into()],
            _ => vec!["rename".into(), f, "NOT A NAME".into(), "-f".into(), "new.8xp".into(), "-d".into()],
        };
        if rng.chance(1, 10) {
            a.push(rng.pick(&["-h", "--help", "-v", "-x", "."]).to_string());
        }
        let before = state(w);
        let o = Opt { stdin: b"y\ny\n".to_vec(), env: settings(w, rng), ..Default::default() };
        let r = w.run_opt(&strs(&a), &o);
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = a.join(" ");
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("commands", a[0].clone());
        let after = state(w);
        compare(&before, &after, &BTreeSet::new(), &what)?;
        trace(w, &r, &before.0, &BTreeSet::new(), &what)
    });
    // learn where temporary files are made and put something there
    const THINGS: usize = 10;
    c.section("what stands where temporary files are made", SCENES * THINGS * c.n(3, 30), c.n(60, 400) as u64, |w, rng, i| {
        let s = scene(w, rng, i % SCENES);
        let thing = i / SCENES % THINGS;
        w.put("bystander", b"something precious");
        let before = w.snap();
        let o = Opt { stdin: s.stdin.clone(), env: vec![("TIV_PID".into(), "7".into())], ..Default::default() };
        let r = w.run_opt(&strs(&s.args), &o);
        done(&r, &s.desc)?;
        let want = w.snap();
        let dir = w.dir.to_str().unwrap().to_string();
        let mut temps: Vec<String> = r
            .ops
            .iter()
            .filter(|o| o.ret >= 0 && matches!(o.op.as_str(), "openx" | "openw" | "opent" | "link" | "symlink" | "mkdir"))
            .filter_map(|o| if o.op == "link" { &o.b } else { &o.a }.strip_prefix(&dir).map(|p| p.trim_start_matches('/').to_string()))
            .filter(|p| !before.contains_key(p) && !want.contains_key(p))
            .collect();
        temps.dedup();
        restore(w, &before);
        // some tools count on when a name is taken
        let more = *rng.pick(&[1, 1, 2, 3, 5, 12]);
        let age = *rng.pick(&[0u64, 0, 3600, 90_000, 700_000_000]);
        for t in temps.iter().take(3).cloned().collect::<Vec<_>>() {
            if let Some(n) = t.find("-0.") {
                for k in 1..=more {
                    temps.push(format!("{}-{k}.{}", &t[..n], &t[n + 3..]));
                }
            }
        }
        let mut placed = 0;
        let mut input = strs(&s.args)[1].to_string();
        if s.mass {
            input = "in/f0.8xp".into();
        }
        for t in &temps {
            // the directory may be one that the command creates
            if t.contains('/') && !w.path(t).parent().is_some_and(|p| p.exists()) {
                continue;
            }
            let up = "../".repeat(t.matches('/').count());
            match thing {
                0 => w.put(t, b"something left over"),
                1 => w.link(&format!("{up}bystander"), t),
                2 => w.link("does-not-exist", t),
                3 => w.link(&format!("{up}{input}"), t),
                4 => w.mkdir(t),
                5 => {
                    w.mkdir(t);
                    w.put(&format!("{t}/file"), b"in the way");
                }
                6 => {
                    w.put(t, b"read only");
                    w.mode(t, 0o444);
                }
                7 => {
                    let to = w.path(t);
                    std::fs::hard_link(w.path("bystander"), to).unwrap();
                }
                8 => w.put(t, b""),
                _ => {
                    w.put(t, b"not readable");
                    w.mode(t, 0o000);
                }
            }
            if age > 0 && matches!(thing, 0 | 6 | 8) {
                if let Ok(f) = std::fs::File::open(w.path(t)) {
                    let _ = f.set_modified(std::time::SystemTime::now() - std::time::Duration::from_secs(age));
                }
            }
            placed += 1;
        }
        let what = format!("{} with {} where temporary files are made", s.desc, ["a file", "a link to a file", "a link to nothing", "a link to the input", "a directory", "a full directory", "a read-only file", "a hard link to a file", "an empty file", "an unreadable file"][thing]);
        let start = state(w);
        let r = w.run_opt(&strs(&s.args), &o);
        if r.watchdog() {
            skip!("watchdog");
        }
        let end = state(w);
        w.judged(placed > 0, format!("{what}{i}").as_bytes(), || what.clone());
        w.count("temporary files met", placed);
        w.seen("things in the way", what.clone());
        let may = may(&s);
        compare(&start, &end, &may, &what)?;
        trace(w, &r, &start.0, &may, &what)?;
        let now = w.snap();
        for p in &may {
            let (b, a, n) = (before.get(p), want.get(p), now.get(p));
            ensure!(n == a || n == b, "{what}: {p} is neither as before nor as after the command");
            if r.ok() && !s.mass {
                ensure!(n == a, "{what}: reported success, but {p} is as before");
            }
        }
        if let Some((old, new)) = &s.delete {
            ensure!(now.contains_key(old) || now.get(new) == want.get(new), "{what}: {old} is gone, but {new} is not saved");
        }
        if r.ok() {
            w.count("saved all the same", 1);
        }
        Ok(())
    });
    // an output path that is a link: whatever it leads to, it stays a link, and nothing else is replaced
    c.section("links", c.n(800, 8000), c.n(40, 200) as u64, |w, rng, i| {
        let p = gen::prog(rng, 60);
        let f = p.file(Fmt::P8);
        w.put("in.8xp", &f);
        w.put("other/target.8xp", b"old content");
        w.put("other/bystander.8xp", b"bystander");
        w.mkdir("sub");
        let (desc, out, may): (&str, &str, &[&str]) = match i % 8 {
            0 => { w.link("other/target.8xp", "out.8xp"); ("a link to a file", "out.8xp", &["other/target.8xp"]) }
            1 => { w.link("other/target.8xp", "mid.8xp"); w.link("mid.8xp", "out.8xp"); ("a link to a link", "out.8xp", &["other/target.8xp"]) }
            2 => { w.link("other", "d"); ("a file in a linked directory", "d/target.8xp", &["other/target.8xp"]) }
            3 => { w.link("other", "d"); ("a new file in a linked directory", "d/new.8xp", &["other/new.8xp"]) }
            4 => { w.link("../other/target.8xp", "sub/out.8xp"); ("a link in another directory", "sub/out.8xp", &["other/target.8xp"]) }
            5 => { let t = w.path("other/target.8xp"); w.link(t.to_str().unwrap(), "out.8xp"); ("a link with an absolute path", "out.8xp", &["other/target.8xp"]) }
            6 => { w.link("loop.8xp", "loop.8xp"); ("a link to itself", "loop.8xp", &[]) }
            _ => { w.link("other/none/x.8xp", "out.8xp"); ("a link to nowhere", "out.8xp", &[]) }
        };
        let a: Vec<&str> = if i / 8 % 2 == 0 { vec!["convert", "in.8xp", "-o", out] } else { vec!["lock", "in.8xp", "-f", out] };
        let yes = i / 16 % 4 != 3;
        let before = state(w);
        let r = w.run_in(&a, if yes { "y\n" } else { "n\n" });
        let after = state(w);
        let what = format!("{} with {desc} as output{}", a[0], if yes { "" } else { ", declined" });
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("links", what.clone());
        let mut may: BTreeSet<String> = may.iter().map(|x| x.to_string()).collect();
        if i % 8 >= 6 {
            // whether a link to nothing is written through, replaced or refused is left open
            may.insert(out.into());
        }
        if !yes && i % 8 < 6 && i % 8 != 3 {
            may.clear();
        }
        compare(&before, &after, &may, &what)?;
        trace(w, &r, &before.0, &may, &what)?;
        if yes && i % 8 < 6 {
            done(&r, &what)?;
            let mut q = p.clone();
            if a[0] == "lock" {
                crate::p_edit::Edit::Lock.apply(&mut q);
            }
            let g = w.get(out).unwrap_or_default();
            ensure!(g == q.file(Fmt::P8), "{what}: {}", part(&g, &q.file(Fmt::P8)));
        }
        Ok(())
    });
    let _ = std::fs::Permissions::from_mode(0);
}
