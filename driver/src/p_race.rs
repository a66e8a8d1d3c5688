//! C22: commands at the same time
use crate::ctx::{Ctx, Res, W};
use crate::exec::{snap_diff, Node, Opt, Run, Snap};
use crate::gen;
use crate::p_convert::*;
use crate::p_edit::{restore, strs, Edit};
use crate::rng::Rng;
use crate::spec::*;
use crate::{bad, ensure, skip};

#[derive(Clone)]
struct Cmd {
    args: Vec<String>,
    desc: &'static str,
    /// prints what it reads and saves nothing
    reads: bool,
    /// the file that delete-old removes, and where the program is then
    delete: Option<(String, String)>,
}
const CMDS: usize = 18;
fn cmd(rng: &mut Rng, k: usize) -> Cmd {
    let s = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let c = |args, desc| Cmd { args, desc, reads: false, delete: None };
    let with = |e: Edit, inp: &str, x: &[&str]| {
        let mut a = e.args(inp);
        a.extend(x.iter().map(|x| x.to_string()));
        a
    };
    let e = Edit::random(rng);
    match k {
        0 => c(with(e, "a.8xp", &[]), "edit in place"),
        1 => c(with(e, "a.8xp", &["-f", "o.8xp"]), "edit to a new file"),
        2 => Cmd { delete: Some(("a.8xp".into(), "o.8xp".into())), ..c(with(e, "a.8xp", &["-f", "o.8xp", "-d"]), "edit to a new file, delete old") },
        3 => c(s(&["convert", "a.8xp", "-o", "o.txt"]), "program to text"),
        4 => c(s(&["convert", "c.83p", "-o", "o.8xp"]), "program to program"),
        5 => c(s(&["convert", "c.83p", "-o", "a.8xp"]), "program over a program"),
        6 => c(s(&["convert", "t.txt", "-o", "o.8xp"]), "text to program"),
        7 => c(s(&["convert", "t.txt", "-o", "a.8xp"]), "text over a program"),
        8 => Cmd { reads: true, ..c(s(&["convert", "a.8xp", "-p", "-c"]), "preview") },
        9 => Cmd { reads: true, ..c(s(&["details", "a.8xp"]), "details") },
        10 => c(s(&["convert", "in", "-m", "-o", "res"]), "mass conversion"),
        11 => c(with(e, "in/p.8xp", &[]), "edit in a directory"),
        12 => c(s(&["convert", "a.8xp", "-o", "o.json"]), "program to json"),
        13 => c(s(&["convert", "a.8xp", "-o", "t.txt", "-d", "pretty"]), "program over a text"),
        14 => c(s(&["convert", "j.json", "-o", "a.8xp"]), "json over a program"),
        15 => c(s(&["convert", "a.8xp", "-o", "j.json"]), "program over a json"),
        16 => c(with(e, "a.8xp", &["-f", "o.txt"]), "edit to a text"),
        _ => Cmd { reads: true, ..c(s(&["convert", "t.txt", "-p", "-c"]), "preview of a text") },
    }
}
fn scene(w: &mut W, rng: &mut Rng) {
    let mut p = gen::prog(rng, 60);
    p.name = b"ALPHA".to_vec();
    let mut q = gen::prog(rng, 200);
    q.name = b"GAMMA".to_vec();
    if rng.chance(1, 2) {
        // of different sizes, with something to see in each part
        p.body = gen::body_exact(rng, &p.table(), 300);
    }
    w.put("a.8xp", &q.file(Fmt::P8));
    w.run(&["convert", "a.8xp", "-o", "j.json"]);
    w.put("a.8xp", &p.file(Fmt::P8));
    w.put("c.83p", &q.file(Fmt::P83));
    w.put("t.txt", txt_file("TEXT", "", "Program", "RAM", "accessible", "latest", &"Disp 1\n".repeat(rng.below(40)), true).as_bytes());
    for (n, f) in [("ONE", "in/p.8xp"), ("TWO", "in/q.8xp"), ("THREE", "in/r.8xp")] {
        let mut p = gen::prog(rng, 40);
        p.name = n.as_bytes().to_vec();
        w.put(f, &p.file(Fmt::P8));
    }
    w.mkdir("res");
    for f in ["o.8xp", "o.txt", "o.json", "res/TWO.txt"] {
        if rng.chance(1, 2) {
            let n = rng.range(1, 400);
            let junk = rng.bytes(n);
            w.put(f, &junk);
        }
    }
}
fn yes() -> Opt {
    Opt { stdin: b"y\n".repeat(12), ..Default::default() }
}
/// every file of `now` is one of the complete ones
fn complete(what: &str, now: &Snap, states: &[&Snap]) -> Res {
    for (p, n) in now {
        match n {
            Node::File(d) => {
                let any = states.iter().any(|s| matches!(s.get(p), Some(Node::File(x)) if x == d));
                let left = states.iter().all(|s| !s.contains_key(p));
                ensure!(!left, "{what}: {p} appeared");
                ensure!(any, "{what}: {p} is not what it was, nor what either command makes of it ({} bytes: {})", d.len(), show(d));
            }
            n => ensure!(states.iter().any(|s| s.get(p) == Some(n)), "{what}: {p} appeared"),
        }
    }
    for s in states {
        for p in s.keys() {
            ensure!(now.contains_key(p) || states.iter().any(|s| !s.contains_key(p)), "{what}: {p} is gone");
        }
    }
    Ok(())
}
fn seen_by(r: &Run) -> String {
    format!("{}\n{}", r.status(), r.raw_stdout())
}
pub fn c22(c: &Ctx) {
    let pairs = CMDS * CMDS;
    c.section("one command inside another", pairs * c.n(2, 20), c.n(120, 900) as u64, |w, rng, i| {
        let (x, y) = (i % pairs / CMDS, i % CMDS);
        let (a, b) = (cmd(rng, x), cmd(rng, y));
        scene(w, rng);
        let s0 = w.snap();
        // alone, and one after the other
        let seq = |w: &mut W, l: &[&Cmd]| -> (Vec<Run>, Snap) {
            restore(w, &s0);
            let r = l.iter().map(|c| w.run_opt(&strs(&c.args), &yes())).collect();
            (r, w.snap())
        };
        let (ra, sa) = seq(w, &[&a]);
        let (rb, sb) = seq(w, &[&b]);
        let (rab, sab) = seq(w, &[&a, &b]);
        let (rba, sba) = seq(w, &[&b, &a]);
        let states = [&s0, &sa, &sb, &sab, &sba];
        for r in ra.iter().chain(&rb).chain(&rab).chain(&rba) {
            if r.watchdog() {
                skip!("watchdog");
            }
        }
        let pid = rng.chance(1, 3);
        let mut o = yes();
        if pid {
            // process ids are unique on one machine only, not among containers that share a directory
            o.env.push(("TIV_PID".into(), "7".into()));
        }
        let mut at = 1;
        loop {
            restore(w, &s0);
            let (r, stopped, q) = w.run_around(&strs(&a.args), &o, at, |bx| bx.run_opt(&strs(&b.args), &o));
            if !stopped {
                break;
            }
            let what = format!("{} during {} (at its step {at}{})", b.args.join(" "), a.args.join(" "), if pid { ", same process id" } else { "" });
            if r.watchdog() || q.watchdog() {
                skip!("watchdog");
            }
            w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
            w.count("interleavings", 1);
            w.seen("pairs", format!("{} | {}", a.desc, b.desc));
            ensure!(!r.panicked() && !q.panicked(), "{what}: panicked");
            ensure!(r.signal.is_none() && q.signal.is_none(), "{what}: {} and {}", r.status(), q.status());
            let now = w.snap();
            complete(&what, &now, &states)?;
            // a command sees each file before or after the other one
            for (me, other, r, alone, after) in [(&a, &b, &r, &ra[0], &rba[1]), (&b, &a, &q, &rb[0], &rab[1])] {
                if other.delete.is_some() && r.failed() {
                    // its input went away
                    w.count("inputs deleted meanwhile", 1);
                } else if me.reads {
                    let s = seen_by(r);
                    ensure!(s == seen_by(alone) || s == seen_by(after), "{what}: {} shows neither the old nor the new content: {}", me.args.join(" "), shows(&s));
                    w.count("views compared", 1);
                } else {
                    ensure!(r.code == alone.code || r.code == after.code, "{what}: {} ended with {} instead of {}: {}", me.args.join(" "), r.status(), alone.status(), r.stdout());
                }
            }
            for d in [&a, &b] {
                if let Some((old, new)) = &d.delete {
                    ensure!(now.contains_key(old) || now.contains_key(new), "{what}: {old} is gone and there is no {new}");
                }
            }
            at += 1;
            if at > 400 {
                skip!("{what}: more than 400 steps");
            }
        }
        w.seen("steps", (at - 1).to_string());
        ensure!(at > 2, "{}: never stopped", a.args.join(" "));
        Ok(())
    });
    // many at once, on as many processors as there are
    c.section("many at once", c.n(60, 600), c.n(60, 300) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 0);
        p.body = gen::body_exact(rng, &p.table(), [50, 3000, 30000][i % 3]);
        p.comment = b"comment0".to_vec();
        p.name = b"NAMEA".to_vec();
        w.put("a.8xp", &p.file(Fmt::P8));
        let n = rng.range(3, 6);
        let mut all = vec![];
        let (mut names, mut comments, mut types, mut dests) = (vec![p.name.clone()], vec![p.comment.clone()], vec![p.ptype], vec![p.dest]);
        for k in 0..n {
            let e = match rng.below(6) {
                0 => Edit::Rename(format!("NAME{}", (b'B' + k as u8) as char)),
                1 => Edit::Comment("comment".repeat(k + 1)),
                2 => Edit::Lock,
                3 => Edit::Unlock,
                4 => Edit::Archive,
                _ => Edit::Unarchive,
            };
            let mut q = p.clone();
            e.apply(&mut q);
            names.push(q.name);
            comments.push(q.comment);
            types.push(q.ptype);
            dests.push(q.dest);
            all.push((e.args("a.8xp"), yes()));
        }
        for _ in 0..rng.range(1, 4) {
            all.push((["convert", "a.8xp", "-o", "o.txt"].iter().map(|s| s.to_string()).collect(), yes()));
        }
        let what = format!("{} at once", all.iter().map(|a| a.0.join(" ")).collect::<Vec<_>>().join(", "));
        let rs = w.run_together(&all);
        w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
        w.count("processes at once", all.len() as u64);
        for (r, (a, _)) in rs.iter().zip(&all) {
            if r.watchdog() {
                skip!("watchdog");
            }
            ensure!(!r.panicked(), "{what}: {} panicked", a.join(" "));
            ensure!(r.ok(), "{what}: {} ended with {}: {}", a.join(" "), r.status(), r.stdout());
        }
        let g = w.get("a.8xp").unwrap_or_default();
        let q = match well_formed(&g, Fmt::P8) {
            Ok(q) => q,
            Err(e) => bad!("{what}: a.8xp is not well formed: {e}"),
        };
        ensure!(q.body == p.body, "{what}: the body of a.8xp changed");
        ensure!(names.contains(&q.name) && comments.contains(&q.comment) && types.contains(&q.ptype) && dests.contains(&q.dest), "{what}: a.8xp has values that no command gave it: {:?} {:?}", q.name_str(), q.comment_str());
        let mut texts = vec![];
        for n in &names {
            for m in &comments {
                for t in &types {
                    for d in &dests {
                        texts.push(Prog { name: n.clone(), comment: m.clone(), ptype: *t, dest: *d, ..p.clone() }.txt(Fmt::P8, ACC).unwrap_or_default().into_bytes());
                    }
                }
            }
        }
        let t = w.get("o.txt").unwrap_or_default();
        ensure!(texts.contains(&t), "{what}: o.txt is not the text of any version of a.8xp: {}", show(&t));
        for k in snap_diff(&Snap::new(), &w.snap()) {
            ensure!(k.starts_with("a.8xp ") || k.starts_with("o.txt "), "{what}: {k}");
        }
        w.seen("sizes", g.len().to_string());
        Ok(())
    });
}
