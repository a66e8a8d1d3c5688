//! C08 C09 C11 C12 C13: edits, refusals, faults
use crate::ctx::{Ctx, Res, W};
use crate::exec::{snap_diff, Node, Op, Opt, Run, Snap};
use crate::gen;
use crate::p_convert::*;
use crate::p_other::old_output;
use crate::rng::Rng;
use crate::spec::*;
use serde_json::Value;
use crate::{bad, ensure, skip};

#[derive(Clone, Debug, PartialEq)]
pub enum Edit {
    Rename(String),
    Comment(String),
    Lock,
    Unlock,
    Archive,
    Unarchive,
}
use Edit::*;
impl Edit {
    pub fn random(rng: &mut Rng) -> Edit {
        match rng.below(8) {
            0 | 1 => {
                let n = gen::alpha_name(rng, 0, 8);
                let s: String = n.iter().map(|b| if rng.chance(1, 3) { b | 0x20 } else { *b } as char).collect();
                Rename(s)
            }
            2 | 3 => Comment(gen::comment(rng).iter().map(|b| *b as char).collect()),
            4 => Lock,
            5 => Unlock,
            6 => Archive,
            _ => Unarchive,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Rename(_) => "rename",
            Comment(_) => "comment",
            Lock => "lock",
            Unlock => "unlock",
            Archive => "archive",
            Unarchive => "unarchive",
        }
    }
    pub fn args(&self, inp: &str) -> Vec<String> {
        let mut v = vec![self.name().to_string(), inp.to_string()];
        match self {
            Rename(n) => v.extend(["-n".into(), n.clone()]),
            Comment(c) => v.extend(["-c".into(), c.clone()]),
            _ => {}
        }
        v
    }
    /// the edit of an 8xp file, byte for byte
    pub fn apply_bytes(&self, f: &mut [u8]) {
        match self {
            Rename(n) => f[60..68].copy_from_slice(&pad(n.to_ascii_uppercase().as_bytes(), 8)),
            Comment(c) => f[11..53].copy_from_slice(&pad(&c.chars().map(|c| c as u8).collect::<Vec<_>>(), 42)),
            Lock => f[59] = 6,
            Unlock => f[59] = 5,
            Archive => f[69] = 0x80,
            Unarchive => f[69] = 0,
        }
        let n = f.len();
        let c = sum16(&f[55..n - 2]).to_le_bytes();
        f[n - 2..].copy_from_slice(&c);
    }
    pub fn apply(&self, p: &mut Prog) {
        match self {
            Rename(n) => p.name = n.to_ascii_uppercase().into_bytes(),
            Comment(c) => p.comment = c.chars().map(|c| c as u8).collect(),
            Lock => p.ptype = 6,
            Unlock => p.ptype = 5,
            Archive => p.dest = 0x80,
            Unarchive => p.dest = 0,
        }
    }
    pub fn all(rng: &mut Rng) -> [Edit; 6] {
        let n = gen::alpha_name(rng, 1, 8).iter().map(|b| *b as char).collect();
        let c: String = gen::alpha_name(rng, 0, 42).iter().map(|b| *b as char).collect();
        [Rename(n), Comment(c), Lock, Unlock, Archive, Unarchive]
    }
}
pub fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
fn opt(stdin: &[u8]) -> Opt {
    Opt { stdin: stdin.to_vec(), ..Default::default() }
}

// ------------------------------------------------------------------ C08

pub fn c08(c: &Ctx) {
    c.section("histories of 8xp files", c.n(1500, 12000), c.n(45, 350) as u64, |w, rng, _| {
        let p = gen::prog(rng, 60);
        let mut p = p;
        let special = rng.chance(1, 4).then(|| *rng.pick(&[0u16, 0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF]));
        let mut f = if rng.chance(1, 3) || special.is_some() { p.file(Fmt::P8) } else { gen::odd_8xp(rng, &p) };
        if let Some(sum) = special {
            // a checksum that means something else in some place, right or wrong
            if rng.chance(1, 2) {
                gen::with_sum(rng, &mut p, Fmt::P8, sum);
                f = p.file(Fmt::P8);
            } else {
                let n = f.len();
                f[n - 2..].copy_from_slice(&sum.to_le_bytes());
            }
            w.seen("special checksums", format!("{sum:04X}"));
        }
        w.put("a.8xp", &f);
        let n = rng.range(1, 9);
        let mut cur = "a.8xp".to_string();
        let mut hist = String::new();
        let mut last: Option<Edit> = None;
        for i in 0..n {
            let e = match rng.below(6) {
                0 if last.is_some() => last.clone().unwrap(),
                // the value that is shown already
                1 => {
                    let shown: String = f[11..53].iter().filter(|b| **b != 0).map(|b| *b as char).collect();
                    let name: String = f[60..68].iter().filter(|b| **b != 0).map(|b| *b as char).collect();
                    w.count("edits to the value shown", 1);
                    match rng.below(3) {
                        0 => Comment(shown),
                        1 if valid_name(&name) => Rename(name),
                        1 => Comment(shown.trim().to_string()),
                        _ => [Lock, Unlock, Archive, Unarchive][rng.below(4)].clone(),
                    }
                }
                _ => Edit::random(rng),
            };
            let repeated = last.as_ref() == Some(&e);
            let old = f.clone();
            e.apply_bytes(&mut f);
            let mut a = e.args(&cur);
            let mode = rng.below(4);
            let next = format!("n{i}.8xp");
            let r = if mode == 0 {
                w.run_in(&strs(&a), "y\n")
            } else {
                a.extend(["-f".into(), next.clone()]);
                if mode == 1 {
                    a.push("-d".into());
                }
                w.run(&strs(&a))
            };
            hist.push_str(&format!("{}{} ", e.name(), ["!", "-f-d", "-f", "-f"][mode]));
            let what = format!("history {hist}on {}", show(&old));
            done(&r, &what)?;
            let out = if mode == 0 { &cur } else { &next };
            let Some(g) = w.get(out) else { bad!("{what}: no file") };
            ensure!(g == f, "{what}: {}", part(&g, &f));
            if repeated {
                ensure!(g == old, "{what}: repeating the edit changed the file");
                w.count("repeated edits", 1);
            }
            if mode >= 2 {
                ensure!(w.get(&cur).as_deref() == Some(&old[..]), "{what}: the input changed");
            }
            if mode == 1 {
                ensure!(w.get(&cur).is_none(), "{what}: the input is still there");
            }
            if mode != 0 {
                cur = next;
            }
            w.seen("edits", e.name());
            w.seen("ways", ["in place", "new file, delete old", "new file", "new file"][mode]);
            last = Some(e);
        }
        w.judged(true, &[&f[..], hist.as_bytes()].concat(), || format!("{hist}-> {}", show(&f)));
        w.count("edits judged", n as u64);
        Ok(())
    });
    c.section("histories across formats", c.n(1100, 9000), c.n(45, 350) as u64, |w, rng, _| {
        let mut p = gen::prog(rng, 60);
        if rng.chance(1, 4) {
            p.name = (0..rng.range(0, 8)).map(|_| *rng.pick(b"ABCXYZ019[")).collect();
        }
        let mut fmt = *rng.pick(&Fmt::ALL);
        let mut cur = format!("a.{}", fmt.ext());
        w.put(&cur, &p.file(fmt));
        if fmt != Fmt::P8 {
            p.dest = 0;
            p.version = 0;
        }
        let mut hist = String::new();
        for i in 0..rng.range(1, 8) {
            let e = Edit::random(rng);
            e.apply(&mut p);
            let mut a = e.args(&cur);
            let to = if rng.chance(2, 3) { fmt } else { *rng.pick(&Fmt::ALL) };
            let place = to == fmt && rng.chance(1, 3);
            let next = if place { cur.clone() } else { format!("n{i}.{}", to.ext()) };
            let r = if place {
                w.run_in(&strs(&a), "Y\n")
            } else {
                a.extend(["-f".into(), next.clone()]);
                w.run(&strs(&a))
            };
            hist.push_str(&format!("{}:{} ", e.name(), to.ext()));
            let what = format!("history {hist}");
            done(&r, &what)?;
            let want = p.file(to);
            let g = w.get(&next).unwrap_or_default();
            ensure!(g == want, "{what}: {}", part(&g, &want));
            if to != Fmt::P8 {
                p.dest = 0;
                p.version = 0;
            }
            w.seen("edits across formats", format!("{} {} {}", e.name(), fmt.ext(), to.ext()));
            fmt = to;
            cur = next;
        }
        w.judged(true, &[&p.file(fmt)[..], hist.as_bytes()].concat(), || hist.clone());
        Ok(())
    });
    c.section("undo", c.n(300, 3000), 0, |w, rng, i| {
        let mut p = gen::prog(rng, 30);
        let (a, b) = [(Lock, Unlock), (Unlock, Lock), (Archive, Unarchive), (Unarchive, Archive)][i % 4].clone();
        match a {
            Lock => p.ptype = 5,
            Unlock => p.ptype = 6,
            Archive => p.dest = 0,
            _ => p.dest = 0x80,
        }
        let f = p.file(Fmt::P8);
        w.put("a.8xp", &f);
        let what = format!("{} then {}", a.name(), b.name());
        done(&w.run_in(&strs(&a.args("a.8xp")), "y\n"), &what)?;
        let mid = w.get("a.8xp");
        done(&w.run_in(&strs(&b.args("a.8xp")), "y\n"), &what)?;
        w.judged(true, &f, || what.clone());
        ensure!(mid.as_deref() != Some(&f[..]), "{what}: the first edit changed nothing");
        let g = w.get("a.8xp").unwrap_or_default();
        ensure!(g == f, "{what}: {}", part(&g, &f));
        Ok(())
    });
    c.section("large programs", c.n(12, 80), c.n(40, 150) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 0);
        p.body = gen::body_exact(rng, &p.table(), [65516, 65500, 33000, 300][i % 4]);
        let e = Edit::random(rng);
        let mut f = p.file(Fmt::P8);
        w.put("a.8xp", &f);
        done(&w.run_in(&strs(&e.args("a.8xp")), "y\n"), e.name())?;
        e.apply_bytes(&mut f);
        w.judged(true, &f, || e.name().into());
        let g = w.get("a.8xp").unwrap_or_default();
        ensure!(g == f, "{} of a large program: {}", e.name(), part(&g, &f));
        Ok(())
    });
}

// ------------------------------------------------------------------ C09

fn valid_name(s: &str) -> bool {
    s.len() <= 8 && s.bytes().all(|b| b.is_ascii_alphabetic())
}
fn valid_comment(s: &str) -> bool {
    s.chars().count() <= 42 && s.chars().all(|c| (1..=255).contains(&(c as u32)))
}
/// a value the command line can carry
fn argv_ok(s: &str) -> bool {
    !s.contains('\0')
}
fn c09_edit(w: &mut W, rng: &mut Rng, e: &Edit, valid: bool, text: &str) -> Res {
    let p = gen::prog(rng, 20);
    let mut f = p.file(Fmt::P8);
    w.put("a.8xp", &f);
    let before = w.snap();
    let mode = rng.below(3);
    let mut a = e.args("a.8xp");
    if mode > 0 {
        a.extend(["-f".into(), "b.8xp".into()]);
    }
    if mode > 1 {
        a.push("-d".into());
    }
    let r = w.run_opt(&strs(&a), &opt(b"y\n"));
    let what = format!("{} {text:?} ({})", e.name(), ["in place", "new file", "new file, delete old"][mode]);
    w.judged(!text.is_empty(), what.as_bytes(), || what.clone());
    w.seen("ways", ["in place", "new file", "new file, delete old"][mode]);
    if !valid {
        w.count(&format!("invalid {}s refused", e.name()), 1);
        return refused(w, &r, &before, &what);
    }
    w.count(&format!("valid {}s", e.name()), 1);
    done(&r, &what)?;
    e.apply_bytes(&mut f);
    let out = if mode == 0 { "a.8xp" } else { "b.8xp" };
    let g = w.get(out).unwrap_or_default();
    ensure!(g == f, "{what}: {}", part(&g, &f));
    // and is shown
    let r = w.run(&["details", out]);
    done(&r, &what)?;
    let o = r.raw_stdout();
    let (name, comment) = match e {
        Comment(c) => (p.name_str(), c.clone()),
        Rename(n) => (n.to_ascii_uppercase(), p.comment_str()),
        _ => unreachable!(),
    };
    ensure!(o.starts_with(&format!("{name}\n{comment}\n")), "{what}: details show {}", shows(&o));
    Ok(())
}
fn c09_txt(w: &mut W, rng: &mut Rng, name: &str) -> Res {
    if name.contains(['\n', '\r']) {
        return Ok(());
    }
    let m = &MODELS[rng.range(5, 24)];
    let (tb, tn) = *rng.pick(&TYPES);
    let (db, dn) = *rng.pick(&DESTS);
    let s = txt_file(name, "c", tn, dn, "accessible", m.name, "A", false);
    w.put("a.txt", s.as_bytes());
    let before = w.snap();
    let out = ["o.8xp", "o.json", "o.83p", "o.txt"][rng.below(4)];
    let r = w.run(&["convert", "a.txt", "-o", out]);
    let what = format!("text with the name {name:?} -> {out}");
    w.judged(!name.is_empty(), what.as_bytes(), || what.clone());
    if !valid_name(name) {
        w.count("invalid text names refused", 1);
        return refused(w, &r, &before, &what);
    }
    w.count("valid text names", 1);
    done(&r, &what)?;
    if out == "o.8xp" {
        let p = match well_formed(&w.get(out).unwrap_or_default(), Fmt::P8) {
            Ok(p) => p,
            Err(e) => bad!("{what}: not well formed: {e}"),
        };
        ensure!(p.name_str() == name && p.ptype == tb && p.dest == db, "{what}: stored as {:?} {:02X} {:02X}", p.name_str(), p.ptype, p.dest);
    }
    Ok(())
}
fn chars_to_try() -> Vec<char> {
    let mut v: Vec<char> = (1..0x180u32).filter_map(char::from_u32).collect();
    v.extend((0x180..0x250u32).chain(0x2b0..0x300).chain(0x1d00..0x1d40).chain(0x1e80..0x1f00).chain(0x2000..0x2150).chain(0x2190..0x21a0).chain(0xfb00..0xfb07).chain(0xff00..0xff70).chain(0xffe0..0xffe8).filter_map(char::from_u32));
    v.extend(['\u{398}', '\u{3b8}', '\u{1e9e}', '\u{212a}', '\u{ff21}', '\u{feff}', '\u{200b}', '\u{2190}', '\u{1d400}', '\u{1f600}', '\u{130}', '\u{131}', '\u{17f}', '\u{10ffff}', '\u{ff}', '\u{100}', '\u{101}', '\u{141}', '\u{161}', '\u{241}']);
    v
}
pub fn c09(c: &Ctx) {
    let cs = chars_to_try();
    let k = cs.len();
    c.section("single characters", k * 3 * c.n(1, 4), 0, |w, rng, i| {
        let ch = cs[i % k];
        let (pre, post) = match rng.below(3) {
            0 => (0, 0),
            1 => (1, 0),
            _ => (rng.below(4), rng.below(4)),
        };
        let s: String = gen::alpha_name(rng, pre, pre).iter().map(|b| *b as char).chain([ch]).chain(gen::alpha_name(rng, post, post).iter().map(|b| *b as char)).collect();
        w.seen("characters", format!("{:04X}", ch as u32));
        match i / k % 3 {
            0 => c09_edit(w, rng, &Rename(s.clone()), valid_name(&s), &s),
            1 => c09_edit(w, rng, &Comment(s.clone()), valid_comment(&s), &s),
            _ => c09_txt(w, rng, &s),
        }
    });
    // characters one might strip, in front, inside, behind
    let odd = gen::ODD_CHARS;
    c.section("odd characters at each place", odd.len() * 9, 0, |w, rng, i| {
        let n = rng.range(2, 6);
        let mut s: Vec<char> = gen::alpha_name(rng, n, n).iter().map(|b| *b as char).collect();
        s.insert([0, n / 2, n][i / odd.len() % 3], odd[i % odd.len()]);
        let s: String = s.into_iter().collect();
        if !argv_ok(&s) {
            return Ok(());
        }
        match i / odd.len() / 3 {
            0 => c09_edit(w, rng, &Rename(s.clone()), valid_name(&s), &s),
            1 => c09_edit(w, rng, &Comment(s.clone()), valid_comment(&s), &s),
            _ => c09_txt(w, rng, &s),
        }
    });
    // every character there is, through the library
    let lib = c.scratch.join("libcheck");
    if lib.exists() {
        let around = ["", "A", "ABCDEFG", "ABCDEFGH", "x y", "12345678901234567890123456789012345678901", "123456789012345678901234567890123456789012"];
        c.section("all characters, in the library", around.len() * 4, 0, |w, _, i| {
            let (x, name) = (around[i / 4], i % 2 == 0);
            let (pre, post) = if i / 2 % 2 == 0 { (x, "") } else { ("", x) };
            let o = std::process::Command::new(&lib).args(["chars", pre, post, if name { "name" } else { "comment" }]).env_clear().output();
            let Ok(o) = o else { skip!("libcheck does not run") };
            ensure!(o.status.success(), "library, {pre:?} + character + {post:?}: {}", shows(&String::from_utf8_lossy(&o.stderr)));
            let Ok(Value::Array(got)) = serde_json::from_slice::<Value>(&o.stdout) else { skip!("libcheck prints something else") };
            let mut at = 0;
            for u in 1..=0x10FFFFu32 {
                let Some(ch) = char::from_u32(u) else { continue };
                let s = format!("{pre}{ch}{post}");
                let valid = if name { valid_name(&s) } else { valid_comment(&s) };
                let here = got.get(at).filter(|g| g[0].as_u64() == Some(u as u64));
                ensure!(here.is_some() == valid, "library: the {} {s:?} is {}", if name { "name" } else { "comment" }, if valid { "refused" } else { "accepted" });
                let Some(g) = here else { continue };
                at += 1;
                let (mut b, shown, from) = if name { (vec![0u8; 19], s.to_ascii_uppercase(), 5) } else { (vec![0u8; 55], s.clone(), 11) };
                for (k, c) in shown.chars().enumerate() {
                    b[from + k] = c as u8;
                }
                ensure!(g[1] == serde_json::json!(b) && g[2].as_str() == Some(&shown), "library: the {} {s:?} is stored as {} {}", if name { "name" } else { "comment" }, g[2], g[1]);
            }
            w.count("characters judged in the library", 0x10FFFF - 2048);
            w.judged(true, format!("{pre}.{post}{name}").as_bytes(), || format!("every character between {pre:?} and {post:?}"));
            Ok(())
        });
    }
    if c.thorough {
        c.section("all characters of the basic plane", 0x10000, 600, |w, rng, i| {
            let Some(ch) = char::from_u32(i as u32) else { return Ok(()) };
            if i == 0 {
                return Ok(());
            }
            let s = format!("A{ch}");
            if rng.chance(1, 2) {
                c09_edit(w, rng, &Rename(s.clone()), valid_name(&s), &s)
            } else {
                c09_edit(w, rng, &Comment(s.clone()), valid_comment(&s), &s)
            }
        });
    }
    c.section("arbitrary characters", c.n(900, 9000), c.n(20, 150) as u64, |w, rng, i| {
        let x = gen::any_char(rng);
        let a = rng.below(3);
        let b = rng.below(3);
        let mut s: String = gen::alpha_name(rng, a, a).iter().map(|b| *b as char).collect();
        s.push(x);
        s.extend(gen::alpha_name(rng, b, b).iter().map(|b| *b as char));
        if !argv_ok(&s) {
            return Ok(());
        }
        match i % 3 {
            0 => c09_edit(w, rng, &Rename(s.clone()), valid_name(&s), &s),
            1 => c09_edit(w, rng, &Comment(s.clone()), valid_comment(&s), &s),
            _ => c09_txt(w, rng, &s),
        }
    });
    // lengths around the limits, reached with characters that might not be counted or kept
    let fill: Vec<char> = " \t\n\r\u{b}\u{c}\u{1}\u{7f}\u{85}\u{a0}\u{ad}.-_\u{e9}\u{ff}\"'\\%".chars().collect();
    let lens = [1usize, 2, 7, 8, 9, 10, 16, 40, 41, 42, 43, 44, 45, 84, 85];
    c.section("fillers", fill.len() * lens.len() * c.n(4, 12), 0, |w, rng, i| {
        let x = fill[i % fill.len()];
        let n = lens[i / fill.len() % lens.len()];
        let k = match rng.below(4) {
            0 => n,
            1 => 1,
            _ => rng.range(1, n),
        };
        let mut s: Vec<char> = (0..n - k).map(|_| gen::letter(rng) as char).collect();
        match rng.below(3) {
            0 => {
                for _ in 0..k {
                    s.insert(0, x)
                }
            }
            1 => {
                for _ in 0..k {
                    s.push(x)
                }
            }
            _ => {
                for _ in 0..k {
                    let at = rng.below(s.len() + 1);
                    s.insert(at, x)
                }
            }
        }
        let s: String = s.into_iter().collect();
        w.seen("fillers", format!("U+{:04X} {n}", x as u32));
        match rng.below(4) {
            0 => c09_edit(w, rng, &Rename(s.clone()), valid_name(&s), &s),
            1 => c09_txt(w, rng, &s),
            _ => c09_edit(w, rng, &Comment(s.clone()), valid_comment(&s), &s),
        }
    });
    c.section("lengths", 70 * 6 * c.n(1, 4), 0, |w, rng, i| {
        let n = i % 70;
        w.seen("lengths", n.to_string());
        let letters: String = gen::alpha_name(rng, n, n).iter().map(|b| *b as char).collect();
        match i / 70 % 6 {
            0 => c09_edit(w, rng, &Rename(letters.clone()), valid_name(&letters), &letters),
            1 => c09_edit(w, rng, &Comment(letters.clone()), valid_comment(&letters), &letters),
            2 => c09_txt(w, rng, &letters),
            3 => {
                // two bytes each in UTF-8
                let s: String = (0..n).map(|_| char::from_u32(rng.range(0x80, 0xFF) as u32).unwrap()).collect();
                c09_edit(w, rng, &Comment(s.clone()), valid_comment(&s), &s)
            }
            4 => {
                let s: String = (0..n).map(|_| char::from_u32(rng.range(0x01, 0xFF) as u32).unwrap()).collect();
                c09_edit(w, rng, &Comment(s.clone()), valid_comment(&s), &s)
            }
            _ => {
                let s = letters.to_ascii_lowercase();
                c09_edit(w, rng, &Rename(s.clone()), valid_name(&s), &s)
            }
        }
    });
    c.section("random strings", c.n(1500, 20000), c.n(30, 200) as u64, |w, rng, i| {
        let n = rng.below(if i % 3 == 1 { 50 } else { 12 });
        let s: String = (0..n)
            .map(|_| match rng.below(12) {
                0 => *rng.pick(&cs),
                1 => rng.range(0x20, 0x7E) as u8 as char,
                2 if i % 3 == 1 => char::from_u32(rng.range(0x80, 0xFF) as u32).unwrap(),
                _ => gen::letter(rng) as char,
            })
            .collect();
        if !argv_ok(&s) {
            return Ok(());
        }
        match i % 3 {
            0 => c09_edit(w, rng, &Rename(s.clone()), valid_name(&s), &s),
            1 => c09_edit(w, rng, &Comment(s.clone()), valid_comment(&s), &s),
            _ => c09_txt(w, rng, &s),
        }
    });
    c.section("names and comments of 83p and 82p files", c.n(300, 3000), 0, |w, rng, i| {
        let fmt = [Fmt::P83, Fmt::P82][i % 2];
        let inp = format!("a.{}", fmt.ext());
        let mut p = gen::prog(rng, 10);
        w.put(&inp, &p.file(fmt));
        let before = w.snap();
        let n = rng.below(14);
        let mut s: String = gen::alpha_name(rng, n, n).iter().map(|b| *b as char).collect();
        if rng.chance(1, 4) {
            s.push(*rng.pick(&cs));
        }
        let e = if i % 4 < 2 { Rename(s.clone()) } else { Comment(s.repeat(rng.range(1, 5))) };
        let valid = match &e {
            Rename(s) => valid_name(s),
            Comment(s) => valid_comment(s),
            _ => true,
        };
        let r = w.run_in(&strs(&e.args(&inp)), "y\n");
        let what = format!("{e:?} of {inp}");
        w.judged(true, what.as_bytes(), || what.clone());
        if !valid {
            return refused(w, &r, &before, &what);
        }
        done(&r, &what)?;
        e.apply(&mut p);
        let (g, f) = (w.get(&inp).unwrap_or_default(), p.file(fmt));
        ensure!(g == f, "{what}: {}", part(&g, &f));
        Ok(())
    });
}

// ------------------------------------------------------------------ C11

/// files around these paths that are nobody's business
pub fn bystanders(w: &mut W, paths: &[&str]) {
    for p in paths {
        let stem = p.rsplit_once('.').map(|x| x.0).unwrap_or(p);
        for o in ["8xp", "83p", "82p", "txt", "json", "bak", "tmp", "8XP"].iter().map(|e| format!("{stem}.{e}")).chain([format!("{p}~"), format!("{p}.bak"), format!("{p}.tmp"), format!("{p}.8xp"), stem.to_string(), format!("{stem}.old.8xp")]) {
            if !paths.contains(&o.as_str()) && w.path(&o).symlink_metadata().is_err() {
                w.put(&o, format!("bystander {o}").as_bytes());
            }
        }
    }
}
/// answers that decline
fn declines(rng: &mut Rng) -> Vec<u8> {
    let fixed: [&[u8]; 22] = [
        b"n\n", b"N\n", b"", b"\n", b"no\n", b"yes\n", b"Yes\n", b"YES\n", b"yy\n", b"y y\n", b"\xff\n", b"\xc3\n", b"0\n", b"1\n", b"true\n", b"ok\n", b"x\n",
        b"\ny\n", b"n\ny\n", b"maybe y\n", b"\x00y\n", b"ye",
    ];
    if rng.chance(1, 3) {
        return rng.pick(&fixed).to_vec();
    }
    if rng.chance(2, 3) {
        // words over the letters of the answers; blanks around y are left open
        let n = rng.range(1, 6);
        let mut v: Vec<u8> = (0..n).map(|_| *rng.pick(b"yyyyYnNesES ,.;:-!?1/|&\"'[]()\\")).collect();
        let t = String::from_utf8_lossy(&v).trim().to_string();
        if matches!(t.as_str(), "y" | "Y") {
            v.push(*rng.pick(b",.;:n1!?"));
        }
        v.push(b'\n');
        return v;
    }
    let n = rng.below(300);
    let mut v = rng.bytes(n);
    let s = String::from_utf8_lossy(&v).into_owned();
    if matches!(s.lines().next().unwrap_or("").trim(), "y" | "Y") {
        v.insert(0, b'q');
    }
    v
}
/// a saving command prepared in the working directory: arguments, output path, expected content
pub struct Save {
    pub args: Vec<String>,
    pub out: String,
    pub inp: String,
    pub new: Vec<u8>,
    pub old: Vec<u8>,
    pub delete: bool,
    pub desc: String,
}
/// builds the inputs of a random saving command whose output path is `out`
pub fn saver(w: &mut W, rng: &mut Rng, kind: usize, stem: &str) -> Save {
    let p = gen::prog(rng, 60);
    let s = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let mk = |args, out: String, inp: &str, new, old, delete, desc: &str| Save { args, out, inp: inp.into(), new, old, delete, desc: desc.into() };
    match kind {
        0 => {
            let out = format!("{stem}.txt");
            w.put("in.8xp", &p.file(Fmt::P8));
            let d = rng.below(3);
            mk(s(&["convert", "in.8xp", "-o", &out, "-d", DISP[d]]), out, "in.8xp", p.txt(Fmt::P8, d).unwrap().into_bytes(), vec![], false, "8xp to txt")
        }
        1 => {
            let fmt = *rng.pick(&Fmt::ALL);
            let out = format!("{stem}.{}", fmt.ext());
            let mut q = p.clone();
            q.version = 0;
            if fmt != Fmt::P8 {
                q.dest = 0;
            }
            // text whose encoding is plain
            let t = q.table();
            let k: Vec<u8> = [0x41u8, 0x42, 0x31, 0x3F, 0x43].into_iter().filter(|b| t.tok(&[*b]).is_some()).collect();
            q.body = (0..rng.below(30)).map(|_| *rng.pick(&k)).collect();
            let txt = txt_file(&q.name_str(), "c", type_name(q.ptype).unwrap(), dest_name(q.dest).unwrap(), "accessible", q.model().unwrap().name, &t.decode(&q.body, ACC).unwrap(), true);
            w.put("in.txt", txt.as_bytes());
            let body = encode(&t, &t.decode(&q.body, ACC).unwrap(), ACC, Rule::Min).unwrap();
            q.body = body;
            let mut new = q.file(fmt);
            new[11..53].fill(0); // the comment is not compared
            mk(s(&["convert", "in.txt", "-o", &out, "-e", "min"]), out, "in.txt", new, vec![], false, "txt to program")
        }
        2 => {
            let fmt = *rng.pick(&Fmt::ALL);
            let out = format!("{stem}.{}", fmt.ext());
            w.put("in.8xp", &p.file(Fmt::P8));
            w.run(&["convert", "in.8xp", "-o", "mid.json"]);
            w.rm("in.8xp");
            mk(s(&["convert", "mid.json", "-o", &out]), out, "mid.json", p.file(fmt), vec![], false, "json to program")
        }
        3 => {
            let fi = *rng.pick(&Fmt::ALL);
            let fo = *rng.pick(&Fmt::ALL);
            let (inp, out) = (format!("in.{}", fi.ext()), format!("{stem}.{}", fo.ext()));
            w.put(&inp, &p.file(fi));
            let mut q = p.clone();
            if fi != Fmt::P8 {
                q.dest = 0;
                q.version = 0;
            }
            mk(s(&["convert", &inp, "-o", &out]), out, &inp, q.file(fo), vec![], false, "program to program")
        }
        10..=14 => {
            // the other conversions, with what a run of its own gives
            let d = *rng.pick(&DISP);
            let inp = ["in.8xp", "in.txt", "in.json", "in.txt", "in.json"][kind - 10];
            let ext = ["json", "json", "txt", "txt", "json"][kind - 10];
            match inp {
                "in.txt" => w.put(inp, txt_file("ABC", "c", "Program", "RAM", "accessible", "latest", *rng.pick(&["Disp 1\n1->A", "", "\"X\"\n\n", "ClrHome"]), true).as_bytes()),
                "in.json" => {
                    w.put("mid.8xp", &p.file(Fmt::P8));
                    w.run(&["convert", "mid.8xp", "-o", inp, "-d", d]);
                    w.rm("mid.8xp");
                }
                _ => w.put(inp, &p.file(Fmt::P8)),
            }
            let exp = format!("exp.{ext}");
            w.run(&["convert", inp, "-o", &exp, "-d", d]);
            let new = w.get(&exp).unwrap_or_default();
            w.rm(&exp);
            let out = format!("{stem}.{ext}");
            mk(s(&["convert", inp, "-o", &out, "-d", d]), out, inp, new, vec![], false, ["program to json", "txt to json", "json to txt", "txt to txt", "json to json"][kind - 10])
        }
        15 | 16 => {
            // edits saved as text or JSON
            let e = Edit::random(rng);
            let fi = *rng.pick(&Fmt::ALL);
            let inp = format!("in.{}", fi.ext());
            w.put(&inp, &p.file(fi));
            let ext = *rng.pick(&["txt", "json"]);
            let exp = format!("exp.{ext}");
            let args = |o: &str| {
                let mut a = e.args(&inp);
                a.extend(["-f".to_string(), o.to_string()]);
                a
            };
            w.run(&strs(&args(&exp)));
            let new = w.get(&exp).unwrap_or_default();
            w.rm(&exp);
            let out = format!("{stem}.{ext}");
            let mut a = args(&out);
            if kind == 16 {
                a.push("-d".into());
            }
            mk(a, out, &inp, new, p.file(fi), kind == 16, &format!("{} to a new {ext} file{}", e.name(), if kind == 16 { ", delete old" } else { "" }))
        }
        k => {
            // edits: in place, to a new file, with delete-old
            let e = Edit::random(rng);
            let fi = if k % 2 == 0 { Fmt::P8 } else { *rng.pick(&Fmt::ALL) };
            let inp = if k == 4 || k == 5 { format!("{stem}.{}", fi.ext()) } else { format!("in.{}", fi.ext()) };
            w.put(&inp, &p.file(fi));
            let mut q = p.clone();
            if fi != Fmt::P8 {
                q.dest = 0;
                q.version = 0;
            }
            e.apply(&mut q);
            let mut a = e.args(&inp);
            let mut out = inp.clone();
            let mut fo = fi;
            let mut delete = false;
            if k >= 6 {
                fo = *rng.pick(&Fmt::ALL);
                out = format!("{stem}.{}", fo.ext());
                a.extend(["-f".into(), out.clone()]);
                if k >= 8 {
                    a.push("-d".into());
                    delete = true;
                }
            }
            let d = format!("{} {}", e.name(), ["in place", "to a new file", "to a new file, delete old"][(k - 4) / 2]);
            mk(a, out, &inp, q.file(fo), p.file(fi), delete, &d)
        }
    }
}
pub const SAVERS: usize = 17;
impl Save {
    pub fn in_place(&self) -> bool {
        self.out == self.inp
    }
    pub fn is_new(&self, got: &[u8]) -> bool {
        if self.desc == "txt to program" {
            let mut g = got.to_vec();
            if g.len() > 53 {
                g[11..53].fill(0);
            }
            return g == self.new;
        }
        got == self.new
    }
}
fn unchanged(w: &W, before: &Snap, what: &str) -> Res {
    let d = snap_diff(before, &w.snap());
    ensure!(d.is_empty(), "{what}: {}", d.join(", "));
    Ok(())
}
pub fn c11(c: &Ctx) {
    c.section("declined overwriting", c.n(2500, 25000), c.n(30, 200) as u64, |w, rng, i| {
        let k = i % SAVERS;
        let s = saver(w, rng, k, "out");
        if !s.in_place() {
            let n = rng.below(200);
            let junk = rng.bytes(n);
            w.put(&s.out, &junk);
        }
        if rng.chance(1, 3) {
            bystanders(w, &[&s.out, &s.inp]);
        }
        let before = w.snap_all();
        let a = declines(rng);
        let r = w.run_opt(&strs(&s.args), &opt(&a));
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{} over an existing file, answer {:?}", s.desc, String::from_utf8_lossy(&a));
        w.judged(true, what.as_bytes(), || what.clone());
        w.seen("declined commands", s.desc.clone());
        w.seen("declining answers", String::from_utf8_lossy(&a).chars().take(12).collect::<String>());
        let d = snap_diff(&before, &w.snap_all());
        ensure!(d.is_empty(), "{what}: {}", d.join(", "));
        Ok(())
    });
    c.section("confirmed overwriting", c.n(1500, 15000), c.n(30, 200) as u64, |w, rng, i| {
        let k = i % SAVERS;
        let s = saver(w, rng, k, "out");
        if !s.in_place() {
            // longer, shorter and equally long old content
            // or another program of the same format
            let n = [s.new.len() + rng.below(3000), rng.below(s.new.len() + 1), s.new.len()][i % 3];
            let (old, kind) = if rng.chance(1, 2) { (rng.bytes(n), ["longer", "shorter", "same length"][i % 3]) } else { old_output(rng, &s.out) };
            w.put(&s.out, &old);
            w.seen("old content", kind);
        }
        w.put("bystander.8xp", b"x");
        let mode = *rng.pick(&[0o600u32, 0o640, 0o644, 0o660, 0o664, 0o666, 0o700, 0o755, 0o604, 0o444, 0o400, 0o555, 0o477, 0o1644]);
        w.mode(&s.out, mode);
        if rng.chance(1, 3) {
            bystanders(w, &[&s.out, &s.inp]);
        }
        let before = w.snap_all();
        let a: &[u8] = *rng.pick(&[&b"y\n"[..], b"Y\n", b"y", b"Y", b"y\nn\n"]);
        let r = w.run_opt(&strs(&s.args), &opt(a));
        let what = format!("{} over an existing file, answer {:?}", s.desc, String::from_utf8_lossy(a));
        w.judged(true, format!("{what}{}", show(&s.new)).as_bytes(), || what.clone());
        w.seen("confirmed commands", s.desc.clone());
        done(&r, &what)?;
        let g = w.get(&s.out).unwrap_or_default();
        ensure!(s.is_new(&g), "{what}: the file does not hold the new content: {}", part(&g, &s.new));
        let now = w.mode_of(&s.out);
        ensure!(now == mode, "{what}: the permissions changed from {mode:o} to {now:o}");
        w.seen("permissions", format!("{mode:o}"));
        let d: Vec<String> = snap_diff(&before, &w.snap_all())
            .into_iter()
            .filter(|x| !x.ends_with(&format!("work/{} changed", s.out)) && !(s.delete && x.ends_with(&format!("work/{} disappeared", s.inp))))
            .collect();
        ensure!(d.is_empty(), "{what}: {}", d.join(", "));
        Ok(())
    });
    let outs: [(&str, &str); 19] = [
        ("no extension", "out"), ("other extension", "out.exe"), ("upper case extension", "out.8XP"), ("upper case text", "out.TXT"), ("empty extension", "out."), ("only an extension", ".8xp"),
        ("empty path", ""), ("missing directory", "nodir/out.8xp"), ("directory", "dir.8xp"), ("directory txt", "dir.txt"), ("below a file", "file.8xp/out.8xp"), ("existing other", "have.exe"), ("existing without", "have"),
        ("slash", "dir.8xp/"), ("dots", ".."), ("long", "LONG"), ("root", "/"), ("missing directory txt", "nodir/out.txt"), ("8xp with suffix", "out.8xp.bak"),
    ];
    c.section("invalid output paths", outs.len() * SAVERS * c.n(3, 20), c.n(30, 200) as u64, |w, rng, i| {
        let (od, o) = outs[i % outs.len()];
        let mut k = (i / outs.len()) % SAVERS;
        if k == 4 || k == 5 {
            k += 2;
        }
        let long = format!("{}.8xp", "n".repeat(300));
        let o = if o == "LONG" { &long } else { o };
        let mut s = saver(w, rng, k, "zz");
        let n = s.args.iter().position(|a| *a == s.out).unwrap();
        s.args[n] = o.to_string();
        w.mkdir("dir.8xp");
        w.put("dir.8xp/inside.8xp", b"inside");
        w.mkdir("dir.txt");
        w.put("file.8xp", b"a file");
        w.put("have.exe", b"an executable");
        w.put("have", b"something");
        let before = w.snap_all();
        let r = w.run_in(&strs(&s.args), "y\ny\n");
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{} with {od} ({o:?}) as output", s.desc);
        w.judged(true, what.as_bytes(), || what.clone());
        w.seen("invalid outputs", od);
        ensure!(r.failed(), "{what}: not refused ({})", r.status());
        let d = snap_diff(&before, &w.snap_all());
        ensure!(d.is_empty(), "{what}: refused, but {}", d.join(", "));
        Ok(())
    });
    c.section("invalid inputs and arguments", c.n(3000, 30000), c.n(30, 200) as u64, |w, rng, i| {
        let p = gen::prog(rng, 30);
        let f = p.file(Fmt::P8);
        let exists = rng.chance(1, 2);
        let out = *rng.pick(&["out.8xp", "out.txt", "out.json", "out.83p"]);
        if exists {
            w.put(out, b"precious");
        }
        let (why, inp, data): (&str, &str, Option<Vec<u8>>) = match i % 16 {
            0 => ("missing input", "none.8xp", None),
            1 => ("truncated program", "a.8xp", Some(f[..rng.below(76)].to_vec())),
            2 => ("unknown type", "a.8xp", Some({ let mut g = f.clone(); g[59] = 0x99; g })),
            3 => ("unknown destination", "a.8xp", Some({ let mut g = f.clone(); g[69] = 0x33; g })),
            4 => ("unknown product id", "a.8xp", Some({ let mut g = f.clone(); g[10] = 0x77; g })),
            5 => ("invalid token", "a.8xp", Some({ let mut q = p.clone(); q.body.push(0x5C); q.file(Fmt::P8) })),
            6 => ("text without lines", "a.txt", Some(b"NAME\ncomment\n".to_vec())),
            7 => ("text with unknown type", "a.txt", Some(b"NAME\nc\nProgramme\nRAM\naccessible\nlatest\nA".to_vec())),
            8 => ("text with unknown destination", "a.txt", Some(b"NAME\nc\nProgram\nram\naccessible\nlatest\nA".to_vec())),
            9 => ("text with unknown mode", "a.txt", Some(b"NAME\nc\nProgram\nRAM\nnice\nlatest\nA".to_vec())),
            10 => ("text that cannot be encoded", "a.txt", Some("NAME\nc\nProgram\nRAM\naccessible\nlatest\nA\u{1F600}".as_bytes().to_vec())),
            11 => ("text that is not UTF-8", "a.txt", Some(b"NAME\nc\nProgram\nRAM\naccessible\nlatest\nA\xff".to_vec())),
            12 => ("broken json", "a.json", Some(b"{\"header\": {}".to_vec())),
            13 => ("empty file", ["a.8xp", "a.txt", "a.json", "a.83p"][rng.below(4)], Some(vec![])),
            14 => ("unknown mode option", "a.8xp", Some(f.clone())),
            _ => ("edit of a text", "a.txt", Some(b"NAME\nc\nProgram\nRAM\naccessible\nlatest\nA".to_vec())),
        };
        if let Some(d) = data {
            w.put(inp, &d);
        }
        let before = w.snap_all();
        let edit = inp.ends_with("8xp") && i % 16 != 14 && rng.chance(1, 2) || i % 16 == 15;
        let mut a: Vec<String>;
        if edit {
            let e = Edit::random(rng);
            a = e.args(inp);
            let way = rng.below(3);
            let o = if out.ends_with("txt") || out.ends_with("json") { "new.8xp" } else { out };
            if way > 0 {
                a.extend(["-f".into(), o.into()]);
            }
            if way > 1 {
                a.push("-d".into());
            }
        } else {
            a = strs2(&["convert", inp, "-o", out]);
            if i % 16 == 14 {
                a.extend(strs2(*rng.pick(&[&["-d", "Pretty"], &["-d", "nice"], &["-e", "maximum"], &["-d", ""], &["-e", "SMART"]])));
            }
        }
        let r = w.run_in(&strs(&a), "y\ny\n");
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{why}: {}", a[0]);
        w.judged(true, format!("{what}{a:?}{exists}").as_bytes(), || what.clone());
        w.seen("refused inputs", what.clone());
        ensure!(r.failed(), "{what}: not refused ({}): {a:?}", r.status());
        let d = snap_diff(&before, &w.snap_all());
        ensure!(d.is_empty(), "{what}: refused, but {}", d.join(", "));
        Ok(())
    });
    c.section("unwritable places", SAVERS * c.n(20, 120), 0, |w, rng, i| {
        let k = i % SAVERS;
        let locked = k == 4 || k == 5;
        // the input in place must be readable: lock the directory only
        let mut s = saver(w, rng, k, if locked { "out" } else { "ro/out" });
        let n = s.args.iter().position(|a| *a == s.out).unwrap();
        let over = rng.chance(1, 2);
        if locked {
            let f = w.get(&s.out).unwrap();
            let to = format!("ro/{}", s.out);
            w.put(&to, &f);
            s.args[n] = to.clone();
            s.out = to;
        } else if over {
            w.put(&s.out, b"precious");
        }
        w.mkdir("ro");
        w.mode("ro", 0o555);
        let before = w.snap_all();
        let r = w.run_in(&strs(&s.args), "y\n");
        let after = w.snap_all();
        w.mode("ro", 0o755);
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{} into a read-only directory", s.desc);
        w.judged(true, format!("{what}{}", show(&s.new)).as_bytes(), || what.clone());
        w.seen("unwritable", what.clone());
        if w.drop_root {
            ensure!(r.failed(), "{what}: not refused ({})", r.status());
            let d = snap_diff(&before, &after);
            ensure!(d.is_empty(), "{what}: refused, but {}", d.join(", "));
        }
        Ok(())
    });
    c.section("failing operations", SAVERS * c.n(8, 60), c.n(60, 300) as u64, |w, rng, i| {
        let k = i % SAVERS;
        let s = saver(w, rng, k, "out");
        let over = !s.in_place() && rng.chance(1, 2);
        if over {
            w.put(&s.out, b"precious old content");
        }
        let before = w.snap();
        let r = w.run_in(&strs(&s.args), "y\n");
        done(&r, &s.desc)?;
        let ops = changing(&r.ops);
        for op in &ops {
            let n = op.seq - 1;
            if op.op == "unlink" && op.a.ends_with(&s.inp) {
                continue; // everything is saved by then
            }
            for e in ["err:28", "err:5", "err:13"] {
                restore(w, &before);
                let o = Opt { stdin: b"y\n".to_vec(), fault: Some(('w', n + 1, e.into())), ..Default::default() };
                let r = w.run_opt(&strs(&s.args), &o);
                if r.watchdog() {
                    skip!("watchdog");
                }
                let what = format!("{} with {} failing ({e})", s.desc, op.op);
                w.seen("failed operations", format!("{} {e}", op.op));
                w.judged(true, format!("{what}{}{n}", show(&s.new)).as_bytes(), || what.clone());
                if r.ok() {
                    continue; // success is judged by C12
                }
                unchanged(w, &before, &format!("{what}: reported, but"))?;
            }
        }
        Ok(())
    });
    // one answer is for one file
    c.section("answers of mass conversions", c.n(700, 7000), c.n(30, 200) as u64, |w, rng, _| {
        let n = rng.range(2, 9);
        let mut want = vec![];
        let mut lines = vec![];
        let (mut yes, mut no) = (0, 0);
        for k in 0..n {
            let mut p = gen::prog(rng, 20);
            p.name = vec![b'A' + k as u8; rng.range(1, 8)];
            w.put(&format!("in/{k}.8xp"), &p.file(Fmt::P8));
            let out = format!("out/{}.txt", p.name_str());
            let old = rng.chance(2, 3).then(|| {
                let m = rng.below(60);
                [b"old ".to_vec(), rng.bytes(m)].concat()
            });
            if let Some(old) = &old {
                w.put(&out, old);
                let a = *rng.pick(&["y", "y", "Y", "n", "N", "", "yes", "no", "all", "a", "x"]);
                lines.push(a);
                if a == "y" || a == "Y" {
                    yes += 1;
                } else {
                    no += 1;
                    lines.push("y"); // skip it and continue
                }
            }
            want.push((out, old, p.txt(Fmt::P8, ACC).unwrap().into_bytes()));
        }
        w.mkdir("out");
        let stdin = lines.iter().map(|l| format!("{l}\n")).collect::<String>();
        let r = w.run_in(&["convert", "in", "-m", "-o", "out"], &stdin);
        let what = format!("mass conversion with {} of {n} outputs there, answers {lines:?}", yes + no);
        if r.watchdog() {
            skip!("watchdog");
        }
        w.judged(true, &[what.as_bytes(), &w.get("in/0.8xp").unwrap_or_default()[..]].concat(), || what.clone());
        done(&r, &what)?;
        w.seen("answers of mass conversions", format!("{yes} {no}"));
        // the order of the files is any, so the answers are counted
        let (mut replaced, mut kept) = (0, 0);
        for (f, old, new) in &want {
            match (w.get(f), old) {
                (Some(g), _) if g == *new => replaced += old.is_some() as usize,
                (Some(g), Some(old)) if g == *old => kept += 1,
                (Some(g), _) => bad!("{what}: {f} is {}", show(&g)),
                (None, _) => bad!("{what}: {f} is not there"),
            }
        }
        ensure!(replaced == yes && kept == no, "{what}: {replaced} files were replaced and {kept} kept, with {yes} times yes and {no} times no");
        ensure!(r.asks.len() == lines.len(), "{what}: {} answers were read", r.asks.len());
        w.count("files kept or replaced in mass conversions", (yes + no) as u64);
        Ok(())
    });
}
fn strs2(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}
/// the operations a fault can hit, in order
pub fn changing(ops: &[Op]) -> Vec<Op> {
    ops.iter().filter(|o| o.seq > 0 && !matches!(o.op.as_str(), "DENY" | "FAULT" | "SHORT" | "KILLB" | "KILLA" | "close")).cloned().collect()
}
/// makes the working directory what it was
pub fn restore(w: &mut W, s: &Snap) {
    let (j, p) = (std::mem::take(&mut w.b.journal), std::mem::take(&mut w.b.puts));
    w.b.clean();
    w.b.journal = j;
    for (k, n) in s {
        match n {
            Node::Dir => w.b.mkdir(k),
            Node::File(d) => w.b.put(k, d),
            Node::Link(t) => w.b.link(t.to_str().unwrap(), k),
        }
    }
    w.b.puts = p;
    // keep the report readable
    let n = w.b.journal.len();
    if n > 40 {
        w.b.journal.drain(2..n - 20);
    }
}

// ------------------------------------------------------------------ C12

pub struct Scene {
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    pub desc: String,
    pub delete: Option<(String, String)>,
    pub mass: bool,
    /// the files it saves
    pub outs: Vec<String>,
}
pub fn scene(w: &mut W, rng: &mut Rng, kind: usize) -> Scene {
    if kind < 2 * SAVERS {
        let k = kind % SAVERS;
        let s = saver(w, rng, k, "out");
        let over = kind >= SAVERS && !s.in_place();
        if over {
            let n = rng.range(1, 400);
            let junk = rng.bytes(n);
            w.put(&s.out, &junk);
        }
        let link = over && rng.chance(1, 4);
        let outs = vec![if link { format!("target-{}", s.out) } else { s.out.clone() }];
        if link {
            // the output is a link
            let d = w.get(&s.out).unwrap();
            w.rm(&s.out);
            let t = format!("target-{}", s.out);
            w.put(&t, &d);
            w.link(&t, &s.out);
        }
        return Scene {
            args: s.args.clone(),
            stdin: b"y\n".to_vec(),
            desc: format!("{}{}{}", s.desc, if over { " over a file" } else { "" }, if link { " behind a link" } else { "" }),
            delete: if s.delete { Some((s.inp.clone(), s.out.clone())) } else { None },
            mass: false,
            outs,
        };
    }
    // mass conversion of a few files into a directory, new or with files to overwrite
    let n = rng.range(1, 3);
    if kind == 2 * SAVERS + 3 {
        // JSON gives a text and a program
        let mut outs = vec![];
        for i in 0..n {
            let mut p = gen::prog(rng, 30);
            let name = format!("P{}", (b'A' + i as u8) as char);
            p.name = name.clone().into_bytes();
            w.mkdir("in");
            w.put("mid.8xp", &p.file(Fmt::P8));
            w.run(&["convert", "mid.8xp", "-o", &format!("in/f{i}.json")]);
            w.rm("mid.8xp");
            for ext in ["txt", "8xp"] {
                let o = format!("res/{name}.{ext}");
                w.put(&o, b"what was there");
                outs.push(o);
            }
        }
        return Scene {
            args: strs2(&["convert", "in", "-m", "-o", "res"]),
            stdin: b"y\n".repeat(2 * n),
            desc: "mass conversion of JSON over files".into(),
            delete: None,
            mass: true,
            outs,
        };
    }
    for i in 0..n {
        let mut p = gen::prog(rng, 30);
        p.name = format!("P{}", (b'A' + i as u8) as char).into_bytes();
        w.put(&format!("in/f{i}.8xp"), &p.file(Fmt::P8));
        if kind == 2 * SAVERS + 1 {
            w.put(&format!("res/P{}.txt", (b'A' + i as u8) as char), b"old text");
        }
    }
    let same = kind == 2 * SAVERS + 2;
    Scene {
        args: strs2(&["convert", "in", "-m", "-o", if same { "in" } else { "res" }]),
        stdin: b"y\ny\ny\ny\n".to_vec(),
        desc: ["mass conversion, new directory", "mass conversion over files", "mass conversion into its input"][kind - 2 * SAVERS].into(),
        delete: None,
        mass: true,
        outs: (0..n).map(|i| format!("{}/P{}.txt", if same { "in" } else { "res" }, (b'A' + i as u8) as char)).collect(),
    }
}
pub const SCENES: usize = 2 * SAVERS + 4;
/// what the data on disk can be after the power fails somewhere in this log
fn power_loss(ops: &[Op], before: &Snap, dir: &str, delete: &Option<(String, String)>) -> Result<usize, String> {
    use std::collections::HashMap;
    let rel = |p: &str| p.strip_prefix(dir).map(|x| x.trim_start_matches('/').to_string()).unwrap_or_else(|| p.to_string());
    // data written but not yet synced
    let mut dirty: HashMap<String, bool> = HashMap::new();
    // names that came into being, and whether their directory was synced afterwards
    let mut names: Vec<(String, bool)> = vec![];
    let parent = |p: &str| p.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
    let mut n = 0;
    for o in ops.iter().filter(|o| o.ret >= 0) {
        let a = rel(&o.a);
        let existed = matches!(before.get(&a), Some(Node::File(_)));
        match o.op.as_str() {
            "opent" | "ftruncate" | "truncate" => {
                if existed && !dirty.contains_key(&a) {
                    return Err(format!("{a}, which holds the only copy, is emptied before its new content is safe"));
                }
                dirty.insert(a, true);
                n += 1;
            }
            "write" => {
                if existed && !dirty.contains_key(&a) {
                    return Err(format!("{a}, which holds the only copy, is written in place"));
                }
                dirty.insert(a, true);
                n += 1;
            }
            "openw" | "openx" => {
                if !existed {
                    names.push((a.clone(), false));
                }
                dirty.entry(a).or_insert(true);
            }
            "fsync" | "fdatasync" => {
                for x in names.iter_mut().filter(|x| parent(&x.0) == a) {
                    x.1 = true;
                }
                dirty.insert(a, false);
                n += 1;
            }
            "rename" => {
                let b = rel(&o.b);
                if dirty.get(&a).copied().unwrap_or(false) {
                    return Err(format!("{b} is replaced by {a} before the data of {a} is synced"));
                }
                dirty.remove(&a);
                dirty.insert(b.clone(), false);
                names.push((b, false));
                n += 1;
            }
            "unlink" => {
                if let Some((old, new)) = delete {
                    if a == *old {
                        // the new file, or the one a link in its place leads to
                        let x = dirty.iter().find(|x| x.0.ends_with(new.as_str()));
                        if x.map(|x| *x.1).unwrap_or(true) {
                            return Err(format!("{old} is deleted before the data of {new} is synced"));
                        }
                        if names.iter().any(|x| x.0.ends_with(new.as_str()) && !x.1) {
                            return Err(format!("{old} is deleted before the directory of {new} is synced"));
                        }
                    }
                }
                dirty.remove(&a);
                n += 1;
            }
            _ => {}
        }
    }
    Ok(n)
}
/// All operations, or when there are very many of them the first, the last and some of the others.
fn pick_ops<'a>(rng: &mut Rng, ops: &'a [crate::exec::Op]) -> Vec<&'a crate::exec::Op> {
    let n = ops.len();
    ops.iter().enumerate().filter(|(i, _)| n <= 40 || *i < 12 || i + 12 >= n || rng.chance(16, n)).map(|(_, o)| o).collect()
}
fn c12_case(w: &mut W, rng: &mut Rng, kind: usize) -> Res {
    let s = scene(w, rng, kind);
    let before = w.snap();
    let r = w.run_opt(&strs(&s.args), &opt(&s.stdin));
    done(&r, &s.desc)?;
    let after = w.snap();
    // the destination of an 83p or 82p file is not stored, editing it changes nothing
    w.count(if after != before { "scenes that change something" } else { "scenes that change nothing" }, 1);
    w.seen("scenes", s.desc.clone());
    let ops = changing(&r.ops);
    if ops.is_empty() {
        skip!("no operations seen");
    }
    let dir = w.dir.canonicalize().unwrap().display().to_string();
    match power_loss(&ops, &before, &dir, &s.delete) {
        Err(e) => bad!("{}: after a power failure the program can be lost: {e}; operations: {}", s.desc, ops.iter().map(|o| o.op.clone()).collect::<Vec<_>>().join(" ")),
        Ok(n) => w.count("operations replayed for power loss", n as u64),
    }
    let kinds = ["killb", "killa", "err:5", "err:28", "err:13", "err:4", "errp:28", "short"];
    let mut plan: Vec<(char, usize, &str, String)> = vec![];
    for o in pick_ops(rng, &ops) {
        for k in kinds {
            plan.push(('w', o.seq, k, o.op.clone()));
        }
    }
    // a second fault while the first one is dealt with: the operations are those of a run that
    // meets the first fault, which may go another way
    let mut doubles: Vec<(usize, &str, usize, &str, String)> = vec![];
    for o in pick_ops(rng, &ops) {
        if !w.ctx.thorough && ops.len() > 14 && !rng.chance(14, ops.len()) {
            continue;
        }
        let k = if o.op == "rename" { *rng.pick(&["err:18", "err:13"]) } else { *rng.pick(&["err:5", "err:28", "err:18", "short"]) };
        restore(w, &before);
        let r = w.run_opt(&strs(&s.args), &Opt { stdin: s.stdin.clone(), fault: Some(('w', o.seq, k.to_string())), ..Default::default() });
        let later: Vec<Op> = changing(&r.ops).into_iter().filter(|x| x.seq > o.seq).collect();
        for l in later.iter().take(if w.ctx.thorough { 30 } else { 8 }) {
            for k2 in ["killb", "killa", "short", "err:5"] {
                doubles.push((o.seq, k, l.seq, k2, format!("{} then {}", o.op, l.op)));
            }
        }
    }
    // reading: open, read, stat
    for n in 1..=6 {
        for k in ["err:5", "err:4", "short", "killb"] {
            plan.push(('r', n, k, "read".into()));
        }
    }
    let plan = plan.into_iter().map(|(c, n, k, op)| (c, n, k, op, None)).chain(doubles.into_iter().map(|(n, k, n2, k2, op)| ('w', n, k, op, Some((n2, k2)))));
    for (cls, n, k, op, second) in plan {
        restore(w, &before);
        let o = Opt { stdin: s.stdin.clone(), fault: Some((cls, n, k.to_string())), fault2: second.map(|x| (x.0, x.1.to_string())), ..Default::default() };
        let r = w.run_opt(&strs(&s.args), &o);
        if r.watchdog() {
            skip!("watchdog");
        }
        let hit = r.ops.iter().find(|o| matches!(o.op.as_str(), "FAULT" | "SHORT" | "KILLB" | "KILLA"));
        let Some(hit) = hit else {
            w.count("faults not reached", 1);
            continue;
        };
        let opname = if cls == 'r' { hit.a.clone() } else { op };
        let two = second.map(|x| format!(" and {} at operation {}", x.1, x.0)).unwrap_or_default();
        let what = format!("{}, {k} at operation {n}{two} ({opname})", s.desc);
        w.judged(true, format!("{what}{kind}").as_bytes(), || what.clone());
        if let Some(x) = second {
            w.seen("double faults", format!("{kind} {n} {k} {} {}", x.0, x.1));
        } else {
            w.seen("faults", format!("{k} {opname}"));
            w.seen("fault points", format!("{kind} {cls}{n} {k}"));
        }
        let now = w.snap();
        for (path, old) in &before {
            let Node::File(_) = old else { continue };
            match now.get(path) {
                Some(x) if x == old => {}
                Some(x) if after.get(path) == Some(x) => {}
                None if !after.contains_key(path) => {
                    let Some((_, new)) = &s.delete else { bad!("{what}: {path} disappeared") };
                    ensure!(after.iter().all(|(k, v)| now.get(k) == Some(v)), "{what}: {path} is gone and {new} is not complete");
                }
                None => bad!("{what}: {path} disappeared"),
                Some(Node::File(x)) => bad!("{what}: {path} holds neither its old nor its new content ({} bytes: {})", x.len(), show(x)),
                Some(_) => bad!("{what}: {path} changed its kind"),
            }
        }
        let killed = r.signal.is_some();
        if killed {
            w.count("killed runs", 1);
            continue;
        }
        if r.ok() && !s.mass {
            let d = snap_diff(&after, &now);
            ensure!(d.is_empty(), "{what}: reported success, but {}", d.join(", "));
            w.count("runs that survived the fault", 1);
        } else if r.ok() {
            // mass conversion asks whether to go on after an error
            if now != after {
                ensure!(r.stdout().contains("rror") || r.stderr().contains("rror") || r.stdout().contains("Failed"), "{what}: not everything was saved and nothing was reported: {}", r.stdout());
            }
            w.count("mass runs with a reported error", 1);
        } else {
            w.count("failures reported", 1);
        }
    }
    Ok(())
}
pub fn c12(c: &Ctx) {
    c.section("every operation of every saving command", SCENES * c.n(3, 30), c.n(200, 1500) as u64, |w, rng, i| c12_case(w, rng, i % SCENES));
    // what an interrupted run leaves behind does not hinder the next one, process ids come back
    c.section("again after an interruption", (2 * SAVERS + 2) * c.n(2, 20), c.n(60, 400) as u64, |w, rng, i| {
        let s = scene(w, rng, i % (2 * SAVERS + 2));
        let before = w.snap();
        let o = Opt { stdin: s.stdin.clone(), env: vec![("TIV_PID".into(), "7".into())], ..Default::default() };
        let r = w.run_opt(&strs(&s.args), &o);
        done(&r, &s.desc)?;
        let after = w.snap();
        let ops = changing(&r.ops);
        for op in pick_ops(rng, &ops) {
            for k in ["killb", "killa"] {
                restore(w, &before);
                let mut times = 0;
                for _ in 0..rng.range(1, 3) {
                    if w.run_opt(&strs(&s.args), &Opt { fault: Some(('w', op.seq, k.into())), ..o.clone() }).signal == Some(libc::SIGKILL) {
                        times += 1;
                    }
                }
                if let Some((old, _)) = &s.delete {
                    if !w.path(old).exists() {
                        continue;
                    }
                }
                let r = w.run_opt(&strs(&s.args), &o);
                let what = format!("{} again after {times} times {k} at {}", s.desc, op.op);
                if r.watchdog() {
                    skip!("watchdog");
                }
                w.judged(times > 0, format!("{what}{i}").as_bytes(), || what.clone());
                w.seen("commands run again", format!("{} {k}", s.desc));
                done(&r, &what)?;
                let now = w.snap();
                for (p, n) in &after {
                    ensure!(now.get(p) == Some(n), "{what}: {p} is not what it is without the interruption");
                }
            }
        }
        Ok(())
    });
    // messages and questions that cannot be shown, answers that cannot be read: how the command
    // ends is its affair, the files are not
    c.section("streams that do not work", SCENES * 12 * c.n(1, 10), c.n(60, 400) as u64, |w, rng, i| {
        let s = scene(w, rng, i % SCENES);
        let before = w.snap();
        let r = w.run_opt(&strs(&s.args), &opt(&s.stdin));
        done(&r, &s.desc)?;
        let after = w.snap();
        restore(w, &before);
        let k = i / SCENES % 12;
        let o = Opt { stdin: s.stdin.clone(), broken_out: ["", "full", "pipe", "closed"][k % 4], broken_in: ["", "closed", "dir"][k / 4], ..Default::default() };
        let what = format!("{}, standard output {:?}, standard input {:?}", s.desc, o.broken_out, o.broken_in);
        let r = w.run_opt(&strs(&s.args), &o);
        if r.watchdog() {
            skip!("watchdog");
        }
        w.judged(k > 0, format!("{what}{i}").as_bytes(), || what.clone());
        w.seen("streams", format!("{k}"));
        let now = w.snap();
        for (path, x) in &now {
            ensure!(before.get(path) == Some(x) || after.get(path) == Some(x), "{what}: {path} is neither as before nor as after the command ({})", r.status());
        }
        for path in before.keys().filter(|p| !now.contains_key(*p)) {
            let del = s.delete.is_some() && !after.contains_key(path);
            ensure!(del && after.iter().all(|(k, v)| now.get(k) == Some(v)), "{what}: {path} disappeared");
        }
        if r.ok() && o.broken_in.is_empty() && !s.mass {
            ensure!(now == after, "{what}: reported success, but {}", snap_diff(&after, &now).join(", "));
        }
        if now == after {
            w.count("saved with streams that do not work", 1);
        }
        Ok(())
    });
    c.section("large programs", c.n(14, 70), c.n(100, 400) as u64, |w, rng, i| {
        // content larger than any buffer
        let mut p = gen::prog(rng, 0);
        p.body = gen::body_exact(rng, &p.table(), [65516, 20000, 9000][i % 3]);
        let f = p.file(Fmt::P8);
        w.put("a.8xp", &f);
        let args: Vec<&str> = match i % 7 {
            0 => vec!["lock", "a.8xp"],
            1 => vec!["lock", "a.8xp", "-f", "b.8xp"],
            2 => vec!["convert", "a.8xp", "-o", "b.txt"],
            3 => vec!["unlock", "a.8xp", "-f", "b.8xp", "-d"],
            4 => vec!["convert", "a.8xp", "-o", "b.json"],
            5 => {
                w.run(&["convert", "a.8xp", "-o", "a.json"]);
                vec!["convert", "a.json", "-o", "b.8xp"]
            }
            _ => {
                w.put("a.txt", txt_file("ABC", "c", "Program", "RAM", "accessible", "latest", &"Disp 1\n".repeat(3000), true).as_bytes());
                vec!["convert", "a.txt", "-o", "b.83p"]
            }
        };
        w.seen("large programs", args.join(" "));
        if i / 7 % 2 == 0 {
            for o in ["b.txt", "b.8xp", "b.83p", "b.json"] {
                w.put(o, &vec![b'x'; 100000]);
            }
        }
        let before = w.snap();
        let r = w.run_in(&args, "y\n");
        done(&r, "large")?;
        let after = w.snap();
        let ops = changing(&r.ops);
        for n in pick_ops(rng, &ops).iter().map(|o| o.seq) {
            for k in ["killb", "killa", "short", "err:28"] {
                restore(w, &before);
                let r = w.run_opt(&args, &Opt { stdin: b"y\n".to_vec(), fault: Some(('w', n, k.into())), ..Default::default() });
                let what = format!("large program, {} {k} at operation {n}", args.join(" "));
                w.judged(true, format!("{what}{i}").as_bytes(), || what.clone());
                let now = w.snap();
                for (path, old) in &before {
                    ensure!(now.get(path) == Some(old) || (now.get(path).is_some() && now.get(path) == after.get(path)) || (args.contains(&"-d") && now.get("b.8xp") == after.get("b.8xp")), "{what}: {path} is neither old nor new");
                }
                if r.ok() {
                    ensure!(now == after, "{what}: reported success, but not everything is saved: {}", snap_diff(&after, &now).join(", "));
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C13

pub fn c13(c: &Ctx) {
    let rels = ["new", "existing, y", "existing, declined", "same", "./same", "absolute same", "sub/../same", "link to the input", "hard link", "input is a link", "missing directory", "invalid extension", "directory", "read-only directory", "other format", "same name elsewhere", "same name from below", "same stem", "look-alike"];
    c.section("relations of the paths", rels.len() * 6 * 2 * c.n(8, 60), c.n(100, 500) as u64, |w, rng, i| {
        let rel = rels[i % rels.len()];
        let e = Edit::all(rng)[(i / rels.len()) % 6].clone();
        let del = (i / rels.len() / 6) % 2 == 0;
        let fmt = if rng.chance(1, 2) { Fmt::P8 } else { *rng.pick(&Fmt::ALL) };
        let ext = fmt.ext();
        let p = gen::prog(rng, 40);
        let mut q = p.clone();
        e.apply(&mut q);
        let exts = ["8xp", "83p", "82p", "txt", "json"];
        let mut to = ext;
        let mut inp = format!("a.{ext}");
        let mut new = format!("b.{ext}");
        let f = p.file(fmt);
        let mut answer = "y\n";
        if rel == "look-alike" {
            // names that some file systems take for one
            let (x, y) = *rng.pick(&[("a", "A"), ("prog", "PROG"), ("A", "a"), ("Prog", "pROG"), ("\u{e9}", "e\u{301}"), ("e\u{301}", "\u{e9}"), ("a", "a "), (" a", "a"), ("a", "\u{ff41}"), ("\u{df}", "ss"), ("K", "\u{212a}"), ("a", "a."), ("a..b", "a.b"), ("longname1", "longname2")]);
            inp = format!("{x}.{ext}");
            new = format!("{y}.{ext}");
        }
        if rel == "same name from below" {
            w.mkdir("deep");
            w.mkdir("deep/er");
            w.mkdir("beside");
            let (x, y) = *rng.pick(&[("deep/", ""), ("deep/er/", "deep/"), ("deep/er/", ""), ("deep/", "beside/"), ("deep/er/", "beside/"), ("deep/", "deep/../beside/"), ("deep/", "deep/../")]);
            inp = format!("{x}a.{ext}");
            new = format!("{y}a.{ext}");
            if rng.chance(1, 2) {
                w.put(&new, b"to be replaced");
            } else {
                answer = "";
            }
        }
        w.put(&inp, &f);
        w.put("c.8xp", b"bystander");
        w.put(&format!("a.{ext}.bak"), b"bystander");
        w.mkdir("sub");
        let mut same = false;
        let mut saved = true;
        match rel {
            "new" => answer = "",
            "look-alike" => {
                if rng.chance(1, 2) {
                    w.put(&new, b"to be replaced");
                } else {
                    answer = ""
                }
            }
            "existing, y" => w.put(&new, b"to be replaced, longer than nothing"),
            "existing, declined" => {
                w.put(&new, b"to be kept");
                answer = *rng.pick(&["n\n", "", "\n", "yes\n"]);
                saved = false;
            }
            "same" => {
                new = inp.clone();
                same = true
            }
            "./same" => {
                new = format!("./{inp}");
                same = true
            }
            "absolute same" => {
                new = w.path(&inp).display().to_string();
                same = true
            }
            "sub/../same" => {
                new = format!("sub/../{inp}");
                same = true
            }
            "link to the input" => {
                w.link(&inp, &new);
                same = true
            }
            "hard link" => std::fs::hard_link(w.path(&inp), w.path(&new)).unwrap(),
            "input is a link" => {
                w.rm(&inp);
                w.put(&format!("real.{ext}"), &f);
                w.link(&format!("real.{ext}"), &inp);
                answer = "";
            }
            "missing directory" => {
                new = format!("none/b.{ext}");
                saved = false
            }
            "invalid extension" => {
                new = (*rng.pick(&["b.exe", "b", "b.8XP", ""])).to_string();
                saved = false
            }
            "directory" => {
                w.mkdir(&new);
                saved = false
            }
            "read-only directory" => {
                w.mkdir("ro");
                w.mode("ro", 0o555);
                new = format!("ro/b.{ext}");
                saved = !w.drop_root
            }
            "same name elsewhere" => {
                new = (*rng.pick(&["sub/", "./sub/", "sub/../sub/", "other.8xp/"])).to_string() + &inp;
                w.mkdir("other.8xp");
            }
            "same name from below" => {}
            "same stem" => {
                while to == ext {
                    to = *rng.pick(&exts);
                }
                new = format!("{}a.{to}", rng.pick(&["", "./", "sub/"]));
            }
            _ => {
                to = *rng.pick(&exts);
                new = format!("n.{to}");
            }
        }
        if !rel.contains("link") {
            let (i, n) = (inp.clone(), new.clone());
            if rel.starts_with("same ") || rel == "other format" || rel.starts_with("existing") {
                bystanders(w, &[&i, n.strip_prefix("./").unwrap_or(&n)]);
            } else {
                bystanders(w, &[&i, &format!("b.{ext}")]);
            }
        }
        if rel == "other format" || rel != "new" {
            w.seen("formats", format!("{ext} {to}"));
        }
        let mut q8 = q.clone();
        if fmt != Fmt::P8 && e != Archive {
            q8.dest = 0;
        }
        if fmt != Fmt::P8 {
            q8.version = 0;
        }
        let want = match Fmt::ALL.iter().find(|f| f.ext() == to) {
            Some(f) => q8.file(*f),
            None => {
                // what a conversion of the edited program says
                w.put("q.8xp", &q8.file(Fmt::P8));
                let x = format!("q.{to}");
                w.run(&["convert", "q.8xp", "-o", &x]);
                let g = w.get(&x).unwrap_or_default();
                w.rm("q.8xp");
                w.rm(&x);
                g
            }
        };
        let before = w.snap();
        let mut a = e.args(&inp);
        a.extend(["-f".into(), new.clone()]);
        if del {
            a.push(if rng.chance(1, 2) { "-d".into() } else { "--delete-old".into() });
        }
        let r = w.run_in(&strs(&a), answer);
        let after = w.snap();
        if rel == "read-only directory" {
            w.mode("ro", 0o755);
        }
        if r.watchdog() {
            skip!("watchdog");
        }
        let what = format!("{} of {inp}, new file: {rel} ({new}){}", e.name(), if del { ", delete old" } else { "" });
        w.judged(true, format!("{what}{}", show(&f)).as_bytes(), || what.clone());
        w.seen("relation, command, delete", format!("{rel}/{}/{del}", e.name()));
        ensure!(r.denied().is_none(), "{what}: changed something elsewhere: {:?}", r.denied());
        if !saved {
            let d = snap_diff(&before, &after);
            ensure!(d.is_empty(), "{what}: not saved, but {}", d.join(", "));
            if rel != "existing, declined" {
                ensure!(r.failed(), "{what}: not saved, but {}", r.status());
            }
            return Ok(());
        }
        done(&r, &what)?;
        let at = if same { inp.clone() } else { new.clone() };
        let g = w.get(&at);
        ensure!(g.as_deref() == Some(&want[..]), "{what}: {}", g.map(|g| part(&g, &want)).unwrap_or("the program is gone".into()));
        let place = at.replace("sub/../", "").replace("deep/../", "").trim_start_matches("./").to_string();
        for l in snap_diff(&before, &after) {
            let (path, verb) = l.rsplit_once(' ').unwrap();
            let ok = (path == place && verb != "disappeared") || (path == inp && verb == "disappeared" && del && !same);
            ensure!(ok, "{what}: {l}");
        }
        if !same {
            let there = after.contains_key(&inp);
            ensure!(there != del, "{what}: the input {}", if there { "is still there" } else { "was removed" });
        }
        if del && !same {
            // nothing touches the new file after the old one is removed
            let u = r.ops.iter().position(|o| o.op == "unlink" && o.ret == 0 && o.a.ends_with(&format!("/{inp}")));
            let Some(u) = u else { skip!("{what}: removal of the input not seen in the log") };
            let late = r.ops[u + 1..].iter().find(|o| matches!(o.op.as_str(), "write" | "rename" | "opent" | "openx" | "openw") && o.ret >= 0);
            ensure!(late.is_none(), "{what}: the input is removed before the new file is complete ({:?} follows)", late.map(|o| &o.op));
            w.count("removals seen in order", 1);
        }
        Ok(())
    });
    // the save fails half way
    c.section("failing saves", 6 * c.n(8, 60), c.n(60, 300) as u64, |w, rng, i| {
        let p = gen::prog(rng, 40);
        let e = Edit::all(rng)[i % 6].clone();
        let over = rng.chance(1, 2);
        let new = *rng.pick(&["b.8xp", "b.8xp", "b.83p", "b.82p", "b.txt", "b.json"]);
        w.put("a.8xp", &p.file(Fmt::P8));
        if over {
            w.put(new, b"old");
        }
        let before = w.snap();
        let mut a = e.args("a.8xp");
        a.extend(strs2(&["-f", new, "-d"]));
        let r = w.run_in(&strs(&a), "y\n");
        done(&r, e.name())?;
        let after = w.snap();
        let ops = changing(&r.ops);
        for op in &ops {
            let n = op.seq;
            for k in ["err:28", "err:5", "err:13", "killb", "killa"] {
                restore(w, &before);
                let r = w.run_opt(&strs(&a), &Opt { stdin: b"y\n".to_vec(), fault: Some(('w', n, k.into())), ..Default::default() });
                let what = format!("{} to {new} with delete-old, {k} at {}", e.name(), op.op);
                w.judged(true, format!("{what}{over}{i}").as_bytes(), || what.clone());
                w.seen("faults", format!("{k} {}", op.op));
                let now = w.snap();
                if !now.contains_key("a.8xp") {
                    ensure!(now.get(new) == after.get(new), "{what}: the input is removed and the new file is not complete ({})", r.status());
                } else {
                    ensure!(now.get("a.8xp") == before.get("a.8xp"), "{what}: the input changed");
                    ensure!(!r.ok(), "{what}: the input was not removed, but success was reported");
                }
            }
        }
        Ok(())
    });
    c.section("without a new file", c.n(200, 1000), 0, |w, rng, i| {
        // delete-old alone deletes nothing
        let p = gen::prog(rng, 20);
        w.put("a.8xp", &p.file(Fmt::P8));
        let e = Edit::all(rng)[i % 6].clone();
        let mut a = e.args("a.8xp");
        a.push(if rng.chance(1, 2) { "-d".into() } else { "--delete-old".into() });
        let before = w.snap();
        let r: Run = w.run_in(&strs(&a), "y\n");
        let what = format!("{} with delete-old and no new file", e.name());
        w.judged(true, format!("{what}{}", show(&p.file(Fmt::P8))).as_bytes(), || what.clone());
        if r.watchdog() {
            skip!("watchdog");
        }
        unchanged(w, &before, &what)
    });
}
