//! C01 C02 C03 C05 C06 C07 C16 (command line part) C19 C21
use crate::ctx::{Bad, Ctx, Res, W};
use crate::exec::{snap_diff, Run};
use crate::gen;
use crate::rng::Rng;
use crate::spec::*;
use crate::{bad, ensure, skip};
use serde_json::Value;

pub fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(60).map(|x| format!("{x:02X}")).collect();
    if b.len() > 60 {
        format!("{s}.. ({} bytes)", b.len())
    } else {
        s
    }
}
pub fn shows(s: &str) -> String {
    let t: String = s.chars().take(120).collect();
    format!("{t:?}{}", if t.len() < s.len() { ".." } else { "" })
}
/// where two byte strings part
pub fn part(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let f = |x: &[u8]| show(&x[i.saturating_sub(4).min(x.len())..(i + 12).min(x.len())]);
    format!("lengths {} and {}, first difference at byte {i}: ..{}.. and ..{}..", a.len(), b.len(), f(a), f(b))
}
pub fn parts(a: &str, b: &str) -> String {
    let i = a.char_indices().zip(b.chars()).find(|((_, x), y)| x != y).map(|x| x.0 .0);
    let i = i.unwrap_or(a.len().min(b.len()));
    let f = |x: &str| x.get(i..).map(|s| s.chars().take(30).collect::<String>()).unwrap_or_default();
    format!("first difference at byte {i}: {:?} and {:?}", f(a), f(b))
}
/// a failed command must say so by its status and leave the files alone
pub fn refused(w: &mut W, r: &Run, before: &crate::exec::Snap, what: &str) -> Res {
    if r.watchdog() {
        skip!("watchdog");
    }
    ensure!(r.failed() && !r.panicked(), "{what}: not refused with an error ({}; {} {})", r.status(), shows(&r.stdout()), shows(&r.stderr()));
    let d = snap_diff(before, &w.snap());
    ensure!(d.is_empty(), "{what}: refused, but {}", d.join(", "));
    Ok(())
}
pub fn done(r: &Run, what: &str) -> Res {
    if r.watchdog() {
        skip!("watchdog");
    }
    ensure!(r.ok(), "{what}: failed with {}: {} {}", r.status(), shows(&r.stdout()), shows(&r.stderr()));
    Ok(())
}
/// the program text in the output of preview
pub fn preview_text(out: &str) -> Option<&str> {
    let m = "----- Program -----\n";
    out.find(m).map(|i| &out[i + m.len()..])
}

/// longest body whose lengths fit the 16-bit fields of the file
pub const MAX_BODY: usize = 65516;

// ------------------------------------------------------------------ C01

fn decode_case(w: &mut W, p: &Prog, fmt: Fmt, d: usize, route: usize) -> Res {
    let t = p.table();
    let expect = t.decode(&p.body, d);
    let inp = format!("in.{}", fmt.ext());
    w.put(&inp, &p.file(fmt));
    let before = w.snap();
    w.seen("models", p.model().unwrap().name);
    w.seen("display modes", DISP[d]);
    w.seen("formats", fmt.ext());
    let args: Vec<&str> = match route {
        0 => vec!["convert", &inp, "-o", "out.txt", "-d", DISP[d]],
        1 => vec!["convert", &inp, "-o", "out.json", "-d", DISP[d]],
        _ => vec!["convert", &inp, "-p", "-d", DISP[d]],
    };
    let r = w.run(&args);
    let what = format!("{} body {} as {}", p.model().unwrap().name, show(&p.body), DISP[d]);
    w.judged(!p.body.is_empty(), &[&p.file(fmt)[..], &[d as u8, route as u8]].concat(), || what.clone());
    let Some(expect) = expect else {
        w.count("invalid bodies refused", 1);
        return refused(w, &r, &before, &what);
    };
    done(&r, &what)?;
    let got = match route {
        0 => {
            let Some(t) = w.get("out.txt").and_then(|b| parse_txt(&b)) else { bad!("{what}: no readable txt") };
            t.body
        }
        1 => {
            let Some(v) = w.get("out.json").and_then(|b| serde_json::from_slice::<Value>(&b).ok()) else {
                bad!("{what}: no readable json")
            };
            v["body"]["translation"].as_str().unwrap_or("").to_string()
        }
        _ => {
            let o = r.raw_stdout();
            let Some(x) = preview_text(&o) else { bad!("{what}: no program in the preview") };
            // the preview ends with line ends of its own
            let (a, b) = (x.trim_end_matches('\n'), expect.trim_end_matches('\n'));
            ensure!(a == b && x.len() >= expect.len(), "{what}: preview differs, {}", parts(a, b));
            expect.clone()
        }
    };
    let mut i = 0;
    while i < p.body.len() {
        let n = if t.tok(&p.body[i..i + 1]).is_some() { 1 } else { 2 };
        w.seen("tokens decoded", show(&p.body[i..i + n]));
        i += n;
    }
    ensure!(got == expect, "{what}: text differs, {}", parts(&got, &expect));
    Ok(())
}
pub fn c01(c: &Ctx) {
    let mut cases = vec![];
    for h in HEADERS {
        for f in Fmt::ALL {
            for d in 0..3 {
                cases.push((h, f, d));
            }
        }
    }
    let n = cases.len();
    c.section("every token of every model", n * 2, 0, |w, rng, i| {
        let (h, f, d) = cases[i % n];
        let mut p = gen::prog_for(rng, h, 0);
        let t = p.table();
        let mut k: Vec<&Tok> = t.toks.iter().collect();
        if i >= n {
            rng.shuffle(&mut k);
        }
        p.body = k.iter().flat_map(|t| t.key.clone()).collect();
        decode_case(w, &p, f, d, 0)
    });
    let s = sheet();
    let keys: Vec<&Vec<u8>> = s.tokens.keys().collect();
    // each token alone for a random model: text if available there, refused if not
    c.section("single tokens", keys.len() * c.n(3, 27), 0, |w, rng, i| {
        let h = if c.thorough { HEADERS[i / keys.len() / 3] } else { *rng.pick(&HEADERS) };
        let mut p = gen::prog_for(rng, h, 0);
        p.body = keys[i % keys.len()].clone();
        decode_case(w, &p, *rng.pick(&Fmt::ALL), (i / keys.len()) % 3, rng.below(3))
    });
    // every byte as a one-byte body and behind valid tokens
    c.section("every single byte", 256 * HEADERS.len(), 0, |w, rng, i| {
        let mut p = gen::prog_for(rng, HEADERS[i / 256], 6);
        if rng.chance(1, 2) {
            p.body.clear();
        }
        p.body.push(i as u8);
        decode_case(w, &p, *rng.pick(&Fmt::ALL), rng.below(3), rng.below(3))
    });
    let leads = table(LATEST).lead.clone();
    let all2 = leads.len() * 256;
    c.section("two-byte combinations", c.n(1500, all2 * 3), c.n(30, 120) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 4);
        let (a, b) = if c.thorough { (leads[(i / 256) % leads.len()], i as u8) } else { (*rng.pick(&leads), rng.byte()) };
        let at = if rng.chance(1, 2) { p.body.len() } else { 0 };
        p.body.splice(at..at, [a, b]);
        decode_case(w, &p, *rng.pick(&Fmt::ALL), rng.below(3), rng.below(3))
    });
    c.section("random programs", c.n(6000, 80000), c.n(40, 400) as u64, |w, rng, _| {
        let mut p = gen::prog(rng, 300);
        let t = p.table();
        if rng.chance(1, 4) {
            // damage: cut inside, invalid bytes
            match rng.below(3) {
                0 => {
                    let n = rng.below(p.body.len() + 1);
                    p.body.truncate(n)
                }
                1 => p.body.push(*rng.pick(&t.lead)),
                _ => {
                    let n = rng.below(p.body.len() + 1);
                    let b = rng.byte();
                    p.body.insert(n, b)
                }
            }
        }
        decode_case(w, &p, *rng.pick(&Fmt::ALL), rng.below(3), rng.below(3))
    });
    let lens = [0, 1, 2, 3, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 16384, 32767, 32768, 40000, 65000, 65515, 65516];
    c.section("body lengths", lens.len() * c.n(2, 12), c.n(60, 200) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 0);
        let n = lens[i % lens.len()];
        p.body = if rng.chance(1, 2) { gen::body_lines(rng, &p.table(), n) } else { gen::body_exact(rng, &p.table(), n) };
        w.seen("body lengths", n.to_string());
        decode_case(w, &p, *rng.pick(&Fmt::ALL), rng.below(3), rng.below(3))
    });
}

// ------------------------------------------------------------------ C02, C03

pub struct TxtCase {
    pub model: &'static Model,
    pub d: usize,
    pub text: String,
}
/// bytes of the text file for a program text, with the given line ends
pub fn txt_bytes(name: &str, ptype: &str, dest: &str, c: &TxtCase, ends: usize, rng: &mut Rng) -> Vec<u8> {
    let mut s = txt_file(name, "a comment", ptype, dest, DISP[c.d], c.model.name, &c.text, true);
    if !s.ends_with('\n') && rng.chance(1, 3) {
        s.push('\n');
    }
    match ends {
        0 => s.into_bytes(),
        1 => s.replace('\n', "\r\n").into_bytes(),
        _ => {
            let mut o = String::new();
            for ch in s.chars() {
                if ch == '\n' && rng.chance(1, 2) {
                    o.push('\r');
                }
                o.push(ch);
            }
            o.into_bytes()
        }
    }
}
fn same_table(m: &Model) -> bool {
    let (a, b) = (table(m.order), table(header_model(m.sig.as_bytes(), m.pid).unwrap().order));
    a.toks.len() == b.toks.len() && a.toks.iter().zip(&b.toks).all(|(x, y)| x.key == y.key && x.text == y.text)
}
/// the encodings allowed for a text, line by line: documented, and with the known deviations
fn expected_ok(t: &Table, c: &TxtCase, e: usize) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
    let text = normalize(&c.text);
    let r = rule(ENC[e]);
    let doc = encode(t, &text, c.d, r);
    let quirk = if r == Rule::Smart { encode(t, &text, c.d, Rule::Quirk) } else { doc.clone() };
    (doc, quirk)
}
fn fidelity_case(w: &mut W, rng: &mut Rng, c: &TxtCase, e: usize, must: bool) -> Res {
    let t = table(c.model.order);
    let ends = if rng.chance(2, 3) { 0 } else { rng.range(1, 2) };
    let fmt = if rng.chance(3, 4) { Fmt::P8 } else { *rng.pick(&Fmt::ALL) };
    let file = txt_bytes("ABC", "Program", "RAM", c, ends, rng);
    w.put("in.txt", &file);
    let before = w.snap();
    let out = format!("out.{}", fmt.ext());
    let what = format!("{} {} {} text {}", c.model.name, DISP[c.d], ENC[e], shows(&c.text));
    let r = w.run(&["convert", "in.txt", "-o", &out, "-e", ENC[e]]);
    w.judged(!c.text.is_empty(), &[&file[..], &[e as u8]].concat(), || what.clone());
    w.seen("model, display, encode", format!("{} {} {}", c.model.name, DISP[c.d], ENC[e]));
    w.seen("line ends", ["LF", "CRLF", "mixed"][ends]);
    let (doc, quirk) = expected_ok(&t, c, e);
    let long = |x: &Option<Vec<u8>>| x.as_ref().map_or(false, |b| b.len() > MAX_BODY);
    if !r.ok() && (long(&doc) || long(&quirk)) {
        w.count("texts too long", 1);
        return refused(w, &r, &before, &what);
    }
    if !r.ok() {
        w.count("texts refused", 1);
        ensure!(!must, "{what}: made of token names, but refused: {}", r.stderr());
        ensure!(doc.is_none() || quirk.is_none(), "{what}: encodable, but refused: {}", r.stderr());
        return refused(w, &r, &before, &what);
    }
    ensure!(w.get(&out).is_some(), "{what}: no output written");
    let r = w.run(&["convert", &out, "-o", "back.txt", "-d", DISP[c.d]]);
    done(&r, &format!("{what}: decoding the encoded program"))?;
    let Some(b) = w.get("back.txt").and_then(|b| parse_txt(&b)) else { bad!("{what}: no readable text back") };
    // a line end is the token 3F, which has a name of its own in ti mode
    let end = t.tok(&[0x3F]).map(|t| t.text[c.d].clone()).unwrap_or("\n".into());
    let text = normalize(&c.text).replace('\n', &end);
    ensure!(b.body == text, "{what}: text changed, {}", parts(&b.body, &text));
    ensure!(doc.is_some() || quirk.is_some(), "{what}: no complete encoding exists, but it was accepted");
    w.count("texts that came back", 1);
    Ok(())
}
pub fn c02(c: &Ctx) {
    let models: Vec<&'static Model> = MODELS.iter().filter(|m| same_table(m)).collect();
    let combos = models.len() * 9;
    c.section("token names", combos * c.n(14, 120), c.n(50, 400) as u64, |w, rng, i| {
        let m = models[i % models.len()];
        let (d, e) = ((i / models.len()) % 3, (i / models.len() / 3) % 3);
        let t = table(m.order);
        let mut text = gen::token_text(rng, &t, d, 60);
        if d == PRETTY && rng.chance(1, 3) {
            text = text.replace('θ', ["\u{398}", "\u{3F4}", "\u{1DBF}"][rng.below(3)]);
            w.count("theta variants", 1);
        }
        let must = m.order >= 30 && d != PRETTY;
        fidelity_case(w, rng, &TxtCase { model: m, d, text }, e, must)
    });
    c.section("theta look-alikes", c.n(200, 1000), 0, |w, rng, i| {
        let m = *rng.pick(&models);
        let mut s = String::new();
        for _ in 0..rng.range(1, 8) {
            s.push(*rng.pick(&['θ', '\u{398}', '\u{3F4}', '\u{1DBF}', 'A', '"', '1']));
        }
        fidelity_case(w, rng, &TxtCase { model: m, d: PRETTY, text: s }, i % 3, false)
    });
    c.section("free text", c.n(3000, 40000), c.n(30, 300) as u64, |w, rng, i| {
        let m = *rng.pick(&models);
        let d = if rng.chance(2, 3) { ACC } else { rng.below(3) };
        let t = table(m.order);
        let text = gen::free_text(rng, &t, d);
        fidelity_case(w, rng, &TxtCase { model: m, d, text }, i % 3, false)
    });
    odd_characters(c, &models);
    all_characters(c);
    let all = spellings();
    c.section("other spellings of tokens", all.len() * 3 * c.n(1, 9), c.n(30, 300) as u64, |w, rng, i| {
        let m = *rng.pick(&models);
        let t = table(m.order);
        let d = i / all.len() % 3;
        let s = &all[i % all.len()];
        let q = &t.tok(&[0x2A]).unwrap().text[d];
        let text = match rng.below(4) {
            0 => s.clone(),
            1 => format!("{}{s}", rng.pick(&t.toks).text[d]),
            2 => format!("{q}{s}"),
            _ => format!("A\n{s}{}\n", rng.pick(&t.toks).text[d]),
        };
        w.count("other spellings", 1);
        let e = rng.below(3);
        fidelity_case(w, rng, &TxtCase { model: m, d, text }, e, false)
    });
    c.section("many lines", c.n(24, 240), c.n(60, 300) as u64, |w, rng, i| {
        let m = models[models.len() - 1 - rng.below(18)];
        let t = table(m.order);
        let n = [200, 2000, 9990, 10010, 20000, 33000, 60000, 65516, 65515, 65517, 66000, 40000][i % 12];
        let d = rng.range(1, 2);
        let text = t.decode(&gen::body_lines(rng, &t, n), ACC).unwrap();
        let (d, text) = if rng.chance(1, 2) { (d, "\n".repeat(n)) } else { (ACC, text) };
        w.seen("line counts", text.matches('\n').count().to_string());
        fidelity_case(w, rng, &TxtCase { model: m, d, text }, (i / 12) % 3, false)
    });
    c.section("line structure", c.n(400, 4000), 0, |w, rng, i| {
        // empty lines, only line ends, many lines
        let m = *rng.pick(&models);
        let mut s = String::new();
        for _ in 0..rng.below(12) {
            s.push_str(*rng.pick(&["\n", "\n", "\n\n", "A", "AB\n", " ", "\"\n", "->\n"]));
        }
        fidelity_case(w, rng, &TxtCase { model: m, d: ACC, text: s }, i % 3, m.order >= 30)
    });
    c.section("long texts", c.n(18, 180), c.n(60, 300) as u64, |w, rng, i| {
        let m = models[models.len() - 1 - rng.below(18)];
        let t = table(m.order);
        let n = [3000, 9000, 20000][i % 3];
        let d = rng.range(1, 2);
        let text = if i / 3 % 2 == 0 {
            t.decode(&gen::body_exact(rng, &t, n), d).unwrap()
        } else {
            // a single line of many characters
            let names: Vec<&str> = t.toks.iter().map(|x| x.text[d].as_str()).filter(|x| x.len() > 5 && !x.contains(['"', '\n'])).collect();
            let mut s = String::new();
            while s.chars().count() < n * 7 / 2 {
                s.push_str(rng.pick(&names));
            }
            s + "ABC\nX"
        };
        w.seen("longest lines", text.lines().map(|l| l.chars().count()).max().unwrap_or(0).ilog2().to_string());
        fidelity_case(w, rng, &TxtCase { model: m, d, text }, (i / 6) % 3, false)
    });
}

fn odd_characters(c: &Ctx, models: &[&'static Model]) {
    let odd = gen::ODD_CHARS;
    c.section("characters of no token", c.n(odd.len() * 9 + 1500, odd.len() * 9 * 12 + 40000), c.n(30, 300) as u64, |w, rng, i| {
        let m = *rng.pick(models);
        let d = rng.below(3);
        let t = table(m.order);
        let x = if i < odd.len() * 9 * c.n(1, 12) { odd[(i / 9) % odd.len()] } else { gen::any_char(rng) };
        let a = |rng: &mut Rng| t.decode(&gen::alpha_name(rng, 1, 3), d).unwrap();
        let tok = |rng: &mut Rng| rng.pick(&t.toks).text[d].clone();
        let q = t.tok(&[0x2A]).unwrap().text[d].clone();
        let text = match i % 9 {
            0 => format!("{x}{}", a(rng)),
            1 => format!("{}\n{x}{}\n{}", a(rng), tok(rng), a(rng)),
            2 => format!("{}{x}", a(rng)),
            3 => format!("{}{x}\n{}", tok(rng), a(rng)),
            4 => format!("{}\n{x}\n{}", a(rng), a(rng)),
            5 => format!("{}{q}{}{x}{}{q}\n", a(rng), a(rng), a(rng)),
            6 => format!("{q}{x}"),
            7 => format!("{}{}{x}{}", t.tok(&[0x5F]).unwrap().text[d], a(rng), a(rng)),
            _ => {
                let s: Vec<char> = tok(rng).chars().collect();
                let k = rng.range(0, s.len());
                s[..k].iter().chain([&x]).chain(&s[k..]).collect()
            }
        };
        // a carriage return before a line end is a part of the line end
        let text = if x == '\r' { text.replace("\r\n", "\rA\n").trim_end_matches('\r').to_string() } else { text };
        w.seen("odd characters", format!("U+{:04X}", x as u32));
        let e = rng.below(3);
        fidelity_case(w, rng, &TxtCase { model: m, d, text }, e, false)
    });
}
/// every character there is, alone and in the middle of text, through the library
fn all_characters(c: &Ctx) {
    let lib = c.scratch.join("libcheck");
    if !lib.exists() {
        return;
    }
    let around = [("", ""), ("A", "B"), ("\"A", "A"), ("prgm", ""), ("", "isp 1")];
    // the planes in use up to the private ones in small pieces
    let end = c.n(0x3400, 0x30000) as u32;
    let piece = c.n(64, 512) as u32;
    let pieces = (end / piece) as usize;
    let skip = c.n(5, 1);
    c.section("all characters, in the library", pieces * around.len() * 3 / skip + 64, c.n(40, 900) as u64, |w, rng, i| {
        let (lo, hi, step) = if i < 64 {
            // further up only some
            (0xF900 + rng.below(0x700) as u32, 0x10000, 61 + 2 * rng.below(20))
        } else {
            // each piece in every surrounding over the seeds, in one of them for each
            let k = (i - 64) * skip + rng.below(skip);
            let at = (k % pieces) as u32 * piece;
            (at, at + piece, 1)
        };
        let k = if i < 64 { i } else { (i - 64) * skip / pieces };
        let d = k % 3;
        let (pre, post) = around[k / 3 % around.len()];
        let e = rng.below(2) * 2; // max or smart
        let rule_name = ["max", "min", "smart"][e];
        let model = "TI-84+CE";
        let head = format!("NAME\ncomment\nProgram\nRAM\n{}\n{model}\n{pre}", DISP[d]);
        let file = w.path("x.txt");
        let o = std::process::Command::new(&lib)
            .args(["encode", file.to_str().unwrap(), &head, post, rule_name, &lo.to_string(), &hi.to_string(), &step.to_string()])
            .env_clear()
            .output();
        let Ok(o) = o else { skip!("libcheck does not run") };
        ensure!(o.status.success(), "library, text with characters {lo:X} to {hi:X} between {pre:?} and {post:?}: {}", shows(&String::from_utf8_lossy(&o.stderr)));
        let Ok(Value::Array(got)) = serde_json::from_slice::<Value>(&o.stdout) else { skip!("libcheck prints something else") };
        let got: std::collections::HashMap<u64, Vec<u8>> =
            got.iter().map(|g| (g[0].as_u64().unwrap_or(0), g[1].as_array().map(|b| b.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default())).collect();
        let t = table(MODELS.iter().find(|m| m.name == model).unwrap().order);
        let mut n = 0;
        for u in (lo..hi).step_by(step) {
            let Some(ch) = char::from_u32(u) else { continue };
            if ch == '\n' || ch == '\r' {
                continue;
            }
            let text = normalize(&format!("{pre}{ch}{post}"));
            n += 1;
            match got.get(&(u as u64)) {
                Some(b) => ensure!(t.decode(b, d).as_deref() == Some(&text), "library: {text:?} (U+{u:04X}), {} {rule_name}, becomes {} with the text {:?}", DISP[d], show(b), t.decode(b, d)),
                None => ensure!(encode(&t, &text, d, rule(rule_name)).is_none(), "library: {text:?} (U+{u:04X}), {} {rule_name}, is refused", DISP[d]),
            }
        }
        w.count("characters judged in the library", n);
        w.seen("ranges of characters", format!("{:X}", lo / 256));
        w.judged(true, format!("{lo} {hi} {step} {pre} {post} {d}").as_bytes(), || format!("every character from U+{lo:04X} between {pre:?} and {post:?}"));
        Ok(())
    });
}
/// splits an encoded body along the allowed encodings of its lines
fn segmentation(t: &Table, c: &TxtCase, e: usize, body: &[u8]) -> Res {
    let r = rule(ENC[e]);
    let text = normalize(&c.text);
    let mut pos = 0;
    let mut known: Option<(&'static str, String)> = None;
    let lines: Vec<&str> = text.split('\n').collect();
    for (n, line) in lines.iter().enumerate() {
        let doc = encode(t, line, c.d, r);
        let quirk = if r == Rule::Smart { encode(t, line, c.d, Rule::Quirk) } else { None };
        let last = n + 1 == lines.len();
        let matches = |x: &Option<Vec<u8>>| match x {
            Some(x) => {
                let rest = &body[pos..];
                rest.starts_with(x) && if last { rest.len() == x.len() } else { rest.get(x.len()) == Some(&0x3F) }
            }
            None => false,
        };
        if matches(&doc) {
            pos += doc.unwrap().len() + 1;
        } else if matches(&quirk) {
            let q = quirk.unwrap();
            let doc = doc.unwrap_or_default();
            let id = if first_difference_in_string(t, line, c.d, &doc, &q) { "F02" } else { "F01" };
            if known.is_none() {
                known = Some((id, format!("smart mode encodes the line {} as {} instead of {}", shows(line), show(&q), show(&doc))));
            }
            pos += q.len() + 1;
        } else {
            let want = doc.map(|d| show(&d)).unwrap_or("nothing".into());
            bad!(
                "{} {} {}: line {} is encoded as {} instead of {}",
                c.model.name, DISP[c.d], ENC[e], shows(line), show(&body[pos.min(body.len())..]), want
            );
        }
    }
    match known {
        Some((id, s)) => Err(Bad::Known(id, s)),
        None => Ok(()),
    }
}
fn first_difference_in_string(t: &Table, line: &str, d: usize, doc: &[u8], quirk: &[u8]) -> bool {
    let i = doc.iter().zip(quirk).position(|(a, b)| a != b).unwrap_or(doc.len().min(quirk.len()));
    // documented state at that byte: count quotes and arrows in the tokens before it
    let (mut pos, mut s) = (0, false);
    while pos < i && pos < doc.len() {
        let n = if t.tok(&doc[pos..pos + 1]).is_some() { 1 } else { 2 };
        if pos + n > i {
            break;
        }
        match doc[pos] {
            0x2A => s = !s,
            0x04 => s = false,
            _ => {}
        }
        pos += n;
    }
    let _ = (line, d);
    s
}
fn segment_case(w: &mut W, rng: &mut Rng, c: &TxtCase, e: usize, default: bool) -> Res {
    let t = table(c.model.order);
    let file = txt_bytes("ABC", "Program", "RAM", c, 0, rng);
    w.put("in.txt", &file);
    let before = w.snap();
    let what = format!("{} {} {} text {}", c.model.name, DISP[c.d], ENC[e], shows(&c.text));
    let mut args = vec!["convert", "in.txt", "-o", "out.8xp", "-e", ENC[e]];
    if default && e == 2 {
        args.truncate(4);
        w.count("default mode", 1);
    }
    let r = w.run(&args);
    w.judged(c.text.chars().count() > 1, &[&file[..], &[e as u8]].concat(), || what.clone());
    w.seen("model, display, encode", format!("{} {} {}", c.model.name, DISP[c.d], ENC[e]));
    let (doc, quirk) = expected_ok(&t, c, e);
    let long = |x: &Option<Vec<u8>>| x.as_ref().map_or(false, |b| b.len() > MAX_BODY);
    if !r.ok() && (long(&doc) || long(&quirk)) {
        w.count("texts too long", 1);
        return refused(w, &r, &before, &what);
    }
    if !r.ok() {
        w.count("texts refused", 1);
        ensure!(doc.is_none() || quirk.is_none(), "{what}: encodable, but refused: {}", r.stderr());
        return refused(w, &r, &before, &what);
    }
    let Some(f) = w.get("out.8xp") else { bad!("{what}: no output") };
    ensure!(f.len() >= 76, "{what}: output of {} bytes", f.len());
    let body = f[74..f.len() - 2].to_vec();
    let mut i = 0;
    while i < body.len() {
        let n = if t.tok(&body[i..i + 1]).is_some() { 1 } else { 2.min(body.len() - i) };
        w.seen("tokens chosen", show(&body[i..i + n]));
        i += n;
    }
    segmentation(&t, c, e, &body)
}
pub fn c03(c: &Ctx) {
    let mut combos = vec![];
    for m in &MODELS {
        for d in 0..3 {
            for e in 0..3 {
                combos.push((m, d, e));
            }
        }
    }
    c.section("every token name on its own line", combos.len(), 0, |w, rng, i| {
        let (m, d, e) = combos[i];
        let t = table(m.order);
        // lines that cannot be encoded would hide the others
        let r = if e == 2 { Rule::Quirk } else { rule(ENC[e]) };
        let l: Vec<&str> = t.toks.iter().map(|x| x.text[d].as_str()).filter(|x| !x.contains('\n') && encode(&t, x, d, r).is_some()).collect();
        w.count("token names", l.len() as u64);
        segment_case(w, rng, &TxtCase { model: m, d, text: l.join("\n") }, e, rng_bool(i))
    });
    // tokens more than once, at the start, in the middle and at the end of a line
    c.section("repeated tokens", combos.len(), 0, |w, rng, i| {
        let (m, d, e) = combos[i];
        let t = table(m.order);
        let r = if e == 2 { Rule::Quirk } else { rule(ENC[e]) };
        let mut l: Vec<String> = vec![];
        for x in &t.toks {
            let n = &x.text[d];
            if n.contains('\n') {
                continue;
            }
            for k in [2, 3, 5] {
                let n = n.repeat(k);
                l.extend([n.clone(), format!("{n}A"), format!("A{n}"), format!("A{n}B")].into_iter().filter(|x| encode(&t, x, d, r).is_some() && encode(&t, x, d, rule(ENC[e])).is_some()));
            }
        }
        // as many as fit
        rng.shuffle(&mut l);
        let mut text = String::new();
        let mut n = 0;
        for x in &l {
            n += encode(&t, x, d, r).unwrap().len() + 1;
            if n > 30000 {
                break;
            }
            text.push_str(x);
            text.push('\n');
            w.count("repeated tokens", 1);
        }
        segment_case(w, rng, &TxtCase { model: m, d, text }, e, rng_bool(i))
    });
    // pairs of neighbours whose concatenation can be read in another way
    let orders: Vec<&'static Model> = if c.thorough { vec![&MODELS[1], &MODELS[5], &MODELS[9], &MODELS[15], &MODELS[16], &MODELS[17], &MODELS[24]] } else { vec![&MODELS[9], &MODELS[24]] };
    for m in orders {
        let t = table(m.order);
        for d in 0..3 {
            let mut pairs = vec![];
            for a in &t.toks {
                for b in &t.toks {
                    let s = format!("{}{}", a.text[d], b.text[d]);
                    if s.contains('\n') {
                        continue;
                    }
                    let x = t.longest(&s, d).unwrap();
                    let y = t.shortest(&s, d).unwrap();
                    if x.text[d].len() > a.text[d].len() || (y.text[d].len() < a.text[d].len() && b.text[d].len() == 1) {
                        pairs.push(s);
                    }
                }
            }
            let mut rng = Rng::new(c.seed, "pairs", d as u64);
            rng.shuffle(&mut pairs);
            let per = 150;
            let batches = pairs.len().div_ceil(per);
            c.add("ambiguous neighbour pairs", pairs.len() as u64);
            let max = if c.thorough { batches * 3 } else { (batches * 3).min(if d == ACC { 180 } else { 45 }) };
            c.section(&format!("ambiguous pairs {} {}", m.name, DISP[d]), max, c.n(15, 90) as u64, |w, rng, i| {
                let e = i % 3;
                let r = if e == 2 { Rule::Quirk } else { rule(ENC[e]) };
                let l: Vec<&str> = pairs[(i / 3) * per..((i / 3 + 1) * per).min(pairs.len())]
                    .iter()
                    .map(|x| x.as_str())
                    .filter(|x| encode(&t, x, d, r).is_some() && encode(&t, x, d, rule(ENC[e])).is_some())
                    .collect();
                if l.is_empty() {
                    return Ok(());
                }
                w.count("pairs judged", l.len() as u64);
                segment_case(w, rng, &TxtCase { model: m, d, text: l.join("\n") }, e, false)
            });
        }
    }
    c.section("names", c.n(2500, 20000), c.n(20, 120) as u64, |w, rng, i| {
        let m = &MODELS[rng.range(1, 24)];
        let d = if rng.chance(2, 3) { ACC } else { rng.below(3) };
        let t = table(m.order);
        let text = gen::name_text(rng, &t, d);
        let e = if rng.chance(2, 3) { 2 } else { i % 2 };
        segment_case(w, rng, &TxtCase { model: m, d, text }, e, false)
    });
    c.section("strings", c.n(2500, 20000), c.n(20, 120) as u64, |w, rng, _| {
        let m = &MODELS[rng.range(0, 24)];
        let d = if rng.chance(3, 4) { ACC } else { rng.below(3) };
        let t = table(m.order);
        let s = gen::string_text(rng, &t, d);
        let b = rng_bool(rng.below(2));
        segment_case(w, rng, &TxtCase { model: m, d, text: s }, 2, b)
    });
    // strings, names and lines longer than anybody writes them
    c.section("long strings and names", c.n(120, 1200), c.n(30, 200) as u64, |w, rng, i| {
        let m = &MODELS[rng.range(5, 24)];
        let t = table(m.order);
        let d = if rng.chance(2, 3) { ACC } else { rng.below(3) };
        let n = [20, 130, 260, 300, 520, 1030, 2100, 4200, 9000][i % 9];
        let one = |b: &[u8]| t.tok(b).map(|x| x.text[d].clone()).unwrap_or_default();
        // names that begin with the name of another token
        let amb: Vec<&str> = t.toks.iter().map(|x| x.text[d].as_str()).filter(|x| !x.contains(['"', '\n']) && !x.is_empty() && t.shortest(x, d).is_some_and(|y| y.text[d].len() < x.len())).collect();
        let some = |rng: &mut Rng, k: usize| (0..k).map(|_| if rng.chance(1, 2) || amb.is_empty() { "7".to_string() } else { rng.pick(&amb).to_string() }).collect::<String>();
        let q = one(&[0x2A]);
        // also of letters alone, which smart mode treats as documented
        let letters: Vec<&str> = amb.iter().copied().filter(|x| x.chars().all(|c| c.is_ascii_alphabetic())).collect();
        let plain = rng.chance(2, 3) && !letters.is_empty();
        let some = |rng: &mut Rng, k: usize| if plain { (0..k).map(|_| if rng.chance(1, 2) { "A" } else { *rng.pick(&letters) }).collect() } else { some(rng, k) };
        let text = match i / 9 % 4 {
            0 => format!("{q}{}{q}{}", some(rng, n), some(rng, 4)),
            1 => format!("{q}{}", some(rng, n)),
            2 => format!("{}{}{}\n{}", one(&[0x5F]), "AB7".repeat(n / 3), some(rng, 4), some(rng, 4)),
            _ => format!("{}{q}{}{q}{}{}", some(rng, n), some(rng, 6), one(&[0x04]), some(rng, 6)),
        };
        w.seen("lengths of strings and names", n.to_string());
        segment_case(w, rng, &TxtCase { model: m, d, text }, 2 - i % 7 / 5, false)
    });
    // the same far into the text, behind many lines or behind one long line
    let sizes = [0usize, 250, 1000, 4000, 8190, 16380, 32760, 50000, 64000];
    c.section("late in the text", c.n(72, 720), c.n(40, 300) as u64, |w, rng, i| {
        let m = &MODELS[rng.range(5, 24)];
        let t = table(m.order);
        let d = rng.below(3);
        let n = sizes[i % sizes.len()];
        let n = n + rng.below(n / 50 + 2);
        let mut text = match rng.below(4) {
            0 => big_text(rng, &t, n),
            1 if d == ACC => t.decode(&gen::body_lines(rng, &t, n), d).unwrap(),
            1 | 2 => "\n".repeat(n),
            _ => "7".repeat(n.min(9000)),
        };
        text.push('\n');
        for _ in 0..rng.range(1, 4) {
            text.push_str(&match rng.below(3) {
                0 => gen::name_text(rng, &t, d),
                1 => gen::string_text(rng, &t, d),
                _ => gen::token_text(rng, &t, d, 40),
            });
            text.push('\n');
        }
        w.seen("lines before", text.matches('\n').count().to_string());
        segment_case(w, rng, &TxtCase { model: m, d, text }, i / sizes.len() % 3, false)
    });
    c.section("random texts", c.n(5000, 60000), c.n(30, 300) as u64, |w, rng, i| {
        let (m, d, e) = combos[i % combos.len()];
        let t = table(m.order);
        let text = if rng.chance(2, 3) { gen::token_text(rng, &t, d, 50) } else { gen::free_text(rng, &t, d) };
        segment_case(w, rng, &TxtCase { model: m, d, text }, e, rng_bool(i))
    });
}
fn rng_bool(i: usize) -> bool {
    i % 2 == 0
}

// ------------------------------------------------------------------ C05

/// text file of a random program; returns what the header must hold
pub fn random_txt(rng: &mut Rng, m: &'static Model, d: usize, text: String) -> (Vec<u8>, Prog) {
    let name = gen::alpha_name(rng, 0, 8);
    let name = if rng.chance(1, 4) { name.to_ascii_lowercase() } else { name };
    let (tb, tn) = *rng.pick(&TYPES);
    let (db, dn) = *rng.pick(&DESTS);
    let c = TxtCase { model: m, d, text };
    let ends = rng.below(3);
    let f = txt_bytes(std::str::from_utf8(&name).unwrap(), tn, dn, &c, ends, rng);
    let p = Prog {
        sig: m.sig.into(),
        extra: [0x1A, 0x0A],
        pid: m.pid,
        comment: vec![],
        ptype: tb,
        name,
        version: 0,
        dest: db,
        body: vec![],
    };
    (f, p)
}
fn formed(w: &W, out: &str, fmt: Fmt, want: &Prog, what: &str) -> Result<Prog, Bad> {
    let Some(f) = w.get(out) else { bad!("{what}: no output") };
    let p = match well_formed(&f, fmt) {
        Ok(p) => p,
        Err(e) => bad!("{what}: {out} is not well formed: {e}"),
    };
    let dest = if fmt == Fmt::P8 { want.dest } else { 0 };
    ensure!(p.name == want.name, "{what}: name {:?} instead of {:?}", p.name_str(), want.name_str());
    ensure!(p.ptype == want.ptype, "{what}: type {:02X} instead of {:02X}", p.ptype, want.ptype);
    ensure!(p.dest == dest, "{what}: destination {:02X} instead of {:02X}", p.dest, dest);
    ensure!(p.sig == want.sig && p.pid == want.pid, "{what}: header of another model");
    Ok(p)
}
fn big_text(rng: &mut Rng, t: &Table, n: usize) -> String {
    // exactly n bytes in every mode: one-byte tokens that cannot combine, in lines of 60
    let mut s = String::with_capacity(n + 8);
    let set: Vec<&Tok> = [0x31u8, 0x32, 0x33, 0x2B, 0x3E, 0x11, 0x41, 0x5A].iter().filter_map(|k| t.tok(&[*k])).collect();
    let one = *rng.pick(&set);
    for i in 0..n {
        if i % 61 == 60 {
            s.push('\n');
        } else if i % 61 % 7 == 3 {
            s.push_str(&one.text[ACC]);
        } else {
            s.push('7');
        }
    }
    s
}
pub fn c05(c: &Ctx) {
    c.section("text to program", c.n(5000, 50000), c.n(40, 300) as u64, |w, rng, i| {
        let m = &MODELS[i % 25];
        let t = table(m.order);
        let d = rng.below(3);
        let text = gen::token_text(rng, &t, d, 120);
        let (f, want) = random_txt(rng, m, d, text.clone());
        let fmt = if rng.chance(1, 2) { Fmt::P8 } else { *rng.pick(&Fmt::ALL) };
        let out = format!("o.{}", fmt.ext());
        let e = rng.below(3);
        w.put("in.txt", &f);
        let before = w.snap();
        let r = w.run(&["convert", "in.txt", "-o", &out, "-e", ENC[e]]);
        let what = format!("{} {} {} {:?} {} {} -> {}", m.name, DISP[d], ENC[e], want.name_str(), type_name(want.ptype).unwrap(), dest_name(want.dest).unwrap(), fmt.ext());
        w.judged(true, &[&f[..], out.as_bytes(), &[e as u8]].concat(), || what.clone());
        if !r.ok() {
            w.count("texts refused", 1);
            return refused(w, &r, &before, &what);
        }
        w.seen("model, format", format!("{} {}", m.name, fmt.ext()));
        w.seen("type, destination", format!("{:02X} {:02X}", want.ptype, want.dest));
        w.seen("name lengths", want.name.len().to_string());
        let p = formed(w, &out, fmt, &want, &what)?;
        if sum_overflows(&p, fmt) {
            w.count("checksums above 16 bits", 1);
        }
        Ok(())
    });
    let lens: Vec<usize> = [0, 1, 2, 235, 236, 237, 238, 253, 254, 255, 256, 257, 511, 512, 4096, 16383, 16384, 32748, 32749, 32766, 32767, 32768, 65280, 65500, 65514, 65515, 65516]
        .into_iter()
        .collect();
    let over = [65517usize, 65518, 65519, 65520, 65533, 65534, 65535, 65536, 65537, 65536 + 100, 70000, 131072 - 19, 131072 + 5];
    c.section("body lengths", (lens.len() + over.len()) * c.n(2, 9), c.n(120, 400) as u64, |w, rng, i| {
        let k = i % (lens.len() + over.len());
        let n = if k < lens.len() { lens[k] } else { over[k - lens.len()] };
        let m = if rng.chance(1, 2) { &MODELS[24] } else { &MODELS[rng.range(5, 24)] };
        let t = table(m.order);
        let text = big_text(rng, &t, n);
        let (f, want) = random_txt(rng, m, ACC, text.clone());
        let e = rng.below(3);
        let Some(body) = encode(&t, &text, ACC, if e == 2 { Rule::Quirk } else { rule(ENC[e]) }) else { return Ok(()) };
        let fmt = Fmt::ALL[(i / (lens.len() + over.len())) % 3];
        let out = format!("o.{}", fmt.ext());
        w.put("in.txt", &f);
        let before = w.snap();
        let r = w.run(&["convert", "in.txt", "-o", &out, "-e", ENC[e]]);
        let what = format!("body of {} bytes -> {}", body.len(), fmt.ext());
        w.judged(true, format!("{what}{e}{}", m.name).as_bytes(), || what.clone());
        w.seen("body lengths", format!("{} {}", body.len(), fmt.ext()));
        if body.len() > MAX_BODY {
            w.count("oversized bodies", 1);
            return refused(w, &r, &before, &what);
        }
        done(&r, &what)?;
        let p = formed(w, &out, fmt, &want, &what)?;
        ensure!(p.body.len() == body.len(), "{what}: body of {} bytes", p.body.len());
        Ok(())
    });
    c.section("large bodies with high bytes", c.n(40, 400), c.n(60, 200) as u64, |w, rng, i| {
        // checksums far beyond 16 bits
        let m = &MODELS[rng.range(5, 24)];
        let t = table(m.order);
        let n = rng.range(200, 6000);
        let b = if i % 7 == 0 {
            // the highest sums there are
            let mut high: Vec<_> = t.by_key.keys().filter(|k| k.len() == 1).collect();
            high.sort();
            let high = &high[high.len() - 20..];
            (0..*rng.pick(&[MAX_BODY - 600, 60000, 58000])).map(|_| rng.pick(high)[0]).collect()
        } else {
            gen::body_exact(rng, &t, n)
        };
        let text = t.decode(&b, ACC).unwrap();
        let (f, want) = random_txt(rng, m, ACC, text);
        let fmt = Fmt::ALL[i % 3];
        let out = format!("o.{}", fmt.ext());
        w.put("in.txt", &f);
        let e = if i % 7 == 0 { "max" } else { ENC[i % 2] };
        let r = w.run(&["convert", "in.txt", "-o", &out, "-e", e]);
        let what = format!("large body -> {}", fmt.ext());
        w.judged(true, &f, || what.clone());
        if i % 7 == 0 && !r.ok() {
            // tokens that read as one with others can take more room
            let n = encode(&t, &t.decode(&b, ACC).unwrap(), ACC, rule(e)).map(|b| b.len());
            ensure!(n.is_none_or(|n| n > MAX_BODY), "{what}: refused with a body of {n:?} bytes");
            return Ok(());
        }
        done(&r, &what)?;
        let p = formed(w, &out, fmt, &want, &what)?;
        if sum_overflows(&p, fmt) {
            w.count("checksums above 16 bits", 1);
        }
        if p.body.iter().map(|b| *b as u32).sum::<u32>() > 0xA0_0000 {
            w.count("largest sums", 1);
        }
        Ok(())
    });
    // checksums at the ends of their range, before or after the edit or conversion
    let sums = [0u16, 1, 2, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF];
    c.section("chosen checksums", sums.len() * 9 * 2 * c.n(4, 24), c.n(40, 200) as u64, |w, rng, i| {
        let sum = sums[i % sums.len()];
        let kind = i / sums.len() % 9;
        let before = i / sums.len() / 9 % 2 == 0 && kind != 8;
        let mut p = gen::prog(rng, 0);
        let (fi, fo) = (*rng.pick(&Fmt::ALL), *rng.pick(&Fmt::ALL));
        if fi != Fmt::P8 || kind == 8 {
            p.version = 0;
            p.dest = if kind == 8 { p.dest } else { 0 };
        }
        let name = gen::alpha_name(rng, 0, 8);
        let new = |p: &Prog| {
            let mut q = p.clone();
            match kind {
                0 => q.name = name.clone(),
                1 => q.comment = b"comment".to_vec(),
                2 => q.ptype = 6,
                3 => q.ptype = 5,
                4 => q.dest = 0x80,
                5 => q.dest = 0,
                _ => {}
            }
            q
        };
        if before {
            gen::with_sum(rng, &mut p, fi, sum);
        } else {
            let mut q = new(&p);
            if fo != Fmt::P8 {
                q.dest = 0;
                q.version = 0;
            }
            gen::with_sum(rng, &mut q, fo, sum);
            p.body = q.body;
        }
        let (inp, out) = (if kind == 8 { "i.txt".to_string() } else { format!("i.{}", fi.ext()) }, format!("o.{}", fo.ext()));
        let mut want = new(&p);
        if kind == 8 {
            let text = p.table().decode(&p.body, ACC).unwrap();
            w.put(&inp, txt_file(&p.name_str(), "c", type_name(p.ptype).unwrap(), dest_name(p.dest).unwrap(), "accessible", p.model().unwrap().name, &text, true).as_bytes());
        } else {
            w.put(&inp, &p.file(fi));
        }
        if fi != Fmt::P8 && kind != 8 && kind != 4 {
            want.dest = 0;
        }
        let n = String::from_utf8(name.clone()).unwrap();
        let r = match kind {
            0 => w.run(&["rename", &inp, "-n", &n, "-f", &out]),
            1 => w.run(&["comment", &inp, "-c", "comment", "-f", &out]),
            2 => w.run(&["lock", &inp, "-f", &out]),
            3 => w.run(&["unlock", &inp, "-f", &out]),
            4 => w.run(&["archive", &inp, "-f", &out]),
            5 => w.run(&["unarchive", &inp, "-f", &out]),
            6 => w.run(&["convert", &inp, "-o", &out]),
            7 => {
                w.run(&["convert", &inp, "-o", "x.json"]);
                w.run(&["convert", "x.json", "-o", &out])
            }
            _ => w.run(&["convert", &inp, "-o", &out, "-e", "min"]),
        };
        let what = format!("{} {inp} -> {out}, checksum {sum:04X} {}", ["rename", "comment", "lock", "unlock", "archive", "unarchive", "convert", "json", "text"][kind], if before { "before" } else { "after" });
        w.judged(true, &[&p.file(fi)[..], what.as_bytes()].concat(), || what.clone());
        done(&r, &what)?;
        let q = formed(w, &out, fo, &want, &what)?;
        ensure!(q.body == p.body, "{what}: body changed");
        w.seen("chosen checksums", format!("{sum:04X} {before}"));
        Ok(())
    });
    // programs produced from well-formed programs
    c.section("edits and conversions of programs", c.n(4000, 40000), c.n(30, 200) as u64, |w, rng, _| {
        let mut p = gen::prog(rng, 80);
        let fi = *rng.pick(&Fmt::ALL);
        let inp = format!("i.{}", fi.ext());
        // file names other than the one in the file, upper-case names with other characters
        if rng.chance(1, 3) {
            p.name = (0..rng.range(0, 8)).map(|_| *rng.pick(b"ABCXYZ019[")).collect();
        }
        w.put(&inp, &p.file(fi));
        let fo = *rng.pick(&Fmt::ALL);
        let out = format!("o.{}", fo.ext());
        let mut want = p.clone();
        if fi != Fmt::P8 {
            want.dest = 0;
        }
        let kind = rng.below(8);
        let r = match kind {
            0 => {
                w.run(&["convert", &inp, "-o", "x.json"]);
                w.run(&["convert", "x.json", "-o", &out])
            }
            1 => w.run(&["convert", &inp, "-o", &out]),
            2 => {
                want.name = gen::alpha_name(rng, 0, 8);
                let n = want.name_str();
                w.run(&["rename", &inp, "-n", &n, "-f", &out])
            }
            3 => {
                let s: String = gen::comment(rng).iter().map(|b| *b as char).collect();
                let s = if s.starts_with('-') { format!("x{}", s.chars().skip(1).collect::<String>()) } else { s };
                w.run(&["comment", &inp, "-c", &s, "-f", &out])
            }
            4 => {
                want.ptype = 6;
                w.run(&["lock", &inp, "-f", &out])
            }
            5 => {
                want.ptype = 5;
                w.run(&["unlock", &inp, "-f", &out])
            }
            6 => {
                want.dest = 0x80;
                w.run(&["archive", &inp, "-f", &out])
            }
            _ => {
                want.dest = 0;
                w.run(&["unarchive", &inp, "-f", &out])
            }
        };
        let what = format!("{} {} -> {}", ["json", "convert", "rename", "comment", "lock", "unlock", "archive", "unarchive"][kind], fi.ext(), fo.ext());
        w.judged(true, &[&p.file(fi)[..], what.as_bytes()].concat(), || what.clone());
        w.seen("routes", what.clone());
        done(&r, &what)?;
        let q = formed(w, &out, fo, &want, &what)?;
        ensure!(q.body == p.body, "{what}: body changed");
        Ok(())
    });
}
fn sum_overflows(p: &Prog, fmt: Fmt) -> bool {
    let f = p.file(fmt);
    f[55..f.len() - 2].iter().map(|b| *b as u32).sum::<u32>() > 0xFFFF
}

// ------------------------------------------------------------------ C06

pub fn c06(c: &Ctx) {
    let case = |w: &mut W, rng: &mut Rng, p: &mut Prog, d: usize, e: usize| -> Res {
        // canonical body: the tokenisation of its own text
        let t = p.table();
        let text = t.decode(&p.body, d).unwrap();
        let Some(body) = encode(&t, &text, d, rule(ENC[e])) else { return Ok(()) };
        if e == 2 && encode(&t, &text, d, Rule::Quirk).as_ref() != Some(&body) {
            w.count("strings left out", 1);
            return Ok(());
        }
        if body.len() > MAX_BODY {
            return Ok(());
        }
        p.body = body;
        p.version = 0;
        let f = p.file(Fmt::P8);
        w.put("a.8xp", &f);
        let what = format!("{} {} {} {:?} body {}", p.model().unwrap().name, DISP[d], ENC[e], p.name_str(), show(&p.body));
        w.judged(true, &[&f[..], &[d as u8, e as u8]].concat(), || what.clone());
        w.seen("model, type, destination", format!("{} {:02X} {:02X}", p.model().unwrap().name, p.ptype, p.dest));
        w.seen("display, encode", format!("{} {}", DISP[d], ENC[e]));
        let r = w.run(&["convert", "a.8xp", "-o", "a.txt", "-d", DISP[d]]);
        done(&r, &format!("{what}: to text"))?;
        let r = w.run(&["convert", "a.txt", "-o", "b.8xp", "-e", ENC[e]]);
        done(&r, &format!("{what}: back from text"))?;
        let Some(g) = w.get("b.8xp") else { bad!("{what}: nothing written") };
        // everything but the comment, including lengths and checksum
        let blank = |x: &[u8]| {
            let mut y = x.to_vec();
            y[11..53].fill(0);
            y
        };
        if g.len() < 76 || blank(&g) != blank(&f) {
            bad!("{what}: came back different, {}", part(&g, &f));
        }
        let cm: String = g[11..53].iter().filter(|b| **b != 0).map(|b| *b as char).collect();
        ensure!(cm.starts_with(COMMENT), "{what}: creation notice is {cm:?}");
        if rng.chance(1, 6) {
            // once more: stable
            w.run(&["convert", "b.8xp", "-o", "b.txt", "-d", DISP[d]]);
            w.run(&["convert", "b.txt", "-o", "c.8xp", "-e", ENC[e]]);
            ensure!(w.get("c.8xp") == Some(g), "{what}: second round trip differs");
        }
        Ok(())
    };
    let mut combos = vec![];
    for h in HEADERS {
        for t in TYPES {
            for ds in DESTS {
                combos.push((h, t.0, ds.0));
            }
        }
    }
    c.section("headers", combos.len() * c.n(20, 120), c.n(40, 250) as u64, |w, rng, i| {
        let (h, t, ds) = combos[i % combos.len()];
        let mut p = gen::prog_for(rng, h, 60);
        p.ptype = t;
        p.dest = ds;
        let (d, e) = (1 + (i / combos.len()) % 2, (i / combos.len() / 2) % 3);
        case(w, rng, &mut p, d, e)
    });
    c.section("line ends and comments", c.n(1500, 15000), c.n(20, 120) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 0);
        p.body = (0..rng.below(7)).map(|_| *rng.pick(&[0x3Fu8, 0x3F, 0x3F, 0x41, 0x29])).collect();
        p.comment = match i % 4 {
            0 => (0..rng.below(43)).map(|_| *rng.pick(&[0x0Au8, 0x0D, 0x20, 0x41])).collect(),
            1 => b"Program\nRAM\npretty\nTI-82\nX".to_vec(),
            2 => (0..42).map(|_| rng.byte()).collect(),
            _ => gen::comment(rng),
        };
        let d = 1 + rng.below(2);
        case(w, rng, &mut p, d, i % 3)
    });
    // every token, once or several times, around line ends
    c.section("every token around line ends", 25 * 6, 0, |w, rng, i| {
        let m = &MODELS[i % 25];
        let mut p = gen::prog_for(rng, HEADERS[0], 1);
        for _ in 0..200 {
            if p.model().unwrap().name == m.name {
                break;
            }
            let h = *rng.pick(&HEADERS);
            p = gen::prog_for(rng, h, 1);
        }
        let t = p.table();
        p.body = vec![];
        let mut toks: Vec<&Tok> = t.toks.iter().collect();
        rng.shuffle(&mut toks);
        for x in toks {
            for _ in 0..[1, 2, 3, 2, 4, 1][i / 25] {
                p.body.extend(&x.key);
            }
            match rng.below(3) {
                0 => p.body.extend([0x41, 0x3F]),
                1 => p.body.extend([0x3F, 0x3F]),
                _ => p.body.push(0x3F),
            }
        }
        w.seen("models of all tokens around line ends", p.model().unwrap().name);
        let d = 1 + i / 25 % 2;
        case(w, rng, &mut p, d, i % 3)
    });
    c.section("random programs", c.n(3000, 40000), c.n(30, 300) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 250);
        let d = 1 + rng.below(2);
        case(w, rng, &mut p, d, i % 3)
    });
    c.section("names", c.n(600, 5000), 0, |w, rng, i| {
        let mut p = gen::prog(rng, 10);
        p.name = gen::alpha_name(rng, 1, 8);
        p.name.truncate(1 + i % 8);
        if rng.chance(1, 3) {
            for b in p.name.iter_mut() {
                if rng.chance(1, 2) {
                    *b |= 0x20;
                }
            }
        }
        w.seen("name lengths", p.name.len().to_string());
        let d = 1 + rng.below(2);
        case(w, rng, &mut p, d, i % 3)
    });
    let lens = [200, 255, 256, 1000, 5000, 20000, 33000, 65000];
    c.section("long programs", c.n(32, 192), c.n(80, 300) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 0);
        let n = lens[i % lens.len()];
        p.body = if rng.chance(1, 2) { gen::body_lines(rng, &p.table(), n) } else { gen::body_exact(rng, &p.table(), n) };
        case(w, rng, &mut p, ACC, (i / lens.len()) % 2)
    });
}

// ------------------------------------------------------------------ C07

fn strs_of(a: &[&str]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}
/// options that say how programs and texts are read, which a json does not need
fn idle(k: u32) -> Vec<&'static str> {
    match k % 6 {
        0 | 1 => vec![],
        2 => vec!["-d", "pretty", "-e", "max"],
        3 => vec!["-e", "min", "-d", "ti"],
        4 => vec!["-d", "accessible"],
        _ => vec!["-d", "ti"],
    }
}
pub fn c07(c: &Ctx) {
    let route = |w: &mut W, f: &[u8], ext: &str, well: bool, d: usize, key: &str| -> Res {
        let i = format!("a.{ext}");
        w.put(&i, f);
        let what = format!("{key} {ext} file of {} bytes as {}", f.len(), DISP[d]);
        w.judged(true, &[f, ext.as_bytes(), &[d as u8]].concat(), || what.clone());
        w.seen("format, display", format!("{ext} {}", DISP[d]));
        let before = w.snap();
        let r0 = w.run(&["convert", &i, "-o", "direct.txt", "-d", DISP[d]]);
        let r = w.run(&["convert", &i, "-o", "a.json", "-d", DISP[d]]);
        if !r0.ok() {
            w.rm("direct.txt");
            return refused(w, &r, &before, &format!("{what}: unreadable"));
        }
        w.count("readable files", 1);
        done(&r, &format!("{what}: to json"))?;
        let Some(j) = w.get("a.json") else { bad!("{what}: no json") };
        let o = format!("b.{ext}");
        let k = f.iter().fold(d as u32, |k, b| k.wrapping_mul(31).wrapping_add(*b as u32)) >> 7;
        let with = |a: &[&str], k: u32| [strs_of(a), strs_of(&idle(k))].concat();
        w.seen("options beside a json", idle(k).join(" "));
        let r = w.run(&crate::p_edit::strs(&with(&["convert", "a.json", "-o", &o], k)));
        done(&r, &format!("{what}: back from json"))?;
        let g = w.get(&o).unwrap_or_default();
        if well || ext == "8xp" {
            ensure!(g == f, "{what}: bytes differ after json, {}", part(&g, f));
        }
        let r = w.run(&crate::p_edit::strs(&with(&["convert", "a.json", "-o", "via.txt"], k / 6)));
        done(&r, &format!("{what}: json to txt"))?;
        let (x, y) = (w.get("via.txt").unwrap_or_default(), w.get("direct.txt").unwrap_or_default());
        ensure!(x == y, "{what}: txt through json differs, {}", part(&x, &y));
        let r = w.run(&crate::p_edit::strs(&with(&["convert", "a.json", "-o", "b.json"], k / 36)));
        done(&r, &format!("{what}: json to json"))?;
        ensure!(w.get("b.json") == Some(j.clone()), "{what}: json to json changed it");
        let Ok(v) = serde_json::from_slice::<Value>(&j) else { bad!("{what}: invalid json") };
        let _ = v;
        Ok(())
    };
    c.section("programs", c.n(3000, 30000), c.n(40, 300) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 120);
        if rng.chance(1, 3) {
            p.name = (0..8).map(|_| rng.byte()).collect();
        }
        let fmt = if rng.chance(1, 2) { Fmt::P8 } else { Fmt::ALL[i % 3] };
        let f = p.file(fmt);
        w.seen("models", p.model().unwrap().name);
        route(w, &f, fmt.ext(), true, rng.below(3), "well-formed")
    });
    c.section("odd 8xp files", c.n(2500, 25000), c.n(30, 200) as u64, |w, rng, _| {
        let p = gen::prog(rng, 60);
        let mut f = gen::odd_8xp(rng, &p);
        if rng.chance(1, 10) {
            let n = rng.below(f.len());
            f.truncate(n);
        }
        route(w, &f, "8xp", false, rng.below(3), "odd")
    });
    c.section("large programs", c.n(10, 60), c.n(60, 200) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 0);
        p.body = gen::body_exact(rng, &p.table(), [65516, 65515, 40000, 32768, 10000][i % 5]);
        let fmt = Fmt::ALL[(i / 5) % 3];
        let f = p.file(fmt);
        route(w, &f, fmt.ext(), true, rng.below(3), "large")
    });
    c.section("texts", c.n(3000, 30000), c.n(30, 250) as u64, |w, rng, i| {
        let m = &MODELS[i % 25];
        let t = table(m.order);
        let d = rng.below(3);
        let e = rng.below(3);
        let text = gen::token_text(rng, &t, d, 60);
        let (f, want) = random_txt(rng, m, d, text.clone());
        w.put("a.txt", &f);
        let what = format!("{} {} text {}", m.name, DISP[d], shows(&text));
        w.judged(true, &[&f[..], &[e as u8]].concat(), || what.clone());
        let fmt = *rng.pick(&Fmt::ALL);
        let (o1, o2) = (format!("d.{}", fmt.ext()), format!("j.{}", fmt.ext()));
        let r0 = w.run(&["convert", "a.txt", "-o", &o1, "-e", ENC[e]]);
        let before = w.snap();
        // the display mode of a text is the one in the text
        let mut a = vec!["convert", "a.txt", "-o", "a.json", "-e", ENC[e]];
        if rng.chance(1, 2) {
            a.extend(["-d", *rng.pick(&DISP)]);
        }
        let r = w.run(&a);
        if !r0.ok() {
            return refused(w, &r, &before, &what);
        }
        w.seen("text models", m.name);
        done(&r, &format!("{what}: to json"))?;
        let r = w.run(&["convert", "a.json", "-o", &o2]);
        done(&r, &format!("{what}: json to {}", fmt.ext()))?;
        let (x, y) = (w.get(&o2).unwrap_or_default(), w.get(&o1).unwrap_or_default());
        ensure!(x == y, "{what}: program through json differs, {}", part(&x, &y));
        let r = w.run(&["convert", "a.json", "-o", "b.txt"]);
        done(&r, &format!("{what}: json to txt"))?;
        let Some(b) = w.get("b.txt").and_then(|b| parse_txt(&b)) else { bad!("{what}: no txt") };
        ensure!(b.head[0] == want.name_str(), "{what}: name {:?}", b.head[0]);
        ensure!(b.head[2] == type_name(want.ptype).unwrap() && b.head[3] == dest_name(want.dest).unwrap(), "{what}: type or destination changed: {:?}", b.head);
        ensure!(b.head[4] == DISP[d], "{what}: display mode became {:?}", b.head[4]);
        ensure!(b.head[5] == m.name, "{what}: model became {:?}", b.head[5]);
        // the text before or after normalisation of theta
        ensure!(b.body == text || b.body == normalize(&text), "{what}: text changed, {}", parts(&b.body, &text));
        // and encodes to the same program again
        let o3 = format!("k.{}", fmt.ext());
        let r = w.run(&["convert", "b.txt", "-o", &o3, "-e", ENC[e]]);
        done(&r, &format!("{what}: txt from json"))?;
        ensure!(w.get(&o3) == Some(y), "{what}: program from the txt of the json differs");
        Ok(())
    });
    c.section("json of wrong size", c.n(400, 3000), 0, |w, rng, i| {
        let p = gen::prog(rng, 20);
        w.put("a.8xp", &p.file(Fmt::P8));
        w.run(&["convert", "a.8xp", "-o", "a.json"]);
        let Some(Ok(mut v)) = w.get("a.json").map(|b| serde_json::from_slice::<Value>(&b)) else { bad!("no json") };
        let k = ["header", "metadata", "checksum"][i % 3];
        let Some(a) = v[k]["bytes"].as_array_mut() else { bad!("json without the bytes of the {k}") };
        let n = a.len();
        let to = *rng.pick(&[0, 1, n - 1, n + 1, n * 2, n + 100]);
        a.resize(to, Value::from(0));
        w.put("b.json", serde_json::to_string(&v).unwrap().as_bytes());
        let before = w.snap();
        let out = *rng.pick(&["o.8xp", "o.txt", "o.83p", "o.json", "o.82p"]);
        let r = w.run(&["convert", "b.json", "-o", out]);
        let what = format!("{k} of {to} bytes -> {out}");
        w.judged(true, &[what.as_bytes(), &p.file(Fmt::P8)].concat(), || what.clone());
        refused(w, &r, &before, &what)
    });
}

// ------------------------------------------------------------------ C16 (command line part)

/// versions of the sheet, and versions just before and after them
fn versions() -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "latest".into(), "0".into(), "1".into(), "1.2".into(), "1.9".into(), "1.10".into(), "2.100".into(), "4.5".into(), "5".into(), "5.9.9.9".into(), "10.0".into(), "99".into()];
    for s in &sheet().versions {
        v.push(s.clone());
        let p: Vec<u32> = s.split('.').map(|x| x.parse().unwrap_or(0)).collect();
        if s.is_empty() || s == "latest" {
            continue;
        }
        for i in 0..p.len() {
            for d in [-1i64, 1, 9] {
                let mut q = p.clone();
                if q[i] as i64 + d < 0 {
                    continue;
                }
                q[i] = (q[i] as i64 + d) as u32;
                v.push(q.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."));
            }
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
pub fn c16(c: &Ctx) {
    let s = sheet();
    let vers = versions();
    let lib = c.scratch.join("libcheck");
    if lib.exists() {
        let chunk = 10;
        let per = (vers.len() + chunk - 1) / chunk;
        c.section("token sets of the library", MODELS.len() * per, 0, |w, _, i| {
            let m = &MODELS[i / per];
            let vs = &vers[(i % per) * chunk..((i % per + 1) * chunk).min(vers.len())];
            let o = std::process::Command::new(&lib).arg(m.name).args(vs).env_clear().output();
            let Ok(o) = o else { skip!("libcheck does not run") };
            ensure!(o.status.success(), "{}: loading the tokens failed: {}", m.name, shows(&String::from_utf8_lossy(&o.stderr)));
            let text = String::from_utf8_lossy(&o.stdout).into_owned();
            for (v, line) in vs.iter().zip(text.lines()) {
                let Ok(got) = serde_json::from_str::<Value>(line) else { bad!("{} {v}: {}", m.name, shows(line)) };
                let t = Table::build(&(m.order, v.clone()));
                let what = format!("library, {} version {v:?}", m.name);
                w.judged(true, what.as_bytes(), || format!("{what}: {} tokens", t.toks.len()));
                w.seen("library versions", v.clone());
                w.count("library tokens compared", t.toks.len() as u64);
                let Some(got) = got.as_object() else { bad!("{what}: no tokens loaded") };
                let mut n = 0;
                for (k, x) in got {
                    let Some(k) = k.strip_suffix(" en") else { continue };
                    n += 1;
                    let key: Vec<u8> = k.split('$').skip(1).map(|h| u8::from_str_radix(h, 16).unwrap_or(0)).collect();
                    let Some(e) = t.tok(&key) else { bad!("{what}: has the token {k}, which it should not") };
                    for d in 0..3 {
                        ensure!(x[d].as_str() == Some(&e.text[d]), "{what}: {k} is {:?} instead of {:?}", x[d], e.text[d]);
                    }
                }
                if n != t.toks.len() {
                    for x in &t.toks {
                        let k: String = x.key.iter().map(|b| format!("${b:02X}")).collect();
                        ensure!(got.contains_key(&format!("{k} en")), "{what}: lacks the token {k}");
                    }
                }
            }
            Ok(())
        });
    } else {
        eprintln!("  library part not built, only the command line is checked");
    }
    let keys: Vec<&Vec<u8>> = s.tokens.keys().collect();
    // decoding accepts exactly the available tokens
    let mut jobs = vec![];
    for h in HEADERS {
        let t = table(header_model(h.0.as_bytes(), h.1).unwrap().order);
        for k in &keys {
            // tokens no model lacks are covered by the full files below
            if t.tok(k).is_none() || c.thorough {
                jobs.push((h, (*k).clone()));
            }
        }
    }
    c.section("unavailable tokens", jobs.len(), c.n(60, 200) as u64, |w, rng, i| {
        let (h, k) = &jobs[i];
        let mut p = gen::prog_for(rng, *h, 0);
        p.body = k.clone();
        let t = p.table();
        let fmt = *rng.pick(&Fmt::ALL);
        let d = rng.below(3);
        let inp = format!("a.{}", fmt.ext());
        w.put(&inp, &p.file(fmt));
        let before = w.snap();
        let r = w.run(&["convert", &inp, "-o", "o.txt", "-d", DISP[d]]);
        let what = format!("{} token {}", p.model().unwrap().name, show(k));
        w.judged(true, what.as_bytes(), || what.clone());
        w.seen("models decoded", p.model().unwrap().name);
        match t.tok(k) {
            None => {
                w.count("unavailable tokens refused", 1);
                refused(w, &r, &before, &what)
            }
            Some(x) => {
                done(&r, &what)?;
                let b = w.get("o.txt").and_then(|b| parse_txt(&b)).map(|t| t.body);
                ensure!(b.as_deref() == Some(&x.text[d]), "{what}: shown as {b:?} instead of {:?}", x.text[d]);
                Ok(())
            }
        }
    });
    c.section("all available tokens decode", HEADERS.len() * 3, 0, |w, rng, i| {
        let mut p = gen::prog_for(rng, HEADERS[i / 3], 0);
        let t = p.table();
        p.body = t.toks.iter().flat_map(|t| t.key.clone()).collect();
        let d = i % 3;
        w.put("a.8xp", &p.file(Fmt::P8));
        let r = w.run(&["convert", "a.8xp", "-o", "o.txt", "-d", DISP[d]]);
        let what = format!("{} all tokens", p.model().unwrap().name);
        w.judged(true, format!("{what}{d}").as_bytes(), || what.clone());
        w.count("available tokens decoded", t.toks.len() as u64);
        done(&r, &what)?;
        let b = w.get("o.txt").and_then(|b| parse_txt(&b)).map(|t| t.body).unwrap_or_default();
        let e = t.decode(&p.body, d).unwrap();
        ensure!(b == e, "{what}: {}", parts(&b, &e));
        Ok(())
    });
    // encoding for each of the 25 models: available names encode to their token, names of
    // unavailable tokens do not
    c.section("all available names encode", 25 * 3, 0, |w, rng, i| {
        let m = &MODELS[i / 3];
        let d = i % 3;
        let t = table(m.order);
        let l: Vec<&Tok> = t.toks.iter().filter(|x| !x.text[d].contains('\n') && t.longest(&x.text[d], d).map(|y| y.key == x.key).unwrap_or(false)).collect();
        let text = l.iter().map(|x| x.text[d].as_str()).collect::<Vec<_>>().join("\n");
        let want: Vec<u8> = l.iter().map(|x| x.key.clone()).collect::<Vec<_>>().join(&0x3F);
        let f = txt_bytes("A", "Program", "RAM", &TxtCase { model: m, d, text }, 0, rng);
        w.put("a.txt", &f);
        let r = w.run(&["convert", "a.txt", "-o", "o.8xp", "-e", "max"]);
        let what = format!("{} all names {}", m.name, DISP[d]);
        w.judged(true, what.as_bytes(), || what.clone());
        w.seen("models encoded", m.name);
        w.count("available names encoded", l.len() as u64);
        done(&r, &what)?;
        let f = w.get("o.8xp").unwrap_or_default();
        let b = if f.len() > 76 { f[74..f.len() - 2].to_vec() } else { vec![] };
        ensure!(b == want, "{what}: {}", part(&b, &want));
        Ok(())
    });
    let mut jobs = vec![];
    for m in &MODELS {
        let t = table(m.order);
        for (k, es) in &s.tokens {
            if t.tok(k).is_none() {
                for e in es {
                    jobs.push((m, k.clone(), &e.text));
                }
            }
        }
    }
    c.section("unavailable names", c.n(1500, jobs.len()), c.n(30, 200) as u64, |w, rng, i| {
        let (m, k, text) = if c.thorough { &jobs[i] } else { rng.pick(&jobs) };
        let d = rng.below(3);
        let t = table(m.order);
        let f = txt_bytes("A", "Program", "RAM", &TxtCase { model: m, d, text: text[d].clone() }, 0, rng);
        w.put("a.txt", &f);
        let before = w.snap();
        let r = w.run(&["convert", "a.txt", "-o", "o.8xp", "-e", "max"]);
        let what = format!("{} name {:?} of {}", m.name, text[d], show(k));
        w.judged(true, what.as_bytes(), || what.clone());
        match encode(&t, &text[d], d, Rule::Max) {
            None => {
                w.count("unavailable names refused", 1);
                refused(w, &r, &before, &what)
            }
            Some(b) => {
                // the name can be spelled with other tokens
                done(&r, &what)?;
                let f = w.get("o.8xp").unwrap_or_default();
                let g = if f.len() > 76 { f[74..f.len() - 2].to_vec() } else { vec![] };
                ensure!(g == b, "{what}: encoded as {} instead of {}", show(&g), show(&b));
                Ok(())
            }
        }
    });
}

// ------------------------------------------------------------------ C19

pub fn c19(c: &Ctx) {
    c.section("same program in three formats", c.n(2500, 30000), c.n(60, 350) as u64, |w, rng, i| {
        let mut p = gen::prog(rng, 100);
        if rng.chance(1, 4) {
            p.name = (0..rng.range(0, 8)).map(|_| *rng.pick(b"ABCXYZ019[")).collect();
        }
        if rng.chance(1, 60) {
            let n = *rng.pick(&[65516, 65515, 30000]);
            p.body = gen::body_exact(rng, &p.table(), n);
        }
        let mut ram = p.clone();
        ram.dest = 0;
        ram.version = 0;
        let fmt = [Fmt::P83, Fmt::P82][i % 2];
        let e = fmt.ext();
        let (small, big) = (p.file(fmt), ram.file(Fmt::P8));
        let inp = format!("a.{e}");
        w.put(&inp, &small);
        w.put("a.8xp", &p.file(Fmt::P8));
        w.put("ram.8xp", &big);
        let d = rng.below(3);
        let what = format!("{e} of {} {:?} body {}", p.model().unwrap().name, p.name_str(), show(&p.body));
        w.judged(true, &[&small[..], &[d as u8]].concat(), || what.clone());
        w.seen("format, model", format!("{e} {}", p.model().unwrap().name));
        // same text, name, comment, type and model
        done(&w.run(&["convert", &inp, "-o", "x.txt", "-d", DISP[d]]), &what)?;
        done(&w.run(&["convert", "ram.8xp", "-o", "y.txt", "-d", DISP[d]]), &what)?;
        let (x, y) = (w.get("x.txt").unwrap_or_default(), w.get("y.txt").unwrap_or_default());
        ensure!(x == y, "{what}: text differs from the 8xp's, {}", part(&x, &y));
        // container changes only, both ways
        let conv = |w: &mut W, from: &str, to: &str, want: &[u8]| -> Res {
            let r = w.run(&["convert", from, "-o", to]);
            done(&r, &format!("{what}: {from} -> {to}"))?;
            let g = w.get(to).unwrap_or_default();
            ensure!(g == want, "{what}: {from} -> {to}: {}", part(&g, want));
            w.seen("conversions", format!("{} {}", from.split('.').last().unwrap(), to.split('.').last().unwrap()));
            Ok(())
        };
        conv(w, &inp, "b.8xp", &big)?;
        conv(w, "a.8xp", &format!("c.{e}"), &small)?;
        conv(w, &inp, &format!("d.{e}"), &small)?;
        let other = if fmt == Fmt::P83 { Fmt::P82 } else { Fmt::P83 };
        conv(w, &inp, &format!("e.{}", other.ext()), &p.file(other))?;
        done(&w.run(&["convert", &inp, "-o", "j.json"]), &what)?;
        conv(w, "j.json", &format!("f.{e}"), &small)?;
        conv(w, "j.json", "g.8xp", &big)?;
        if rng.chance(1, 3) {
            // details agree, apart from the size of the file
            let a = w.run(&["details", &inp]).stdout();
            let b = w.run(&["details", "ram.8xp"]).stdout();
            let f = |s: &str| s.lines().filter(|l| !l.starts_with("Total")).map(|l| l.to_string()).collect::<Vec<_>>();
            ensure!(f(&a) == f(&b), "{what}: details differ: {a:?} and {b:?}");
        }
        Ok(())
    });
    c.section("text to the formats", c.n(800, 8000), c.n(20, 120) as u64, |w, rng, i| {
        let m = &MODELS[i % 25];
        let t = table(m.order);
        let text = gen::token_text(rng, &t, ACC, 40);
        let (f, _) = random_txt(rng, m, ACC, text);
        w.put("a.txt", &f);
        let what = format!("{} text", m.name);
        let r = w.run(&["convert", "a.txt", "-o", "a.8xp"]);
        if !r.ok() {
            return Ok(());
        }
        w.judged(true, &f, || what.clone());
        let p = match well_formed(&w.get("a.8xp").unwrap_or_default(), Fmt::P8) {
            Ok(p) => p,
            Err(e) => bad!("{what}: 8xp not well formed: {e}"),
        };
        for fmt in [Fmt::P83, Fmt::P82] {
            let o = format!("b.{}", fmt.ext());
            done(&w.run(&["convert", "a.txt", "-o", &o]), &what)?;
            let (g, e) = (w.get(&o).unwrap_or_default(), p.file(fmt));
            ensure!(g == e, "{what} -> {}: {}", fmt.ext(), part(&g, &e));
        }
        Ok(())
    });
    // the metadata of the small formats has no version and no destination, whatever its other bytes are
    c.section("odd metadata", c.n(1500, 15000), c.n(20, 120) as u64, |w, rng, i| {
        let p = gen::prog(rng, 30);
        let fmt = [Fmt::P83, Fmt::P82][i % 2];
        let inp = format!("a.{}", fmt.ext());
        let mut f = p.file(fmt);
        let n = f.len();
        let mut odd = vec![];
        for _ in 0..rng.range(1, 3) {
            let (k, name) = *rng.pick(&[(8usize, "signature end"), (53, "length"), (54, "length"), (55, "flag"), (56, "second byte"), (57, "body length"), (58, "body length"), (68, "length copy"), (69, "length copy"), (70, "inner length"), (71, "inner length"), (n - 2, "checksum"), (n - 1, "checksum")]);
            let b = rng.byte();
            f[k] = *rng.pick(&[0, 1, 2, 0x0B, 0x0D, 0x80, 0xFF, b]);
            odd.push(name);
        }
        w.put(&inp, &f);
        let what = format!("{} with odd {}", fmt.ext(), odd.join(", "));
        let r = w.run(&["convert", &inp, "-o", "o.8xp"]);
        w.judged(true, &f, || what.clone());
        odd.iter().for_each(|o| w.seen("odd bytes", format!("{} {o}", fmt.ext())));
        if r.watchdog() {
            skip!("watchdog");
        }
        if !r.ok() {
            return Ok(()); // it may be refused, but not be misread
        }
        let g = w.get("o.8xp").unwrap_or_default();
        let mut q = p.clone();
        (q.version, q.dest) = (0, 0);
        let e = q.file(Fmt::P8);
        ensure!(g.len() == e.len() && g[11..53] == e[11..53] && g[59..e.len() - 2] == e[59..e.len() - 2], "{what} -> 8xp: {}", part(&g, &e));
        Ok(())
    });
    // towards the small formats, the lengths are those of the program whatever the 8xp said
    c.section("odd 8xp files", c.n(1200, 12000), c.n(20, 120) as u64, |w, rng, i| {
        let p = gen::prog(rng, 30);
        let f = gen::odd_8xp(rng, &p);
        let fmt = [Fmt::P83, Fmt::P82][i % 2];
        let out = format!("o.{}", fmt.ext());
        w.put("a.8xp", &f);
        let what = format!("odd 8xp -> {}", fmt.ext());
        let r = w.run(&["convert", "a.8xp", "-o", &out]);
        w.judged(true, &f, || what.clone());
        if r.watchdog() {
            skip!("watchdog");
        }
        if !r.ok() {
            return Ok(()); // it may be refused, but not be written wrongly
        }
        let g = w.get(&out).unwrap_or_default();
        let (n, k) = (f.len() - 76, g.len());
        ensure!(k + 2 == f.len(), "{what}: {k} bytes from {}", f.len());
        ensure!(g[..53] == f[..53], "{what}: the head: {}", part(&g[..53], &f[..53]));
        ensure!(g[53..55] == (n as u16 + 17).to_le_bytes(), "{what}: the length is {:02X?} for a body of {n} bytes", &g[53..55]);
        ensure!(g[55] == 0x0B && g[59..68] == f[59..68], "{what}: the metadata: {}", part(&g[55..72], &f[55..74]));
        ensure!(g[72..k - 2] == f[74..f.len() - 2], "{what}: the body: {}", part(&g[72..k - 2], &f[74..f.len() - 2]));
        let sum = g[55..k - 2].iter().fold(0u16, |s, b| s.wrapping_add(*b as u16));
        ensure!(g[k - 2..] == sum.to_le_bytes(), "{what}: the checksum is {:02X?} instead of {sum:04X}", &g[k - 2..]);
        w.count("odd 8xp files to small formats", 1);
        Ok(())
    });
    // edits of the small formats keep the container
    c.section("edits", c.n(1200, 12000), c.n(20, 120) as u64, |w, rng, i| {
        let p = gen::prog(rng, 40);
        let fmt = [Fmt::P83, Fmt::P82][i % 2];
        let e = fmt.ext();
        let inp = format!("a.{e}");
        let out = format!("b.{e}");
        w.put(&inp, &p.file(fmt));
        let mut q = p.clone();
        let k = rng.below(6);
        let name;
        let args: Vec<&str> = match k {
            0 => {
                q.name = gen::alpha_name(rng, 1, 8);
                name = q.name_str();
                vec!["rename", &inp, "-n", &name, "-f", &out]
            }
            1 => {
                q.comment = gen::alpha_name(rng, 1, 42);
                name = q.comment_str();
                vec!["comment", &inp, "-c", &name, "-f", &out]
            }
            2 => {
                q.ptype = 6;
                vec!["lock", &inp, "-f", &out]
            }
            3 => {
                q.ptype = 5;
                vec!["unlock", &inp, "-f", &out]
            }
            4 => vec!["archive", &inp, "-f", &out],
            _ => vec!["unarchive", &inp, "-f", &out],
        };
        let what = format!("{} of {e}", args[0]);
        let r = w.run(&args);
        w.judged(true, &[&p.file(fmt)[..], what.as_bytes()].concat(), || what.clone());
        w.seen("edits", what.clone());
        done(&r, &what)?;
        let (g, x) = (w.get(&out).unwrap_or_default(), q.file(fmt));
        ensure!(g == x, "{what}: {}", part(&g, &x));
        Ok(())
    });
}

// ------------------------------------------------------------------ C21

pub fn c21(c: &Ctx) {
    let out_of = |s: &str, k: &str| -> Option<String> {
        s.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim_start_matches(':').trim().to_string()))
    };
    c.section("text models", 25 * c.n(18, 60), 0, |w, rng, i| {
        let m = &MODELS[i % 25];
        let t = table(m.order);
        let fmt = Fmt::ALL[(i / 25) % 3];
        let text = if rng.chance(1, 2) { "A".to_string() } else { gen::token_text(rng, &t, ACC, 10) };
        let (f, _) = random_txt(rng, m, ACC, text);
        w.put("a.txt", &f);
        let o = format!("o.{}", fmt.ext());
        let what = format!("text for {} -> {}", m.name, fmt.ext());
        let r = w.run(&["convert", "a.txt", "-o", &o]);
        if !r.ok() && m.order < 30 {
            return Ok(());
        }
        w.judged(true, &f, || what.clone());
        w.seen("models", m.name);
        done(&r, &what)?;
        let g = w.get(&o).unwrap_or_default();
        ensure!(g.len() > 11 && &g[0..8] == m.sig.as_bytes() && g[8..10] == [0x1A, 0x0A] && g[10] == m.pid, "{what}: header {} instead of {} {:02X}", show(&g[..g.len().min(11)]), m.sig, m.pid);
        // json keeps the exact model and its language
        done(&w.run(&["convert", "a.txt", "-o", "a.json"]), &what)?;
        done(&w.run(&["convert", "a.json", "-o", "b.txt"]), &what)?;
        let b = w.get("b.txt").and_then(|b| parse_txt(&b));
        ensure!(b.as_ref().map(|b| b.head[5].as_str()) == Some(m.name), "{what}: model after json {:?}", b.map(|b| b.head));
        let pv = w.run(&["convert", "a.txt", "-c"]).stdout();
        ensure!(out_of(&pv, "model").as_deref() == Some(m.name) && out_of(&pv, "language").as_deref() == Some(m.lang), "{what}: content shows model {:?} language {:?}", out_of(&pv, "model"), out_of(&pv, "language"));
        // back and forth
        done(&w.run(&["convert", &o, "-o", "c.txt"]), &what)?;
        let x = w.get("c.txt").and_then(|b| parse_txt(&b));
        let hm = header_model(m.sig.as_bytes(), m.pid).unwrap();
        ensure!(x.as_ref().map(|x| x.head[5].as_str()) == Some(hm.name), "{what}: read as {:?} instead of {}", x.map(|x| x.head), hm.name);
        let o2 = format!("p.{}", fmt.ext());
        done(&w.run(&["convert", "c.txt", "-o", &o2]), &what)?;
        let g2 = w.get(&o2).unwrap_or_default();
        ensure!(g2.len() > 11 && g2[0..11] == g[0..11], "{what}: header after the round trip {}", show(&g2[..g2.len().min(11)]));
        Ok(())
    });
    c.section("unknown model names", 25 * c.n(26, 100), 0, |w, rng, i| {
        let m = &MODELS[i % 25];
        let n = m.name;
        let name = match i / 25 % 26 {
            0 => format!("{n} "),
            1 => format!(" {n}"),
            2 => format!("{n}X"),
            3 => n.to_lowercase(),
            4 => n.to_uppercase(),
            5 => n.replace('-', ""),
            6 => n.replace("TI-", ""),
            7 => n.replace("TI-", "TI - "),
            8 => n[..n.len() - 1].to_string(),
            9 => format!("{n}.fr"),
            10 => format!("{n}\t"),
            11 => format!("\u{feff}{n}"),
            12 => n.replace('+', " Plus"),
            13 => format!("{n} {n}"),
            14 => n.replace('-', "\u{2010}"),
            15 => n.replace("A", " Advanced"),
            16 => n.replace("SE", " Silver Edition"),
            17 => n.replace("SE", " SE").replace("CE", " CE"),
            18 => n.replace('+', "Plus"),
            19 => n.replace('+', " Plus ").trim().to_string(),
            20 => n.replace('.', ""),
            21 => n.replace('.', " "),
            22 => format!("Texas Instruments {n}"),
            23 => n.replace("ST", " Stats"),
            24 => match m.name.strip_suffix('A') {
                Some(x) => format!("{x} Advanced"),
                None => format!("{} Premium CE", &n[..5.min(n.len())]),
            },
            _ => ["", "TI", "8X", "TI-84 Plus CE", "TI-99", "0", "**TI83F*", "TI84PlusCE"][rng.below(8)].to_string(),
        };
        if MODELS.iter().any(|m| m.name == name) {
            return Ok(());
        }
        let f = txt_file("A", "", "Program", "RAM", "accessible", &name, "Disp 1", true);
        w.put("a.txt", f.as_bytes());
        let what = format!("text for {name:?}");
        let r = w.run(&["convert", "a.txt", "-o", "o.8xp"]);
        w.judged(true, what.as_bytes(), || what.clone());
        w.seen("unknown model names", &name);
        done(&r, &what)?;
        let g = w.get("o.8xp").unwrap_or_default();
        ensure!(g.len() > 11 && &g[0..8] == b"**TI83F*" && g[10] == 0, "{what}: header {} instead of the one of the latest model", show(&g[..g.len().min(11)]));
        let pv = w.run(&["convert", "a.txt", "-c"]).stdout();
        ensure!(out_of(&pv, "model").as_deref() == Some("latest"), "{what}: content shows model {:?}", out_of(&pv, "model"));
        Ok(())
    });
    let sigs: Vec<Vec<u8>> = vec![b"**TI82**".to_vec(), b"**TI83**".to_vec(), b"**TI83F*".to_vec()];
    let others = [
        "**TI73**", "**TI81**", "**TI84**", "**TI85**", "**TI86**", "**TI89**", "**TI92**", "**TI92P*", "**TI82F*", "**TI82A*", "**TI84F*", "**TI73F*", "**TI83P*", "**TI83+*",
        "**TI84+*", "**TI84C*", "**TI83F ", "**ti83f*", "**ti83**", " *TI83F*", "**TI83f*", "*TI83F**", "**TI83FR", "TI83F***", "**TI-83*", "DDDDDDDD", "**TI80**", "**TI83*\0",
    ];
    c.section("product ids", 256 * 3 * c.n(2, 6) + 8 * others.len() * c.n(6, 40), 0, |w, rng, i| {
        let known = 256 * 3 * c.n(2, 6);
        let pid = if i < known { i as u8 } else { [0, 0, 0, 4, 10, 11, 19, 9][i % 8] };
        let mut other = others[(i.max(known) - known) / 8 % others.len()].as_bytes().to_vec();
        if rng.chance(1, 4) {
            other[rng.below(8)] = rng.below(256) as u8;
        }
        let sig = if i < known { &sigs[(i / 256) % 3] } else { &other };
        let fmt = if rng.chance(1, 2) { Fmt::P8 } else { *rng.pick(&Fmt::ALL) };
        let mut p = gen::prog(rng, 0);
        p.body = b"A".to_vec();
        p.sig = sig.clone();
        p.pid = pid;
        let inp = format!("a.{}", fmt.ext());
        w.put(&inp, &p.file(fmt));
        let before = w.snap();
        let what = format!("signature {:?} product id {pid:02X} in {}", String::from_utf8_lossy(sig), fmt.ext());
        let k = rng.below(3);
        let r = match k {
            0 => w.run(&["convert", &inp, "-o", "o.txt"]),
            1 => w.run(&["details", &inp]),
            _ => w.run(&["lock", &inp, "-f", "o.8xp"]),
        };
        w.judged(true, format!("{what}{k}").as_bytes(), || what.clone());
        w.seen("product ids", format!("{pid:02X}"));
        let Some(m) = header_model(sig, pid) else {
            w.count("unknown product ids refused", 1);
            return refused(w, &r, &before, &what);
        };
        done(&r, &what)?;
        match k {
            0 => {
                let t = w.get("o.txt").and_then(|b| parse_txt(&b));
                ensure!(t.as_ref().map(|t| t.head[5].as_str()) == Some(m.name), "{what}: read as {:?} instead of {}", t.map(|t| t.head), m.name);
            }
            1 => {
                let s = r.stdout();
                ensure!(out_of(&s, "model").as_deref() == Some(m.name), "{what}: details show model {:?} instead of {}", out_of(&s, "model"), m.name);
                ensure!(out_of(&s, "language").as_deref() == Some(m.lang), "{what}: language {:?} instead of {}", out_of(&s, "language"), m.lang);
            }
            _ => {
                let g = w.get("o.8xp").unwrap_or_default();
                ensure!(g.len() > 11 && &g[0..8] == &sig[..] && g[10] == pid, "{what}: header changed to {}", show(&g[..g.len().min(11)]));
            }
        }
        Ok(())
    });
    c.section("models command", 3, 0, |w, _, i| {
        let r = w.run(&[&["models"][..], &["models", "x"], &["models", "-z"]][i]);
        w.judged(true, &[i as u8], || "models".into());
        done(&r, "models")?;
        let s = r.stdout();
        let lines: Vec<&str> = s.lines().map(|l| l.trim()).filter(|l| MODELS.iter().any(|m| m.name == *l)).collect();
        for m in &MODELS {
            ensure!(lines.iter().filter(|l| **l == m.name).count() == 1, "models: {} is not listed exactly once", m.name);
        }
        // no other model: apart from a heading every line is one of them
        let other = s.lines().filter(|l| !l.trim().is_empty() && !MODELS.iter().any(|m| m.name == l.trim())).count();
        ensure!(other <= 1, "models lists {other} other lines: {s:?}");
        Ok(())
    });
}
