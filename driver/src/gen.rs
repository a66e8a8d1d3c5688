//! Workload generators.
use crate::rng::Rng;
use crate::spec::*;

/// key bytes of tokens that drive the encoder's state or are often ambiguous
const HOT: &[&[u8]] = &[
    &[0x2A], &[0x2A], &[0x2A], &[0x04], &[0x04], &[0x5F], &[0x5F], &[0xEB], &[0xEB], &[0x3F], &[0x3F], &[0xE7], &[0x29],
    &[0x3E], &[0x2B], &[0x11], &[0x10], &[0x71], &[0x70], &[0xB0], &[0x6A], &[0x6C], &[0x6B],
];

pub fn letter(rng: &mut Rng) -> u8 {
    rng.range(0x41, 0x5A) as u8
}
pub fn alpha_name(rng: &mut Rng, min: usize, max: usize) -> Vec<u8> {
    let n = rng.range(min, max);
    (0..n).map(|_| letter(rng)).collect()
}
/// random body as token keys; every key is in the table
pub fn body(rng: &mut Rng, t: &Table, max: usize) -> Vec<u8> {
    let n = match rng.below(10) {
        0 => rng.below(4),
        1..=6 => rng.below(40.min(max + 1)),
        _ => rng.below(max + 1),
    };
    let mut out: Vec<u8> = Vec::new();
    let profile = rng.below(7);
    let mut k = 0;
    if profile == 6 {
        // runs of one token, often at the start of a line
        const RUN: &[u8] = &[0x29, 0x29, 0x29, 0x83, 0x2A, 0x3A, 0x3E, 0x2B, 0x10, 0x11, 0x5F, 0x71, 0x70, 0x04, 0x3F, 0xAE, 0x2D, 0xAF];
        while k < n {
            if rng.chance(1, 2) {
                out.push(0x3F);
            }
            let key = if rng.chance(2, 3) { vec![*rng.pick(RUN)] } else { rng.pick(&t.toks).key.clone() };
            if t.tok(&key).is_some() {
                for _ in 0..rng.range(1, 6) {
                    out.extend(&key);
                    k += 1;
                }
            }
            for _ in 0..rng.below(4) {
                out.push(letter(rng));
                k += 1;
            }
            k += 1;
        }
        return out;
    }
    while k < n {
        let r = rng.below(100);
        let key: Vec<u8> = match profile {
            0 => rng.pick(&t.toks).key.clone(),
            1 => {
                // code like: letters, digits, commands, line ends
                match r {
                    0..=39 => vec![letter(rng)],
                    40..=54 => vec![0x30 + rng.below(10) as u8],
                    55..=64 => vec![0x3F],
                    65..=84 => rng.pick(HOT).to_vec(),
                    _ => rng.pick(&t.toks).key.clone(),
                }
            }
            2 => {
                // strings
                match r {
                    0..=14 => vec![0x2A],
                    15..=19 => vec![0x04],
                    20..=24 => vec![0x3F],
                    25..=64 => vec![letter(rng)],
                    65..=74 => vec![0xBB, 0xB0 + rng.below(0x1B) as u8],
                    75..=79 => rng.pick(HOT).to_vec(),
                    _ => rng.pick(&t.toks).key.clone(),
                }
            }
            3 => {
                // names
                match r {
                    0..=14 => vec![0x5F],
                    15..=29 => vec![0xEB],
                    30..=64 => vec![letter(rng)],
                    65..=74 => vec![0x30 + rng.below(10) as u8],
                    75..=79 => vec![0x5B],
                    80..=84 => vec![0x3F],
                    _ => rng.pick(&t.toks).key.clone(),
                }
            }
            4 => {
                // two-byte tokens only
                let two: Vec<&Tok> = t.toks.iter().filter(|t| t.key.len() == 2).collect();
                rng.pick(&two).key.clone()
            }
            _ => {
                if r < 50 {
                    rng.pick(HOT).to_vec()
                } else {
                    rng.pick(&t.toks).key.clone()
                }
            }
        };
        if t.tok(&key).is_some() {
            out.extend(key);
            k += 1;
        } else if rng.chance(1, 20) {
            k += 1;
        }
    }
    out
}
/// body of exactly n bytes
pub fn body_exact(rng: &mut Rng, t: &Table, n: usize) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let heavy = rng.chance(1, 2);
    while out.len() < n {
        if out.len() % 61 == 60 {
            out.push(0x3F);
            continue;
        }
        let k = if heavy && rng.chance(3, 4) {
            // high byte values, so that the checksum wraps
            let hi: Vec<u8> = (0xE0..=0xFFu8).filter(|b| t.tok(&[*b]).is_some()).collect();
            vec![*rng.pick(&hi)]
        } else {
            rng.pick(&t.toks).key.clone()
        };
        if out.len() + k.len() <= n {
            out.extend(k);
        }
    }
    out
}
/// body of exactly n bytes in very many lines
pub fn body_lines(rng: &mut Rng, t: &Table, n: usize) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let empty = *rng.pick(&[1usize, 4, 10]);
    while out.len() < n {
        if rng.chance(empty, 10) || out.len() + 1 == n {
            out.push(0x3F);
        } else {
            let k = rng.pick(&t.toks).key.clone();
            if out.len() + k.len() < n {
                out.extend(k);
            }
            out.push(0x3F);
        }
    }
    out
}
/// characters that belong to no token (most of them), or look like white space or line ends
pub const ODD_CHARS: &[char] = &[
    '\t', '\u{b}', '\u{c}', '\r', '\0', '\u{1}', '\u{1b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', 'é', 'Ä', 'ß', '×', '÷', 'µ',
    '\u{300}', '\u{301}', '\u{345}', 'Α', 'А', '\u{1680}', '\u{180e}', '\u{2000}', '\u{2003}', '\u{2009}', '\u{200b}', '\u{200d}', '\u{200e}',
    '\u{2010}', '–', '—', '‘', '’', '“', '”', '„', '…', '\u{2028}', '\u{2029}', '\u{202e}', '\u{202f}', '′', '″', '\u{205f}', '\u{2060}', 'ⁱ',
    '₁', '←', '↑', '⇒', '−', '∗', '∼', '≠', '≤', '⊢', '\u{3000}', '。', '中', '\u{e000}', '\u{fb01}', '\u{fe0f}', '\u{feff}', 'Ａ', '１', '＂', '：',
    '\u{fffd}', '\u{ffff}', '😀', '𝐀', '\u{10ffff}', '\\', '`', '~', '@', '$', '%', '&', '#', '_', ';', '|', '^', '\'', '!', '?',
];
pub fn any_char(rng: &mut Rng) -> char {
    loop {
        let x = match rng.below(8) {
            0 => rng.below(0x80),
            1 => rng.range(0x80, 0x24F),
            2 => rng.range(0x250, 0x52F),
            3 => rng.range(0x1D00, 0x1FFF),
            4 => rng.range(0x2000, 0x2BFF),
            5 => rng.range(0xFB00, 0xFFFF),
            6 => rng.below(0x10000),
            _ => rng.below(0x110000),
        };
        if let Some(c) = char::from_u32(x as u32) {
            if c != '\n' {
                return c;
            }
        }
    }
}
/// prgm and list names: letters, digits, theta, then anything
pub fn name_text(rng: &mut Rng, t: &Table, d: usize) -> String {
    let mut keys: Vec<Vec<u8>> = vec![];
    for _ in 0..rng.range(1, 4) {
        if rng.chance(1, 3) {
            keys.push(rng.pick(&t.toks).key.clone());
        }
        keys.push(if rng.chance(1, 2) { vec![0x5F] } else { vec![0xEB] });
        for _ in 0..rng.below(9) {
            keys.push(match rng.below(8) {
                0 => vec![0x5B],
                1 | 2 => vec![0x30 + rng.below(10) as u8],
                _ => vec![letter(rng)],
            });
        }
        if rng.chance(2, 3) {
            keys.push(rng.pick(&[vec![0x3F], vec![0x3E], vec![0x2A], vec![0x04], vec![0x10], vec![0x2B], vec![0x29]]).clone());
        }
    }
    let text: String = keys.iter().filter_map(|k| t.tok(k)).map(|t| t.text[d].as_str()).collect();
    // a letter run right behind a name can spell a command
    if rng.chance(1, 4) {
        text.replace('A', ["LEFT", "GO", "SE", "PI", "AND"][rng.below(5)])
    } else {
        text
    }
}
/// strings: letters up to the closing quote, then the end of the line or an arrow; and arbitrary ones
pub fn string_text(rng: &mut Rng, t: &Table, d: usize) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 4) {
        if rng.chance(1, 2) {
            s.push_str(&rng.pick(&t.toks).text[d]);
        }
        s.push_str(&t.tok(&[0x2A]).unwrap().text[d]);
        for _ in 0..rng.below(8) {
            if rng.chance(1, 8) {
                s.push_str(&rng.pick(&t.toks).text[d]);
            } else {
                let k = letter(rng);
                s.push_str(&t.tok(&[k]).unwrap().text[d]);
                if rng.chance(1, 3) && d != TI {
                    s.push_str(*rng.pick(&["sin", "LEFT", "EFF", "nPr", "Ans", "and", "in", "or", "prgm"]));
                }
            }
        }
        match rng.below(5) {
            0 => s.push('\n'),
            1 => s.push_str(&t.tok(&[0x04]).unwrap().text[d]),
            2 => {
                s.push_str(&t.tok(&[0x2A]).unwrap().text[d]);
                s.push('\n')
            }
            _ => {
                s.push_str(&t.tok(&[0x2A]).unwrap().text[d]);
                s.push_str(&rng.pick(&t.toks).text[d]);
            }
        }
    }
    s
}
pub fn comment(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => 0,
        1 => 42,
        2 => 41,
        _ => rng.below(43),
    };
    match rng.below(4) {
        0 => (0..n).map(|_| rng.range(1, 255) as u8).collect::<Vec<u8>>(),
        1 => (0..n).map(|_| rng.range(0x80, 255) as u8).collect(),
        _ => (0..n).map(|_| rng.range(0x20, 0x7E) as u8).collect(),
    }
}
/// well-formed program with a header of a supported model
pub fn prog(rng: &mut Rng, max: usize) -> Prog {
    let h = *rng.pick(&HEADERS);
    prog_for(rng, h, max)
}
pub fn prog_for(rng: &mut Rng, h: (&str, u8), max: usize) -> Prog {
    let t = table(header_model(h.0.as_bytes(), h.1).unwrap().order);
    // now and then a long one, whatever it is for
    let large = max >= 20 && rng.chance(1, 150);
    let max = if large { *rng.pick(&[2000, 5000, 9000, 17000, 31000]) } else { max };
    Prog {
        sig: h.0.as_bytes().to_vec(),
        extra: [0x1A, 0x0A],
        pid: h.1,
        comment: comment(rng),
        ptype: rng.pick(&TYPES).0,
        name: alpha_name(rng, 1, 8),
        version: if rng.chance(1, 3) { rng.byte() } else { 0 },
        dest: rng.pick(&DESTS).0,
        body: body(rng, &t, max),
    }
}
/// Gives the program a body of letters and digits for which its file has this checksum.
pub fn with_sum(rng: &mut Rng, p: &mut Prog, fmt: Fmt, target: u16) {
    let t = p.table();
    let set: Vec<u8> = (0x41u8..=0x5A).filter(|b| t.tok(&[*b]).is_some()).collect();
    let (lo, hi) = (set[0] as usize, set[set.len() - 1] as usize);
    let mut n = rng.range(0, 60);
    loop {
        p.body = vec![lo as u8; n];
        let f = p.file(fmt);
        let have = u16::from_le_bytes([f[f.len() - 2], f[f.len() - 1]]);
        let mut more = target.wrapping_sub(have) as usize;
        if more <= n * (hi - lo) {
            while more > 0 {
                let i = rng.below(n);
                let d = (hi - p.body[i] as usize).min(more).min(rng.range(1, 12));
                p.body[i] += d as u8;
                more -= d;
            }
            debug_assert!(set.len() == hi - lo + 1);
            return;
        }
        n += 1;
    }
}
/// the 8xp file of a program with fields off the usual track, still readable
pub fn odd_8xp(rng: &mut Rng, p: &Prog) -> Vec<u8> {
    let mut f = p.file(Fmt::P8);
    let n = f.len();
    for _ in 0..rng.range(1, 4) {
        match rng.below(13) {
            12 => {
                // a length or the checksum, at the ends of its range
                let at = *rng.pick(&[53, 57, 70, 72, n - 2]);
                f[at..at + 2].copy_from_slice(&rng.pick(&[0u16, 1, 2, 18, 19, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]).to_le_bytes());
            }
            0 => f[8] = rng.byte(),
            1 => f[9] = rng.byte(),
            2 => f[53 + rng.below(2)] = rng.byte(),
            3 => f[55 + rng.below(4)] = rng.byte(),
            4 => f[68] = rng.byte(),
            5 => f[70 + rng.below(4)] = rng.byte(),
            6 => f[n - 1 - rng.below(2)] = rng.byte(),
            7 => {
                let i = 11 + rng.below(42);
                f[i] = rng.byte();
            }
            8 => {
                // any name bytes
                let i = 60 + rng.below(8);
                f[i] = rng.byte();
            }
            9 => f[60 + rng.below(8)] = 0,
            10 => {
                for _ in 0..rng.range(1, 6) {
                    f[11 + rng.below(42)] = 0;
                }
            }
            _ => {
                // text behind the padding, or small letters in the name
                let (a, n) = *rng.pick(&[(11usize, 42usize), (60, 8)]);
                let at = a + rng.below(n);
                f[at] = *rng.pick(b"abcXYZ 0");
            }
        }
    }
    if p.pid != 0 && rng.chance(1, 4) {
        let i = rng.below(8);
        f[i] = rng.byte();
    }
    f
}
/// text made of token names of the table
pub fn token_text(rng: &mut Rng, t: &Table, d: usize, max: usize) -> String {
    let b = body(rng, t, max);
    t.decode(&b, d).unwrap()
}
/// free text: words, pieces of token names, quotes, arrows, line ends
pub fn free_text(rng: &mut Rng, t: &Table, d: usize) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 20) {
        match rng.below(12) {
            0 => s.push('"'),
            1 => s.push_str(if d == PRETTY { "→" } else { "->" }),
            2 => s.push('\n'),
            3 => s.push_str("prgm"),
            4 => s.push_str(&t.tok(&[0xEB]).map(|t| t.text[d].clone()).unwrap_or_default()),
            5 => {
                let x = &rng.pick(&t.toks).text[d];
                let c: Vec<char> = x.chars().collect();
                let k = rng.range(1, c.len());
                s.extend(&c[..k]);
            }
            6 => s.push_str(["GO LEFT", "HELLO", "Send(\"AB", "abc", "If A=1", "Disp \"", "12", "sin(cos("][rng.below(8)]),
            7 => s.push(['θ', '\u{398}', '\u{3F4}', '\u{1DBF}', ' ', ':', '(', ')', '-', '>'][rng.below(10)]),
            8 => {
                for _ in 0..rng.range(1, 9) {
                    s.push(letter(rng) as char);
                }
            }
            _ => s.push_str(&rng.pick(&t.toks).text[d]),
        }
    }
    s
}
/// body of n bytes or less that has many tokens per kilobyte of text, for the big cases
pub fn mutate(rng: &mut Rng, data: &mut Vec<u8>) {
    for _ in 0..rng.range(1, 6) {
        if data.is_empty() {
            data.push(rng.byte());
            continue;
        }
        let i = rng.below(data.len());
        if data.len() > 76 && rng.chance(1, 6) {
            // a length or the checksum of a program, at the ends of its range
            let at = *rng.pick(&[53, 57, 68, 70, 72, data.len() - 2]);
            data[at..at + 2].copy_from_slice(&rng.pick(&[0u16, 1, 2, 18, 19, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]).to_le_bytes());
            continue;
        }
        match rng.below(8) {
            0 => data[i] = rng.byte(),
            1 => data[i] ^= 1 << rng.below(8),
            2 => {
                data.remove(i);
            }
            3 => data.insert(i, rng.byte()),
            4 => {
                let j = rng.below(data.len());
                data.swap(i, j)
            }
            5 => data[i] = *rng.pick(&[0u8, 0xFF, 0x7F, 0x80, 0x0A, 0x0D]),
            6 => {
                let n = rng.range(1, 16).min(data.len() - i);
                let c: Vec<u8> = data[i..i + n].to_vec();
                let j = rng.below(data.len());
                data.splice(j..j, c);
            }
            _ => {
                if rng.chance(1, 4) {
                    data.truncate(i)
                }
            }
        }
    }
}
