//! Independent reference model: token sheet, models, file formats, decoding and encoding.
//! Nothing here is shared with the code under test; the token sheet and the definitions are
//! copies kept in /verif/spec.
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex, OnceLock};

pub const PRETTY: usize = 0;
pub const ACC: usize = 1;
pub const TI: usize = 2;
pub const DISP: [&str; 3] = ["pretty", "accessible", "ti"];
pub const ENC: [&str; 3] = ["min", "max", "smart"];
pub const COMMENT: &str = "Created by TI-Tools ";

pub struct Model {
    pub name: &'static str,
    pub order: u32,
    pub sig: &'static str,
    pub pid: u8,
    pub lang: &'static str,
}
const fn m(name: &'static str, order: u32, sig: &'static str, pid: u8, lang: &'static str) -> Model {
    Model { name, order, sig, pid, lang }
}
pub const LATEST: u32 = 9999999;
/// name, generation, signature, product id, language
pub static MODELS: [Model; 25] = [
    m("TI-82", 10, "**TI82**", 0x00, "en"),
    m("TI-83", 20, "**TI83**", 0x00, "en"),
    m("TI-82ST", 20, "**TI83**", 0x00, "en"),
    m("TI-82ST.fr", 20, "**TI83**", 0x00, "fr"),
    m("TI-76.fr", 20, "**TI83**", 0x00, "fr"),
    m("TI-83+", 30, "**TI83F*", 0x04, "en"),
    m("TI-83+SE", 30, "**TI83F*", 0x04, "en"),
    m("TI-83+.fr", 30, "**TI83F*", 0x04, "fr"),
    m("TI-82+", 30, "**TI83F*", 0x04, "fr"),
    m("TI-84+", 40, "**TI83F*", 0x0A, "en"),
    m("TI-84+SE", 40, "**TI83F*", 0x0A, "en"),
    m("TI-83+.fr:USB", 40, "**TI83F*", 0x0A, "fr"),
    m("TI-84P.fr", 40, "**TI83F*", 0x0A, "fr"),
    m("TI-84+PSE", 40, "**TI83F*", 0x0A, "en"),
    m("TI-82A", 45, "**TI83F*", 0x0B, "fr"),
    m("TI-84+T", 45, "**TI83F*", 0x1B, "en"),
    m("TI-84+CSE", 50, "**TI83F*", 0x0F, "en"),
    m("TI-84+CE", 60, "**TI83F*", 0x13, "en"),
    m("TI-84+CET", 60, "**TI83F*", 0x13, "en"),
    m("TI-83PCE", 60, "**TI83F*", 0x13, "fr"),
    m("TI-83PCEEP", 60, "**TI83F*", 0x13, "fr"),
    m("TI-84+CEPY", 60, "**TI83F*", 0x13, "en"),
    m("TI-84+CETPE", 60, "**TI83F*", 0x13, "en"),
    m("TI-82AEP", 60, "**TI83F*", 0x00, "fr"),
    m("latest", LATEST, "**TI83F*", 0x00, "en"),
];
pub fn model(name: &str) -> Option<&'static Model> {
    MODELS.iter().find(|m| m.name == name)
}
/// The model a file with this signature and product id is read as
pub fn header_model(sig: &[u8], pid: u8) -> Option<&'static Model> {
    let name = match pid {
        0x00 => match sig {
            b"**TI83F*" => "latest",
            b"**TI83**" => "TI-83",
            _ => "TI-82",
        },
        0x04 => "TI-83+",
        0x0A => "TI-84+",
        0x0B => "TI-82A",
        0x0F => "TI-84+CSE",
        0x13 => "TI-84+CE",
        0x1B => "TI-84+T",
        _ => return None,
    };
    model(name)
}
/// all header kinds (signature, product id)
pub const HEADERS: [(&str, u8); 9] = [
    ("**TI82**", 0x00),
    ("**TI83**", 0x00),
    ("**TI83F*", 0x00),
    ("**TI83F*", 0x04),
    ("**TI83F*", 0x0A),
    ("**TI83F*", 0x0B),
    ("**TI83F*", 0x0F),
    ("**TI83F*", 0x13),
    ("**TI83F*", 0x1B),
];

// ---------------------------------------------------------------- versions

pub type Ver = (u32, String);
fn vcmp(a: &str, b: &str) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    if a == b {
        return Equal;
    }
    let rank = |s: &str| if s.is_empty() { 0 } else if s == "latest" { 2 } else { 1 };
    match rank(a).cmp(&rank(b)) {
        Equal if rank(a) == 1 => {
            let p = |s: &str| s.split('.').map(|x| x.parse::<u32>().unwrap_or(0)).collect::<Vec<_>>();
            p(a).cmp(&p(b))
        }
        o => o,
    }
}
pub fn ver_le(a: &Ver, b: &Ver) -> bool {
    a.0.cmp(&b.0).then_with(|| vcmp(&a.1, &b.1)) != std::cmp::Ordering::Greater
}

// ---------------------------------------------------------------- token sheet

pub struct Entry {
    pub since: Ver,
    pub until: Option<Ver>,
    pub text: [String; 3],
}
pub struct Sheet {
    pub tokens: BTreeMap<Vec<u8>, Vec<Entry>>,
    pub versions: Vec<String>,
    pub definitions: BTreeMap<String, Vec<(String, String)>>,
}
fn hexkey(s: &str) -> Vec<u8> {
    s.split('$').filter(|x| !x.is_empty()).map(|x| u8::from_str_radix(x, 16).unwrap()).collect()
}
pub static SPEC_DIR: OnceLock<String> = OnceLock::new();
pub fn sheet() -> &'static Sheet {
    static S: OnceLock<Sheet> = OnceLock::new();
    S.get_or_init(|| {
        let dir = SPEC_DIR.get().unwrap();
        let v: Value = serde_json::from_slice(&std::fs::read(format!("{dir}/tokens.json")).unwrap()).unwrap();
        let mut tokens = BTreeMap::new();
        let mut versions = Vec::new();
        let mut add = |key: Vec<u8>, list: &Value| {
            let mut es = Vec::new();
            for e in list.as_array().unwrap() {
                let ver = |x: &Value| -> Ver {
                    let name = x["model"].as_str().unwrap();
                    (model(name).unwrap().order, x["os-version"].as_str().unwrap().to_string())
                };
                let since = ver(&e["since"]);
                let until = e.get("until").filter(|u| !u.is_null()).map(ver);
                for x in [Some(&since), until.as_ref()].into_iter().flatten() {
                    if !versions.contains(&x.1) {
                        versions.push(x.1.clone());
                    }
                }
                let t = &e["langs"]["en"];
                let g = |k: &str| t[k].as_str().unwrap().to_string();
                es.push(Entry { since, until, text: [g("display"), g("accessible"), g("ti-ascii")] });
            }
            tokens.insert(key, es);
        };
        for (k, x) in v.as_object().unwrap() {
            if x.is_array() {
                add(hexkey(k), x);
            } else {
                for (k2, y) in x.as_object().unwrap() {
                    add(hexkey(&format!("{k}{k2}")), y);
                }
            }
        }
        let d: Value = serde_json::from_slice(&std::fs::read(format!("{dir}/definitions.json")).unwrap()).unwrap();
        let definitions = d
            .as_object()
            .unwrap()
            .iter()
            .map(|(k, v)| {
                let l = v.as_array().unwrap().iter();
                let l = l.map(|x| {
                    (x["syntax"].as_str().unwrap().to_string(), x["description"].as_str().unwrap().to_string())
                });
                (k.clone(), l.collect())
            })
            .collect();
        Sheet { tokens, versions, definitions }
    })
}

pub struct Tok {
    pub key: Vec<u8>,
    pub text: [String; 3],
}
pub struct Table {
    pub toks: Vec<Tok>,
    pub by_key: HashMap<Vec<u8>, usize>,
    /// per display mode: first char -> token indices
    first: [HashMap<char, Vec<usize>>; 3],
    pub lead: Vec<u8>,
}
impl Table {
    pub fn build(target: &Ver) -> Table {
        let mut toks = Vec::new();
        for (key, es) in &sheet().tokens {
            let mut cur: Option<&Entry> = None;
            for e in es {
                if ver_le(&e.since, target) && e.until.as_ref().map_or(true, |u| ver_le(target, u)) {
                    cur = Some(e);
                }
            }
            if let Some(e) = cur {
                toks.push(Tok { key: key.clone(), text: e.text.clone() });
            }
        }
        let mut by_key = HashMap::new();
        let mut first: [HashMap<char, Vec<usize>>; 3] = Default::default();
        let mut lead = Vec::new();
        for (i, t) in toks.iter().enumerate() {
            by_key.insert(t.key.clone(), i);
            if t.key.len() == 2 && !lead.contains(&t.key[0]) {
                lead.push(t.key[0]);
            }
            for d in 0..3 {
                first[d].entry(t.text[d].chars().next().unwrap()).or_default().push(i);
            }
        }
        Table { toks, by_key, first, lead }
    }
    pub fn tok(&self, key: &[u8]) -> Option<&Tok> {
        self.by_key.get(key).map(|i| &self.toks[*i])
    }
    fn best(&self, text: &str, d: usize, long: bool) -> Option<&Tok> {
        let c = text.chars().next()?;
        let mut best: Option<&Tok> = None;
        for i in self.first[d].get(&c)? {
            let t = &self.toks[*i];
            if !text.starts_with(t.text[d].as_str()) {
                continue;
            }
            let better = match best {
                None => true,
                Some(b) => {
                    let (l, bl) = (t.text[d].len(), b.text[d].len());
                    if l != bl {
                        (l > bl) == long
                    } else {
                        (t.key.len(), &t.key) < (b.key.len(), &b.key)
                    }
                }
            };
            if better {
                best = Some(t);
            }
        }
        best
    }
    pub fn longest(&self, text: &str, d: usize) -> Option<&Tok> {
        self.best(text, d, true)
    }
    pub fn shortest(&self, text: &str, d: usize) -> Option<&Tok> {
        self.best(text, d, false)
    }
    pub fn decode(&self, body: &[u8], d: usize) -> Option<String> {
        let mut s = String::new();
        let mut i = 0;
        while i < body.len() {
            if let Some(t) = self.tok(&body[i..i + 1]) {
                s.push_str(&t.text[d]);
                i += 1;
            } else if i + 1 < body.len() {
                s.push_str(&self.tok(&body[i..i + 2])?.text[d]);
                i += 2;
            } else {
                return None;
            }
        }
        Some(s)
    }
}
pub fn table(order: u32) -> Arc<Table> {
    static C: OnceLock<Mutex<HashMap<u32, Arc<Table>>>> = OnceLock::new();
    C.get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry(order)
        .or_insert_with(|| Arc::new(Table::build(&(order, "latest".into()))))
        .clone()
}

// ---------------------------------------------------------------- encoding

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rule {
    Min,
    Max,
    /// smart mode as documented
    Smart,
    /// smart mode with the two known deviations inside and after strings (known findings)
    Quirk,
}
pub fn rule(enc: &str) -> Rule {
    match enc {
        "min" => Rule::Min,
        "max" => Rule::Max,
        _ => Rule::Smart,
    }
}
/// every spelling of a token in the sheet: of all languages, times and variants
pub fn spellings() -> &'static Vec<String> {
    static S: OnceLock<Vec<String>> = OnceLock::new();
    S.get_or_init(|| {
        let dir = SPEC_DIR.get().unwrap();
        let v: Value = serde_json::from_slice(&std::fs::read(format!("{dir}/tokens.json")).unwrap()).unwrap();
        fn walk(v: &Value, out: &mut std::collections::BTreeSet<String>) {
            match v {
                Value::Object(o) => o.iter().for_each(|(k, x)| {
                    if let (Some(s), true) = (x.as_str(), matches!(k.as_str(), "display" | "accessible" | "ti-ascii")) {
                        out.insert(s.to_string());
                    } else if k == "variants" {
                        out.extend(x.as_array().into_iter().flatten().filter_map(|s| s.as_str().map(str::to_string)));
                    } else {
                        walk(x, out);
                    }
                }),
                Value::Array(a) => a.iter().for_each(|x| walk(x, out)),
                _ => {}
            }
        }
        let mut out = Default::default();
        walk(&v, &mut out);
        out.into_iter().filter(|s| !s.is_empty() && !s.contains(['\n', '\r', '\0'])).collect()
    })
}
pub fn normalize(s: &str) -> String {
    s.replace(['\u{398}', '\u{3F4}', '\u{1DBF}'], "θ")
}
fn name_char<'a>(t: &'a Table, s: &str, d: usize) -> Option<&'a Tok> {
    [t.shortest(s, d), t.longest(s, d)]
        .into_iter()
        .flatten()
        .find(|t| t.key.len() == 1 && matches!(t.key[0], 0x30..=0x39 | 0x41..=0x5B))
}
/// None: the text cannot be encoded completely
pub fn encode(t: &Table, text: &str, d: usize, rule: Rule) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    for (n, line) in text.split('\n').enumerate() {
        if n > 0 {
            out.push(0x3F);
        }
        let mut s = line;
        let mut name = false;
        let mut in_string = false;
        let mut quirk_min = false;
        while !s.is_empty() {
            let nc = if name { name_char(t, s, d) } else { None };
            name = nc.is_some();
            let tok = match nc {
                Some(x) => x,
                None => {
                    let short = match rule {
                        Rule::Min => true,
                        Rule::Max => false,
                        Rule::Smart => in_string,
                        Rule::Quirk => quirk_min,
                    };
                    if short { t.shortest(s, d) } else { t.longest(s, d) }?
                }
            };
            if matches!(rule, Rule::Smart | Rule::Quirk) {
                if !name {
                    if tok.key == [0x2A] {
                        in_string = !in_string;
                        quirk_min = true;
                    } else if tok.key == [0x04] {
                        in_string = false;
                        quirk_min = false;
                    } else if !tok.text[d].chars().all(|c| c.is_ascii_alphabetic()) {
                        quirk_min = false;
                    }
                }
                if tok.key == [0x5F] || tok.key == [0xEB] {
                    name = true;
                    quirk_min = false;
                }
            }
            out.extend(&tok.key);
            s = &s[tok.text[d].len()..];
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- files

pub const TYPES: [(u8, &str); 4] =
    [(0x05, "Program"), (0x06, "Locked Program"), (0x17, "Group"), (0x24, "Flash Application")];
pub const DESTS: [(u8, &str); 2] = [(0x00, "RAM"), (0x80, "Archive")];
pub fn type_name(b: u8) -> Option<&'static str> {
    TYPES.iter().find(|t| t.0 == b).map(|t| t.1)
}
pub fn dest_name(b: u8) -> Option<&'static str> {
    DESTS.iter().find(|t| t.0 == b).map(|t| t.1)
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    P8,
    P83,
    P82,
}
impl Fmt {
    pub const ALL: [Fmt; 3] = [Fmt::P8, Fmt::P83, Fmt::P82];
    pub fn ext(self) -> &'static str {
        match self {
            Fmt::P8 => "8xp",
            Fmt::P83 => "83p",
            Fmt::P82 => "82p",
        }
    }
    pub fn meta(self) -> usize {
        if self == Fmt::P8 {
            19
        } else {
            17
        }
    }
}
pub fn sum16(b: &[u8]) -> u16 {
    b.iter().fold(0u16, |s, x| s.wrapping_add(*x as u16))
}
#[derive(Clone, PartialEq, Debug)]
pub struct Prog {
    pub sig: Vec<u8>,
    pub extra: [u8; 2],
    pub pid: u8,
    pub comment: Vec<u8>,
    pub ptype: u8,
    pub name: Vec<u8>,
    pub version: u8,
    pub dest: u8,
    pub body: Vec<u8>,
}
pub fn pad(b: &[u8], n: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    v.resize(n, 0);
    v
}
fn latin1(b: &[u8]) -> String {
    b.iter().filter(|b| **b != 0).map(|b| *b as char).collect()
}
impl Prog {
    /// well-formed file
    pub fn file(&self, fmt: Fmt) -> Vec<u8> {
        let mut v = pad(&self.sig, 8);
        v.extend(self.extra);
        v.push(self.pid);
        v.extend(pad(&self.comment, 42));
        let n = self.body.len();
        v.extend(((n + fmt.meta()) as u16).to_le_bytes());
        let mut m = vec![if fmt == Fmt::P8 { 0x0D } else { 0x0B }, 0x00];
        let len = ((n + 2) as u16).to_le_bytes();
        m.extend(len);
        m.push(self.ptype);
        m.extend(pad(&self.name, 8));
        if fmt == Fmt::P8 {
            m.push(self.version);
            m.push(self.dest);
        }
        m.extend(len);
        m.extend((n as u16).to_le_bytes());
        m.extend(&self.body);
        let c = sum16(&m);
        v.extend(m);
        v.extend(c.to_le_bytes());
        v
    }
    pub fn name_str(&self) -> String {
        latin1(&self.name)
    }
    pub fn comment_str(&self) -> String {
        latin1(&self.comment)
    }
    pub fn model(&self) -> Option<&'static Model> {
        header_model(&self.sig, self.pid)
    }
    pub fn table(&self) -> Arc<Table> {
        table(self.model().unwrap().order)
    }
    /// the text file the tool writes for this program
    pub fn txt(&self, fmt: Fmt, d: usize) -> Option<String> {
        let text = self.table().decode(&self.body, d)?;
        let dest = if fmt == Fmt::P8 { self.dest } else { 0 };
        let one = |s: String| s.replace(['\n', '\r'], " ");
        Some(txt_file(
            &one(self.name_str()),
            &one(self.comment_str()),
            type_name(self.ptype)?,
            dest_name(dest)?,
            DISP[d],
            self.model()?.name,
            &text,
            true,
        ))
    }
}
#[allow(clippy::too_many_arguments)]
pub fn txt_file(
    name: &str, comment: &str, ptype: &str, dest: &str, disp: &str, model: &str, body: &str, end: bool,
) -> String {
    let mut s = format!("{name}\n{comment}\n{ptype}\n{dest}\n{disp}\n{model}\n{body}");
    if end && body.ends_with('\n') {
        s.push('\n');
    }
    s
}
pub struct Txt {
    pub head: Vec<String>,
    pub body: String,
}
pub fn parse_txt(b: &[u8]) -> Option<Txt> {
    let s = std::str::from_utf8(b).ok()?;
    let mut rest = s;
    let mut head = Vec::new();
    for _ in 0..6 {
        let (l, r) = rest.split_once('\n')?;
        head.push(l.to_string());
        rest = r;
    }
    let body = rest.strip_suffix('\n').unwrap_or(rest);
    Some(Txt { head, body: body.to_string() })
}
/// checks every structural rule of a program file; returns the parsed program
pub fn well_formed(b: &[u8], fmt: Fmt) -> Result<Prog, String> {
    let ml = fmt.meta();
    if b.len() < 55 + ml + 2 {
        return Err(format!("file of {} bytes is too short", b.len()));
    }
    let n = b.len() - 55 - ml - 2;
    let u16at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]) as usize;
    let mut bad = Vec::new();
    if b[8..10] != [0x1A, 0x0A] {
        bad.push("signature extra bytes".to_string());
    }
    match header_model(&b[0..8], b[10]) {
        None => bad.push(format!("product id {:02X}", b[10])),
        Some(_) => {
            if !HEADERS.iter().any(|h| h.0.as_bytes() == &b[0..8] && h.1 == b[10]) {
                bad.push("signature".into());
            }
        }
    }
    if let Some(z) = b[11..53].iter().position(|x| *x == 0) {
        if b[11 + z..53].iter().any(|x| *x != 0) {
            bad.push("comment padding".into());
        }
    }
    if u16at(53) != n + ml {
        bad.push(format!("header length {} for {}", u16at(53), n + ml));
    }
    let m = &b[55..55 + ml];
    if m[0] != if fmt == Fmt::P8 { 0x0D } else { 0x0B } || m[1] != 0 {
        bad.push(format!("metadata flag {:02X}{:02X}", m[0], m[1]));
    }
    if u16at(57) != n + 2 {
        bad.push(format!("metadata length {} for {}", u16at(57), n + 2));
    }
    if type_name(m[4]).is_none() {
        bad.push(format!("type {:02X}", m[4]));
    }
    let name = &m[5..13];
    if let Some(z) = name.iter().position(|x| *x == 0) {
        if name[z..].iter().any(|x| *x != 0) {
            bad.push("name padding".into());
        }
    }
    let (version, dest) = if fmt == Fmt::P8 { (m[13], m[14]) } else { (0, 0) };
    if dest_name(dest).is_none() {
        bad.push(format!("destination {dest:02X}"));
    }
    if u16at(55 + ml - 4) != n + 2 {
        bad.push(format!("length copy {} for {}", u16at(55 + ml - 4), n + 2));
    }
    if u16at(55 + ml - 2) != n {
        bad.push(format!("body length {} for {}", u16at(55 + ml - 2), n));
    }
    let c = sum16(&b[55..b.len() - 2]) as usize;
    if u16at(b.len() - 2) != c {
        bad.push(format!("checksum {:04X} instead of {:04X}", u16at(b.len() - 2), c));
    }
    if !bad.is_empty() {
        return Err(bad.join(", "));
    }
    let strip = |x: &[u8]| x.iter().copied().take_while(|b| *b != 0).collect::<Vec<u8>>();
    Ok(Prog {
        sig: b[0..8].to_vec(),
        extra: [b[8], b[9]],
        pid: b[10],
        comment: strip(&b[11..53]),
        ptype: m[4],
        name: strip(name),
        version,
        dest,
        body: b[55 + ml..b.len() - 2].to_vec(),
    })
}
