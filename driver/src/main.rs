//! tiv PROPERTY BIN SHIM LIBCHECK VERIF
//!
//! Runs the real binary under the monitor library over the workloads of one property and judges
//! every execution against the reference model. Exit 0: held on everything explored, 1: violation,
//! 2: no verdict.
mod ctx;
mod exec;
mod gen;
mod p_convert;
mod p_edit;
mod p_files;
mod p_report;
mod p_paths;
mod p_json;
mod p_more;
mod p_other;
mod p_race;
mod rng;
mod spec;

use ctx::Ctx;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

struct Prop {
    id: &'static str,
    f: fn(&Ctx),
    level: &'static str,
    rule: &'static str,
    /// minimum observations (members of covered sets, or counts) without which a run says nothing
    need: &'static [(&'static str, usize)],
}
const E: &str = "exploration";
const PROPS: [Prop; 28] = [
    Prop { id: "C01", f: p_convert::c01, level: E, rule: "generated and enumerated program bodies x header x container x display mode x route (txt, json, preview); non-trivial: the body is not empty; distinct by file content, mode and route",
        need: &[("models", 9), ("display modes", 3), ("formats", 3), ("tokens decoded", 600), ("invalid bodies refused", 100), ("body lengths", 15)] },
    Prop { id: "C02", f: p_convert::c02, level: E, rule: "generated program texts x model x display x encode mode x line ends, encoded and decoded again; non-trivial: the text is not empty; distinct by text file and encode mode",
        need: &[("model, display, encode", 100), ("line ends", 3), ("texts that came back", 500), ("ranges of characters", 40), ("other spellings", 1000)] },
    Prop { id: "C03", f: p_convert::c03, level: E, rule: "generated program texts x model x display x encode mode, every token chosen compared with the documented choice; distinct by text file and encode mode",
        need: &[("model, display, encode", 100), ("tokens chosen", 500), ("pairs judged", 1000)] },
    Prop { id: "C04", f: p_other::c04, level: E, rule: "each command repeated in fresh processes (fresh hash seeds), directories and environments; distinct by inputs and command line",
        need: &[("repetitions", 1000), ("shared names", 100)] },
    Prop { id: "C05", f: p_convert::c05, level: E, rule: "files written from generated texts, programs and edits, every structural rule recomputed; distinct by input",
        need: &[("largest sums", 3), ("model, format", 60), ("type, destination", 8), ("name lengths", 9), ("checksums above 16 bits", 2), ("oversized bodies", 3), ("chosen checksums", 20)] },
    Prop { id: "C06", f: p_convert::c06, level: E, rule: "generated well-formed programs converted to text and back; distinct by program and modes",
        need: &[("model, type, destination", 60), ("display, encode", 6)] },
    Prop { id: "C07", f: p_convert::c07, level: E, rule: "generated readable program files (well formed or not) and texts through JSON; distinct by file and modes",
        need: &[("format, display", 9), ("readable files", 500), ("text models", 20)] },
    Prop { id: "C08", f: p_edit::c08, level: E, rule: "generated histories of edits, in place and to new files, every saved file compared byte for byte with a sequential model; distinct by final file and history",
        need: &[("edits", 6), ("ways", 3), ("edits across formats", 40), ("repeated edits", 20), ("special checksums", 5)] },
    Prop { id: "C09", f: p_edit::c09, level: E, rule: "names and comments: every character up to U+017F and selected others at several positions, every length to 69, random strings; distinct by value and route",
        need: &[("characters", 390), ("lengths", 60), ("invalid renames refused", 100), ("valid comments", 100), ("invalid text names refused", 100), ("ways", 3)] },
    Prop { id: "C10", f: p_other::c10, level: E, rule: "arbitrary, mutated and truncated files, hostile JSON, arbitrary command lines and answers, with debug assertions and overflow checks compiled in; distinct by content and command",
        need: &[("truncated lengths", 150), ("inputs", 6), ("statuses", 10), ("places of json values", 500), ("places of values", 15), ("places of bytes", 25)] },
    Prop { id: "C11", f: p_edit::c11, level: E, rule: "every way of being declined or refused x every command that writes x random programs, the whole tree compared before and after; distinct by situation and content",
        need: &[("answers of mass conversions", 20), ("declined commands", 10), ("declining answers", 8), ("confirmed commands", 10), ("old content", 3), ("invalid outputs", 5), ("refused inputs", 8), ("failed operations", 10), ("permissions", 5)] },
    Prop { id: "C12", f: p_edit::c12, level: "fault_enumeration", rule: "every file-system operation of every saving command x kill before, kill after, error, short write, and power loss on the recorded operation log; distinct by scene, operation, fault and content",
        need: &[("scenes", 40), ("large programs", 5), ("fault points", 300), ("killed runs", 200), ("failures reported", 100), ("operations replayed for power loss", 50), ("double faults", 500), ("commands run again", 30), ("streams", 8)] },
    Prop { id: "C13", f: p_edit::c13, level: E, rule: "edit command x relation of the two paths x delete-old x format x answer, and faults at every operation; distinct by situation and content",
        need: &[("relation, command, delete", 150), ("removals seen in order", 20), ("faults", 10)] },
    Prop { id: "C14", f: p_other::c14, level: E, rule: "generated directories converted at once and file by file, the results compared; distinct by directory content and options",
        need: &[("output places", 2), ("modes", 9), ("files compared", 300), ("sizes of directories", 3), ("large files", 8)] },
    Prop { id: "C15", f: p_other::c15, level: E, rule: "generated hostile program names and JSON names in mass conversions, the surrounding tree and the operation log watched; distinct by name and setting",
        need: &[("names", 100), ("files written inside", 50), ("settings", 3)] },
    Prop { id: "C16", f: p_convert::c16, level: E, rule: "token sets of the library for every model and version, and single tokens and names through convert; distinct by model, version and token",
        need: &[("models decoded", 9), ("unavailable tokens refused", 500), ("models encoded", 25), ("unavailable names refused", 100)] },
    Prop { id: "C17", f: p_other::c17, level: E, rule: "every token name in both spellings with and without more text, every pair of bytes in several spellings, arbitrary text; distinct by query",
        need: &[("tokens found", 500), ("variations shown", 1000), ("refused", 100), ("other spellings", 1000)] },
    Prop { id: "C18", f: p_other::c18, level: E, rule: "generated program files and texts shown by details, preview and content; distinct by file and view",
        need: &[("views", 12), ("model, type, destination", 60), ("text views", 3), ("comments with zeros", 100), ("names with zeros", 50)] },
    Prop { id: "C19", f: p_convert::c19, level: E, rule: "the same generated program in the three containers and all conversions between them; distinct by program and conversion",
        need: &[("odd 8xp files to small formats", 500), ("format, model", 18), ("conversions", 6), ("odd bytes", 10)] },
    Prop { id: "C20", f: p_other::c20, level: E, rule: "command lines with the options in every spelling and random order against a reference spelling, defaults, refusals, values that look like options; distinct by command line and content",
        need: &[("near options", 24), ("commands", 20), ("variants compared", 500), ("refusals", 12), ("values", 10), ("defaults", 5), ("help asked for", 45)] },
    Prop { id: "C21", f: p_convert::c21, level: E, rule: "all 25 models through text and back, all 256 product ids x signatures x containers; distinct by file",
        need: &[("models", 25), ("product ids", 256), ("unknown product ids refused", 200), ("unknown model names", 50)] },
    Prop { id: "C22", f: p_race::c22, level: E, rule: "pairs of commands on the same files, the second one run whole at every step of the first (file operations, looks, reads), the result compared with every serial result; and many processes at once; distinct by pair, step and content",
        need: &[("pairs", 300), ("interleavings", 4000), ("views compared", 200), ("processes at once", 100)] },
    Prop { id: "C23", f: p_more::c23, level: E, rule: "texts with an incomplete or another head and JSON with missing, wrong or damaged parts on every way in, next to the same file without the flaw; distinct by file content",
        need: &[("controls accepted", 1000), ("heads", 20), ("values in texts", 60), ("places in json", 28), ("no json", 16), ("ways in", 5)] },
    Prop { id: "C24", f: p_more::c24, level: E, rule: "generated files loaded, edited and saved by calls of the library in random orders in one process on up to 8 threads, and shown by mass conversion, compared with each alone in a process of its own; distinct by files and order",
        need: &[("previews while saving", 50), ("files in one process", 300)] },
    Prop { id: "C25", f: p_files::c25, level: E, rule: "every command among files of many names, rights and times, agreed to, declined, failing, with something where its temporary files are made, and through links; the whole tree and the log of operations compared; distinct by scene and content",
        need: &[("scenes", 100), ("commands", 6), ("things in the way", 100), ("temporary files met", 0), ("links", 20), ("operations judged", 1000)] },
    Prop { id: "C26", f: p_report::c26, level: E, rule: "every saving command agreed to, declined, refused and with a fault at each of its operations, mass conversions with every answer and with faults; what the command says compared with what it did; distinct by scene, answer and fault",
        need: &[("scenes", 20), ("answers", 5), ("faults", 10), ("failures reported", 100), ("kinds of mass conversion", 20), ("files said to be saved", 200), ("files not saved", 100), ("refusals", 18), ("questions seen before the answer was read", 0)] },
    Prop { id: "C27", f: p_paths::c27, level: E, rule: "every command with its input and output in other directories, under other names and by other spellings of the path, from other working directories, compared with the same command on plain names; near extensions; distinct by command and path",
        need: &[("commands", 20), ("directories", 26), ("directories of outputs", 26), ("names", 24), ("names of outputs", 24), ("outputs compared", 200), ("files of mass conversions", 300), ("working directories", 3), ("near extensions", 40)] },
    Prop { id: "C28", f: p_json::c28, level: E, rule: "programs, texts, large programs and edited programs converted to json; every field compared with the bytes, the model and the text it is about, and the content shown with the file; distinct by file and mode",
        need: &[("models", 9), ("formats, modes", 9), ("kinds", 8), ("fields compared", 5000), ("contents compared", 500), ("sizes", 12), ("text models", 25), ("edits", 12)] },
];
const ASSUME: &[&str] = &[
    "the token sheet and the definitions kept in /verif/spec are the intended ones",
    "the binary is built from /repo's working tree with debug assertions and overflow checks on",
];
const ASSUME12: &[&str] = &[
    "the token sheet and the definitions kept in /verif/spec are the intended ones",
    "the binary is built from /repo's working tree with debug assertions and overflow checks on",
    "power loss is decided on the recorded operation log: data is on the disk once it is synced, a new name once the directory is synced after it; a rename or a removal may reach the disk before data or names that are not",
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: tiv PROPERTY BIN SHIM LIBCHECK VERIF");
        std::process::exit(2);
    }
    let prop = &a[1];
    let verif = PathBuf::from(&a[5]);
    spec::SPEC_DIR.set(verif.join("spec").display().to_string()).unwrap();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let Some(p) = PROPS.iter().find(|p| p.id == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let root = unsafe { libc::geteuid() } == 0;
    let base = ["/dev/shm", "/tmp"].iter().map(Path::new).find(|d| {
        let t = d.join(format!("tiv-probe-{}", std::process::id()));
        let ok = std::fs::write(&t, b"x").is_ok();
        let _ = std::fs::remove_file(&t);
        ok
    });
    let scratch = base.expect("no scratch place").join(format!("tiv-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    std::fs::set_permissions(&scratch, std::fs::Permissions::from_mode(0o755)).unwrap();
    let mut here = vec![];
    for (i, n) in ["ti-tools", "shim.so", "libcheck"].iter().enumerate() {
        let to = scratch.join(n);
        if Path::new(&a[2 + i]).exists() {
            std::fs::copy(&a[2 + i], &to).unwrap();
            std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        here.push(to);
    }
    for (from, n, always) in [
        ("build/libjobs/release/libjobs", "libjobs", true),
        ("build/libjobs-tsan/x86_64-unknown-linux-gnu/release/libjobs", "libjobs-tsan", false),
        ("build/asan/x86_64-unknown-linux-gnu/release/ti-tools", "ti-tools-asan", false),
    ] {
        let to = scratch.join(n);
        if (always || thorough) && std::fs::copy(verif.join(from), &to).is_ok() {
            std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
    }
    let known = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    let known: Vec<String> = known
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={prop} ")))
        .filter_map(|l| l.split_whitespace().next())
        .map(|s| s.trim_end_matches(':').to_string())
        .collect();
    let mut c = Ctx::new(prop, thorough, seed, &here[0], &here[1], &scratch, &verif, root, known);
    // the monitor must be in place: a run under it leaves a log
    {
        let mut b = exec::Box_::new(&here[0], &here[1], &scratch, 99, root);
        b.put("x.8xp", b"");
        let r = b.run(&["convert", "x.8xp", "-o", "x.txt"]);
        if r.code.is_none() {
            eprintln!("inconclusive: the binary does not run: {}", r.status());
        }
        let p = spec::Prog { sig: b"**TI83F*".to_vec(), extra: [0x1A, 0x0A], pid: 0, comment: vec![], ptype: 5, name: b"A".to_vec(), version: 0, dest: 0, body: vec![0x41] };
        b.put("m.8xp", &p.file(spec::Fmt::P8));
        let r = b.run(&["convert", "m.8xp", "-o", "m.txt"]);
        c.extra.push(("monitor_operations_seen_at_start".into(), serde_json::json!(r.ops.len())));
        b.clean();
    }
    (p.f)(&c);
    let code = c.finish(p.level, p.rule, if p.id == "C12" { ASSUME12 } else { ASSUME }, p.need);
    clean(&scratch);
    std::process::exit(code);
}
fn clean(p: &Path) {
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                let _ = std::fs::set_permissions(e.path(), std::fs::Permissions::from_mode(0o755));
                clean(&e.path());
            } else {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    let _ = std::fs::remove_dir(p);
}
