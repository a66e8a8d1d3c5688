//! Runs calls of the library in one process and prints what each gave:
//! libjobs JOBS OUT ORDER... ; JOBS is a json array of jobs, each ORDER a thread: "2,0,1,0" runs these
//! jobs one after the other. One JSON array of results per thread; OUT is a directory for saved files.
use std::path::{Path, PathBuf};
use std::sync::Barrier;
use ti_tools::calculator::program::Program;
use ti_tools::calculator::{DisplayMode, EncodeMode};

fn job(j: &[String], out: &Path, unique: &str) -> String {
    let mode = |s: &String| DisplayMode::from_string(s).ok().unwrap_or(DisplayMode::Accessible);
    let program = match j[0].as_str() {
        "program" => Program::load_from_8xp(PathBuf::from(&j[1]), mode(&j[2])),
        "text" => Program::load_from_txt(PathBuf::from(&j[1]), &EncodeMode::from_string(&j[2]).ok().unwrap_or(EncodeMode::Smart)),
        _ => Program::load_from_json(PathBuf::from(&j[1])),
    };
    let Ok(mut p) = program else { return "refused".into() };
    let mut r = format!("{}\n{}", p.to_string(), serde_json::to_string(&p).unwrap_or_default());
    for e in &j[3..] {
        let (k, v) = e.split_once(' ').unwrap_or((e, ""));
        let ok = match k {
            "rename" => p.metadata.rename(v.into()).is_ok(),
            "comment" => p.header.comment(v.into()).is_ok(),
            "lock" => {
                p.metadata.lock();
                true
            }
            "unlock" => {
                p.metadata.unlock();
                true
            }
            "archive" => {
                p.metadata.archive();
                true
            }
            "unarchive" => {
                p.metadata.unarchive();
                true
            }
            // a path that does not exist yet: save_to asks otherwise
            _ => {
                let to = out.join(format!("{unique}.{k}"));
                let ok = p.save_to(&to).is_ok();
                r.push_str(&format!("\n{:?}", std::fs::read(&to).ok()));
                let _ = std::fs::remove_file(&to);
                ok
            }
        };
        r.push_str(&format!("\n{e:?} {ok} {:?} {:?}", p.header.bytes, p.metadata.bytes));
    }
    r
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let jobs: Vec<Vec<String>> = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let out = Path::new(&a[1]);
    let orders: Vec<Vec<usize>> = a[2..].iter().map(|o| o.split(',').filter_map(|x| x.parse().ok()).collect()).collect();
    let start = Barrier::new(orders.len());
    let results: Vec<Vec<String>> = std::thread::scope(|s| {
        let all: Vec<_> = orders
            .iter()
            .enumerate()
            .map(|(t, o)| {
                let (jobs, start) = (&jobs, &start);
                s.spawn(move || {
                    start.wait();
                    o.iter()
                        .enumerate()
                        .map(|(k, j)| {
                            let r = std::panic::catch_unwind(|| job(&jobs[*j], out, &format!("{}-{t}-{k}", std::process::id())));
                            r.unwrap_or_else(|_| "panicked".into())
                        })
                        .collect()
                })
            })
            .collect();
        all.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    println!("{}", serde_json::to_string(&results).unwrap());
}
