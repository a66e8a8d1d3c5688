//! Sandboxed execution of the real binary under the monitor library.
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const UID: u32 = 65534;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub seq: usize,
    pub op: String,
    pub ret: i64,
    pub errno: i32,
    pub n: i64,
    pub a: String,
    pub b: String,
}
#[derive(Clone, Debug, Default)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ops: Vec<Op>,
    /// paths below the worker's outermost directory that were read or asked about
    pub looks: Vec<String>,
    /// how much was on standard output when an answer was read
    pub asks: Vec<usize>,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// ended by itself with a failure status
    pub fn failed(&self) -> bool {
        matches!(self.code, Some(c) if c != 0)
    }
    pub fn stdout(&self) -> String {
        strip_ansi(&String::from_utf8_lossy(&self.out))
    }
    pub fn raw_stdout(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    pub fn stderr(&self) -> String {
        strip_ansi(&String::from_utf8_lossy(&self.err))
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101)
            || String::from_utf8_lossy(&self.err).contains("panicked at")
            || String::from_utf8_lossy(&self.err).contains("has overflowed its stack")
    }
    /// killed by the wall-clock watchdog: says nothing about the property
    pub fn watchdog(&self) -> bool {
        self.signal == Some(libc::SIGALRM)
    }
    pub fn status(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
    pub fn denied(&self) -> Option<&Op> {
        self.ops.iter().find(|o| o.op == "DENY")
    }
}
pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    Dir,
    Link(PathBuf),
    File(Vec<u8>),
}
pub type Snap = BTreeMap<String, Node>;

#[derive(Clone, Default)]
pub struct Opt {
    pub stdin: Vec<u8>,
    pub env: Vec<(String, String)>,
    pub cwd: Option<PathBuf>,
    /// class, n-th operation, kind
    pub fault: Option<(char, usize, String)>,
    /// a second fault of the same class
    pub fault2: Option<(usize, String)>,
    /// standard output and error that do not work: "full", "pipe" (no reader), "closed"
    pub broken_out: &'static str,
    /// standard input is not readable: "closed", "dir"
    pub broken_in: &'static str,
    pub as_limit: Option<u64>,
    pub cpu: Option<u64>,
    /// otherwise 022
    pub umask: Option<u32>,
    /// characters U+10FF80 to U+10FFFF in the arguments stand for single bytes, see `raw`
    pub raw: bool,
}
#[derive(Clone)]
pub struct Entry {
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    pub note: String,
    pub status: String,
    pub out: String,
    pub err: String,
}

/// a command that may still run
struct Live {
    child: std::process::Child,
    out: fs::File,
    err: fs::File,
    log: PathBuf,
    args: Vec<String>,
    o: Opt,
}
pub struct Box_ {
    pub bin: PathBuf,
    pub shim: PathBuf,
    /// outermost directory of this worker: nothing may change outside of `top`
    pub top: PathBuf,
    /// working directory, several levels below top
    pub dir: PathBuf,
    pub log: PathBuf,
    pub drop_root: bool,
    pub journal: Vec<Entry>,
    pub puts: Vec<(String, Vec<u8>)>,
    pub execs: u64,
    pub opcount: u64,
    /// the binary is the AddressSanitizer build: its shadow memory is no use of memory
    pub asan: bool,
}

fn memfd(name: &str, data: &[u8]) -> fs::File {
    let n = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(n.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create failed");
    let mut f = unsafe { fs::File::from_raw_fd(fd) };
    if !data.is_empty() {
        f.write_all(data).unwrap();
        f.seek(SeekFrom::Start(0)).unwrap();
    }
    f
}

impl Box_ {
    pub fn new(bin: &Path, shim: &Path, scratch: &Path, id: usize, drop_root: bool) -> Box_ {
        let top = scratch.join(format!("w{id}"));
        let dir = top.join("l1/l2/l3/l4/l5/l6/work");
        let log = scratch.join(format!("log{id}"));
        let b = Box_ {
            bin: bin.into(),
            shim: shim.into(),
            top,
            dir,
            log,
            drop_root,
            journal: vec![],
            puts: vec![],
            execs: 0,
            opcount: 0,
            asan: false,
        };
        b.make();
        b
    }
    fn make(&self) {
        fs::create_dir_all(&self.dir).unwrap();
        let mut p = self.dir.clone();
        loop {
            self.own(&p);
            if p == self.top {
                break;
            }
            p = p.parent().unwrap().into();
        }
    }
    fn own(&self, p: &Path) {
        if self.drop_root {
            let _ = std::os::unix::fs::lchown(p, Some(UID), Some(UID));
        }
    }
    /// empties the worker's directories
    pub fn clean(&mut self) {
        self.journal.clear();
        self.puts.clear();
        fn rm(p: &Path) {
            let Ok(rd) = fs::read_dir(p) else { return };
            for e in rd.flatten() {
                let ty = e.file_type().unwrap();
                if ty.is_dir() {
                    let _ = fs::set_permissions(e.path(), fs::Permissions::from_mode(0o755));
                    rm(&e.path());
                    let _ = fs::remove_dir(e.path());
                } else {
                    let _ = fs::remove_file(e.path());
                }
            }
        }
        // the common case: only the working directory has content
        let _ = fs::set_permissions(&self.dir, fs::Permissions::from_mode(0o755));
        rm(&self.dir);
        let mut p = self.dir.clone();
        let mut stray = false;
        while p != self.top {
            p = p.parent().unwrap().into();
            if fs::read_dir(&p).map(|r| r.count()).unwrap_or(9) != 1 {
                stray = true;
            }
        }
        if stray {
            rm(&self.top);
            self.make();
        }
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
    pub fn put(&mut self, name: &str, data: &[u8]) {
        let p = self.path(name);
        if let Some(d) = p.parent() {
            if !d.exists() {
                fs::create_dir_all(d).unwrap();
                self.own(d);
            }
        }
        fs::write(&p, data).unwrap_or_else(|e| panic!("put {}: {e}", p.display()));
        self.own(&p);
        self.puts.push((name.into(), data.to_vec()));
    }
    pub fn mkdir(&mut self, name: &str) {
        let p = self.path(name);
        fs::create_dir_all(&p).unwrap();
        self.own(&p);
        self.puts.push((format!("{name}/"), vec![]));
    }
    pub fn link(&mut self, target: &str, name: &str) {
        std::os::unix::fs::symlink(target, self.path(name)).unwrap();
        self.own(&self.path(name));
        self.puts.push((format!("{name} -> {target}"), vec![]));
    }
    pub fn mode(&mut self, name: &str, mode: u32) {
        fs::set_permissions(self.path(name), fs::Permissions::from_mode(mode)).unwrap();
        self.puts.push((format!("chmod {mode:o} {name}"), vec![]));
    }
    pub fn mode_of(&self, name: &str) -> u32 {
        fs::metadata(self.path(name)).map(|m| m.permissions().mode() & 0o7777).unwrap_or(0)
    }
    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        fs::read(self.path(name)).ok()
    }
    pub fn rm(&mut self, name: &str) {
        let _ = fs::remove_file(self.path(name));
    }
    /// everything below the working directory
    pub fn snap(&self) -> Snap {
        snap_of(&self.dir)
    }
    /// everything below the worker's outermost directory
    pub fn snap_all(&self) -> Snap {
        snap_of(&self.top)
    }
    pub fn run(&mut self, args: &[&str]) -> Run {
        self.run_opt(args, &Opt::default())
    }
    pub fn run_in(&mut self, args: &[&str], stdin: &str) -> Run {
        self.run_opt(args, &Opt { stdin: stdin.as_bytes().to_vec(), ..Default::default() })
    }
    pub fn run_opt(&mut self, args: &[&str], o: &Opt) -> Run {
        let log = self.log.clone();
        let l = self.start(args, o, log);
        self.finish(l)
    }
    /// Runs `args` until its `at`-th operation of any class, then `between`, then the rest.
    /// Also tells whether it stopped there.
    pub fn run_around<R>(&mut self, args: &[&str], o: &Opt, at: usize, between: impl FnOnce(&mut Box_) -> R) -> (Run, bool, R) {
        let mut o = o.clone();
        o.env.push(("TIV_STOP".into(), at.to_string()));
        let log = self.log.with_extension("stopped");
        let l = self.start(args, &o, log);
        let pid = l.child.id();
        let mut i: libc::siginfo_t = unsafe { std::mem::zeroed() };
        // left in a waitable state if it ended
        let r = unsafe { libc::waitid(libc::P_PID, pid, &mut i, libc::WEXITED | libc::WSTOPPED | libc::WNOWAIT) };
        assert!(r == 0, "waitid failed");
        let stopped = i.si_code == libc::CLD_STOPPED;
        let x = between(self);
        if stopped {
            unsafe { libc::kill(pid as i32, libc::SIGCONT) };
        }
        (self.finish(l), stopped, x)
    }
    /// Runs all of these at the same time.
    pub fn run_together(&mut self, all: &[(Vec<String>, Opt)]) -> Vec<Run> {
        let live: Vec<Live> = all
            .iter()
            .enumerate()
            .map(|(k, (a, o))| {
                let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
                let log = self.log.with_extension(format!("{k}"));
                self.start(&a, o, log)
            })
            .collect();
        live.into_iter().map(|l| self.finish(l)).collect()
    }
    fn start(&mut self, args: &[&str], o: &Opt, log: PathBuf) -> Live {
        let stdin = memfd("in", &o.stdin);
        let out = memfd("out", b"");
        let err = memfd("err", b"");
        let _ = fs::remove_file(&log);
        fs::write(&log, b"").unwrap();
        self.own(&log);
        let mut c = Command::new(&self.bin);
        c.args(args.iter().map(|a| if o.raw { raw(a) } else { OsString::from(a) }))
            .current_dir(o.cwd.as_ref().unwrap_or(&self.dir))
            .stdin(Stdio::from(stdin))
            .stdout(Stdio::from(out.try_clone().unwrap()))
            .stderr(Stdio::from(err.try_clone().unwrap()))
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &self.dir)
            .env("LD_PRELOAD", &self.shim)
            .env("TIV_ROOT", &self.top)
            .env("TIV_LOG", &log);
        for (k, v) in &o.env {
            c.env(k, v);
        }
        if let Some((cls, at, kind)) = &o.fault {
            c.env("TIV_CLASS", cls.to_string()).env("TIV_AT", at.to_string()).env("TIV_KIND", kind);
        }
        if let Some((at, kind)) = &o.fault2 {
            c.env("TIV_AT2", at.to_string()).env("TIV_KIND2", kind);
        }
        match o.broken_out {
            "full" => {
                let f = fs::File::options().write(true).open("/dev/full").unwrap();
                c.stdout(f.try_clone().unwrap()).stderr(f);
            }
            "pipe" => {
                let (_, to) = std::io::pipe().unwrap();
                c.stdout(to.try_clone().unwrap()).stderr(to);
            }
            _ => {}
        }
        if o.broken_in == "dir" {
            c.stdin(fs::File::open("/").unwrap());
        }
        let (close_out, close_in) = (o.broken_out == "closed", o.broken_in == "closed");
        let drop = self.drop_root;
        let umask = o.umask.unwrap_or(0o022);
        let cpu = o.cpu.unwrap_or(60);
        let mut mem = o.as_limit.unwrap_or(4 << 30);
        if self.asan {
            c.env("ASAN_OPTIONS", "verify_asan_link_order=0:detect_leaks=0:exitcode=99");
            mem = libc::RLIM_INFINITY;
        }
        unsafe {
            c.pre_exec(move || {
                let lim = |r, v| {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                    libc::setrlimit(r, &l);
                };
                lim(libc::RLIMIT_CPU, cpu);
                lim(libc::RLIMIT_AS, mem);
                lim(libc::RLIMIT_FSIZE, 256 << 20);
                lim(libc::RLIMIT_CORE, 0);
                libc::alarm(400);
                if drop {
                    libc::setgroups(0, std::ptr::null());
                    if libc::setgid(UID) != 0 || libc::setuid(UID) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                libc::umask(umask);
                if close_out {
                    libc::close(1);
                    libc::close(2);
                }
                if close_in {
                    libc::close(0);
                }
                Ok(())
            });
        }
        let child = c.spawn().unwrap_or_else(|e| panic!("cannot run {}: {e}", self.bin.display()));
        self.execs += 1;
        Live { child, out, err, log, args: args.iter().map(|s| s.to_string()).collect(), o: o.clone() }
    }
    fn finish(&mut self, l: Live) -> Run {
        let Live { mut child, mut out, mut err, log, args, o } = l;
        let st = child.wait();
        let mut r = Run::default();
        match st {
            Ok(s) => {
                r.code = s.code();
                r.signal = s.signal();
            }
            Err(e) => panic!("cannot run {}: {e}", self.bin.display()),
        }
        out.seek(SeekFrom::Start(0)).unwrap();
        out.read_to_end(&mut r.out).unwrap();
        err.seek(SeekFrom::Start(0)).unwrap();
        err.read_to_end(&mut r.err).unwrap();
        let log = fs::read(&log).unwrap_or_default();
        for line in String::from_utf8_lossy(&log).split('\n') {
            let mut it = line.splitn(6, ' ');
            let (Some(seq), Some(op), Some(ret), Some(errno), Some(n), Some(rest)) =
                (it.next(), it.next(), it.next(), it.next(), it.next(), it.next())
            else {
                continue;
            };
            let (a, b) = rest.split_once('\t').unwrap_or((rest, ""));
            if op == "look" {
                r.looks.push(a.into());
                continue;
            }
            if op == "ask" {
                r.asks.push(n.parse().unwrap_or(0));
                continue;
            }
            r.ops.push(Op {
                seq: seq.parse().unwrap_or(0),
                op: op.into(),
                ret: ret.parse().unwrap_or(0),
                errno: errno.parse().unwrap_or(0),
                n: n.parse().unwrap_or(0),
                a: a.into(),
                b: b.into(),
            });
        }
        self.opcount += r.ops.len() as u64;
        let cut = |s: String| s.chars().take(2000).collect::<String>();
        let mut note = String::new();
        if let Some(f) = &o.fault {
            note = format!("TIV_CLASS={} TIV_AT={} TIV_KIND={}", f.0, f.1, f.2);
        }
        for (k, v) in &o.env {
            if k.starts_with("TIV_") {
                note.push_str(&format!("{k}={v} "));
            }
        }
        if let Some(f) = &o.fault2 {
            note.push_str(&format!(" TIV_AT2={} TIV_KIND2={}", f.0, f.1));
        }
        self.journal.push(Entry {
            args,
            stdin: o.stdin.clone(),
            note,
            status: r.status(),
            out: cut(r.stdout()),
            err: cut(r.stderr()),
        });
        r
    }
}
pub fn snap_of(root: &Path) -> Snap {
    let mut s = Snap::new();
    fn walk(root: &Path, p: &Path, s: &mut Snap) {
        let Ok(rd) = fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let path = e.path();
            let rel = path.strip_prefix(root).unwrap().to_path_buf();
            let key = lossless(rel.into_os_string());
            let md = fs::symlink_metadata(&path).unwrap();
            if md.is_dir() {
                s.insert(key, Node::Dir);
                walk(root, &path, s);
            } else if md.file_type().is_symlink() {
                s.insert(key, Node::Link(fs::read_link(&path).unwrap()));
            } else {
                let _ = md.size();
                s.insert(key, Node::File(fs::read(&path).unwrap_or_default()));
            }
        }
    }
    walk(root, root, &mut s);
    s
}
/// a name that is not UTF-8: the characters U+10FF80 to U+10FFFF stand for the bytes 0x80 to 0xFF
pub fn raw(s: &str) -> OsString {
    let mut b = vec![];
    for c in s.chars() {
        match c as u32 {
            u @ 0x10FF80..=0x10FFFF => b.push(u as u8),
            _ => b.extend(c.to_string().as_bytes()),
        }
    }
    OsString::from_vec(b)
}
pub fn lossless(s: OsString) -> String {
    match String::from_utf8(s.into_vec()) {
        Ok(s) => s,
        Err(e) => e.into_bytes().iter().map(|b| format!("\\x{b:02x}")).collect(),
    }
}
pub fn snap_diff(a: &Snap, b: &Snap) -> Vec<String> {
    let mut d = Vec::new();
    for (k, v) in a {
        match b.get(k) {
            None => d.push(format!("{k} disappeared")),
            Some(w) if w != v => d.push(format!("{k} changed")),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            d.push(format!("{k} appeared"));
        }
    }
    d
}
