//! Running lines on the real shell and comparing with the reference model.
use crate::ctl::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::Duration;

pub type Files = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Default)]
pub struct Cfg {
    pub env: Vec<(String, String)>,
    pub dirs: Vec<String>,              // below @, besides @/bin @/home @/work
    pub files: Vec<(String, String)>,   // below @/work by default
    pub progs: Vec<String>,             // besides the standard ones in @/bin
    pub closed: Vec<String>,            // files nobody may open
    pub links: Vec<(String, String)>,   // symbolic links and where they lead; "=FILE": another name of FILE
    pub modes: Vec<(String, u32)>,      // of files and directories
    pub setup: Vec<String>,
    pub args: Vec<String>,
}
pub const PROGS: &[&str] = &["out", "outno", "put", "ok", "no", "code", "die", "pass", "wrap", "err", "big", "fdw", "fdr", "job1", "job2", "job3"];

pub fn base_env() -> Vec<(String, String)> {
    [("PATH", "@/bin"), ("HOME", "@/home"), ("TERM", "xterm"), ("RUST_BACKTRACE", "0")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub struct Worker { pub place: Place, pub cfg: Cfg, disk: Files, pub lines: u64, pub deep: u64, pub slow: u32, pub jobs: Vec<i32> }

fn scan(dir: &Path, base: &Place, progs: &BTreeSet<String>, v: &mut Files) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let Ok(t) = e.file_type() else { continue };
        if t.is_dir() { scan(&p, base, progs, v) } else {
            let n = base.unsub(&p.to_string_lossy());
            if n.ends_with("/history.txt") || progs.contains(&n) { continue }
            v.insert(n, base.unsubb(std::fs::read(&p).unwrap_or_default()));
        }
    }
}

#[derive(Clone)]
/// late: a child of the last line had ended but was not collected, a report about it may still come
pub struct Node { pub model: Model, pub fs: Fs, pub late: bool }

#[derive(Debug)]
pub struct Ran { pub ended: Option<St>, pub open: bool, pub why: &'static str, pub report: Option<Report>, pub outcome: u64 }

impl Worker {
    /// Scratch tree for one worker; `bins` holds the rsh binary, shim.so and vp.
    pub fn new(root: &Path, n: usize, bins: &Path, cfg: &Cfg) -> Worker {
        let base = root.join(format!("w{}", n));
        let _ = std::fs::remove_dir_all(&base);
        let place = Place { base };
        for d in ["", "/bin", "/home", "/work"] { std::fs::create_dir_all(format!("{}{}", place.s(), d)).unwrap(); }
        // links, made from copies taken before any thread started: a file open for writing cannot be executed
        let _ = bins;
        for b in ["rsh", "shim.so", "vp"] { std::fs::hard_link(root.join(b), place.base.join(b)).unwrap(); }
        for p in PROGS { std::fs::hard_link(place.base.join("vp"), place.base.join("bin").join(p)).unwrap(); }
        for d in &cfg.dirs { std::fs::create_dir_all(place.sub(d)).unwrap(); }
        for p in &cfg.progs {
            // NAME, NAME|big (a file of three megabytes), NAME|link (a symbolic link), NAME|text (something that cannot be executed)
            use std::os::unix::fs::PermissionsExt;
            let (name, kind) = p.split_once('|').unwrap_or((p, ""));
            let to = place.sub(name);
            match kind {
                "big" => std::fs::hard_link(root.join("vpbig"), &to).unwrap(),
                "link" => std::os::unix::fs::symlink(place.base.join("vp"), &to).unwrap(),
                "text" | "empty" => { std::fs::write(&to, if kind == "text" { "out text\n" } else { "" }).unwrap(); std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).unwrap(); }
                _ => std::fs::hard_link(place.base.join("vp"), &to).unwrap(),
            }
        }
        let mut w = Worker { place, cfg: cfg.clone(), disk: Files::new(), lines: 0, deep: 0, slow: 1, jobs: vec![] };
        fn own(p: &Path) { chown(p, UID); if p.is_dir() { for e in std::fs::read_dir(p).unwrap().flatten() { own(&e.path()) } } }
        for d in ["/home", "/work"] { own(&PathBuf::from(format!("{}{}", w.place.s(), d))) }
        for d in &cfg.dirs { own(&PathBuf::from(w.place.sub(d))) }
        w.restore(&w.initial_files());
        for (p, m) in &w.cfg.modes { let _ = std::fs::set_permissions(w.place.sub(&Fs::norm("@/work", p)), std::os::unix::fs::PermissionsExt::from_mode(*m)); }
        w
    }
    pub fn initial_files(&self) -> Files {
        let mut m: Files = self.cfg.files.iter().map(|(p, t)| (Fs::norm("@/work", p), crate::ctl::raw(t))).collect();
        for c in &self.cfg.closed { m.insert(Fs::norm("@/work", c), b"closed\n".to_vec()); }
        m
    }
    pub fn fs(&self) -> Fs {
        let mut fs = Fs { files: self.initial_files(), ..Fs::default() };
        for d in ["/", "@", "@/bin", "@/home", "@/work"] { fs.dirs.insert(d.into()); }
        for d in &self.cfg.dirs { fs.dirs.insert(d.clone()); }
        for c in &self.cfg.closed { fs.closed.insert(Fs::norm("@/work", c)); }
        for (n, to) in &self.cfg.links { let n = Fs::norm("@/work", n); match to.strip_prefix('=') { Some(f) => fs.same.insert(n, Fs::norm("@/work", f)), None => fs.links.insert(n, to.clone()) }; }
        for (p, m) in &self.cfg.modes {
            let p = Fs::norm("@/work", p);
            if m & 0o100 == 0 && fs.dirs.contains(&p) { fs.noenter.insert(p.clone()); }
            if m & 0o200 == 0 { fs.nowrite.insert(p.clone()); }
            if m & 0o400 == 0 { fs.noread.insert(p); }
        }
        for p in PROGS { fs.progs.insert(format!("@/bin/{}", p)); }
        for p in &self.cfg.progs { match p.split_once('|') { Some((n, "text" | "empty")) => { fs.noexec.insert(n.into()); } Some((n, _)) => { fs.progs.insert(n.into()); } None => { fs.progs.insert(p.clone()); } } }
        fs
    }
    pub fn env(&self) -> Vec<(String, String)> { if self.cfg.env.is_empty() { base_env() } else { self.cfg.env.clone() } }
    pub fn model(&self) -> Model { Model::new(&self.env(), "@/work") }
    pub fn restore(&mut self, want: &Files) {
        let names: BTreeSet<String> = self.disk.keys().chain(want.keys()).cloned().collect();
        for n in names {
            if self.disk.get(&n) == want.get(&n) { continue }
            let p = self.place.sub(&n);
            match want.get(&n) {
                None => { let _ = std::fs::remove_file(&p); }
                Some(d) => {
                    use std::os::unix::fs::PermissionsExt;
                    let _ = std::fs::remove_file(&p);
                    std::fs::write(&p, self.place.subb(d)).unwrap(); chown(Path::new(&p), UID);
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(self.mode(&n))).unwrap();
                }
            }
        }
        for (n, to) in &self.cfg.links {
            if self.linked(n, to) { continue }
            let p = self.place.sub(&Fs::norm("@/work", n));
            let _ = std::fs::remove_file(&p);
            match to.strip_prefix('=') { Some(f) => std::fs::hard_link(self.place.sub(&Fs::norm("@/work", f)), &p).unwrap(), None => std::os::unix::fs::symlink(self.place.sub(to), &p).unwrap() }
        }
        self.disk = want.clone();
    }
    fn mode(&self, n: &str) -> u32 {
        if self.cfg.closed.iter().any(|c| Fs::norm("@/work", c) == n) { return 0 }
        self.cfg.modes.iter().find(|m| Fs::norm("@/work", &m.0) == n).map_or(0o644, |m| m.1)
    }
    /// Is the link still what it was?
    fn linked(&self, n: &str, to: &str) -> bool {
        use std::os::unix::fs::MetadataExt;
        let p = self.place.sub(&Fs::norm("@/work", n));
        match to.strip_prefix('=') {
            Some(f) => match (std::fs::symlink_metadata(&p), std::fs::symlink_metadata(self.place.sub(&Fs::norm("@/work", f)))) { (Ok(a), Ok(b)) => a.ino() == b.ino(), _ => false },
            None => std::fs::read_link(&p).map_or(false, |t| t.to_string_lossy() == self.place.sub(to)),
        }
    }
    pub fn scan(&mut self) -> Files {
        let mut v = Files::new();
        let progs = self.cfg.progs.iter().map(|p| p.split('|').next().unwrap().to_string()).collect();
        scan(&self.place.base.join("work"), &self.place, &progs, &mut v);
        scan(&self.place.base.join("home"), &self.place, &progs, &mut v);
        for d in &self.cfg.dirs { if !d.starts_with("@/work") && !d.starts_with("@/home") { scan(Path::new(&self.place.sub(d)), &self.place, &progs, &mut v) } }
        for (n, to) in &self.cfg.links { let n = Fs::norm("@/work", n); v.remove(&n); if !self.linked(&n, to) { v.insert(format!("{} (no longer a link)", n), vec![]); } }
        let mut odd = vec![];
        for n in v.keys() { if let Ok(m) = std::fs::metadata(self.place.sub(n)) { let m = std::os::unix::fs::PermissionsExt::mode(&m.permissions()) & 0o7777; if m != self.mode(n) { odd.push(format!("{} (mode {:o})", n, m)) } } }
        for n in odd { v.insert(n, vec![]); }
        self.disk = v.clone();
        v
    }
    pub fn timeout(&self) -> Duration { Duration::from_secs(10 * self.slow as u64) }

    pub fn start(&mut self) -> Result<(Session, Node, Report), String> {
        let init = self.initial_files();
        self.restore(&init);
        let env: Vec<(String, String)> = self.env().iter().map(|(k, v)| (k.clone(), self.place.sub(v))).collect();
        let mut s = Session::spawn(&self.place, &Spawn { args: &self.cfg.args, mode: "i", env: &env, cwd: "@/work", stdin: b"", nofile: 1024 });
        let rep = match s.get(self.timeout()) {
            Got::Report(r) => r,
            Got::Ended(c) => return Err(format!("the shell ended at start (wait status {:#x}): {}", c, String::from_utf8_lossy(&s.take_err()))),
            Got::Hang => return Err("the shell did not reach its first prompt".into()),
        };
        s.take_out(); s.take_err(); s.take_log()?;
        let mut node = Node { model: self.model(), fs: self.fs(), late: false };
        for l in self.cfg.setup.clone() {
            self.step(&mut s, &mut node, &l, &rep).map_err(|e| format!("setup line {:?}: {}", l, e))?;
        }
        Ok((s, node, rep))
    }

    /// The shell as it is, no shim: the text on standard input; its output and exit status.
    pub fn plain(&mut self, text: &str) -> Option<(Vec<u8>, i32, Vec<u8>)> { self.limited(text, 1024).map(|x| (x.0, x.1, x.2)) }
    /// ... with so many descriptors; its messages too
    pub fn limited(&mut self, text: &str, nofile: u64) -> Option<(Vec<u8>, i32, Vec<u8>, Vec<u8>)> {
        let env: Vec<(String, String)> = self.env().iter().map(|(k, v)| (k.clone(), self.place.sub(v))).collect();
        let t = self.place.sub(text);
        let log = self.place.base.join("log");
        std::fs::write(&log, b"").unwrap(); chown(&log, UID);
        let mut s = Session::spawn(&self.place, &Spawn { args: &self.cfg.args, mode: "", env: &env, cwd: "@/work", stdin: &raw(&t), nofile });
        let st = s.end(self.timeout())?;
        let l = std::fs::read(&log).unwrap_or_default();
        let _ = std::fs::remove_file(&log);
        Some((s.take_out(), if st & 0x7f == 0 { (st >> 8) & 255 } else { 128 + (st & 0x7f) }, l, s.take_err()))
    }

    /// Enter one line on the shell and in the model, and compare.
    pub fn step(&mut self, s: &mut Session, node: &mut Node, text: &str, base: &Report) -> Result<Ran, String> {
        self.lines += 1;
        let mut w = World { fs: node.fs.clone(), ..World::default() };
        let ended = node.model.enter(&mut w, text);
        w.may_end = [text.as_bytes()].into_iter().chain(node.fs.files.values().map(|v| &v[..])).any(|t| t.windows(4).any(|x| x == b"exit" || x == b"exec"));
        // unbounded recursion costs much and is the same everywhere: a part of these lines is run
        if matches!(w.open, Some("too long") | Some("deep recursion")) && self.slow == 1 { self.deep += 1; if self.deep % 12 != 1 { return Ok(Ran { ended: Some(St::Fail), open: true, why: "unbounded recursion, one in twelve run", report: None, outcome: 0 }) } }
        let t = self.place.sub(text);
        let tl = if t.ends_with('\n') { t } else { t + "\n" };
        let got = s.line("", "", &tl, self.timeout());
        self.judge(s, node, w, ended, got, base)
    }

    pub fn judge(&mut self, s: &mut Session, node: &mut Node, mut w: World, ended: Option<St>, got: Got, base: &Report) -> Result<Ran, String> {
        let mut out = s.take_out(); let err = s.take_err();
        // what becomes of the jobs is the explorer's doing, and so are the messages about them
        if !self.jobs.is_empty() || node.late { out = out.split_inclusive(|&c| c == b'\n').filter(|l| !l.starts_with(b"Job [")).flatten().copied().collect(); }
        let log = s.take_log();
        let errs = || { let mut t = String::from_utf8_lossy(&err).to_string(); t.truncate(t.char_indices().nth(300).map_or(t.len(), |x| x.0)); if t.is_empty() { t } else { format!(" [stderr: {}]", t.trim_end()) } };
        if err.windows(6).any(|x| x == b"SHIM: ") { return Err(format!("the shell got stuck:{}", errs())) }
        node.late = false;
        let report = match got {
            Got::Hang if matches!(w.open, Some("too long") | Some("deep recursion")) => return Ok(Ran { ended: Some(St::Fail), open: true, why: w.open.unwrap_or("background process at the end"), report: None, outcome: 0 }),
            Got::Hang => return Err(format!("the line never finishes{}", errs())),
            Got::Ended(st) => {
                if w.open.is_some() && w.may_end { return Ok(Ran { ended: Some(St::Fail), open: true, why: w.open.unwrap_or("background process at the end"), report: None, outcome: 0 }) }
                if w.open.is_some() && ended.is_none() { return Err(format!("the shell ended (wait status {:#x}){}", st, errs())) }
                match ended {
                    None => return Err(format!("the shell ended (wait status {:#x}){}", st, errs())),
                    Some(e) => {
                        if w.open.is_none() {
                            let code = if st & 0x7f == 0 { (st >> 8) & 255 } else { 128 + (st & 0x7f) };
                            if st & 0x7f != 0 && !w.execs.last().map_or(false, |x| x.root) { return Err(format!("the shell died of signal {}{}", st & 0x7f, errs())) }
                            if !e.admits(code) { return Err(format!("the shell ended with status {} instead of {:?}", code, e)) }
                        }
                    }
                }
                None
            }
            Got::Report(r) => {
                if ended.is_some() && w.open.is_none() { return Err(format!("the shell goes on but should have ended with {:?}", ended.unwrap())) }
                node.late = r.children.iter().any(|c| c.state != 3);
                Some(r)
            }
        };
        if ended.is_some() && w.bg { return Ok(Ran { ended, open: true, why: "background process at the end", report: None, outcome: 0 }) }
        let log = log?;
        let disk = self.scan();
        if w.open.is_some() {
            if err.windows(9).any(|x| x == b"panicked ") { return Err(format!("the shell panicked{}", errs())) }
            if let Some(r) = &report { if r.mask != 0 { return Err("signals are blocked at the prompt".into()) } }
            node.fs.files = disk;
            return Ok(Ran { ended, open: true, why: w.open.unwrap(), report, outcome: 0 });
        }
        // programs
        let mut real: Vec<ExecEv> = log.iter().filter_map(|e| if let LogEv::Exec(x) = e { Some(x.clone()) } else { None }).collect();
        real.sort_by(|a, b| path_order(&a.path, &b.path));
        let got: Vec<MExec> = real.iter().map(|x| self.mexec(x)).collect();
        if got != w.execs { return Err(diff_execs(&w.execs, &got) + &errs()) }
        for x in &real {
            if x.mask != 0 { return Err(format!("{:?} starts with blocked signals {:#x}", x.argv, x.mask)) }
            if x.ign != 0 { return Err(format!("{:?} starts with ignored signals {:#x}", x.argv, x.ign)) }
        }
        for e in &log {
            if let LogEv::Simple { kind: b'K', a, b, .. } = e { return Err(format!("the shell sends signal {} to {}", b, a)) }
            if let LogEv::Simple { kind: b'D', a, path, .. } = e { if w.killed.as_ref().map_or(false, |k| k.0 == *path && k.1 == *a) { continue } return Err(format!("a process of the shell got the default action of signal {}", a)) }
        }
        // streams
        let po = self.place.unsubb(out);
        let pe = self.place.unsubb(err.clone());
        if !matches(&w.out, &po, w.racy) { return Err(format!("standard output is {:?} instead of {:?}{}", show(&po), show(&w.out), errs())) }
        if !matches(&w.err, &pe, w.racy) { return Err(format!("standard error is {:?} instead of {:?}", show(&pe), show(&w.err))) }
        if pe.windows(9).any(|x| x == b"panicked ") { return Err(format!("a process of the shell panicked{}", errs())) }
        // files
        for (n, d) in &disk {
            match w.fs.files.get(n) {
                None => return Err(format!("file {} exists", n)),
                Some(m) => {
                    if !matches(m, d, w.racy) { return Err(format!("file {} holds {:?} instead of {:?}", n, show(d), show(m))) }
                }
            }
        }
        for n in w.fs.files.keys() { if !disk.contains_key(n) { return Err(format!("file {} does not exist", n)) } }
        w.fs.files = disk;
        // the shell itself
        if let Some(r) = &report {
            let cwd = self.place.unsub(&r.cwd);
            if cwd != node.model.cwd { return Err(format!("the shell is in {} instead of {}", cwd, node.model.cwd)) }
            if r.mask != 0 { return Err(format!("signals {:#x} are blocked at the prompt", r.mask)) }
            if r.ign != base.ign || r.hnd != base.hnd { return Err(format!("signal handlers changed: ignored {:#x} (before {:#x}), handled {:#x} (before {:#x})", r.ign, base.ign, r.hnd, base.hnd)) }
            let (a, b) = (self.fdset(&base.fds), self.fdset(&r.fds));
            if a != b { return Err(format!("descriptors of the shell changed from {:?} to {:?}", a, b)) }
            if !w.bg { for c in &r.children { if c.state != 3 && !self.jobs.contains(&c.vpid) { return Err(format!("child {} was not collected", c.vpid)) } } }
        }
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for x in &got { x.argv.hash(&mut h); x.env.hash(&mut h); x.cwd.hash(&mut h); }
        po.hash(&mut h); w.fs.files.hash(&mut h);
        node.fs = w.fs;
        Ok(Ran { ended, open: false, why: "", report, outcome: h.finish() })
    }
    pub fn class(&self, link: &str) -> String {
        if link.starts_with("/memfd:mc-out") { "out".into() } else if link.starts_with("/memfd:mc-err") { "err".into() } else if link.starts_with("/memfd:mc-in") { "in".into() }
        else if link.starts_with("pipe:[") { "pipe".into() } else {
            let p = self.place.unsub(link).replace(" (deleted)", "");
            self.cfg.links.iter().find(|l| l.1.starts_with('=') && Fs::norm("@/work", &l.0) == p).map_or(p, |l| Fs::norm("@/work", &l.1[1..]))
        }
    }
    pub fn fdset(&self, f: &[FdEnt]) -> Vec<(i32, String)> { f.iter().map(|f| (f.fd, self.class(&f.link))).collect() }
    pub fn mexec(&self, x: &ExecEv) -> MExec {
        let mut env: Vec<String> = x.envp.iter().map(|e| self.place.unsub(e)).collect();
        env.sort();
        let mut prog = self.place.unsub(&if x.prog.starts_with('/') { x.prog.clone() } else { format!("{}/{}", x.cwd, x.prog) });
        prog = if self.cfg.links.is_empty() { Fs::norm("@", &prog) } else { self.fs().path("@", &prog).unwrap_or(prog) };
        MExec { prog, argv: x.argv.iter().map(|a| self.place.unsub(a)).collect(), env, cwd: self.place.unsub(&x.cwd), fds: self.fdset(&x.fds), root: x.root }
    }
}
impl Drop for Worker { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.place.base); } }

pub fn show(b: &[u8]) -> String {
    let t: String = String::from_utf8_lossy(b).replace('\u{1}', "<message>").replace(['\u{2}', '\u{3}'], "").replace('\u{4}', "<jobs?>");
    if t.len() > 400 { format!("{}... ({} bytes)", t.chars().take(300).collect::<String>(), t.len()) } else { t }
}
pub fn diff_execs(want: &[MExec], got: &[MExec]) -> String {
    let n = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    match (want.get(n), got.get(n)) {
        (Some(w), Some(g)) => {
            let head = format!("program {}:", n + 1);
            if w.prog != g.prog { format!("{} ran {} {:?} instead of {} {:?}", head, g.prog, g.argv, w.prog, w.argv) }
            else if w.argv != g.argv { format!("{} arguments {:?} instead of {:?}", head, g.argv, w.argv) }
            else if w.env != g.env { format!("{} {:?} environment {:?} instead of {:?}", head, g.argv, g.env.iter().filter(|x| !w.env.contains(x)).collect::<Vec<_>>(), w.env.iter().filter(|x| !g.env.contains(x)).collect::<Vec<_>>()) }
            else if w.cwd != g.cwd { format!("{} {:?} runs in {} instead of {}", head, g.argv, g.cwd, w.cwd) }
            else if w.fds != g.fds { format!("{} {:?} has descriptors {:?} instead of {:?}", head, g.argv, g.fds, w.fds) }
            else { format!("{} {:?} replaces the shell: {} instead of {}", head, g.argv, g.root, w.root) }
        }
        (Some(w), None) => format!("program {} {:?} did not run", n + 1, w.argv),
        (None, Some(g)) => format!("program {:?} ran", g.argv),
        _ => "?".into(),
    }
}
/// Does the actual text match the pattern of the model?
pub fn matches(pat: &[u8], act: &[u8], racy: bool) -> bool {
    if pat == act { return true }
    if m(pat, act, &mut 0) { return true }
    if !racy { return false }
    // several writers: lines in any order
    let special = pat.iter().any(|c| (1..=4).contains(c));
    let lines = |b: &[u8]| -> Vec<Vec<u8>> { b.split_inclusive(|&c| c == b'\n').map(|l| l.to_vec()).collect() };
    let msg = pat.contains(&1); let jobs = pat.contains(&4);
    let clean: Vec<u8> = pat.iter().copied().filter(|c| !(1..=4).contains(c)).collect();
    let mut p = lines(&clean); let mut a = lines(act);
    if !special { p.sort(); a.sort(); return p == a }
    let mut ok = true;
    p.retain(|l| { if let Some(i) = a.iter().position(|x| x == l) { a.remove(i); } else { ok = false } false });
    if jobs { a.retain(|l| !(l.starts_with(b"[") || l.starts_with(b"Job "))) }
    ok && if msg { !a.is_empty() } else { a.is_empty() }
}
fn m(p: &[u8], a: &[u8], n: &mut usize) -> bool {
    *n += 1;
    if *n > 20000 { return true }
    let Some(&c) = p.first() else { return a.is_empty() };
    match c {
        1 => (1..=a.len()).rev().any(|k| m(&p[1..], &a[k..], n)),
        2 => {
            let e = p.iter().position(|&x| x == 3).unwrap_or(p.len() - 1);
            let mut want: Vec<&[u8]> = p[1..e].split_inclusive(|&c| c == b'\n').collect();
            let len: usize = want.iter().map(|l| l.len()).sum();
            if a.len() < len { return false }
            let mut got: Vec<&[u8]> = a[..len].split_inclusive(|&c| c == b'\n').collect();
            want.sort(); got.sort();
            want == got && m(&p[e + 1..], &a[len..], n)
        }
        4 => {
            if m(&p[1..], a, n) { return true }
            if !(a.starts_with(b"[") || a.starts_with(b"Job ")) { return false }
            let k = a.iter().position(|&c| c == b'\n').map_or(a.len(), |k| k + 1);
            m(p, &a[k..], n)
        }
        c => a.first() == Some(&c) && m(&p[1..], &a[1..], n),
    }
}
