//! Exhaustive exploration of all histories over an alphabet of lines, by
//! snapshotting the real shell process at every node.
use crate::ctl::*;
use crate::run::*;
use std::collections::HashSet;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Item { pub line: String, pub put: Vec<(String, String)> }
impl From<&str> for Item { fn from(s: &str) -> Item { Item { line: s.to_string(), put: vec![] } } }
impl From<String> for Item { fn from(s: String) -> Item { Item { line: s, put: vec![] } } }
impl Item {
    pub fn show(&self) -> String { if self.put.is_empty() { self.line.clone() } else { format!("{}   [{}]", self.line, self.put.iter().map(|(p, t)| format!("{}: {:?}", p, t)).collect::<Vec<_>>().join(", ")) } }
}
/// Lines with unmatched brackets never leave the line editor, so they are sourced from a file.
pub fn items<T: AsRef<str>>(v: &[T]) -> Vec<Item> {
    v.iter().map(|s| if crate::parse::brackets(s.as_ref()) == 0 { Item::from(s.as_ref()) } else { Item { line: "source ./u.sh".into(), put: vec![("u.sh".into(), s.as_ref().into())] } }).collect()
}

#[derive(Clone, Default)]
pub struct Plan { pub name: String, pub cfg: Cfg, pub levels: Vec<Vec<Item>>, pub probes: Vec<Item>, pub sessions: Vec<Vec<Item>> }
impl Plan {
    pub fn flat(name: &str, cfg: Cfg, lines: Vec<Item>) -> Plan { Plan { name: name.into(), cfg, levels: vec![lines], ..Plan::default() } }
    pub fn tree(name: &str, cfg: Cfg, alpha: Vec<Item>, depth: usize) -> Plan { Plan { name: name.into(), cfg, levels: vec![alpha; depth], ..Plan::default() } }
    /// whole sessions, each run from the start in one shell
    pub fn sessions(name: &str, cfg: Cfg, s: Vec<Vec<Item>>) -> Plan { Plan { name: name.into(), cfg, sessions: s, ..Plan::default() } }
    pub fn probe<T: AsRef<str>>(mut self, p: &[T]) -> Plan { self.probes = items(p); self }
}

#[derive(Clone, Debug)]
pub struct Violation { pub plan: String, pub history: Vec<Item>, pub what: String, pub extra: String }

pub struct Ctx {
    pub prop: String, pub tier: String, pub root: PathBuf, pub bins: PathBuf, pub threads: usize, pub start: Instant, pub deadline: f64,
    pub lines: AtomicU64, pub states: AtomicU64, pub traces: AtomicU64, pub opens: AtomicU64, pub flaky: AtomicU64, pub capped: AtomicBool,
    pub outcomes: Mutex<HashSet<u64>>, pub violations: Mutex<Vec<Violation>>, pub stop: AtomicBool, pub samples: Mutex<Vec<String>>, pub notes: Mutex<Vec<String>>,
    pub plans: Mutex<Vec<(String, u64, usize, usize, bool)>>, pub errors: Mutex<Vec<String>>, pub counters: Mutex<std::collections::BTreeMap<String, u64>>,
}
impl Violation {
    pub fn sig(&self) -> String { format!("{}: {}", self.plan, self.history.iter().map(|i| i.show()).collect::<Vec<_>>().join(" / ")) }
    pub fn file(&self, prop: &str, tier: &str) -> String {
        let mut t = format!("property {}\ntier {}\nplan {}\nwhat {}\n", crate::js(prop), crate::js(tier), crate::js(&self.plan), crate::js(&self.what));
        for h in &self.history { t += &format!("line {}\n", crate::js(&h.line)); for (p, d) in &h.put { t += &format!("put {} {}\n", crate::js(p), crate::js(d)) } }
        if !self.extra.is_empty() { t += &format!("extra {}\n", crate::js(&self.extra)) }
        t
    }
}
impl Ctx {
    pub fn new(prop: &str, tier: &str, root: &std::path::Path, threads: usize, deadline: f64) -> Ctx {
        Ctx { prop: prop.into(), tier: tier.into(), root: root.into(), bins: root.into(), threads, start: Instant::now(), deadline,
            lines: AtomicU64::new(0), states: AtomicU64::new(0), traces: AtomicU64::new(0), opens: AtomicU64::new(0), flaky: AtomicU64::new(0), capped: AtomicBool::new(false),
            outcomes: Default::default(), violations: Mutex::new(vec![]), stop: AtomicBool::new(false), samples: Default::default(), notes: Default::default(), plans: Default::default(), errors: Default::default(), counters: Default::default() }
    }
    pub fn count(&self, k: &str, n: u64) { *self.counters.lock().unwrap().entry(k.into()).or_default() += n; }
    pub fn late(&self) -> bool { if self.start.elapsed().as_secs_f64() > self.deadline { self.capped.store(true, Relaxed); true } else { false } }
    pub fn done(&self) -> bool { self.stop.load(Relaxed) || self.late() }
    pub fn report(&self, v: Violation) {
        let mut l = self.violations.lock().unwrap();
        l.push(v);
        self.stop.store(true, Relaxed);
    }
}

/// Which of the explored histories are also run on the shell without any harness: a deterministic
/// choice by hash, spread over the whole plan.
fn chosen(h: &[Item], every: u64) -> bool {
    let mut x: u64 = 0xcbf29ce484222325;
    for i in h { for b in i.line.bytes().chain([0]).chain(i.put.iter().flat_map(|p| p.1.bytes())) { x = (x ^ b as u64).wrapping_mul(0x100000001b3) } }
    (x >> 20) % every == 0
}
const ALIVE: &str = "@/bin/out alive";
pub const PLAIN_PER_PLAN: u64 = 64;

struct Walk<'a> { cx: &'a Ctx, plan: &'a Plan, w: Worker, base: Report, outcomes: HashSet<u64>, every: u64 }

impl<'a> Walk<'a> {
    fn put(w: &mut Worker, node: &mut Node, it: &Item) {
        if it.put.is_empty() { return }
        for (p, t) in &it.put { node.fs.files.insert(crate::model::Fs::norm("@/work", p), crate::ctl::raw(t)); }
        w.restore(&node.fs.files.clone());
    }
    fn fail(&mut self, hist: &[Item], what: String) {
        // a finding counts only if the history fails again on a fresh shell, entered line by line
        let mut confirmed = None;
        self.w.slow = 2;
        for _ in 0..2 {
            match run_history(&mut self.w, hist) { Err(e) => { confirmed = Some(e); break } Ok(_) => {} }
        }
        self.w.slow = 1;
        match confirmed {
            Some(e) => self.cx.report(Violation { plan: self.plan.name.clone(), history: hist.to_vec(), what: e, extra: String::new() }),
            None => {
                self.cx.flaky.fetch_add(1, Relaxed);
                self.cx.notes.lock().unwrap().push(format!("not reproduced from a fresh shell: {} after {:?}", what, hist.iter().map(|i| i.show()).collect::<Vec<_>>()));
            }
        }
    }
    fn go(&mut self, s: &mut Session, node: &Node, hist: &mut Vec<Item>, level: usize, only: Option<&[usize]>) {
        for (i, it) in self.plan.levels[level].iter().enumerate() {
            if let Some(o) = only { if o[0] != i { continue } }
            if self.cx.done() { return }
            hist.push(it.clone());
            self.one(s, node, it, hist, level, only);
            hist.pop();
        }
    }
    fn one(&mut self, s: &mut Session, node: &Node, it: &Item, hist: &mut Vec<Item>, level: usize, only: Option<&[usize]>) {
        let Some(mut t) = s.snap() else { return self.fail(hist, "the shell is gone".into()) };
        self.w.restore(&node.fs.files);
        let mut n = node.clone();
        Self::put(&mut self.w, &mut n, it);
        let r = self.w.step(&mut t, &mut n, &it.line, &self.base);
        let counted = only.map_or(true, |o| o.len() == 1 || o[1..].iter().all(|&x| x == 0));
        if counted { self.cx.states.fetch_add(1, Relaxed); }
        match r {
            Err(e) => self.fail(hist, e),
            Ok(r) if counted && !r.open && chosen(hist, self.every) && !self.plain(hist, &n.fs.files) => {}
            Ok(r) if r.ended.is_some() => if r.open { if counted { self.cx.opens.fetch_add(1, Relaxed); self.cx.count(&format!("open: {}", r.why), 1); } } else { self.outcomes.insert(r.outcome); },
            Ok(r) if r.open => {
                if counted { self.cx.opens.fetch_add(1, Relaxed); self.cx.count(&format!("open: {}", r.why), 1); }
                if std::env::var_os("MC_OPEN").is_some() { eprintln!("open {}: {:?}", r.why, hist.iter().map(|i| i.show()).collect::<Vec<_>>()) }
                self.survive(&mut t, hist);
            }
            Ok(r) => {
                self.outcomes.insert(r.outcome);
                let deeper = level + 1 < self.plan.levels.len();
                if counted && !self.plan.probes.is_empty() {
                    let mut p;
                    let ps = if deeper { match t.snap() { Some(x) => { p = x; &mut p } None => return self.fail(hist, "the shell is gone".into()) } } else { &mut t };
                    let mut m = n.clone();
                    for l in &self.plan.probes {
                        hist.push(l.clone());
                        match self.w.step(ps, &mut m, &l.line, &self.base) {
                            Err(e) => { self.fail(hist, e); hist.pop(); return }
                            Ok(r) => { self.outcomes.insert(r.outcome); hist.pop(); if r.ended.is_some() || r.open { break } }
                        }
                    }
                }
                if deeper { self.go(&mut t, &n, hist, level + 1, only.and_then(|o| if o.len() > 1 { Some(&o[1..]) } else { None })) }
            }
        }
    }
    fn plain(&mut self, hist: &[Item], files: &Files) -> bool {
        let mut e = plain(&mut self.w, hist);
        if e.is_err() { self.w.slow = 2; e = plain(&mut self.w, hist); self.w.slow = 1; }
        self.w.restore(files);
        match e {
            Ok(true) => { self.cx.traces.fetch_add(1, Relaxed); true }
            Ok(false) => true,
            Err(e) => { self.cx.report(Violation { plan: self.plan.name.clone(), history: hist.to_vec(), what: format!("on the unmodified binary: {}", e), extra: String::new() }); false }
        }
    }
    /// after a line whose meaning is left open: the shell still runs the next line
    fn survive(&mut self, t: &mut Session, hist: &[Item]) {
        t.take_out(); t.take_err(); let _ = t.take_log();
        let got = t.line("", "", &(self.w.place.sub(ALIVE) + "\n"), self.w.timeout());
        self.w.lines += 1;
        let ok = match got { Got::Report(_) => true, _ => false };
        let out = t.take_out();
        // the line itself may have ended the shell
        let redefined = hist.last().map_or(false, |h| h.line.contains("exit") || h.line.contains("exec") || !h.put.is_empty());
        if !ok || (!redefined && !out.ends_with(b"alive\n")) {
            let mut h = hist.to_vec(); h.push(ALIVE.into());
            self.fail(&h, "the next line does not run".into());
        }
    }
}

/// Plain replay of a history: no snapshots. Err = the last line (or an earlier one) does not do what it should.
pub fn run_history(w: &mut Worker, hist: &[Item]) -> Result<(), String> {
    let (mut s, mut node, base) = w.start()?;
    let mut after_open = false;
    for it in hist {
        if after_open {
            s.take_out(); s.take_err(); let _ = s.take_log();
            return match s.line("", "", &(w.place.sub(&it.line) + "\n"), w.timeout()) {
                Got::Report(_) if s.take_out().ends_with(b"alive\n") => Ok(()),
                _ => Err("the next line does not run".into()),
            };
        }
        Walk::put(w, &mut node, it);
        let r = w.step(&mut s, &mut node, &it.line, &base)?;
        if r.ended.is_some() { return Ok(()) }
        after_open = r.open;
    }
    Ok(())
}

/// The same history on the shell as it is, reading its lines from standard input, against the
/// model's prediction. Ok(false): not comparable this way.
pub fn plain(w: &mut Worker, hist: &[Item]) -> Result<bool, String> {
    if hist.iter().any(|h| !h.put.is_empty()) && hist.len() > 1 { return Ok(false) }
    let init = w.initial_files();
    let mut node = Node { model: w.model(), fs: w.fs(), late: false };
    for h in hist { for (p, t) in &h.put { node.fs.files.insert(crate::model::Fs::norm("@/work", p), crate::ctl::raw(t)); } }
    let mut files = init; for (k, v) in &node.fs.files { files.insert(k.clone(), v.clone()); }
    w.restore(&files);
    let mut all = crate::model::World { fs: node.fs, ..Default::default() };
    let mut text = String::new(); let mut ended = None;
    for l in w.cfg.setup.clone().iter().chain(hist.iter().map(|h| &h.line)) {
        text += l; text.push('\n');
        ended = node.model.enter(&mut all, l);
        if all.open.is_some() || all.bg || all.reads_in { return Ok(false) }
        if ended.is_some() { break }
    }
    let want = ended.unwrap_or(node.model.status);
    let exec_end = all.execs.last().map_or(false, |x| x.root);
    let (out, code, log) = w.plain(&text).ok_or("the shell does not end")?;
    let key = |x: &crate::model::MExec| format!("{:?} {:?} {:?} {:?} {:?}", x.prog, x.argv, x.env, x.cwd, x.fds);
    let mut got: Vec<String> = parse_log(&log)?.iter().filter_map(|e| if let LogEv::Exec(x) = e { Some(key(&w.mexec(x))) } else { None }).collect();
    let mut exp: Vec<String> = all.execs.iter().map(key).collect();
    if all.racy { got.sort(); exp.sort(); }
    if got != exp { let n = got.iter().zip(&exp).take_while(|(a, b)| a == b).count(); return Err(format!("program {} is {:?} instead of {:?}", n + 1, got.get(n), exp.get(n))) }
    let disk = w.scan();
    let out = w.place.unsubb(out);
    if !matches(&all.out, &out, all.racy) { return Err(format!("standard output is {:?} instead of {:?}", show(&out), show(&all.out))) }
    if !exec_end && !want.admits(code) { return Err(format!("the shell ended with status {} instead of {:?}", code, want)) }
    for (n, d) in &disk { match all.fs.files.get(n) { None => return Err(format!("file {} exists", n)), Some(m) => if !matches(m, d, all.racy) { return Err(format!("file {} holds {:?} instead of {:?}", n, show(d), show(m))) } } }
    for n in all.fs.files.keys() { if !disk.contains_key(n) { return Err(format!("file {} does not exist", n)) } }
    Ok(true)
}

pub fn run_plan(cx: &Ctx, plan: &Plan) {
    if cx.done() { return }
    if !plan.sessions.is_empty() { return run_sessions(cx, plan) }
    let (n0, n1) = (plan.levels[0].len(), if plan.levels.len() > 1 { plan.levels[1].len() } else { 1 });
    let two = plan.levels.len() > 1;
    let total = n0 * n1;
    let next = AtomicUsize::new(0);
    let t0 = Instant::now();
    let size: u64 = plan.levels.iter().map(|l| l.len() as u64).product::<u64>().max(1);
    let every = (size / PLAIN_PER_PLAN).max(1);
    let chunk = if two { 1 } else { (n0 / (cx.threads * 8)).clamp(1, 64) };
    let before = cx.states.load(Relaxed);
    std::thread::scope(|sc| {
        for k in 0..cx.threads {
            let next = &next;
            let _ = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(sc, move || {
                let w = Worker::new(&cx.root, k, &cx.bins, &plan.cfg);
                let mut wk = Walk { cx, plan, w, base: Report::default(), outcomes: HashSet::new(), every };
                let mut sess = None;
                loop {
                    let u = next.fetch_add(chunk, Relaxed);
                    if u >= total || cx.done() { break }
                    if sess.is_none() {
                        match wk.w.start() {
                            Ok((s, n, r)) => { wk.base = r; sess = Some((s, n)) }
                            Err(e) => {
                                // the setup itself breaks the property
                                let e2 = wk.w.start().err();
                                match e2 { Some(e) => cx.report(Violation { plan: plan.name.clone(), history: vec![], what: e, extra: String::new() }), None => cx.errors.lock().unwrap().push(e) }
                                break;
                            }
                        }
                    }
                    let (s, n) = sess.as_mut().unwrap();
                    let mut hist = vec![];
                    for u in u..(u + chunk).min(total) {
                        if two { wk.go(s, n, &mut hist, 0, Some(&[u / n1, u % n1])) } else { wk.go(s, n, &mut hist, 0, Some(&[u])) }
                    }
                }
                cx.lines.fetch_add(wk.w.lines, Relaxed);
                cx.outcomes.lock().unwrap().extend(wk.outcomes.iter());
            });
        }
    });
    let st = cx.states.load(Relaxed) - before;
    let full = !cx.capped.load(Relaxed) && !cx.stop.load(Relaxed);
    cx.plans.lock().unwrap().push((plan.name.clone(), st, plan.levels.iter().map(|l| l.len()).max().unwrap_or(0), plan.levels.len(), full));
    if let (Some(a), Some(b)) = (plan.levels[0].first(), plan.levels[0].last()) {
        cx.samples.lock().unwrap().push(format!("{}: {} .. {}", plan.name, a.show(), b.show()));
    }
    if std::env::var_os("MC_VERBOSE").is_some() { eprintln!("{}/{}: {} nodes, {:.1}s, opens so far {}, outcomes {}, {}", cx.prop, plan.name, st, t0.elapsed().as_secs_f64(), cx.opens.load(Relaxed), cx.outcomes.lock().unwrap().len(), crate::ctl::longest()); }
}

fn run_sessions(cx: &Ctx, plan: &Plan) {
    let next = AtomicUsize::new(0); let before = cx.states.load(Relaxed);
    std::thread::scope(|sc| for k in 0..cx.threads.min(plan.sessions.len()) {
        let next = &next;
        let _ = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(sc, move || {
            let mut w = Worker::new(&cx.root, k, &cx.bins, &plan.cfg);
            loop {
                let u = next.fetch_add(1, Relaxed);
                if u >= plan.sessions.len() || cx.done() { break }
                let h = &plan.sessions[u];
                cx.states.fetch_add(h.len() as u64, Relaxed);
                if run_history(&mut w, h).is_err() {
                    w.slow = 2;
                    if let Err(e) = run_history(&mut w, h) { cx.report(Violation { plan: plan.name.clone(), history: h.clone(), what: e, extra: String::new() }); }
                    w.slow = 1;
                }
                match plain(&mut w, h) { Ok(true) => { cx.traces.fetch_add(1, Relaxed); } Ok(false) => {} Err(_) => if let Err(e) = plain(&mut w, h) { cx.report(Violation { plan: plan.name.clone(), history: h.clone(), what: format!("on the unmodified binary: {}", e), extra: String::new() }) } }
            }
            cx.lines.fetch_add(w.lines, Relaxed);
        });
    });
    cx.plans.lock().unwrap().push((plan.name.clone(), cx.states.load(Relaxed) - before, plan.sessions.len(), plan.sessions.iter().map(|s| s.len()).max().unwrap_or(0), !cx.capped.load(Relaxed)));
}
