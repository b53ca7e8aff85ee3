//! Job control (C12, C13): every interleaving of commands with the ends, stops
//! and continuations of the processes they started. The explorer is the
//! kernel: it decides every event and so knows the truth about every process.
use crate::ctl::*;
use crate::explore::*;
use crate::run::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Run, Stop, End(i32) }
#[derive(Clone, Debug)]
struct Proc { name: String, st: St, gone: bool, ctrl: bool }
#[derive(Clone, Debug)]
struct Job { procs: Vec<i32>, num: Option<u32> }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want { Code(i32), Fail, Open }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Seq, And, Or }
#[derive(Clone, Debug)]
struct Pipe { op: Op, names: Vec<String>, bg: bool }
#[derive(Clone, Debug)]
struct Cur { line: String, pipes: Vec<Pipe>, at: usize, fg: Option<usize>, st: Want, loose: bool, target: Option<usize>, kind: u8, met: bool, recent: HashSet<i32>, stops: HashSet<i32>, looks: u32 }
#[derive(Clone, Debug, Default)]
pub struct Truth { procs: BTreeMap<i32, Proc>, jobs: Vec<Job>, cur: Option<Cur>, kills: Vec<(i32, i32)>, leaf: bool, dirty: bool, blocking: u32, last: HashSet<i32>, last_stop: HashSet<i32>, last_zomb: HashSet<i32>, pgid: BTreeMap<i32, i32> }

/// What went wrong, and which of the two properties it breaks (3: both).
#[derive(Debug)]
pub struct Bad(pub u8, pub String);
type R<T> = Result<T, Bad>;
fn bad<T>(p: u8, s: String) -> R<T> { Err(Bad(p, s)) }
const PC12: u8 = 1; const PC13: u8 = 2; const BOTH: u8 = 3;

/// Something that happens: a line entered, events, or the shell's pending wait looks.
#[derive(Clone, Debug, PartialEq)]
pub enum Act { Line(String), Ev(String), Go, Settle }
impl Act {
    pub fn show(&self) -> String { match self { Act::Line(l) => format!("enter {}", l), Act::Ev(e) => format!("events {}", e), Act::Go => "look".into(), Act::Settle => "settle".into() } }
    pub fn parse(s: &str) -> Option<Act> { if let Some(l) = s.strip_prefix("enter ") { Some(Act::Line(l.into())) } else if let Some(e) = s.strip_prefix("events ") { Some(Act::Ev(e.into())) } else if s == "look" { Some(Act::Go) } else if s == "settle" { Some(Act::Settle) } else { None } }
}

fn fits(a: &Act, at_wait: bool) -> bool { match a { Act::Line(_) => !at_wait, Act::Go => at_wait, _ => true } }

fn pipes(l: &str) -> Vec<Pipe> {
    let mut v = vec![]; let mut op = Op::Seq; let mut cur = Pipe { op, names: vec![], bg: false }; let mut first = true;
    for w in l.split(' ') {
        let next = match w { ";" => Some(Op::Seq), "&&" => Some(Op::And), "||" => Some(Op::Or), _ => None };
        if let Some(o) = next { if !cur.names.is_empty() { v.push(cur); } op = o; cur = Pipe { op, names: vec![], bg: false }; first = true; continue }
        match w { "&" => cur.bg = true, "|" => first = true, w => if first { cur.names.push(w.into()); first = false } }
    }
    if !cur.names.is_empty() { v.push(cur) }
    v
}

impl Truth {
    fn state(&self, j: usize) -> St {
        let p: Vec<St> = self.jobs[j].procs.iter().map(|v| self.procs[v].st).collect();
        if p.iter().any(|s| *s == St::Run) { St::Run } else if p.iter().any(|s| *s == St::Stop) { St::Stop } else { *p.last().unwrap() }
    }
    fn names(&self, j: usize) -> Vec<String> { self.jobs[j].procs.iter().map(|v| self.procs[v].name.clone()).collect() }
    fn done(&self, j: usize) -> bool { self.state(j) != St::Run }
    fn status(&self, j: usize) -> Want {
        match self.state(j) { St::End(s) => Want::Code(if s & 0x7f == 0 { (s >> 8) & 255 } else { 128 + (s & 0x7f) }), _ => Want::Open }
    }
    fn by_num(&self, n: u32) -> Option<usize> { (0..self.jobs.len()).find(|&j| self.jobs[j].num == Some(n) && !matches!(self.state(j), St::End(_))) }
    pub fn live(&self) -> Vec<usize> { (0..self.jobs.len()).filter(|&j| !matches!(self.state(j), St::End(_))).collect() }
    fn auto(&self) -> Option<i32> { self.procs.iter().find(|(_, p)| p.st == St::Run && !p.ctrl).map(|(v, _)| *v) }

    /// Take over what the shim reports; returns the processes that are new.
    fn sync(&mut self, rep: &Report, log: &[LogEv]) -> Vec<i32> {
        let mut new = vec![];
        let st = |c: &ChildEnt| match c.state { 0 => St::Run, 2 => St::Stop, _ => St::End(c.status) };
        for c in &rep.children {
            self.pgid.insert(c.vpid, c.pgid);
            match self.procs.get_mut(&c.vpid) {
                Some(p) => { p.st = st(c); p.gone = c.state == 3; p.ctrl |= c.ctrl }
                None => { new.push(c.vpid); self.procs.insert(c.vpid, Proc { name: String::new(), st: st(c), gone: c.state == 3, ctrl: c.ctrl }); }
            }
        }
        let here: HashSet<i32> = rep.children.iter().map(|c| c.vpid).collect();
        for (v, p) in self.procs.iter_mut() { if !here.contains(v) { p.gone = true; if !matches!(p.st, St::End(_)) { p.st = St::End(0) } } }
        for e in log { if let LogEv::Exec(x) = e { if let Some(p) = self.procs.get_mut(&x.vpid) { p.name = x.prog.rsplit('/').next().unwrap_or("").to_string() } } }
        new.sort();
        new
    }
    /// New processes against the line that is being run.
    fn advance(&mut self, mut new: Vec<i32>, r: &Report, again: bool) -> R<()> {
        if let Some(c) = &mut self.cur { for x in &r.children { if x.state != 0 || x.rep & 2 != 0 { c.recent.insert(x.vpid); } if x.state == 2 || x.rep & 2 != 0 { c.stops.insert(x.vpid); } } }
        let Some(mut c) = self.cur.take() else { if new.is_empty() { return Ok(()) } return bad(BOTH, format!("processes {:?} were started at the prompt", new)) };
        loop {
            if let Some(j) = c.fg {
                let prompt = r.kind == b'R';
                // before fg has continued its job
                if c.kind == b'f' && !c.met && !prompt { break }
                // a stopped job may be continued before the shell looks, so a stop counts only once it has
                if !prompt && new.is_empty() && (r.blocking != 2 || again) { break }
                // what the shell has not looked at yet may be older or newer than what it has
                if !self.done(j) { if prompt && self.jobs[j].procs.iter().all(|v| c.recent.contains(v)) { c.st = Want::Open; c.fg = None; continue } break }
                c.st = if prompt && self.jobs[j].procs.iter().any(|v| c.stops.contains(v)) { Want::Open } else { self.status(j) }; c.fg = None;
            }
            let Some(p) = c.pipes.get(c.at) else { break };
            let run = match (p.op, c.st) { (Op::Seq, _) => true, (_, Want::Open) => { self.leaf = true; self.cur = Some(c); return Ok(()) } (o, s) => (s == Want::Code(0)) == (o == Op::And) };
            if !run { c.at += 1; continue }
            let k = p.names.len();
            if new.is_empty() { break }
            if new.len() < k { return bad(BOTH, format!("{} of {} processes of {:?} were started", new.len(), k, p.names)) }
            let mine: Vec<i32> = new.drain(..k).collect();
            // programs run at once, so their names are known here
            let mut order = vec![];
            for n in &p.names {
                match mine.iter().find(|v| self.procs[v].name == *n && !order.contains(*v)) { Some(v) => order.push(*v), None => return bad(BOTH, format!("{} was not started", n)) }
            }
            self.jobs.push(Job { procs: order, num: None });
            if p.bg { c.st = Want::Code(0) } else { c.fg = Some(self.jobs.len() - 1) }
            c.at += 1;
        }
        if !new.is_empty() { let e = match c.fg { Some(j) => format!("the next command was started while {:?} runs", self.names(j)), None => format!("processes {:?} were started that the line does not name", new) }; return bad(BOTH, e) }
        self.cur = Some(c);
        Ok(())
    }
    fn check_kills(&mut self, log: &[LogEv]) -> R<()> {
        let target = self.cur.as_ref().and_then(|c| c.target);
        let line = self.cur.as_ref().map_or("", |c| &c.line[..]).to_string();
        let mut gone: HashSet<i32> = self.procs.iter().filter(|(_, p)| p.gone).map(|(v, _)| *v).collect();
        for e in log { if let LogEv::Simple { kind: b'R', a, .. } = e { gone.remove(a); } }
        for e in log {
            match e {
                LogEv::Simple { kind: b'R', a, path, .. } if path.is_empty() => { gone.insert(*a); }
                LogEv::Simple { kind: b'K', a, b, .. } if *b != 0 => {
                    let Some(j) = target else { return bad(PC12, format!("{:?} sends signal {} to {}", line, b, a)) };
                    if *b != 18 { return bad(PC12, format!("{:?} sends signal {} to {}", line, b, a)) }
                    let procs = &self.jobs[j].procs;
                    if *a > 0 && !procs.contains(a) { return bad(PC12, format!("{:?} sends signal {} to process {}, which is not of the job ({:?})", line, b, a, procs)) }
                    if *a > 0 && gone.contains(a) { return bad(PC12, format!("{:?} sends signal {} to process {}, which has been collected", line, b, a)) }
                    if *a <= 0 { let g = -*a; if *a == 0 || *a == -1 || g == 1000 || self.pgid.iter().any(|(v, p)| *p == g && !procs.contains(v) && !gone.contains(v)) { return bad(PC12, format!("{:?} sends signal {} to {}, a group with other processes", line, b, a)) } }
                }
                LogEv::Simple { kind: b'D', a, .. } => return bad(BOTH, format!("the default action of signal {} befell a process of the shell", a)),
                _ => {}
            }
        }
        Ok(())
    }
}

/// What a plan explores.
#[derive(Clone)]
pub struct JPlan { pub name: String, pub setup: Vec<Act>, pub starts: Vec<String>, pub cmds: Vec<String>, pub events: String, pub depth: usize, pub max_jobs: usize, pub w0: bool, pub pairs: bool }

pub struct Eng<'a> { pub w: &'a mut Worker, pub prop: u8 }

impl<'a> Eng<'a> {
    fn got(&mut self, s: &mut Session, t: &mut Truth, g: Got, again: bool) -> R<Report> {
        let err = s.take_err();
        let errs = String::from_utf8_lossy(&err).trim_end().chars().take(300).collect::<String>();
        if errs.contains("panicked ") { return bad(BOTH, format!("the shell panicked: {}", errs)) }
        let r = match g {
            Got::Report(r) => r,
            Got::Ended(c) => return bad(BOTH, format!("the shell ended (wait status {:#x}) {}", c, errs)),
            Got::Hang => return bad(BOTH, format!("the shell hangs {}", errs)),
        };
        let log = s.take_log().map_err(|e| Bad(BOTH, e))?;
        s.take_out();
        let new = t.sync(&r, &log);
        t.blocking = r.blocking;
        t.last_zomb = r.children.iter().filter(|x| x.state == 1).map(|x| x.vpid).collect();
        t.last_stop = r.children.iter().filter(|x| x.state == 2 || x.rep & 2 != 0).map(|x| x.vpid).collect();
        t.last = r.children.iter().filter(|x| x.state != 0 || x.rep & 2 != 0).map(|x| x.vpid).collect();
        t.check_kills(&log)?;
        if r.kind == b'W' { self.check_cont(t, &r)? }
        t.advance(new, &r, again)?;
        if t.leaf { return Ok(r) }
        if r.kind == b'W' { self.check_w(t, &r, again)? } else { self.check_r(s, t, &r)? }
        Ok(r)
    }
    fn check_cont(&mut self, t: &mut Truth, r: &Report) -> R<()> {
        let Some(c) = &mut t.cur else { return Ok(()) };
        if r.blocking == 0 { return Ok(()) }
        if c.kind == b'f' && !c.met && !c.loose {
            // fg waits: now everything of its job runs
            if let Some(j) = c.target { if let Some(v) = t.jobs[j].procs.iter().find(|v| t.procs[v].st == St::Stop) { return bad(PC12, format!("{:?} waits but did not continue process {}", c.line, v)) } }
        }
        c.met = true;
        Ok(())
    }
    fn check_w(&mut self, t: &mut Truth, r: &Report, again: bool) -> R<()> {
        let Some(c) = &mut t.cur else { return Ok(()) };
        if r.blocking == 0 { return Ok(()) }
        match c.fg {
            None if c.at < c.pipes.len() => bad(PC13, format!("{:?}: the shell waits before {:?} was started", c.line, c.pipes[c.at].names)),
            None if c.kind == b'f' && c.loose => Ok(()),
            // done at the time of this look: allowed, the next look must not block
            None if r.blocking == 2 && !again => bad(PC13, format!("{:?}: the shell waits though the job is done", c.line)),
            None if c.kind == b'l' && c.pipes.last().map_or(false, |p| !p.bg) => Ok(()),
            None if c.kind == b'f' && c.target.is_some() => Ok(()),
            None => bad(PC13, format!("{:?}: the shell waits for nothing in the foreground", c.line)),
            Some(_) => Ok(()),
        }
    }
    fn check_r(&mut self, s: &mut Session, t: &mut Truth, r: &Report) -> R<()> {
        let cur = t.cur.take();
        if let Some(c) = &cur {
            if let Some(j) = c.fg { return bad(PC13, format!("{:?}: the prompt is back while {:?} runs ({:?})", c.line, t.names(j), t.jobs[j].procs.iter().map(|v| t.procs[v].st).collect::<Vec<_>>())) }
            if c.at < c.pipes.len() { return bad(BOTH, format!("{:?}: {:?} was not started", c.line, c.pipes[c.at].names)) }
            if let (b'b', Some(j), false) = (c.kind, c.target, c.loose) {
                if let Some(v) = t.jobs[j].procs.iter().find(|v| t.procs[v].st == St::Stop) { return bad(PC12, format!("{:?} did not continue process {}", c.line, v)) }
            }
        }
        if r.mask != 0 { return bad(BOTH, format!("signals {:#x} are blocked at the prompt", r.mask)) }
        if let Some(c) = &cur { if c.st != Want::Open && !c.loose && self.prop & PC13 != 0 {
            let Some(mut p) = s.snap() else { return bad(BOTH, "the shell is gone".into()) };
            self.w.lines += 1;
            let code = match p.line("", "", "exit\n", self.w.timeout()) { Got::Ended(c) => c, _ => return bad(BOTH, "exit does not end the shell".into()) };
            let code = if code & 0x7f == 0 { (code >> 8) & 255 } else { return bad(BOTH, format!("exit ends the shell with wait status {:#x}", code)) };
            let ok = match c.st { Want::Code(x) => x == code, Want::Fail => code != 0, Want::Open => true };
            if !ok { return bad(PC13, format!("{:?} has status {} instead of {:?}", c.line, code, c.st)) }
        } }
        let Some(mut p) = s.snap() else { return bad(BOTH, "the shell is gone".into()) };
        self.w.lines += 1;
        let g = p.line("", "", "jobs\n", self.w.timeout());
        let out = String::from_utf8_lossy(&p.take_out()).to_string();
        let err = String::from_utf8_lossy(&p.take_err()).to_string();
        if std::env::var_os("MC_TRACE").is_some() { eprintln!("jobs: {:?}", out) }
        let Got::Report(r2) = g else { return bad(BOTH, format!("jobs ends or hangs the shell: {}", err)) };
        if !err.is_empty() { return bad(BOTH, format!("jobs complains: {}", err)) }
        if let Some(c) = r2.children.iter().find(|c| c.state == 1) { return bad(PC13, format!("child {} has ended and was not collected", c.vpid)) }
        self.check_jobs(t, &out)
    }
    fn check_jobs(&mut self, t: &mut Truth, out: &str) -> R<()> {
        let shown = parse_jobs(out);
        let live = t.live();
        let mut used = vec![];
        for (n, st, names) in &shown {
            if used.iter().any(|(m, _)| m == n) { return bad(PC12, format!("jobs shows number {} twice: {:?}", n, out)) }
            let same = |j: &usize| t.names(*j) == *names && !used.iter().any(|(_, k)| k == j);
            let j = live.iter().copied().filter(same).find(|&j| t.jobs[j].num == Some(*n)).or_else(|| live.iter().copied().filter(same).find(|&j| t.jobs[j].num.is_none() && ok_state(t.state(j), st)).or_else(|| live.iter().copied().filter(same).find(|&j| t.jobs[j].num.is_none())));
            let Some(j) = j else { return bad(PC12, format!("jobs shows {:?}; the jobs are {}", out.trim_end(), t.describe())) };
            if !ok_state(t.state(j), st) { return bad(PC12, format!("jobs shows {:?}; the jobs are {}", out.trim_end(), t.describe())) }
            used.push((*n, j));
        }
        if let Some(j) = live.iter().find(|j| !used.iter().any(|(_, k)| k == *j)) { return bad(PC12, format!("jobs does not show {:?} ({:?}): {:?}", t.names(*j), t.state(*j), out)) }
        for (n, j) in used { t.jobs[j].num = Some(n) }
        Ok(())
    }
    /// One action on the shell.
    fn apply(&mut self, s: &mut Session, t: &mut Truth, a: &Act) -> R<Report> {
        self.w.lines += 1;
        let to = self.w.timeout();
        let g = match a {
            Act::Line(l) => {
                let mut c = Cur { line: l.clone(), pipes: vec![], at: 0, fg: None, st: Want::Code(0), loose: false, target: None, kind: b'l', met: false, recent: HashSet::new(), stops: HashSet::new(), looks: 0 };
                let mut text = l.clone();
                let w: Vec<&str> = l.split(' ').collect();
                match w[0] {
                    "jobs" | "alias" => c.kind = b'j',
                    "fg" | "bg" => {
                        c.kind = w[0].as_bytes()[0];
                        // %N: by number; #N: the process with our number N
                        let j = if let Some(n) = w[1].strip_prefix('%') { n.parse().ok().and_then(|n| t.by_num(n)) } else {
                            let v: i32 = w[1].parse().unwrap_or(0);
                            t.live().into_iter().find(|&j| t.jobs[j].procs.contains(&v))
                        };
                        c.target = j;
                        // a process of the job that has ended already may or may not still name it
                        if let (Some(_), Ok(v)) = (j, w[1].parse::<i32>()) { if t.procs[&v].gone { c.loose = true } }
                        match (j, w[0]) { (Some(j), "fg") => { c.fg = Some(j); c.st = Want::Open } (Some(_), _) => {} _ => c.st = Want::Fail }
                        text = w.join(" ");
                        if c.kind == b'f' && c.fg.is_some() { // everything of the job runs once it has been continued
                            let j = c.fg.unwrap();
                            for v in t.jobs[j].procs.clone() { let p = t.procs.get_mut(&v).unwrap(); if p.st == St::Stop { p.st = St::Run } }
                        }
                    }
                    _ => c.pipes = pipes(l),
                }
                t.cur = Some(c);
                let cmds: Vec<String> = text.split(' ').map(|w| if ["ok", "no", "out", "code", "job1", "job2", "job3"].contains(&w) { format!("{}/bin/{}", self.w.place.s(), w) } else { w.to_string() }).collect();
                let _ = cmds;
                s.line("a", "", &(text + "\n"), to)
            }
            Act::Ev(e) => {
                if s.at_wait { if let Some(c) = &mut t.cur { if c.kind != b'l' && !c.met { c.loose = true } } }
                s.cmd(&format!("E{}", e), to)
            }
            Act::Settle => unreachable!(),
            Act::Go => {
                if let Some(c) = &mut t.cur { if t.blocking > 0 { c.recent = t.last.clone(); let old = std::mem::take(&mut c.stops); c.stops = t.last_stop.iter().copied().chain(old.into_iter().filter(|v| t.last_zomb.contains(v))).collect() } c.looks += 1; if c.looks > 60 { return bad(BOTH, format!("{:?}: the shell looks for children again and again", c.line)) } }
                s.cmd("G", to)
            }
        };
        // after an event during a wait, the same wait reports again
        let mut r = self.got(s, t, g, matches!(a, Act::Ev(_)))?;
        t.dirty = matches!(a, Act::Ev(_));
        // programs that end on their own do so at once
        while r.kind == b'W' && !t.leaf { let Some(v) = t.auto() else { break }; let g = s.cmd(&format!("Ef {} 0", v), to); t.dirty = true; r = self.got(s, t, g, true)?; }
        Ok(r)
    }
    pub fn start(&mut self) -> Result<(Session, Truth), String> { let (s, _, _) = self.w.start()?; Ok((s, Truth::default())) }
    /// looks without events, until the prompt is back
    fn settle(&mut self, s: &mut Session, t: &mut Truth) -> R<Report> {
        let mut r = Report { kind: b'R', ..Report::default() };
        for _ in 0..50 { if !s.at_wait { break } r = self.apply(s, t, &Act::Go)? }
        Ok(r)
    }
    /// A whole history on a fresh shell.
    pub fn run(&mut self, acts: &[Act]) -> R<()> {
        let (mut s, mut t) = self.start().map_err(|e| Bad(BOTH, e))?;
        for a in acts {
            if *a == Act::Settle { self.settle(&mut s, &mut t)?; continue }
            if !fits(a, s.at_wait) { return Ok(()) } // does not fit (the shell took another path)
            self.apply(&mut s, &mut t, a)?;
            if t.leaf { break }
        }
        Ok(())
    }
}
impl Truth {
    fn describe(&self) -> String { self.live().iter().map(|&j| format!("{}{:?} {:?}", self.jobs[j].num.map_or(String::new(), |n| format!("[{}] ", n)), self.names(j), self.state(j))).collect::<Vec<_>>().join(", ") }
}
fn ok_state(s: St, shown: &str) -> bool { match s { St::Run => shown == "Running", St::Stop => shown == "Stopped", St::End(_) => false } }
/// Lines "[n] <marker><State> a | b &" of `jobs`
pub fn parse_jobs(out: &str) -> Vec<(u32, String, Vec<String>)> {
    let mut v = vec![];
    for l in out.lines() {
        let Some(r) = l.strip_prefix('[') else { continue };
        let Some((n, r)) = r.split_once("] ") else { continue };
        let Ok(n) = n.parse() else { continue };
        let Some((i, st)) = ["Running ", "Stopped ", "Done ", "Waiting "].iter().filter_map(|s| r.find(s).map(|i| (i, *s))).min() else { continue };
        let names = r[i + st.len()..].trim().trim_end_matches('&').trim().split(" | ").map(|x| x.split(' ').next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string()).collect();
        v.push((n, st.trim().to_string(), names));
    }
    v
}

/// stands behind all processes in the order of events
const SIG: i32 = 1 << 20;
struct Walk<'a, 'b> { cx: &'a Ctx, plan: &'a JPlan, e: Eng<'b>, states: u64, seen: HashSet<u64>, traces: Vec<Vec<Act>> }

impl<'a, 'b> Walk<'a, 'b> {
    fn fail(&mut self, hist: &[Act], b: Bad) {
        if b.0 & self.e.prop == 0 { return } // the other check's business; nothing is explored below
        self.e.w.slow = 2;
        let mut confirmed = None;
        for _ in 0..2 { if let Err(x) = self.e.run(hist) { if x.0 & self.e.prop != 0 { confirmed = Some(x); break } } }
        self.e.w.slow = 1;
        match confirmed {
            Some(x) => self.cx.report(Violation { plan: self.plan.name.clone(), history: hist.iter().map(|a| Item::from(a.show())).collect(), what: x.1, extra: "jobs".into() }),
            None => { self.cx.flaky.fetch_add(1, Relaxed); self.cx.notes.lock().unwrap().push(format!("not reproduced: {} after {:?}", b.1, hist)) }
        }
    }
    fn events(&self, t: &Truth, only_fg: Option<usize>) -> Vec<(i32, String)> {
        let mut v = vec![];
        for (p, x) in &t.procs {
            if !x.ctrl { continue }
            let fg = only_fg.map_or(false, |j| t.jobs[j].procs.contains(p));
            let kinds: &str = &self.plan.events;
            let has = |c: char| kinds.contains(c);
            match x.st {
                St::Run => {
                    if has('x') { v.push((*p, format!("x {} 0", p))) }
                    if has('3') && (fg || has('!')) { v.push((*p, format!("x {} 768", p))) }
                    if has('k') { v.push((*p, format!("x {} 9", p))) }
                    if has('d') { v.push((*p, format!("x {} 134", p))) } // an abort, with a core
                    if has('s') { v.push((*p, format!("s {} 19", p))) }
                }
                St::Stop => {
                    if has('c') { v.push((*p, format!("c {} 0", p))) }
                    if has('k') { v.push((*p, format!("x {} 9", p))) }
                }
                _ => {}
            }
        }
        v
    }
    fn acts(&self, s: &Session, t: &Truth, r: &Report, budget: usize, last: i32) -> Vec<(Act, usize, i32)> {
        let mut v: Vec<(Act, usize, i32)> = vec![];
        if s.at_wait {
            let fg = t.cur.as_ref().and_then(|c| c.fg);
            if r.blocking > 0 || self.plan.w0 {
                if budget > 0 {
                    for (p, e) in self.events(t, fg) { if p > last { v.push((Act::Ev(e), 1, p)) } }
                    // a signal for the shell itself
                    if self.plan.events.contains('i') && r.blocking > 0 && last < SIG { v.push((Act::Ev("i 2 0".into()), 1, SIG)) }
                }
            }
            // a wait that found nothing goes on only after an event
            if r.blocking != 2 || t.dirty { v.push((Act::Go, 0, 0)) }
            return v;
        }
        if budget == 0 { return v }
        let live = t.live();
        if live.len() < self.plan.max_jobs { for l in &self.plan.starts { v.push((Act::Line(l.clone()), 1, 0)) } }
        for c in &self.plan.cmds {
            match c.as_str() {
                "fg" | "bg" => for &j in &live { if let Some(n) = t.jobs[j].num { v.push((Act::Line(format!("{} %{}", c, n)), 1, 0)) } },
                "fgp" | "bgp" => for &j in &live { for p in &t.jobs[j].procs { if matches!(t.procs[p].st, St::End(_)) { continue } v.push((Act::Line(format!("{} {}", &c[..2], p)), 1, 0)); if t.jobs[j].procs.len() == 1 { break } } },
                // a number that no job has: of an ended job, or the next one
                "bad" => for n in [t.jobs.iter().filter_map(|j| j.num).max().unwrap_or(0) + 1, 0].into_iter().chain(t.jobs.iter().filter_map(|j| j.num).filter(|n| t.by_num(*n).is_none()).take(1)) { v.push((Act::Line(format!("fg %{}", n)), 1, 0)); v.push((Act::Line(format!("bg %{}", n)), 1, 0)) },
                // a process that is no job
                "badp" => for p in [999, 1000].into_iter().chain(t.procs.iter().filter(|(_, p)| p.gone).map(|(v, _)| *v).filter(|v| !live.iter().any(|&j| t.jobs[j].procs.contains(v))).take(3)) { v.push((Act::Line(format!("fg {}", p)), 1, 0)); v.push((Act::Line(format!("bg {}", p)), 1, 0)) },
                l => v.push((Act::Line(l.into()), 1, 0)),
            }
        }
        let ev = self.events(t, None);
        for (_, e) in &ev { v.push((Act::Ev(e.clone()), 1, 0)) }
        if self.plan.pairs && budget > 1 { for (i, (p, e)) in ev.iter().enumerate() { for (q, f) in &ev[i + 1..] { if p != q { v.push((Act::Ev(format!("{};{}", e, f)), 2, 0)) } } } }
        v
    }
    fn go(&mut self, s: &mut Session, t: &Truth, r: &Report, hist: &mut Vec<Act>, budget: usize, last: i32) {
        for (a, cost, p) in self.acts(s, t, r, budget, last) {
            if self.cx.done() { return }
            if cost > budget { continue }
            hist.push(a.clone());
            self.one(s, t, &a, hist, budget - cost, p);
            hist.pop();
        }
    }
    fn one(&mut self, s: &mut Session, t: &Truth, a: &Act, hist: &mut Vec<Act>, budget: usize, last: i32) {
        let Some(mut c) = s.snap() else { return self.fail(hist, Bad(BOTH, "the shell is gone".into())) };
        let mut n = t.clone();
        self.states += 1;
        match self.e.apply(&mut c, &mut n, a) {
            Err(b) => self.fail(hist, b),
            Ok(r) => {
                if n.leaf { return }
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                for j in &n.jobs { for v in &j.procs { format!("{:?}", n.procs[v].st).hash(&mut h) } j.num.hash(&mut h) }
                r.kind.hash(&mut h); r.blocking.hash(&mut h);
                self.seen.insert(h.finish());
                if budget == 0 && r.kind == b'R' && real_fit(hist) { self.traces.push(hist.clone()) }
                let last = if r.kind == b'W' { last } else { 0 };
                self.go(&mut c, &n, &r, hist, budget, last)
            }
        }
    }
}

pub fn run_jobs(cx: &Ctx, prop: u8, p: &JPlan) {
    if cx.done() { return }
    let t0 = Instant::now(); let before = cx.states.load(Relaxed);
    let cfg = Cfg::default();
    // units of work: the actions possible after the setup, two deep
    let next = AtomicUsize::new(0);
    let traces = std::sync::Mutex::new(vec![]);
    std::thread::scope(|sc| for k in 0..cx.threads {
        let next = &next; let cfg = &cfg; let traces = &traces;
        let _ = std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(sc, move || {
            let mut w = Worker::new(&cx.root, k, &cx.bins, cfg);
            let mut wk = Walk { cx, plan: p, e: Eng { w: &mut w, prop }, states: 0, seen: HashSet::new(), traces: vec![] };
            let (mut s, mut t) = match wk.e.start() { Ok(x) => x, Err(e) => { cx.errors.lock().unwrap().push(e); return } };
            let mut hist: Vec<Act> = vec![]; let mut r = Report { kind: b'R', ..Report::default() };
            for a in &p.setup {
                hist.push(a.clone());
                match if *a == Act::Settle { wk.e.settle(&mut s, &mut t) } else { wk.e.apply(&mut s, &mut t, a) } { Ok(x) => r = x, Err(b) => { wk.fail(&hist, b); return } }
            }
            // every thread walks the first three levels; a subtree below belongs to whoever takes its number
            let mut unit = 0; let mut mine = next.fetch_add(1, Relaxed);
            split(&mut wk, &mut s, &t, &r, &mut hist, p.depth, 0, 3, &mut unit, &mut mine, next);
            if k == 0 { cx.states.fetch_add(unit as u64, Relaxed); }
            cx.states.fetch_add(wk.states, Relaxed); cx.outcomes.lock().unwrap().extend(wk.seen.iter());
            traces.lock().unwrap().append(&mut wk.traces);
            drop(s);
            let l = w.lines; cx.lines.fetch_add(l, Relaxed);
        });
    });
    let mut tr = traces.into_inner().unwrap();
    tr.sort_by_key(|h| { let mut x: u64 = 0xcbf29ce484222325; for a in h { for b in a.show().bytes() { x = (x ^ b as u64).wrapping_mul(0x100000001b3) } } x.rotate_left(20) });
    let total = tr.len();
    tr.truncate(if std::env::var_os("MC_REAL").is_some() { 2000 } else if cx.tier == "thorough" { 200 } else { 24 });
    if !cx.done() { real_runs(cx, prop, p, &tr) }
    let st = cx.states.load(Relaxed) - before;
    cx.plans.lock().unwrap().push((p.name.clone(), st, p.starts.len() + p.cmds.len() + p.events.len(), p.depth, !cx.capped.load(Relaxed) && !cx.stop.load(Relaxed)));
    if let Some(h) = tr.first() { cx.samples.lock().unwrap().push(format!("{}: {}", p.name, h.iter().map(|a| a.show()).collect::<Vec<_>>().join(" / "))) }
    if std::env::var_os("MC_VERBOSE").is_some() { eprintln!("{}/{}: {} states, {:.1}s, {} real traces of {}, {}", cx.prop, p.name, st, t0.elapsed().as_secs_f64(), tr.len(), total, crate::ctl::longest()) }
}
fn split(wk: &mut Walk, s: &mut Session, t: &Truth, r: &Report, hist: &mut Vec<Act>, budget: usize, last: i32, levels: usize, unit: &mut usize, mine: &mut usize, next: &AtomicUsize) {
    for (a, cost, p) in wk.acts(s, t, r, budget, last) {
        if wk.cx.done() { return }
        if cost > budget { continue }
        hist.push(a.clone());
        let me = *unit; *unit += 1;
        if levels == 0 {
            if me == *mine { wk.one(s, t, &a, hist, budget - cost, p); *mine = next.fetch_add(1, Relaxed) }
        } else {
            // a shared inner node: everybody passes through it, its taker reports what is wrong with it
            let own = me == *mine;
            if own { *mine = next.fetch_add(1, Relaxed) }
            match s.snap() {
                None => if own { wk.fail(hist, Bad(BOTH, "the shell is gone".into())) },
                Some(mut c) => {
                    let mut n = t.clone();
                    match wk.e.apply(&mut c, &mut n, &a) {
                        Err(b) => if own { wk.fail(hist, b) },
                        Ok(_) if n.leaf => {}
                        Ok(r) => { let l = if r.kind == b'W' { p } else { 0 }; split(wk, &mut c, &n, &r, hist, budget - cost, l, levels - 1, unit, mine, next) }
                    }
                }
            }
        }
        hist.pop();
    }
}

/// Can the history be brought about with real signals, with the same outcome? While the shell waits,
/// one event at a time; events and commands do not coincide.
fn real_fit(h: &[Act]) -> bool {
    let mut after_line = false; let mut ev = false; let mut blocked = false;
    for a in h {
        match a {
            Act::Line(_) => { after_line = true; ev = false; blocked = false }
            Act::Ev(_) => { if ev && after_line { return false } ev = true; if after_line && !blocked { return false } }
            Act::Go => { ev = false; blocked = true }
            Act::Settle => { after_line = false; ev = false }
        }
    }
    true
}
fn children(pid: i32) -> Vec<i32> {
    std::fs::read_to_string(format!("/proc/{}/task/{}/children", pid, pid)).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect()
}
fn pstate(pid: i32) -> (char, String) {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let comm = t.split_once('(').and_then(|x| x.1.rsplit_once(')')).map_or("", |x| x.0).to_string();
    (t.rsplit_once(") ").and_then(|x| x.1.chars().next()).unwrap_or('X'), comm)
}
fn ready(pid: i32) -> bool {
    let t = std::fs::read_to_string(format!("/proc/{}/status", pid)).unwrap_or_default();
    let m = t.lines().find_map(|l| l.strip_prefix("SigCgt:")).and_then(|x| u64::from_str_radix(x.trim(), 16).ok()).unwrap_or(0);
    m >> (libc::SIGUSR1 - 1) & 1 == 1 && m >> (libc::SIGUSR2 - 1) & 1 == 1
}
fn until(secs: f64, mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    loop { if f() { return true } if t.elapsed().as_secs_f64() > secs { return f() } std::thread::sleep(std::time::Duration::from_micros(300)) }
}
/// The history under the shim: per action the processes it started and whether the shell waits then; the jobs at the end.
/// a line that starts nothing and shows that it ran
fn sync_line(mark: &str) -> String { format!("alias {0}=a ; alias ; unalias {0}", mark) }
struct Info { new: Vec<Vec<(i32, String)>>, waits: Vec<bool>, jobs: Vec<(u32, String, Vec<String>)>, status: Option<i32> }
impl<'a> Eng<'a> {
    fn info(&mut self, acts: &[Act]) -> R<Option<Info>> {
        let (mut s, mut t) = self.start().map_err(|e| Bad(BOTH, e))?;
        let mut i = Info { new: vec![], waits: vec![], jobs: vec![], status: None };
        let mut last_w0 = false;
        let ok = Act::Line(sync_line("sync"));
        for (k, a) in acts.iter().enumerate() {
            // as in the real run: another line before a line or an event at the prompt
            if !s.at_wait && (matches!(a, Act::Line(_)) && k > 0 || matches!(a, Act::Ev(_))) { self.apply(&mut s, &mut t, &ok)?; self.settle(&mut s, &mut t)?; }
            let known: HashSet<i32> = t.procs.keys().copied().collect();
            if !fits(a, s.at_wait) { return Ok(None) }
            if last_w0 && matches!(a, Act::Ev(_)) { return Ok(None) }
            let r = if *a == Act::Settle { self.settle(&mut s, &mut t)? } else { self.apply(&mut s, &mut t, a)? };
            if t.leaf { return Ok(None) }
            last_w0 = r.kind == b'W' && r.blocking == 0;
            i.new.push(t.procs.iter().filter(|(v, p)| !known.contains(v) && p.ctrl).map(|(v, p)| (*v, p.name.clone())).collect());
            i.waits.push(s.at_wait);
        }
        if s.at_wait { return Ok(None) }
        let Some(mut p) = s.snap() else { return bad(BOTH, "the shell is gone".into()) };
        p.line("", "", &(sync_line("sync") + "\n"), self.w.timeout()); p.take_out();
        if let Got::Report(_) = p.line("", "", "jobs\n", self.w.timeout()) { i.jobs = parse_jobs(&String::from_utf8_lossy(&p.take_out())) }
        let ends_in_fg = acts.iter().rposition(|a| matches!(a, Act::Line(l) if !l.ends_with('&'))).map_or(false, |k| !acts[k + 1..].iter().enumerate().any(|(n, a)| matches!(a, Act::Line(_)) || matches!(a, Act::Ev(_)) && !i.waits[k + n]));
        if ends_in_fg { if let Got::Ended(c) = s.line("", "", "exit\n", self.w.timeout()) { if c & 0x7f == 0 { i.status = Some((c >> 8) & 255) } } }
        Ok(Some(i))
    }
    /// The same history on the shell as it is, brought about by real processes and signals.
    fn real(&mut self, acts: &[Act], info: &Info, status: bool) -> Result<(), String> {
        let mut env: Vec<(String, String)> = base_env().iter().map(|(k, v)| (k.clone(), self.w.place.sub(v))).collect();
        env.push(("MCJOB".into(), "1".into()));
        let mut l = Live::spawn(&self.w.place, &env);
        let pid = l.pid();
        let mut map: BTreeMap<i32, i32> = BTreeMap::new();
        let mut out = String::new(); let mut syncs = 0;
        let secs = 5.0 * self.w.slow as f64;
        let mut at_prompt = true;
        macro_rules! sync { () => {{
            syncs += 1;
            let mark = format!("sync{}x", syncs);
            l.send(&(sync_line(&mark) + "\n"));
            let ok = until(secs, || { out += &String::from_utf8_lossy(&l.s.take_out()); out.contains(&mark) });
            if !ok { let e = String::from_utf8_lossy(&l.s.take_err()).to_string(); for p in map.values() { unsafe { libc::kill(*p, libc::SIGKILL); } } return Err(format!("the prompt does not come back{}{}", if e.is_empty() { "" } else { ": " }, e.chars().take(300).collect::<String>())) }
        }} }
        for (k, a) in acts.iter().enumerate() {
            match a {
                Act::Line(t) => {
                    if at_prompt && k > 0 { sync!(); }
                    let t = t.split(' ').enumerate().map(|(i, w)| if i == 1 && (t.starts_with("fg ") || t.starts_with("bg ")) { match w.parse::<i32>() { Ok(v) => map.get(&v).copied().unwrap_or(if v == 1000 { pid } else { 1 }).to_string(), _ => w.into() } } else { w.to_string() }).collect::<Vec<_>>().join(" ");
                    l.send(&(t + "\n"));
                }
                Act::Ev(e) => {
                    if at_prompt { sync!(); }
                    for e in e.split(';') {
                        let w: Vec<&str> = e.split(' ').collect();
                        if w[0] == "i" { unsafe { libc::kill(pid, w[1].parse().unwrap()); } std::thread::sleep(std::time::Duration::from_millis(3)); continue }
                        let Some(&p) = map.get(&w[1].parse().unwrap_or(0)) else { return Err("unknown process".into()) };
                        let (sig, goal) = match (w[0], w[2]) { ("x", "0") => (libc::SIGUSR1, "ZX"), ("x", "768") => (libc::SIGUSR2, "ZX"), ("x", "134") => (libc::SIGABRT, "ZX"), ("x", _) => (libc::SIGKILL, "ZX"), ("s", _) => (libc::SIGSTOP, "TZX"), _ => (libc::SIGCONT, "SRD") };
                        unsafe { libc::kill(p, sig); }
                        if !until(secs, || goal.contains(pstate(p).0)) { return Err(format!("event {} has no effect", e)) }
                    }
                }
                Act::Go | Act::Settle => { // the shell looks by itself: nothing that ended is left
                    until(secs, || !children(pid).iter().any(|c| pstate(*c).0 == 'Z'));
                    std::thread::sleep(std::time::Duration::from_millis(2));
                }
            }
            if !info.new[k].is_empty() {
                let want = &info.new[k];
                let known: HashSet<i32> = map.values().copied().collect();
                let mut found = vec![];
                if !until(secs, || { found = children(pid).into_iter().filter(|c| !known.contains(c)).map(|c| (c, pstate(c).1)).filter(|(c, n)| want.iter().any(|(_, m)| m == n) && ready(*c)).collect(); found.len() == want.len() }) { return Err(format!("{:?} were not started", want)) }
                for (v, n) in want { if let Some(i) = found.iter().position(|(_, m)| m == n) { map.insert(*v, found.remove(i).0); } }
            }
            at_prompt = !info.waits[k];
        }
        let r = if status && info.status.is_some() {
            l.send("exit\n");
            match l.s.end(std::time::Duration::from_secs_f64(secs)) {
                Some(c) if c & 0x7f == 0 && Some((c >> 8) & 255) == info.status => Ok(()),
                c => Err(format!("the status is {:?} instead of {:?}", c.map(|c| c >> 8), info.status)),
            }
        } else {
            sync!();
            let at = out.len();
            l.send("jobs\n");
            sync!();
            let got = parse_jobs(&out[at..]);
            if got == info.jobs { Ok(()) } else { Err(format!("jobs shows {:?} instead of {:?}", out[at..].to_string(), info.jobs)) }
        };
        for p in map.values() { if children(pid).contains(p) { unsafe { libc::kill(*p, libc::SIGKILL); } } }
        r
    }
}
fn real_runs(cx: &Ctx, prop: u8, p: &JPlan, tr: &[Vec<Act>]) {
    let next = AtomicUsize::new(0); let cfg = Cfg::default();
    std::thread::scope(|sc| for k in 0..cx.threads.min(tr.len()) {
        let next = &next; let cfg = &cfg;
        sc.spawn(move || {
            let mut w = Worker::new(&cx.root, k, &cx.bins, cfg);
            let mut e = Eng { w: &mut w, prop };
            loop {
                let u = next.fetch_add(1, Relaxed);
                if u >= tr.len() || cx.done() { break }
                let h = &tr[u];
                let Ok(Some(i)) = e.info(h) else { continue };
                let st = prop & PC13 != 0;
                if e.real(h, &i, st).is_err() {
                    e.w.slow = 3;
                    if let (Err(_), Err(x)) = (e.real(h, &i, st), e.real(h, &i, st)) {
                        cx.report(Violation { plan: p.name.clone(), history: h.iter().map(|a| Item::from(a.show())).collect(), what: format!("on the unmodified binary: {}", x), extra: "real".into() });
                    }
                    e.w.slow = 1;
                }
                cx.traces.fetch_add(1, Relaxed);
            }
        });
    });
}

fn strs(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
pub fn plans(th: bool) -> Vec<JPlan> {
    let b = |name: &str, starts: &[&str], cmds: &[&str], events: &str, depth: usize, max_jobs: usize| JPlan { name: name.into(), setup: vec![], starts: strs(starts), cmds: strs(cmds), events: events.into(), depth, max_jobs, w0: false, pairs: false };
    let l = |s: &str| Act::Line(s.into());
    let d = th as usize;
    let mut v = vec![
        JPlan { pairs: true, ..b("one job", &["job1", "job1 | job2", "job1 &", "job1 | job2 &"], &["jobs", "fg", "bg", "fgp", "bgp", "bad", "badp"], "x3ksc", 4 + d, 1) },
        b("two jobs", &["job1 &", "job2", "job1 | job2 &"], &["fg", "bg"], "xksc", 5 + d, 2),
        b("three stages", &["job1 | job2 | job3", "job1 | job2 | job3 &"], &["fg", "bg"], "x3dsc", 4 + d, 1),
        JPlan { w0: true, ..b("events while commands run", &["job1 | job2", "job1 &"], &["jobs", "fg", "bg", "ok"], "xksc", 4 + d, 2) },
        b("lists", &["job1 ; job2", "job1 && job2", "job1 || job2", "job1 && ok || job2", "job1 & ; job2", "job1 | job2 && job3", "no || job1 ; job2", "ok | job1 ; job2"], &[], "x3ksc", 4 + d, 3),
        JPlan { setup: vec![l("job1 &"), Act::Settle, l("job2 &"), Act::Settle, l("job3 &"), Act::Settle], pairs: true, ..b("three jobs", &["job1 &"], &["fg", "bg", "bad"], "xsc", 3 + d, 4) },
        JPlan { setup: vec![l("job1 &"), Act::Settle, l("job2 | job3 &"), Act::Settle], ..b("foreground beside background", &["job1 | job2", "ok", "job3"], &["fg"], "xd", 4 + d, 4) },
        JPlan { setup: vec![l("job1 &"), Act::Settle, l("job1 &"), Act::Settle], ..b("same names", &["job1 &"], &["fg", "bg", "fgp"], "xsc", 3 + d, 3) },
    ];
    v.push(b("a name twice in a pipeline", &["job1 | job1", "job1 | job1 &", "job1 | job2 | job1 &"], &["fg", "bg"], "xds", 3 + d, 2));
    v.push(JPlan { setup: vec![l("job1 | job2 &"), Act::Settle, Act::Ev("x 1001 0;x 1002 0".into())], ..b("a number again", &["job1 &", "job1 | job2 &", "job3"], &["fg", "bg", "bad", "badp", "fgp", "bgp"], "xsc", 3 + d, 2) });
    let many = |n: usize| (0..n).flat_map(|i| [l(if i % 4 == 3 { "job1 | job2 &" } else { "job1 &" }), Act::Settle]).collect::<Vec<_>>();
    v.push(JPlan { setup: many(9), ..b("nine jobs", &["job3 &"], &[], "x", 3 + d, 12) });
    v.push(JPlan { setup: many(11), ..b("eleven jobs", &["job3 &"], &["jobs", "fg", "bg", "bad"], "xs", 2, 13) });
    v.push(b("interrupts while the shell waits", &["job1", "job1 | job2", "job1 &", "job1 ; job2", "job1 || job2"], &["fg"], "xksci", 4 + d, 1));
    if th { v.push(b("two jobs, deep", &["job1 &", "job1"], &["fg", "bg"], "xsc", 7, 2)) }
    v
}
pub fn replay(w: &mut Worker, prop: u8, hist: &[Item], extra: &str) -> Result<(), String> {
    let acts: Vec<Act> = hist.iter().filter_map(|i| Act::parse(&i.line)).collect();
    let mut e = Eng { w, prop };
    if extra == "real" { return match e.info(&acts) { Ok(Some(i)) => e.real(&acts, &i, prop & PC13 != 0), _ => Ok(()) } }
    match e.run(&acts) { Err(b) if b.0 & prop != 0 => Err(b.1), _ => Ok(()) }
}
