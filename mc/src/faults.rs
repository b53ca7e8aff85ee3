//! C15: failures of the system calls a line needs, at every one of these calls
//! (of the shell and of the processes it has forked, before they run their programs).
use crate::ctl::*;
use crate::explore::*;
use crate::jobs::parse_jobs;
use crate::model::*;
use crate::run::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

/// A line, the lines that stand for what is left of it when a part of it fails (only programs of these may run),
/// whether it can be entered again with the same result, whether its status is that of its last process.
#[derive(Clone, Debug, Default)]
pub struct FLine { item: Item, alts: Vec<String>, again: bool, status: bool }
pub type Fault = (String, String, i32, i32);
#[derive(Clone, Debug)]
pub struct Case { line: FLine, faults: Vec<Fault> }
pub struct Base { s: Session, node: Node, rep: Report }

fn errnos(kind: &str) -> &'static [i32] { match kind { "fork" => &[11], "pipe" | "dup" => &[24], "dup2" => &[16], "open" => &[24, 13], "chdir" => &[13], "exec" => &[13, 12], _ => &[5] } }
/// Everything these calls can fail with; a negative number means that the call keeps failing.
fn all_errnos(kind: &str) -> &'static [i32] { match kind { "fork" => &[11, 12, 38, -11], "pipe" => &[24, 23, -24], "dup" => &[24, -24], "dup2" => &[16, -16], "open" => &[24, 13, 2, 20, 21, 23, 26, 28, 30, 36, 40, -24, -26], "chdir" => &[13, 2, 5, 20, 40, -13], "exec" => &[13, 12, 2, 5, 7, 8, 11, 20, 23, 24, 26, 40, -11, -12, -26], _ => &[5] } }
fn show(f: &Fault) -> String { if f.3 < 0 { format!("{} from number {} on of process {} with errno {}", f.1, f.2, f.0, -f.3) } else { format!("{} number {} of process {} with errno {}", f.1, f.2, f.0, f.3) } }
pub fn extra(c: &Case) -> String {
    format!("{}|{}|{}|{}", c.line.again as u8, c.line.status as u8, c.line.alts.join("\u{1f}"), c.faults.iter().map(|f| format!("{} {} {} {}", f.0, f.1, f.2, f.3)).collect::<Vec<_>>().join(";"))
}
pub fn parse(item: Item, x: &str) -> Option<Case> {
    let (head, fl) = x.rsplit_once('|')?;
    let p: Vec<&str> = head.splitn(3, '|').collect();
    let faults = fl.split(';').filter_map(|f| { let q: Vec<&str> = f.split(' ').collect(); Some((q.first()?.to_string(), q.get(1)?.to_string(), q.get(2)?.parse().ok()?, q.get(3)?.parse().ok()?)) }).collect();
    Some(Case { line: FLine { item, alts: p.get(2)?.split('\u{1f}').filter(|s| !s.is_empty()).map(String::from).collect(), again: p[0] == "1", status: p[1] == "1" }, faults })
}
pub fn cfg() -> Cfg { crate::signals::cfg() }
pub fn base(w: &mut Worker) -> Result<Base, String> { let (s, node, rep) = w.start()?; Ok(Base { s, node, rep }) }

/// The faultable calls made: process, kind, number, argument
type Call = (String, String, i32);
pub struct Out { calls: Vec<Call>, fired: usize, outcome: u64, open: bool }

fn put(w: &mut Worker, node: &mut Node, it: &Item) {
    for (p, t) in &it.put { node.fs.files.insert(Fs::norm("@/work", p), crate::ctl::raw(t)); }
    w.restore(&node.fs.files.clone());
}
pub fn run(w: &mut Worker, b: &mut Base, c: &Case) -> Result<Out, String> {
    let Some(mut s) = b.s.snap() else { return Err("the shell is gone".into()) };
    let mut n = b.node.clone();
    put(w, &mut n, &c.line.item);
    let to = w.timeout();
    w.lines += 1;
    // the programs that may run, and the directories the shell may be in afterwards
    let mut allowed: Vec<MExec> = vec![]; let mut cwds = BTreeSet::from([n.model.cwd.clone()]); let mut most = 0; let mut whole = vec![];
    let (mut may_end, mut bg, mut open, mut names, mut reports) = (false, false, None, BTreeSet::new(), 0);
    let text = if c.line.status { format!("{} && out T || out E", c.line.item.line) } else { c.line.item.line.clone() };
    for l in [&text, &format!("{} || out E", c.line.item.line)].into_iter().take(if c.line.status { 2 } else { 1 }).chain(&c.line.alts) {
        let mut m = b.node.model.clone();
        let mut fs = n.fs.clone(); fs.files.extend(n.fs.files.clone());
        let mut wd = World { fs, ..World::default() };
        may_end |= m.enter(&mut wd, l).is_some();
        if reports == 0 { whole = wd.execs.clone(); }
        most = most.max(wd.execs.len()); bg |= wd.bg;
        if reports == 0 { open = wd.open } reports += 1;
        allowed.append(&mut wd.execs); cwds.insert(m.cwd.clone()); names.extend(wd.fs.files.keys().cloned());
    }
    if c.line.status { // the text after the line
        let mut m = b.node.model.clone(); let mut wd = World { fs: n.fs.clone(), ..World::default() };
        m.enter(&mut wd, "out E"); allowed.append(&mut wd.execs);
    }
    let plan: String = c.faults.iter().map(|f| format!("T {} {} {} {}\n", f.0, f.1, if f.3 < 0 { -f.2 } else { f.2 }, f.3.abs())).collect();
    let got = s.line("c", &plan, &(w.place.sub(&text) + "\n"), to);
    let out = s.take_out(); let err = s.take_err();
    let errs = { let mut t = String::from_utf8_lossy(&err).to_string(); t.truncate(t.char_indices().nth(300).map_or(t.len(), |x| x.0)); if t.is_empty() { t } else { format!(" [stderr: {}]", t.trim_end()) } };
    if err.windows(6).any(|x| x == b"SHIM: ") { return Err(format!("the shell got stuck:{}", errs)) }
    let log = s.take_log()?;
    w.scan();
    let mut calls: Vec<Call> = vec![]; let mut fired: Vec<Fault> = vec![]; let mut ran: Vec<MExec> = vec![]; let mut mine: HashSet<i32> = HashSet::from([1000]);
    for e in &log { match e {
        LogEv::Simple { kind, path, a, b, s } => match kind {
            b'C' => calls.push((if path.is_empty() { "-".into() } else { path.clone() }, s.split(' ').next().unwrap_or("").into(), *a)),
            b'T' => fired.push((if path.is_empty() { "-".into() } else { path.clone() }, s.clone(), *a, *b)),
            b'F' => { mine.insert(*a); }
            b'K' if *b != 0 && !(*a > 0 && mine.contains(a)) => return Err(format!("the shell sends signal {} to {}", b, a)),
            b'P' if *a != 0 && !mine.contains(a) => return Err(format!("the shell moves process {} to group {}", a, b)),
            b'D' => return Err(format!("a process of the shell got the default action of signal {}", a)),
            _ => {}
        },
        LogEv::Exec(x) => {
            if x.mask != 0 { return Err(format!("{:?} starts with blocked signals {:#x}", x.argv, x.mask)) }
            if x.ign != 0 { return Err(format!("{:?} starts with ignored signals {:#x}", x.argv, x.ign)) }
            let m = w.mexec(x);
            // what a substitution still gives when a part of it has failed is not compared
            let loose = c.line.item.line.contains("$(") || c.line.item.line.contains('`');
            if open.is_none() && !allowed.contains(&m) && !(loose && allowed.iter().any(|y| MExec { argv: m.argv.clone(), ..y.clone() } == m)) {
                let like: Vec<&MExec> = allowed.iter().filter(|y| y.argv == m.argv).collect();
                return Err(match like.first() { None => format!("program {:?} runs", m.argv), Some(y) => diff_execs(&[(*y).clone()], &[m]) })
            }
            ran.push(m);
        }
        _ => {}
    } }
    if open.is_none() && ran.len() > most { return Err(format!("{} programs run, at most {} should", ran.len(), most)) }
    let panicked = err.windows(9).any(|x| x == b"panicked ");
    // dup2 does not fail for the descriptors that a child has: if it does, the child may end as it likes, before it runs anything
    if panicked && !(matches!(got, Got::Report(_)) && fired.iter().any(|f| f.1 == "dup2" && f.0 != "-")) { return Err(format!("a process of the shell panicked{}", errs)) }
    let r = match got {
        Got::Hang => return Err(format!("the line never finishes{}", errs)),
        Got::Ended(st) => {
            if may_end && (st & 0x7f == 0) { return Ok(Out { calls, fired: fired.len(), outcome: ran.len() as u64, open: false }) }
            return Err(format!("the shell ended (wait status {:#x}){}", st, errs))
        }
        Got::Report(r) => r,
    };
    if r.mask != 0 { return Err(format!("signals {:#x} are blocked at the prompt", r.mask)) }
    if r.ign != b.rep.ign || r.hnd != b.rep.hnd { return Err(format!("signal handlers changed: ignored {:#x} (before {:#x}), handled {:#x} (before {:#x})", r.ign, b.rep.ign, r.hnd, b.rep.hnd)) }
    let (x, y) = (w.fdset(&b.rep.fds), w.fdset(&r.fds));
    if x != y { return Err(format!("descriptors of the shell changed from {:?} to {:?}", x, y)) }
    let cwd = w.place.unsub(&r.cwd);
    if !cwds.contains(&cwd) { return Err(format!("the shell is in {}", cwd)) }
    for ch in &r.children { if ch.state != 3 && !bg { return Err(format!("child {} was not collected", ch.vpid)) } }
    // a failure is reported, unless there was another way to do the same
    let key = |v: &[MExec]| { let mut k: Vec<String> = v.iter().map(|x| format!("{:?}", x)).collect(); k.sort(); k };
    if !fired.is_empty() && err.is_empty() && !(fired.iter().all(|f| f.1 == "dup" || f.1 == "exec") && key(&ran) == key(&whole)) { return Err(format!("nothing is said about the failure of {:?}", fired)) }
    // and the command has failed: what follows it can tell
    if c.line.status && fired.len() == 1 {
        let (t, e) = (ran.iter().any(|x| x.argv == ["out", "T"]), ran.iter().any(|x| x.argv == ["out", "E"]));
        let forks = c.line.item.line.split('|').count() as i32;
        let f = &fired[0];
        let later = if f.0 == "-" { f.1 == "fork" && f.2 >= forks } else { f.0.parse::<i32>().map_or(true, |p| p > forks) };
        if t && e { return Err("both && and || go on".into()) }
        if !later && (f.0 == "-" || f.0 == forks.to_string()) && !e && !(["dup", "exec"].contains(&f.1.as_str()) && err.is_empty()) { return Err(format!("a command for which {} failed counts as a success{}", f.1, errs)) }
    }
    // the jobs are those whose processes there are
    w.lines += 1;
    if bg { // what runs in the background and ends on its own has ended after the next line
        w.lines += 1;
        let Got::Report(_) = s.line("", "", "ok\n", to) else { return Err(format!("the next line ends or hangs the shell {}", String::from_utf8_lossy(&s.take_err()))) };
        s.take_out(); s.take_log()?;
    }
    let g = s.line("", "", "jobs\n", to);
    let jout = String::from_utf8_lossy(&s.take_out()).to_string(); let jerr = String::from_utf8_lossy(&s.take_err()).to_string();
    s.take_log()?;
    let Got::Report(r2) = g else { return Err(format!("jobs ends or hangs the shell {}", jerr)) };
    let live = r2.children.iter().filter(|x| x.ctrl && x.state != 3).count();
    let shown: Vec<Vec<String>> = parse_jobs(&jout).into_iter().map(|j| j.2).collect();
    if shown.len() > live || (shown.is_empty() && live > 0) || shown.iter().map(|j| j.len()).sum::<usize>() < live { return Err(format!("jobs shows {:?} with {} processes alive", jout, live)) }
    for ch in &r2.children { if ch.state != 3 && !ch.ctrl { return Err(format!("child {} was not collected", ch.vpid)) } }
    let disk = w.scan();
    for k in disk.keys() { if !names.contains(k) && !b.node.fs.files.contains_key(k) && open.is_none() { return Err(format!("file {} exists", k)) } }
    // the next line
    n.fs.files = disk.clone(); n.model.cwd = cwd;
    w.jobs = r2.children.iter().filter(|x| x.state != 3).map(|x| x.vpid).collect();
    let mut o = w.step(&mut s, &mut n, "out alive $v | wrap w", &b.rep).map_err(|e| format!("the next line: {}", e))?.outcome;
    // and the same line without failures
    if c.line.again && !c.faults.is_empty() { put(w, &mut n, &c.line.item); o ^= w.step(&mut s, &mut n, &c.line.item.line, &b.rep).map_err(|e| format!("the same line without failures: {}", e))?.outcome.rotate_left(1) }
    w.jobs.clear();
    let _ = out;
    Ok(Out { calls, fired: fired.len(), outcome: o ^ ran.len() as u64 ^ (shown.len() as u64) << 8, open: open.is_some() })
}
fn fails_again(w: &mut Worker, c: &Case) -> Option<String> {
    w.slow = 2; w.scan();
    let mut r = None;
    for _ in 0..2 { w.jobs.clear(); match base(w) { Ok(mut b) => if let Err(e) = run(w, &mut b, c) { r = Some(e); break }, Err(e) => { r = Some(e); break } } }
    w.slow = 1; w.jobs.clear();
    r
}
pub fn replay(w: &mut Worker, c: &Case) -> Option<String> { fails_again(w, c) }

/// S: the status is checked, A: entered again afterwards. Then the lines left when something fails.
const LINES: &[(&str, &str, &[&str])] = &[
    ("SA", "out a", &[]), ("SA", "out $v \"$v\" 'q'", &[]), ("A", "x=1", &[]), ("SA", "x=1 out a", &["out a"]), ("A", "x=$(out s)", &["out s"]), ("A", "x=$(out a | wrap w)", &["out a | wrap w"]),
    ("A", "out $(out s) n", &["out n", "out '' n"]), ("A", "out \"$(out s) n\"", &["out ' n'"]), ("A", "out \"`out s`\" n", &["out '' n", "out n"]), ("A", "out $(out s) $(out t)", &["out $(out s)", "out $(out t)", "out", "out $(out s) ''", "out '' $(out t)", "out '' ''"]),
    ("A", "out $(out $(out i))", &["out $(out)", "out", "out $(out '')", "out ''"]), ("A", "out $(f 1 | wrap w ; x=2)", &["out $(out f 1 | wrap w)", "out $(f 1)", "out $(wrap w)", "out", "out ''"]),
    ("SA", "out a | wrap w", &[]), ("SA", "out a | wrap b | wrap c", &[]), ("SA", "out a | wrap b | wrap c | wrap d", &[]), ("A", "f 1", &["f 1 | wrap w", "out f 1", "wrap w"]),
    ("SA", "f 1 | wrap w", &[]), ("A", "out a | f 1", &["out a | out f 1", "out a | wrap w"]), ("SA", "out a | pwd", &[]), ("SA", "pwd | wrap w", &[]), ("A", "pwd", &[]),
    ("SA", "out a >f", &[]), ("SA", "out a >>f", &[]), ("SA", "out a >f >g", &[]), ("SA", "out a >f 3<in", &[]), ("SA", "wrap w <in", &[]), ("SA", "wrap w <in >f", &[]), ("SA", "<in wrap w", &[]), ("SA", "out a | wrap w >f", &[]), ("SA", "out a >f | wrap w", &[]),
    ("A", "f a >f", &[]), ("A", "f a >f >g <in", &[]), ("SA", "pwd >f", &[]), ("SA", "eval 'out a' >f", &[]), ("SA", "wrap w <in | wrap x >f", &[]), ("A", "x=1 >f", &[]), ("A", "alias >f", &[]), ("A", "f a 3>f", &[]), ("A", "g() { f $1 >g ; out z ; } ; g 1 >f", &["out z >f"]), ("A", "g() { f $1 >g ; out z ; } ; g 1 | wrap w", &["out z | wrap w"]),
    ("A", "out a >f$(out s)", &["out a >f", "out s"]), ("A", "f $(out s) >f", &["f s >f", "f >f", "out s", "f", "f '' >f", "f ''"]),
    ("A", "no || out t", &["out t"]), ("A", "ok && out t", &["ok"]), ("SA", "no && out t", &["ok && out t"]), ("A", "! no", &[]), ("A", "! out a", &[]), ("A", "! out a | wrap w", &[]), ("A", "ok ; out b", &["out b"]), ("A", "out a ; out b ; out c", &["out b ; out c"]), ("A", "out a && out b || out c ; out d", &["no || out c ; out d", "out a ; out c ; out d", "no || no ; out d"]),
    ("", "job1 &", &[]), ("", "job1 | job2 &", &[]), ("", "job1 | job2 | job3 &", &[]), ("", "job1 & ; out n", &["out n"]), ("", "job1 & ; job2 &", &["job2 &"]), ("", "job1 >f &", &[]), ("A", "out a | wrap w &", &[]), ("A", "f 1 &", &["f 1 | wrap w &"]), ("", "job1 | f 1 &", &["job1 &"]), ("", "g() { job1 & ; out g ; } ; g >f", &["out g >f"]), ("", "out $(out s) & ; out n", &["out $(out s)", "out & ; out n", "out n"]),
    ("A", "al b", &[]), ("", "cd d ; out x", &["out x"]), ("", "cd d && out y || out x", &["no || out x", "cd d ; out x", "cd d && no || out x"]), ("", "cd", &[]), ("", "cd d | wrap w", &[]), ("", "x=$(cd d ; pwd) ; out $x", &["x=$(pwd) ; out $x", "out", "out ''"]), ("", "cd d ; cd .. ; pwd ; out x", &["out x", "cd .. ; out x", "cd d ; out x"]),
    ("A", "eval 'out e ; no'", &["out e", "no"]), ("A", "source ./s.sh 1", &["source ./s.sh 1"]), ("A", "source ./s2.sh | wrap w", &["source ./s2.sh | wrap w", "out t | wrap w"]), ("A", "source nofile", &[]), ("A", "source ./bad.sh", &[]), ("A", "export context n=./s2.sh", &["out s2 ; wrap k <in", "wrap k <in"]), ("A", "export context n=./s.sh ; out b", &["out b"]),
    ("A", "g() { out g $0 $1 ; f $1 ; return 4 ; } ; g 1", &["g() { out g $0 $1 ; f $1 ; return 4 ; } ; g 1"]), ("A", "nosuch", &[]), ("A", "out a | nosuch | wrap w", &[]), ("A", "./nosuch", &[]), ("A", "d", &[]), ("A", "die 9", &[]),
    ("", "exec out ex", &["out n"]), ("", "exec out ex >f", &[]), ("", "exec out ex || out n", &["out n"]), ("", "exec nosuch ; out n", &["out n"]), ("", "out a | exec wrap w", &[]), ("", "exit 3", &[]), ("", "out a | exit 4 | wrap w", &[]), ("A", "f() { out f $1 ; wrap w ; } ; f 1", &["out f 1", "wrap w"]),
    ("A", "out $(big 70000 | wrap w)", &["out", "out $(big 70000)", "out ''"]), ("A", "big 70000 | wrap w >f", &[]), ("A", "jobs", &[]), ("A", "fg", &[]), ("A", "bg %9", &[]), ("A", "export x=$(out 1) ; unset x", &["out 1"]), ("A", "alias q=$(out 1)", &["out 1"]), ("A", "eval $(out 'out e')", &["eval 'out e'", "out 'out e'"]),
];
pub fn lines() -> Vec<FLine> {
    LINES.iter().map(|(f, l, a)| FLine { item: Item { line: l.to_string(), put: vec![("s2.sh".into(), "x=s\nout s2\nwrap k <in\n".into())] }, alts: a.iter().map(|s| s.to_string()).collect(), again: f.contains('A'), status: f.contains('S') }).collect()
}

pub fn c15(cx: &Ctx, th: bool, only: Option<&str>) {
    let cfg = cfg();
    let lines = lines();
    let depth = if th { 5 } else { 3 };
    let mut level: Vec<(usize, Vec<Fault>)> = (0..lines.len()).map(|i| (i, vec![])).collect();
    for k in 0..=depth {
        let name = ["no failure", "one failure", "two failures", "three failures", "four failures", "five failures"][k];
        let t0 = Instant::now(); let before = cx.states.load(Relaxed);
        let next = AtomicUsize::new(0);
        let found: Mutex<BTreeSet<(usize, Vec<Fault>)>> = Default::default();
        let kinds: Mutex<BTreeMap<String, u64>> = Default::default();
        let skip = only.map_or(false, |o| o != name);
        std::thread::scope(|sc| for j in 0..cx.threads {
            let (next, level, lines, cfg, found, kinds) = (&next, &level, &lines, &cfg, &found, &kinds);
            sc.spawn(move || {
                let mut w = Worker::new(&cx.root, j, &cx.bins, cfg);
                let mut b = match base(&mut w) { Ok(b) => b, Err(e) => { cx.report(Violation { plan: name.into(), history: vec![], what: e, extra: String::new() }); return } };
                let mut seen = HashSet::new();
                loop {
                    let u = next.fetch_add(1, Relaxed);
                    if u >= level.len() || cx.done() { break }
                    let c = Case { line: lines[level[u].0].clone(), faults: level[u].1.clone() };
                    match run(&mut w, &mut b, &c) {
                        Ok(o) => {
                            cx.states.fetch_add(1, Relaxed);
                            seen.insert(o.outcome);
                            if o.open { cx.opens.fetch_add(1, Relaxed); if std::env::var_os("MC_OPEN").is_some() { eprintln!("open: {}", c.line.item.line) } }
                            if o.fired < c.faults.len() || c.faults.iter().any(|f| !errnos(&f.1).contains(&f.3)) { continue } // the first failure kept the others from being met
                            let mut f = found.lock().unwrap();
                            for (p, kind, nth) in &o.calls {
                                if c.faults.iter().any(|x| (&x.0, &x.1, x.2) == (p, kind, *nth)) { continue }
                                // (putting a descriptor back cannot fail)
                                if kind == "dup2" && (p == "-" || c.line.item.line.contains("g()")) { continue }
                                for e in if k == 0 { all_errnos(kind) } else { errnos(kind) } { let mut v = c.faults.clone(); v.push((p.clone(), kind.clone(), *nth, *e)); v.sort(); if f.insert((level[u].0, v)) { *kinds.lock().unwrap().entry(kind.clone()).or_default() += 1 } }
                            }
                        }
                        Err(e) => {
                            w.jobs.clear();
                            match fails_again(&mut w, &c) {
                                Some(x) => cx.report(Violation { plan: name.into(), history: vec![c.line.item.clone()], what: format!("{} (failures: {})", x, c.faults.iter().map(show).collect::<Vec<_>>().join(", ")), extra: extra(&c) }),
                                None => { cx.flaky.fetch_add(1, Relaxed); cx.notes.lock().unwrap().push(format!("not reproduced: {} {:?}", e, c)) }
                            }
                        }
                    }
                }
                cx.lines.fetch_add(w.lines, Relaxed);
                cx.outcomes.lock().unwrap().extend(seen.iter());
            });
        });
        let st = cx.states.load(Relaxed) - before;
        let full = !cx.capped.load(Relaxed) && !cx.stop.load(Relaxed);
        if !skip { cx.plans.lock().unwrap().push((name.into(), st, lines.len(), k, full)); }
        if k < depth { for (a, n) in kinds.into_inner().unwrap() { cx.count(&format!("failures of {} ({} in a line)", a, k + 1), n) } }
        if std::env::var_os("MC_VERBOSE").is_some() { eprintln!("C15/{}: {} cases, {} states, {:.1}s, {}", name, level.len(), st, t0.elapsed().as_secs_f64(), crate::ctl::longest()) }
        level = found.into_inner().unwrap().into_iter().collect();
        if k == 1 { if let Some(x) = level.first() { cx.samples.lock().unwrap().push(format!("{:?} with {:?}", lines[x.0].item.line, x.1)) } }
        if cx.done() { break }
    }
    limits(cx, th, only);
}

/// The shell as it is, with fewer and fewer descriptors. Whatever fails then, it stays alive, and the next line works as it does alone.
pub fn limits(cx: &Ctx, th: bool, only: Option<&str>) {
    let name = "descriptors run out";
    if only.map_or(false, |o| o != name) || cx.done() { return }
    let cfg = cfg();
    let mut w = Worker::new(&cx.root, 0, &cx.bins, &cfg);
    let mut cases = vec![];
    for n in 3..if th { 40 } else { 24 } {
        let init = w.initial_files();
        w.restore(&init);
        if let Some((o, 0, _, _)) = w.limited("ok\nout end\n", n) { if o.ends_with(b"end\n") { for l in lines() { cases.push((n, l.item)) } } }
    }
    cx.count("limits on descriptors", cases.iter().map(|c| c.0).collect::<BTreeSet<_>>().len() as u64);
    drop(w);
    crate::modes::par(cx, name, &cfg, &cases, &|w, (n, it)| limited(w, *n, it), &|(n, it)| (vec![it.clone()], format!("limit {}", n)));
}
pub fn limited(w: &mut Worker, n: u64, it: &Item) -> Result<crate::modes::Done, String> {
    let mut init = w.initial_files();
    for (p, t) in &it.put { init.insert(Fs::norm("@/work", p), crate::ctl::raw(t)); }
    w.restore(&init);
    let setup = w.cfg.setup.join("\n");
    let last = it.line.contains("exec ") || it.line.starts_with("exit");
    let Some((out, st, _, err)) = w.limited(&format!("{}\n{}\nout end\n", setup, it.line), n) else { return Err(format!("with {} descriptors the shell never ends", n)) };
    w.scan();
    let e = String::from_utf8_lossy(&err);
    if e.contains("panicked ") { return Err(format!("with {} descriptors the shell or one of its processes panics: {}", n, e)) }
    if st >= 128 && !last { return Err(format!("with {} descriptors the shell ends with status {}: {}", n, st, e)) }
    if !last && !(st == 0 && String::from_utf8_lossy(&out).lines().any(|l| l == "end")) { return Err(format!("with {} descriptors the line after it does not run: status {}, output {:?}, messages {}", n, st, String::from_utf8_lossy(&out), e)) }
    Ok(crate::modes::Done { outcome: out.iter().fold(n, |h, b| h.wrapping_mul(31) ^ *b as u64), states: 1, traces: 1, lines: 1, ..Default::default() })
}
