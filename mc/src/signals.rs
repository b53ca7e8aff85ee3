//! C14: signals and child events at every point of the evaluation of a line.
//! A point is a call of the shell into the C library (and, where said, a use of the
//! memory allocator: the places between them where a handler can find the
//! shell's data in the middle of a change).
use crate::ctl::*;
use crate::explore::*;
use crate::jobs::parse_jobs;
use crate::run::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bg { No, Running, Stopped }
/// A line, events at points (-1: at the prompt before it)
#[derive(Clone, Debug)]
pub struct Case { pub bg: Bg, pub flags: &'static str, pub item: Item, pub at: Vec<(i64, String)>, pub kid: Option<Kid> }
/// A signal for a process that the shell has started, before it runs its program; the line with that command replaced by one that dies of it.
#[derive(Clone, Debug)]
pub struct Kid { pub path: String, pub at: i64, pub sig: i32, pub model: String }
impl Case {
    fn extra(&self) -> String { format!("{:?}|{}|{}|{}", self.bg, self.flags, self.at.iter().map(|(p, e)| format!("{} {}", p, e)).collect::<Vec<_>>().join(";"), self.kid.as_ref().map_or(String::new(), |k| format!("{} {} {} {}", k.path, k.at, k.sig, k.model))) }
    pub fn parse(item: Item, s: &str) -> Option<Case> {
        let p: Vec<&str> = s.splitn(4, '|').collect();
        let kid = p.get(3).and_then(|k| { let f: Vec<&str> = k.splitn(4, ' ').collect(); Some(Kid { path: f.first()?.to_string(), at: f.get(1)?.parse().ok()?, sig: f.get(2)?.parse().ok()?, model: f.get(3)?.to_string() }) });
        let bg = match *p.first()? { "No" => Bg::No, "Running" => Bg::Running, _ => Bg::Stopped };
        let at = p.get(2)?.split(';').filter_map(|x| x.split_once(' ')).filter_map(|(a, b)| Some((a.parse().ok()?, b.to_string()))).collect();
        Some(Case { bg, flags: ["", "m", "n", "nm"].into_iter().find(|f| f == &p[1])?, item, at, kid })
    }
}
pub struct Base { s: Session, node: Node, rep: Report, bg: Bg }

pub fn base(w: &mut Worker, bg: Bg) -> Result<Base, String> {
    w.jobs.clear();
    let (mut s, node, mut rep) = w.start()?;
    if bg != Bg::No {
        // the job is the explorer's: the model does not know it
        let to = w.timeout();
        let mut last = None;
        for l in ["job1 &\n", "ok\n"] { match s.line("", "", l, to) { Got::Report(r) => last = Some(r), _ => return Err("job1 & ends or hangs the shell".into()) } }
        let r = last.unwrap();
        let Some(v) = r.children.iter().find(|c| c.ctrl && c.state == 0).map(|c| c.vpid) else { return Err("job1 & starts nothing".into()) };
        w.jobs = vec![v];
        rep = r;
        if bg == Bg::Stopped {
            match s.cmd(&format!("Es {} 19", v), to) { Got::Report(_) => {} _ => return Err("a stopped job ends or hangs the shell".into()) }
            match s.line("", "", "ok\n", to) { Got::Report(r) => rep = r, _ => return Err("a stopped job ends or hangs the shell".into()) }
        }
        s.take_out(); s.take_err(); s.take_log()?;
    }
    Ok(Base { s, node, rep, bg })
}
fn put(w: &mut Worker, node: &mut Node, it: &Item) {
    for (p, t) in &it.put { node.fs.files.insert(crate::model::Fs::norm("@/work", p), crate::ctl::raw(t)); }
    w.restore(&node.fs.files.clone());
}
const PROBE: &str = "out alive $v | wrap w";

/// One case on a snapshot of the base. Returns the outcome and the number of points.
pub fn run(w: &mut Worker, b: &mut Base, c: &Case) -> Result<(u64, i64, bool), String> {
    let Some(mut s) = b.s.snap() else { return Err("the shell is gone".into()) };
    let mut n = b.node.clone();
    put(w, &mut n, &c.item);
    let to = w.timeout();
    let job = w.jobs.first().copied();
    let mut plan: String = c.at.iter().filter(|(p, _)| *p >= 0).map(|(p, e)| format!("S {} {}\n", p, e.replace('J', &job.unwrap_or(0).to_string()))).collect();
    if let Some(k) = &c.kid { plan += &format!("N {} {} {}\n", k.path, k.at, k.sig) }
    for (_, e) in c.at.iter().filter(|(p, _)| *p < 0) {
        match s.cmd(&format!("E{}", e.replace('J', &job.unwrap_or(0).to_string())), to) {
            Got::Report(r) => if r.mask != 0 { return Err("signals are blocked at the prompt".into()) },
            Got::Ended(st) => return Err(format!("the event at the prompt ends the shell (wait status {:#x}): {}", st, String::from_utf8_lossy(&s.take_err()))),
            Got::Hang => return Err("the shell hangs after the event at the prompt".into()),
        }
    }
    w.lines += 1;
    let mut world = crate::model::World { fs: n.fs.clone(), ..Default::default() };
    let ended = n.model.enter(&mut world, c.kid.as_ref().map_or(&c.item.line, |k| &k.model));
    if let Some(k) = &c.kid { world.execs.retain(|x| x.argv.last().map_or(true, |a| a != "KILLED")); if k.sig != 17 { world.killed = Some((k.path.clone(), k.sig)) } }
    let got = s.line(c.flags, &plan, &(w.place.sub(&c.item.line) + "\n"), to);
    let mut points = match &got { Got::Report(r) => r.points as i64, _ => -1 };
    if points < 0 { // the line ends the shell: the record says how far it got
        let mut s2 = 0; if let Ok(l) = s.peek_log() { for e in &l { if let LogEv::Simple { kind: b'N', a, .. } = e { s2 = *a as i64 } } }
        points = s2;
    }
    let r = w.judge(&mut s, &mut n, world, ended, got, &b.rep)?;
    if r.ended.is_some() || r.open { return Ok((r.outcome, points, r.open)) }
    let mut h = r.outcome;
    // the jobs afterwards are what the events made of them
    if let Some(v) = job {
        let mut st = if b.bg == Bg::Stopped { "Stopped" } else { "Running" };
        let mut evs: Vec<&(i64, String)> = c.at.iter().collect();
        evs.sort_by_key(|e| e.0);
        for (p, e) in evs { if *p >= points { continue } match (&e[..1], st) { ("x", _) => st = "", ("s", "Running") => st = "Stopped", ("c", "Stopped") => st = "Running", _ => {} } }
        w.lines += 1;
        let g = s.line("", "", "jobs\n", to);
        let out = String::from_utf8_lossy(&s.take_out()).to_string(); let err = String::from_utf8_lossy(&s.take_err()).to_string();
        let Got::Report(r) = g else { return Err(format!("jobs ends or hangs the shell {}", err)) };
        s.take_log()?;
        let shown: Vec<(u32, String, Vec<String>)> = parse_jobs(&out).into_iter().filter(|j| j.2 != ["ok"]).collect();
        let want = if st.is_empty() { vec![] } else { vec![(1, st.to_string(), vec!["job1".to_string()])] };
        if shown != want { return Err(format!("jobs shows {:?} afterwards; the job is {}", out, if st.is_empty() { "gone" } else { st })) }
        if st.is_empty() && r.children.iter().any(|x| x.vpid == v && x.state != 3) { return Err("the job that ended was not collected".into()) }
        h ^= shown.len() as u64;
    }
    let r = w.step(&mut s, &mut n, PROBE, &b.rep)?;
    Ok((h ^ r.outcome, points, false))
}

pub struct SPlan { name: &'static str, bg: Bg, flags: &'static str, events: &'static [&'static [&'static str]], lines: Vec<Item> }

pub fn cfg() -> Cfg {
    let mut c = Cfg { setup: ["v='a b'", "f() { out f $1 ; wrap w ; }", "alias al='out al'", "export ex=1", "h() { out h ; return 3 ; }", "readonly rv=1"].iter().map(|s| s.to_string()).collect(), ..Cfg::default() };
    c.files = vec![("in".into(), "one\ntwo\n".into()), ("s.sh".into(), "x=s\nout s $1\nno\n".into()), ("bad.sh".into(), "out ;;\n".into())];
    c.dirs = vec!["@/work/d".into()];
    c
}
fn plans(th: bool) -> Vec<SPlan> {
    let all: &[&str] = &["out a", "out $v \"$v\" 'q'", "x=1", "x=$v y=2", "x=1 out a", "out $(out s)", "out \"`out s`\"", "x=$(out a | wrap w)", "out a | wrap w", "out a | wrap b | wrap c", "f 1", "f 1 | wrap w", "out a >f", "f a >f", "wrap w <in", "out a >nodir/f", "wrap w <nofile", "nosuch", "no", "die 9", "no || out t", "ok && out t", "! no", "ok & ; out n", "out a | wrap w &", "f 1 &", "alias", "alias q='out q' ; q 1", "al b", "unalias al", "export x=1 ; ok", "unset v ; out $v", "unset -f f ; f", "readonly x=1 ; x=2", "cd d ; pwd", "cd nodir", "eval 'out e ; no'", "source ./s.sh 1", "source nofile", "source ./bad.sh", "export context n=./s.sh ; out $n::x", "jobs", "fg", "bg %9", "g() { out g $0 $1 ; f $1 ; return 4 ; } ; g 1", "h || out t", "out a ;;", "out 'open", "exec nosuch ; out n", "exec out ex", "exit 3", "out a | exit 4 | wrap w", "pwd | wrap w", "out $(f s ; h) n", "rv=2 ; out n", "k() { k2() { out in $1 ; } ; k2 z ; } ; k", "big 70000 | wrap w >f", "out $(big 70000 | wrap w)", "# c", "export ; unset", "readonly -p", "return 2 ; out n", "x=1 >f 2>g", "out a ; out b ; out c"];
    let core: &[&str] = &["out $v", "x=1", "out a | wrap w", "f 1", "out $(out s)", "out a >f", "nosuch", "ok & ; out n", "eval 'no'", "al b", "cd d", "export x=1", "jobs", "out a ;;", "unset v", "source ./s.sh 1"];
    let tiny: &[&str] = &["x=1", "ok", "f 1", "out a | wrap w", "ok &", "jobs"];
    let sg: &[&[&str]] = &[&["i 17 0"], &["i 2 0"]];
    let two: &[&[&str]] = &[&["i 17 0", "i 2 0"], &["i 2 0", "i 2 0"], &["i 17 0", "i 17 0"]];
    let run: &[&[&str]] = &[&["x J 0"], &["x J 9"], &["s J 19"]];
    let run2: &[&[&str]] = &[&["s J 19", "c J 0"], &["s J 19", "x J 0"], &["x J 0", "i 2 0"], &["s J 19", "i 17 0"]];
    let p = |name, bg, flags, events, lines: &[&str]| SPlan { name, bg, flags, events, lines: items(lines) };
    let nofg: Vec<&str> = all.iter().copied().filter(|l| !l.contains("exec out") && !l.starts_with("exit")).collect();
    let mut v = vec![
        p("one signal at every call", Bg::No, "", &[&["i 17 0"], &["i 2 0"], &["i 20 0"]], all),
        p("one signal at every allocation", Bg::No, "m", sg, all),
        p("two signals", Bg::No, "", two, if th { all } else { core }),
        p("a job ends or stops at every call", Bg::Running, "", run, &nofg),
        p("a stopped job goes on or ends at every call", Bg::Stopped, "", &[&["c J 0"], &["x J 9"]], &nofg),
        p("a job ends or stops at every allocation", Bg::Running, "m", run, if th { &nofg } else { core }),
        p("two events of a job", Bg::Running, "", run2, if th { &nofg } else { core }),
    ];
    if th {
        v.push(p("two signals at allocations", Bg::No, "m", &two[..1], tiny));
        v.push(p("two events of a job at allocations", Bg::Running, "m", &run2[..2], &["x=1", "ok", "jobs"]));
        v.push(p("a stopped job goes on or ends at every allocation", Bg::Stopped, "m", &[&["c J 0"], &["x J 9"]], core));
    }
    v
}

pub fn c14(cx: &Ctx, th: bool, only: Option<&str>) {
    c14_kids(cx, th, only);
    for p in plans(th) {
        if only.map_or(false, |o| o != p.name) || cx.done() { continue }
        let t0 = Instant::now(); let before = cx.states.load(Relaxed);
        let cfg = cfg();
        // first pass: how many points has each line; then units of work: line, events, block of first points
        let mut counts = vec![0i64; p.lines.len()];
        {
            let mut w = Worker::new(&cx.root, 0, &cx.bins, &cfg);
            match base(&mut w, p.bg) {
                Err(e) => { cx.report(Violation { plan: p.name.into(), history: vec![], what: e, extra: String::new() }); continue }
                Ok(mut b) => for (i, l) in p.lines.iter().enumerate() {
                    let c = Case { bg: p.bg, flags: p.flags, item: l.clone(), at: vec![], kid: None };
                    match run(&mut w, &mut b, &c) { Ok((_, n, _)) => counts[i] = n, Err(e) => { if fails_again(&mut w, &c).is_some() { cx.report(Violation { plan: p.name.into(), history: vec![l.clone()], what: e, extra: c.extra() }) } } }
                },
            }
        }
        let step = 32;
        let mut units: Vec<(usize, usize, i64)> = vec![];
        for (i, n) in counts.iter().enumerate() { for k in 0..p.events.len() { let mut a = -1; while a < *n { units.push((i, k, a)); a += step } } }
        units.sort_by_key(|u| (u.1, u.2)); // long ones do not all come last
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| for k in 0..cx.threads {
            let (next, units, counts, p, cfg) = (&next, &units, &counts, &p, &cfg);
            sc.spawn(move || {
                let mut w = Worker::new(&cx.root, k, &cx.bins, cfg);
                let Ok(mut b) = base(&mut w, p.bg) else { return };
                let mut seen = HashSet::new();
                loop {
                    let u = next.fetch_add(1, Relaxed);
                    if u >= units.len() || cx.done() { break }
                    let (i, e, from) = units[u]; let evs = p.events[e]; let n = counts[i];
                    for a in from..(from + step).min(n) {
                        let second: Vec<i64> = if evs.len() == 1 { vec![0] } else { (a..n).collect() };
                        for q in second {
                            if cx.done() { break }
                            let mut at = vec![(a, evs[0].to_string())];
                            if evs.len() == 2 { at.push((q, evs[1].to_string())) }
                            let c = Case { bg: p.bg, flags: p.flags, item: p.lines[i].clone(), at, kid: None };
                            cx.states.fetch_add(1, Relaxed);
                            match run(&mut w, &mut b, &c) {
                                Ok((h, _, open)) => { seen.insert(h); if open { cx.opens.fetch_add(1, Relaxed); } }
                                Err(e) => match fails_again(&mut w, &c) {
                                    Some(x) => cx.report(Violation { plan: p.name.into(), history: vec![c.item.clone()], what: format!("{} (events: {})", x, c.at.iter().map(|(p, e)| format!("{:?} at point {}", e, p)).collect::<Vec<_>>().join(", ")), extra: c.extra() }),
                                    None => { cx.flaky.fetch_add(1, Relaxed); cx.notes.lock().unwrap().push(format!("not reproduced: {} {:?}", e, c)) }
                                },
                            }
                        }
                    }
                }
                cx.lines.fetch_add(w.lines, Relaxed);
                cx.outcomes.lock().unwrap().extend(seen.iter());
            });
        });
        let st = cx.states.load(Relaxed) - before;
        cx.plans.lock().unwrap().push((p.name.into(), st, p.lines.len(), p.events.iter().map(|e| e.len()).max().unwrap_or(0), !cx.capped.load(Relaxed) && !cx.stop.load(Relaxed)));
        cx.count(&format!("points: {}", p.name), counts.iter().sum::<i64>() as u64);
        cx.samples.lock().unwrap().push(format!("{}: {:?} at each of {} points of {:?}", p.name, p.events[0], counts[0], p.lines[0].line));
        if std::env::var_os("MC_VERBOSE").is_some() { eprintln!("C14/{}: {} lines, {} points (up to {}), {} states, {:.1}s, {}", p.name, p.lines.len(), counts.iter().sum::<i64>(), counts.iter().max().unwrap(), st, t0.elapsed().as_secs_f64(), crate::ctl::longest()) }
    }
}
/// The lines whose processes get a signal between the fork and their program, with the command that dies of it.
const KIDS: &[(&str, &str, &str)] = &[
    ("out a", "1", "die 2 KILLED"), ("out $v \"$v\" && out t || out e", "1", "die 2 KILLED && out t || out e"), ("! out a || out e", "1", "! die 2 KILLED || out e"),
    ("out a | wrap w", "1", "die 2 KILLED | wrap w"), ("out a | wrap w && out t || out e", "2", "out a | die 2 KILLED && out t || out e"), ("out a | wrap b | wrap c || out e", "1", "die 2 KILLED | wrap b | wrap c || out e"),
    ("out a | wrap b | wrap c || out e", "2", "out a | die 2 KILLED | wrap c || out e"), ("out a | wrap b | wrap c || out e", "3", "out a | wrap b | die 2 KILLED || out e"), ("x=1 out a || out e", "1", "x=1 die 2 KILLED || out e"),
    ("no || out t || out e", "2", "no || die 2 KILLED || out e"), ("out $(out s) || out e", "2", "die 2 $(out s) KILLED || out e"), ("wrap w <in || out e", "1", "die 2 KILLED <in || out e"), ("g() { out g ; } ; g || out e", "1", "g() { die 2 KILLED ; } ; g || out e"),
    ("eval 'out a' || out e", "1", "eval 'die 2 KILLED' || out e"), ("out a | f 1", "1", "die 2 KILLED | f 1"), ("out $(out s | wrap w) || out e", "1.1", "out $(die 2 KILLED | wrap w) || out e"), ("out $(out s | wrap w) || out e", "1.2", "out $(out s | die 2 KILLED) || out e"),
    ("nosuch", "1", "die 2 KILLED"), ("out a | nosuch || out e", "2", "out a | die 2 KILLED || out e"),
];

fn c14_kids(cx: &Ctx, th: bool, only: Option<&str>) {
    let name = "a process is signalled before it runs its program";
    if only.map_or(false, |o| o != name) || cx.done() { return }
    let cfg = cfg();
    let mut cases = vec![];
    let mut w = Worker::new(&cx.root, 0, &cx.bins, &cfg);
    let Ok(mut b) = base(&mut w, Bg::No) else { return };
    let mut total = 0;
    for (line, path, killed) in KIDS {
        for flags in ["n", "nm"] {
            // what the process goes through up to its program
            let Some(mut s) = b.s.snap() else { return };
            w.restore(&b.node.fs.files.clone());
            let got = s.line(flags, "", &(w.place.sub(line) + "\n"), w.timeout());
            let root = match &got { Got::Report(r) => r.points as i64, _ => 0 };
            let n = s.take_log().ok().and_then(|l| l.iter().find_map(|e| match e { LogEv::Simple { kind: b'N', path: p, a, .. } if p == path => Some(*a as i64), _ => None }));
            // a command that cannot be found never gets that far: only its first points are before its end
            let n = n.unwrap_or(if killed.contains("nosuch") || line.contains("nosuch") { 2 } else { 0 });
            if n == 0 { cx.notes.lock().unwrap().push(format!("{:?}: process {} not seen", line, path)); continue }
            total += n;
            let same = "<same>";
            for at in 0..n { for (sig, model) in [(2, *killed), (15, *killed), (17, same)] {
                let model = if model == same { line.to_string() } else { model.replace("die 2", &format!("die {}", sig)) };
                let kid = Kid { path: path.to_string(), at, sig, model };
                let mk = |a: Vec<(i64, String)>| Case { bg: Bg::No, flags, item: Item::from(*line), at: a, kid: Some(kid.clone()) };
                cases.push(mk(vec![]));
                // the terminal sends it to the shell as well
                if sig == 2 && (th || flags == "n") && (flags == "n" || cases.len() % 5 == 0) { for p in 0..root { cases.push(mk(vec![(p, "i 2 0".into())])) } }
            } }
        }
    }
    drop(b); drop(w);
    cx.count("points of started processes", total as u64);
    thread_local! { static BASE: std::cell::RefCell<Option<Base>> = const { std::cell::RefCell::new(None) } }
    crate::modes::par(cx, name, &cfg, &cases, &|w, c| BASE.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() || w.slow > 1 { *b = Some(base(w, Bg::No)?) }
        let r = run(w, b.as_mut().unwrap(), c)?;
        Ok(crate::modes::Done { outcome: r.0, states: 1, open: if r.2 { Some("open line") } else { None }, ..Default::default() })
    }), &|c| (vec![c.item.clone()], c.extra()));
}
/// the same case from a fresh shell
pub fn fails_again(w: &mut Worker, c: &Case) -> Option<String> {
    w.slow = 2;
    let mut r = None;
    for _ in 0..2 { match base(w, c.bg) { Ok(mut b) => if let Err(e) = run(w, &mut b, c) { r = Some(e); break }, Err(e) => { r = Some(e); break } } }
    w.slow = 1;
    r
}
