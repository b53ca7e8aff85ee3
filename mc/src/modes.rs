//! Whole runs of the shell in its invocation modes (C21), and the driver for
//! engines that enumerate independent cases.
use crate::ctl::*;
use crate::explore::*;
use crate::model::*;
use crate::props::*;
use crate::run::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::time::Instant;

/// What a case says about itself: outcome hash, states and transitions it stands for, an open reason.
#[derive(Default)]
pub struct Done { pub outcome: u64, pub states: u64, pub lines: u64, pub open: Option<&'static str>, pub traces: u64 }

/// All cases of a plan, on all cores. A failing case is run twice more; it counts if it fails again.
pub fn par<T: Sync>(cx: &Ctx, name: &str, cfg: &Cfg, cases: &[T], f: &(dyn Fn(&mut Worker, &T) -> Result<Done, String> + Sync), show: &(dyn Fn(&T) -> (Vec<Item>, String) + Sync)) {
    if cx.done() || cases.is_empty() { return }
    let next = AtomicUsize::new(0); let before = cx.states.load(Relaxed); let t0 = Instant::now();
    std::thread::scope(|sc| for k in 0..cx.threads.min(cases.len()) {
        let next = &next;
        let _ = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(sc, move || {
            let mut w = Worker::new(&cx.root, k, &cx.bins, cfg);
            let mut outcomes = HashSet::new();
            loop {
                let u = next.fetch_add(1, Relaxed);
                if u >= cases.len() || cx.done() { break }
                let c = &cases[u];
                let r = match f(&mut w, c) {
                    Err(e) => {
                        w.slow = 2;
                        let again = f(&mut w, c).err().or_else(|| f(&mut w, c).err());
                        w.slow = 1;
                        match again {
                            Some(e) => { let (h, x) = show(c); cx.report(Violation { plan: name.into(), history: h, what: e, extra: x }); break }
                            None => { cx.flaky.fetch_add(1, Relaxed); cx.notes.lock().unwrap().push(format!("not reproduced: {} in {:?}", e, show(c))); continue }
                        }
                    }
                    Ok(d) => d,
                };
                if let Some(o) = r.open {
                    cx.opens.fetch_add(1, Relaxed); cx.count(&format!("open: {}", o), 1);
                    if std::env::var_os("MC_OPEN").is_some() { eprintln!("open {}: {:?}", o, show(c)) }
                } else { outcomes.insert(r.outcome); }
                cx.states.fetch_add(r.states, Relaxed); cx.lines.fetch_add(r.lines, Relaxed); cx.traces.fetch_add(r.traces, Relaxed);
            }
            cx.lines.fetch_add(w.lines, Relaxed);
            cx.outcomes.lock().unwrap().extend(outcomes.iter());
        });
    });
    let st = cx.states.load(Relaxed) - before;
    cx.plans.lock().unwrap().push((name.into(), st, cases.len(), 1, !cx.capped.load(Relaxed) && !cx.stop.load(Relaxed)));
    for c in [cases.first(), cases.last()].into_iter().flatten() { let (h, x) = show(c); cx.samples.lock().unwrap().push(format!("{}: {} {}", name, h.iter().map(|i| i.show()).collect::<Vec<_>>().join(" / "), x)) }
    if std::env::var_os("MC_VERBOSE").is_some() { eprintln!("{}/{}: {} cases, {} states, {:.1}s, {}", cx.prop, name, cases.len(), st, t0.elapsed().as_secs_f64(), crate::ctl::longest()) }
}

#[derive(Clone, Debug)]
pub enum Mode {
    /// name of the script on the command line, operands, text of the script
    Script(String, Vec<String>, String),
    /// operands of -c
    Dash(Vec<String>),
    Stdin(String),
    /// options before all that
    With(Vec<String>, Box<Mode>),
    /// files that are there from the start
    Beside(Vec<(String, String)>, Box<Mode>),
}
impl Mode {
    pub fn to_extra(&self) -> String {
        match self {
            Mode::Script(n, a, t) => format!("script\0{}\0{}\0{}", n, a.join("\x01"), t),
            Mode::Dash(a) => format!("-c\0{}", a.join("\x01")),
            Mode::Stdin(t) => format!("stdin\0{}", t),
            Mode::With(o, m) => format!("with\0{}\0{}", o.join("\x01"), m.to_extra()),
            Mode::Beside(f, m) => format!("beside\0{}\0{}", f.iter().map(|(n, t)| format!("{}\x01{}", n, t)).collect::<Vec<_>>().join("\x01"), m.to_extra()),
        }
    }
    pub fn from_extra(s: &str) -> Option<Mode> {
        let p: Vec<&str> = s.split('\0').collect();
        if p[0] == "with" { let (o, m) = s[5..].split_once('\0')?; return Some(Mode::With(o.split('\x01').map(|x| x.to_string()).collect(), Box::new(Mode::from_extra(m)?))) }
        if p[0] == "beside" { let (o, m) = s[7..].split_once('\0')?; let v: Vec<String> = o.split('\x01').map(|x| x.to_string()).collect(); return Some(Mode::Beside(v.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect(), Box::new(Mode::from_extra(m)?))) }
        let l = |t: &str| if t.is_empty() { vec![] } else { t.split('\x01').map(|x| x.to_string()).collect() };
        match p[..] { ["script", n, a, t] => Some(Mode::Script(n.into(), l(a), t.into())), ["-c", a] => Some(Mode::Dash(l(a))), ["stdin", t] => Some(Mode::Stdin(t.into())), _ => None }
    }
    fn show(&self) -> (Vec<Item>, String) {
        let l = match self {
            Mode::Script(n, a, t) => Item { line: format!("rsh {} {}", n, a.join(" ")), put: vec![(n.clone(), t.clone())] },
            Mode::Dash(a) => Item::from(format!("rsh -c {}", a.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(" "))),
            Mode::Stdin(t) => Item { line: "rsh <input".into(), put: vec![("input".into(), t.clone())] },
            Mode::With(o, m) => { let mut i = m.show().0.remove(0); i.line = i.line.replacen("rsh", &format!("rsh {}", o.join(" ")), 1); i }
            Mode::Beside(f, m) => { let mut i = m.show().0.remove(0); i.put.extend(f.iter().cloned()); i }
        };
        (vec![l], self.to_extra())
    }
}

/// One run of the shell from start to end, against the model. `real`: without the shim, too.
pub fn run_mode(w: &mut Worker, m: &Mode, real: bool) -> Result<Done, String> {
    let mut files = w.initial_files();
    let mut model = w.model();
    let (opts, m) = match m { Mode::With(o, m) => (o.clone(), &**m), m => (vec![], m) };
    let m = match m { Mode::Beside(f, m) => { for (n, t) in f { files.insert(Fs::norm("@/work", n), crate::ctl::raw(t)); } &**m } m => m };
    let (mut args, stdin): (Vec<String>, String) = match m {
        Mode::Script(n, a, t) => {
            if t != "\0none" { files.insert(Fs::norm("@/work", n), crate::ctl::raw(t)); }
            model.quiet = true;
            model.positional(n, a);
            ([n.clone()].into_iter().chain(a.iter().cloned()).collect(), String::new())
        }
        Mode::Dash(a) => { model.quiet = true; (["-c".to_string()].into_iter().chain(a.iter().cloned()).collect(), String::new()) }
        Mode::Stdin(t) => (vec![], t.clone()),
        Mode::With(..) | Mode::Beside(..) => unreachable!(),
    };
    if matches!(m, Mode::Dash(_)) && opts.last().map_or(false, |o| o.contains('c')) { args.remove(0); }
    let args: Vec<String> = opts.into_iter().chain(args).collect();
    let mut world = World { fs: w.fs(), ..World::default() };
    world.fs.files = files.clone();
    let want = match m {
        Mode::Script(n, _, _) => match files.get(&Fs::norm("@/work", n)).filter(|_| !world.fs.closed.contains(&Fs::norm("@/work", n))).cloned() {
            Some(t) => model.script(&mut world, &String::from_utf8_lossy(&t)),
            None => { world.err.push(1); St::Fail }
        },
        Mode::Dash(a) => { let t = a.join(" "); model.unit(&mut world, &t).unwrap_or(model.status) }
        Mode::Stdin(t) => model.enter(&mut world, t).unwrap_or(model.status),
        Mode::With(..) | Mode::Beside(..) => unreachable!(),
    };
    let steps = match m { Mode::Script(_, _, t) | Mode::Stdin(t) => t.lines().count(), _ => 1 } as u64;
    let exec_end = world.execs.last().map_or(false, |x| x.root);
    let mut d = Done { states: 1, lines: steps, ..Done::default() };
    if world.open.is_some() || world.bg { d.open = world.open.or(Some("background process at the end")) }
    let args: Vec<String> = args.iter().map(|a| w.place.sub(a)).collect();
    let env: Vec<(String, String)> = w.env().iter().map(|(k, v)| (k.clone(), w.place.sub(v))).collect();
    let stdin = w.place.sub(&stdin);
    for mode in if real && d.open.is_none() && !world.reads_in { vec!["a", ""] } else { vec!["a"] } {
        w.restore(&files);
        let mut s = Session::spawn(&w.place, &Spawn { args: &args, mode, env: &env, cwd: "@/work", stdin: stdin.as_bytes(), nofile: 1024 });
        let Some(st) = s.end(w.timeout()) else {
            if matches!(world.open, Some("too long") | Some("deep recursion")) { continue }
            return Err("the shell does not end".into())
        };
        let (out, err) = (s.take_out(), s.take_err());
        let disk = w.scan();
        let on = if mode.is_empty() { "on the unmodified binary: " } else { "" };
        let errs = { let mut t = String::from_utf8_lossy(&err).to_string(); t.truncate(t.char_indices().nth(300).map_or(t.len(), |x| x.0)); if t.is_empty() { t } else { format!(" [stderr: {}]", t.trim_end()) } };
        if err.windows(6).any(|x| x == b"SHIM: ") { return Err(format!("the shell got stuck:{}", errs)) }
        if err.windows(9).any(|x| x == b"panicked ") { return Err(format!("{}the shell panicked{}", on, errs)) }
        if st & 0x7f != 0 && !exec_end && world.open.is_none() { return Err(format!("{}the shell died of signal {}{}", on, st & 0x7f, errs)) }
        let code = if st & 0x7f == 0 { (st >> 8) & 255 } else { 128 + (st & 0x7f) };
        if world.open.is_some() { continue }
        if !exec_end && !want.admits(code) { return Err(format!("{}the shell ended with status {} instead of {:?}{}", on, code, want, errs)) }
        if world.bg { continue }
        if !mode.is_empty() {
            let log = s.take_log()?;
            let mut x: Vec<ExecEv> = log.iter().filter_map(|e| if let LogEv::Exec(x) = e { Some(x.clone()) } else { None }).collect();
            x.sort_by(|a, b| path_order(&a.path, &b.path));
            let got: Vec<MExec> = x.iter().map(|x| w.mexec(x)).collect();
            // in a script the descriptor of the script itself stays with the shell only
            if got != world.execs { return Err(diff_execs(&world.execs, &got) + &errs) }
            for x in &x { if x.mask != 0 || x.ign != 0 { return Err(format!("{:?} starts with blocked signals {:#x}, ignored signals {:#x}", x.argv, x.mask, x.ign)) } }
            for e in &log { if let LogEv::Simple { kind: b'K', a, b, .. } = e { return Err(format!("the shell sends signal {} to {}", b, a)) } }
        }
        let (po, pe) = (w.place.unsubb(out), w.place.unsubb(err));
        if !matches(&world.out, &po, world.racy) { return Err(format!("{}standard output is {:?} instead of {:?}{}", on, show(&po), show(&world.out), errs)) }
        if !matches(&world.err, &pe, world.racy) { return Err(format!("{}standard error is {:?} instead of {:?}", on, show(&pe), show(&world.err))) }
        for (n, t) in &disk { match world.fs.files.get(n) { None => return Err(format!("{}file {} exists", on, n)), Some(m) => if !matches(m, t, world.racy) { return Err(format!("{}file {} holds {:?} instead of {:?}", on, n, show(t), show(m))) } } }
        for n in world.fs.files.keys() { if !disk.contains_key(n) { return Err(format!("{}file {} does not exist", on, n)) } }
        if mode.is_empty() { d.traces += 1 }
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        po.hash(&mut h); code.hash(&mut h); disk.hash(&mut h); d.outcome = h.finish();
    }
    Ok(d)
}

pub fn c21_cfg() -> Cfg {
    Cfg { files: vec![("f0".into(), "zero\n".into()), ("s.sh".into(), "out s $1\nx=s\n".into()), ("bad.sh".into(), "out ;;\n".into())], dirs: vec!["@/work/d".into()], closed: vec!["cl".into()], ..Cfg::default() }
}
fn c21_cases(th: bool) -> Vec<(&'static str, Vec<Mode>)> {
    let lines: &[&str] = &["out a", "x=1", "out $x b", "no", "code 7", "die 9", "exit", "exit 3", "exit 300", "out a ;;", "nosuch", "", "   ", "# c", "f() { out f $1 $x ; return 4 ; }", "g() {\n  out g\n\n  x=g\n}", "f 1 2", "g", "alias q=out", "q z", "cd d", "pwd", "out a | wrap w", "out a >o", "wrap w <f0", "source ./s.sh 5", "source ./bad.sh", "eval 'out e ; no'", "ok && out t || out u", "out $(out s ; exit 5)", "! ok", "unset x", "readonly x", "export x", "return 6", "f() { exit 8 ; }", "out 'a  b' \"c d\" # e", "cd nodir", "jobs", "fg", "out 'open", "f() { out open", "}", "err e", "exec out ex", "exec nosuch", "ok ; exit 2 ; out n", "no | exit 6", "x=$(no)", "out `big 3`", "ok &", "exit x", "unset", "die 15 | ok", "ok | die 15", "x=2 no", "out $1 $2 é", "eval exit 9", "source nofile", "export context n=./s.sh", "\tout t\t", "ok;no;ok", "no && ok"];
    let few: &[&str] = &["out a", "no", "exit", "exit 3", "out a ;;", "nosuch", "f() {\nout f\nno\n}", "f", "# c", "x=1 ; out $x", "out 'open", "die 9", "}"];
    let mut progs: Vec<String> = vec![String::new()];
    for n in 1..=2 { for s in seqs(lines, n) { progs.push(s.join("\n")) } }
    for s in seqs(few, if th { 4 } else { 3 }) { progs.push(s.join("\n")) }
    if th { for s in seqs(&lines[..40], 3) { progs.push(s.join("\n")) } }
    let mut script = vec![]; let mut dash = vec![]; let mut stdin = vec![];
    for p in &progs {
        script.push(Mode::Script("t.sh".into(), vec!["A".into(), "B c".into()], format!("{}\n", p)));
        dash.push(Mode::Dash(vec![p.clone()]));
        // the line editor waits for closing brackets
        if !p.contains("}") || crate::parse::brackets(p) == 0 && !p.starts_with('}') && !p.contains("\n}\n") || p.contains("g() {") && crate::parse::brackets(&p.replace('\n', " ")) == 0 && !p.split('\n').any(|l| l == "}" && !p.contains("g() {")) { if crate::parse::brackets(p) == 0 { stdin.push(Mode::Stdin(format!("{}\n", p))) } }
    }
    // shapes of a script file
    let mut shapes = vec![];
    let body = ["out a", "x=1\nout $x", "f() {\n  out f\n}\nf", "no", "exit 3\nout n", "out a ;;", "out $0 $1 $2 $3", "", "# c", "out 'open", "f() {\nout f", "out a\nexit", "(", "]", "out a &&\nout b", "out a |\nwrap w", "out $1 ; f() { out $1 $0 ; } ; f z ; out $1 $0", "source ./s.sh q ; out $1", "1=x", "eval 'out $1'", "x=$1 ; y=\"$2\" ; out $x $y", "out $1 | wrap $2", "$1 run", "out >$1", "out $10 $11"];
    for b in body { for t in ["#", "#\n", "\n#\n", "\n\n\n#\n\n\n", "# c\n#\n# d", "#\n# c", "  #\n", "\t#\t\n", "#\r\n", "#;\n", "#\n#\n", "#\nno", "no\n#\n"] {
        let t = t.replace('#', "\u{1}"); let t = t.replace("\u{1} c", "# c").replace("\u{1} d", "# d").replace('\u{1}', b);
        for a in [&[][..], &["A"], &["A", "B c", ""], &["$x", "'q'", "-c"], &["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"]] {
            for n in ["t.sh", "./t.sh", "@/work/d/t.sh"] { shapes.push(Mode::Script(n.into(), a.iter().map(|x| x.to_string()).collect(), t.clone())); if a.len() != 1 { break } }
        }
    } }
    for n in ["nofile", "d", "cl", "d/nofile", "nodir/x", "f0/x"] { for a in [&[][..], &["a"]] { shapes.push(Mode::Script(n.into(), a.iter().map(|x| x.to_string()).collect(), "\0none".into())) } }
    for n in ["a b.sh", "é.sh", "$x", "x;y", "'q'"] { shapes.push(Mode::Script(n.into(), vec!["p".into()], "out $1\nno\nout n\ncode 5\n".into())) }
    // what the operands of a script can be
    let mut operands = vec![];
    let vals = ["", " ", " a", "a ", " a  b ", "\t", "a\nb", "\n", "a\n", "'q'", "\"d\"", "'", "\"", "\"x", "$x", "$1", "$(out s)", "`out s`", "-c", "-x", "--", "-", "a=b", "x=1", "=", "!", ";", "|", "&", "*", "~", "#", "#c", "é日", "\\", "\\n", "{", "}", "(", "1", "0", "\u{a0}x", ">o", "ns::x"];
    let bodies = ["out $1 $2\nout \"[$1][$2]\"\n", "f() { out $1 $2 ; g $2 $1 ; }\ng() { out $1 $2 $0 ; }\nf $1 $2\nout $1\n", "x=$1\nout $x $2\nexport x\nout s\n", "source ./s.sh $1 ; out $1 $x\nout \"$(out $2)\"\n", "y=$2 out a\nreadonly y=$2\nout $y | wrap $1\n"];
    for a in vals { for b in bodies { operands.push(Mode::Script("t.sh".into(), vec![a.into()], b.into())); for v in if th { &vals[..] } else { &vals[..14] } { operands.push(Mode::Script("t.sh".into(), vec![a.to_string(), v.to_string()], b.into())); } } }
    let mut ops = vec![];
    let parts = ["out", "a", "a b", "'a b'", ";", "no", "out a ; out b", "", "#", "x=1", "$x", "\n", "exit 4", "|", "wrap w", "\"q\"", "é", "code 6"];
    for n in 1..=if th { 4 } else { 3 } { for s in seqs(&parts, n) { ops.push(Mode::Dash(s.iter().map(|x| x.to_string()).collect())) } }
    let mut inp = vec![];
    for b in body { if crate::parse::brackets(b) != 0 { continue } for t in ["%", "%\n", "\n%\n", "% # c\n", "# c\n%", "  %\n", "%\n%\n", "%\nno"] { inp.push(Mode::Stdin(t.replace('%', b))) } }
    // options before the rest
    let mut with = vec![];
    let os: &[&[&str]] = &[&["-x"], &["-"], &["--"], &["-x", "-y"], &["-e", "-u", "-x"], &["-xc"], &["-x", "-yc"], &["-cx"], &["-x", "-c"]];
    for o in os {
        let o: Vec<String> = o.iter().map(|x| x.to_string()).collect();
        for m in dash.iter().take(lines.len() + 40).chain(ops.iter().take(400)) { with.push(Mode::With(o.clone(), Box::new(m.clone()))) }
        if o.iter().any(|x| x.contains('c')) { continue }
        for m in script.iter().take(lines.len() + 40).chain(shapes.iter().step_by(7)).chain(stdin.iter().take(lines.len())).chain(inp.iter().step_by(5)) { with.push(Mode::With(o.clone(), Box::new(m.clone()))) }
    }
    // a script longer than any buffer, with characters of several bytes across every boundary
    let mut long = vec![];
    for k in 0..if th { 64 } else { 12 } {
        for (c, n) in [("é", 6000), ("日", 4000), ("a", 9000), ("😀", 3000)] {
            let pad = "x".repeat(k);
            let t = format!("# {}{}\nout {}{} | wrap w\nx='{}{}'\nout $x >o\nf() {{\n  # {}\n  out '{}'\n}}\nf\nno\n", pad, c.repeat(n), pad, c.repeat(n / 3), pad, c.repeat(n), c.repeat(n), c.repeat(n));
            long.push(Mode::Script("t.sh".into(), vec![], t.clone()));
            let many: String = (0..300).map(|i| format!("out {}{} {}\n", pad, c.repeat(20), i)).collect();
            long.push(Mode::Script("t.sh".into(), vec![], many.clone()));
            if k < 8 { long.push(Mode::Stdin(many)); }
        }
    }
    // characters beyond the usual ones, anywhere in the text
    let mut odd = vec![];
    for o in ["\u{feff}", "\u{200b}", "\u{ad}", "\u{301}", "\u{7f}", "\u{5}", "\u{1b}", "\u{202e}", "\u{fffd}", "\u{10ffff}", "𝄞", "ß", "İ", "\r", "\u{a0}", "\u{85}", "\u{2028}", "\u{3000}", "\u{b}", "\u{c}", "\\", "%", "^", "~", "?", "\u{e0ff}", "\u{e0c3}"] {
        for t in ["#out a\nout b\n", "out a#\nout b\n", "out a\n#\nout b\n", "out 'a#b'\nout b\n", "out '#'\nno#\nout b\n", "x='#'\nout $x \"$x#\"\n", "f() {\n#out f '#'\n}\nf\n", "# #\nout b\n", "out a # #\nout b", "f() {\n  out 'in #'\n}\nf #\n", "exit 3#\n", "no #\nexit\n", "out a\n#"] {
            let t = t.replace("# #", "\u{1} #").replace('#', o).replace('\u{1}', "#");
            if o == "\\" || crate::parse::brackets(&t) == 0 { if !crate::ctl::is_raw(&t) { odd.push(Mode::Stdin(t.clone())); odd.push(Mode::Dash(vec![t.clone()])); odd.push(Mode::Dash(t.trim_end().split('\n').map(|x| x.to_string()).collect())) } }
            odd.push(Mode::Script("t.sh".into(), vec!["A".into()], t));
        }
        if !crate::ctl::is_raw(o) { for t in ["out $1", "out \"<$1>\" ; x=$1 ; out $x"] { odd.push(Mode::Script("t.sh".into(), vec![o.into()], t.into())); odd.push(Mode::Script("t.sh".into(), vec![format!("a{o}b{o}")], t.into())) } }
    }
    vec![("characters", odd), ("options first", with), ("long", long), ("script", script), ("-c", dash), ("input", stdin), ("script shapes", shapes), ("script operands", operands), ("-c operands", ops), ("input shapes", inp)]
}
/// The lines of the other properties, run from a script file, by -c and from the input, after the lines their plan starts with.
fn others(th: bool) -> Vec<(String, Cfg, Vec<Mode>)> {
    let mut v = vec![];
    for id in 1..=20 { let id = format!("C{:02}", id); for p in plans(&id, false) {
        if p.levels.len() != 1 || !p.cfg.args.is_empty() || !th && p.levels[0].len() > 3000 { continue }
        let mut cfg = p.cfg.clone();
        let pre: String = std::mem::take(&mut cfg.setup).iter().map(|l| format!("{}\n", l)).collect();
        let mut cases = vec![];
        for (i, it) in p.levels[0].iter().enumerate() {
            // whether the operands of a script are in a namespace made of its scope is left open
            if it.line.contains("::1") { continue }
            let text = format!("{}{}\n{}", pre, it.line, p.probes.iter().map(|l| format!("{}\n", l.line)).collect::<String>());
            let mut ms = vec![Mode::Script("main.sh".into(), vec!["A".into(), "B c".into()], text.clone())];
            if !crate::ctl::is_raw(&text) { ms.push(Mode::Dash(vec![text.clone()])); if !it.line.contains('\n') { ms.push(Mode::Stdin(text)) } }
            let n = ms.len();
            for (k, m) in ms.into_iter().enumerate() { if !th && k != i % n { continue } cases.push(if it.put.is_empty() { m } else { Mode::Beside(it.put.clone(), Box::new(m)) }) }
        }
        v.push((format!("{} of {}", p.name, id), cfg, cases));
    } }
    v.sort_by_key(|x| x.2.len() / 9000);
    v
}
/// where the cases of a plan start
pub fn cfg_of(plan: &str) -> Cfg { if plan.contains(" of C") { others(true).into_iter().find(|x| x.0 == plan).map_or(c21_cfg(), |x| x.1) } else { c21_cfg() } }
pub fn c21(cx: &Ctx, th: bool, only: Option<&str>) {
    let cfg = c21_cfg();
    for (name, cases) in c21_cases(th) {
        if only.map_or(false, |o| o != name) { continue }
        let n = std::sync::atomic::AtomicUsize::new(0);
        let every = (cases.len() / if th { 2000 } else { 300 }).max(1);
        par(cx, name, &cfg, &cases, &|w, m| run_mode(w, m, n.fetch_add(1, Relaxed) % every == 0), &|m| m.show());
    }
    for (name, cfg, cases) in others(th) {
        if only.map_or(false, |o| o != name && o != "others") { continue }
        let n = std::sync::atomic::AtomicUsize::new(0);
        let every = (cases.len() / 10).max(1);
        par(cx, &name, &cfg, &cases, &|w, m| run_mode(w, m, n.fetch_add(1, Relaxed) % every == 0), &|m| m.show());
    }
}
