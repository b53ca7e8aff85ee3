mod parse; mod model; mod ctl; mod run; mod explore; mod sizes; mod props; mod modes; mod jobs; mod signals; mod faults; mod complete; mod orders; mod term; mod again;
mod keys; mod kinds;
use explore::*;
use run::*;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::Relaxed;

pub fn js(s: &str) -> String {
    let mut t = String::from("\"");
    for c in s.chars() { match c { '"' => t += "\\\"", '\\' => t += "\\\\", '\n' => t += "\\n", '\t' => t += "\\t", c if (c as u32) < 32 || c as u32 == 127 => t += &format!("\\u{:04x}", c as u32), c => t.push(c) } }
    t.push('"'); t
}
pub fn unjs(s: &str) -> String {
    let mut t = String::new(); let mut i = s.trim().trim_start_matches('"').chars();
    while let Some(c) = i.next() {
        match c { '"' => break, '\\' => match i.next() { Some('n') => t.push('\n'), Some('t') => t.push('\t'), Some('u') => { let h: String = i.by_ref().take(4).collect(); t.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?')) } Some(c) => t.push(c), None => {} }, c => t.push(c) }
    }
    t
}
fn unlimit() { unsafe { let mut r: libc::rlimit = std::mem::zeroed(); libc::getrlimit(libc::RLIMIT_NOFILE, &mut r); r.rlim_cur = r.rlim_max; libc::setrlimit(libc::RLIMIT_NOFILE, &r); } }

fn envp(k: &str, d: &str) -> PathBuf { PathBuf::from(std::env::var(k).unwrap_or(d.into())) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    unlimit();
    unsafe { libc::umask(0o022); }
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN); libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 }); }
    let bins = envp("MC_BINS", "/verif/.build/bins");
    let verif = envp("MC_VERIF", "/verif");
    let root = PathBuf::from(format!("{}/rshmc-{}", if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" }, std::process::id()));
    std::fs::create_dir_all(&root).unwrap();
    for b in ["rsh", "shim.so", "vp"] { std::fs::copy(bins.join(b), root.join(b)).expect(b); }
    std::fs::copy(bins.join("vp"), root.join("vpbig")).expect("vp");
    std::fs::OpenOptions::new().write(true).open(root.join("vpbig")).and_then(|f| f.set_len(3 << 20)).expect("vpbig");
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("plans") => { for id in 1..=20 { let id = format!("C{:02}", id); for p in props::plans(&id, a.len() > 2) { println!("{} {:24} {:?} probes {} sessions {}", id, p.name, p.levels.iter().map(|l| l.len()).collect::<Vec<_>>(), p.probes.len(), p.sessions.len()) } } 0 }
        Some("try") => { tries(&root, &a[2..]); 0 }
        Some("replay") if a.len() > 2 => replay(&root, threads, &a[2]),
        Some(p) => check(&root, &verif, threads, p, a.get(2).map_or("quick", |s| s.as_str()), a.get(3).map(|s| s.as_str())),
        None => { eprintln!("usage: mc PROPERTY [quick|thorough] | mc replay FILE | mc try LINE..."); 2 }
    };
    let _ = std::fs::remove_dir_all(&root);
    std::process::exit(code);
}

fn tries(root: &Path, lines: &[String]) {
    let mut w = Worker::new(root, 0, root, &Cfg::default());
    let (mut s, mut node, base) = w.start().unwrap();
    for l in lines {
        let r = w.step(&mut s, &mut node, l, &base);
        println!("> {}\n  {:?}", l, r.as_ref().map(|r| (r.ended, r.open)));
        if r.is_err() { break }
    }
}

fn check(root: &Path, verif: &Path, threads: usize, prop: &str, tier: &str, only: Option<&str>) -> i32 {
    let th = tier == "thorough";
    let deadline = std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if th { 780.0 } else { 240.0 });
    let cx = Ctx::new(prop, tier, root, threads, deadline);
    let known = known(verif, prop);
    match prop {
        "C22" => complete::c22(&cx, th, only),
        "C03" => orders::c03(&cx, th, only),
        "C15" => faults::c15(&cx, th, only),
        "C14" => signals::c14(&cx, th, only),
        "C21" => modes::c21(&cx, th, only),
        "C12" | "C13" => {
            for p in jobs::plans(th) {
                if only.map_or(true, |o| p.name == o) { jobs::run_jobs(&cx, if prop == "C12" { 1 } else { 2 }, &p) }
            }
            if prop == "C13" { term::c13(&cx, th, only) }
        }
        _ => {}
    }
    if prop == "C11" || prop == "C14" { keys::plan(&cx, prop, th, only) }
    if prop == "C11" { again::plan(&cx, th, only) }
    for p in props::plans(prop, th) { if only.map_or(true, |o| p.name == o) { run_plan(&cx, &p) } }
    let mut code = 0;
    let viol = cx.violations.lock().unwrap().clone();
    let mut shown = 0;
    for v in viol.iter() {
        let sig = v.sig();
        if let Some(k) = known.iter().find(|k| k.0 == sig) { println!("KNOWN-FINDING: property={} {}", prop, k.1); continue }
        let dir = verif.join("evidence/replay");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}-{}.txt", prop, shown));
        let _ = std::fs::write(&f, v.file(prop, tier));
        println!("VIOLATION property={} replay={}", prop, f.display());
        println!("  plan {}: {}", v.plan, v.what);
        for h in &v.history { println!("   > {}", h.show()) }
        shown += 1; code = 1;
        if shown == 3 { break }
    }
    let errors: Vec<String> = cx.errors.lock().unwrap().clone();
    if code == 0 && !errors.is_empty() { for e in errors.iter().take(3) { eprintln!("error: {}", e) } code = 2 }
    for n in cx.notes.lock().unwrap().clone().iter().take(5) { println!("note: {}", n) }
    let wall = cx.start.elapsed().as_secs_f64();
    let ev = evidence(&cx, prop, tier, wall);
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    let _ = std::fs::write(verif.join(format!("evidence/{}.json", prop)), ev);
    println!("{} {}: {} states, {} transitions, {} distinct outcomes, {} traces replayed on the unmodified binary, {} left open, {:.1} s{}", prop, tier, cx.states.load(Relaxed), cx.lines.load(Relaxed), cx.outcomes.lock().unwrap().len(), cx.traces.load(Relaxed), cx.opens.load(Relaxed), wall, if cx.capped.load(Relaxed) { ", stopped at the time limit" } else { "" });
    code
}

fn known(verif: &Path, prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| l.strip_prefix(&format!("finding: property={} ", prop))).filter_map(|l| l.split_once(" :: ")).map(|(w, s)| (unjs(s), w.to_string())).collect()
}

fn evidence(cx: &Ctx, prop: &str, tier: &str, wall: f64) -> String {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let plans: Vec<String> = cx.plans.lock().unwrap().iter().map(|p| format!("{{\"name\":{},\"states\":{},\"largest_alphabet\":{},\"depth\":{},\"complete\":{}}}", js(&p.0), p.1, p.2, p.3, p.4)).collect();
    let samples: Vec<String> = cx.samples.lock().unwrap().iter().take(40).map(|s| js(s)).collect();
    let counters: Vec<String> = cx.counters.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let viol = cx.violations.lock().unwrap().len();
    format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {}, \"left_open_by_the_specification\": {}, \"not_reproduced\": {}, \"stopped_at_time_limit\": {}, \"violations\": {},\n  \"counters\": {{{}}},\n  \"plans\": [{}],\n  \"samples\": [{}]\n }},\n \"wall_s\": {:.2}\n}}\n",
        js(prop), js(tier), seed, cx.states.load(Relaxed), cx.lines.load(Relaxed), cx.traces.load(Relaxed), cx.outcomes.lock().unwrap().len(), cx.opens.load(Relaxed), cx.flaky.load(Relaxed), cx.capped.load(Relaxed), viol, counters.join(","), plans.join(","), samples.join(","), wall)
}

fn replay(root: &Path, threads: usize, file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| unjs(s)).unwrap_or_default();
    let (prop, tier, plan) = (get("property "), get("tier "), get("plan "));
    let mut hist: Vec<Item> = vec![];
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("line ") { hist.push(Item::from(unjs(x))) }
        if let Some(x) = l.strip_prefix("put ") { if let Some((a, b)) = x.split_once("\" \"") { hist.last_mut().unwrap().put.push((unjs(a), unjs(&format!("\"{}", b)))) } }
    }
    let _ = threads;
    let extra = get("extra ");
    if prop == "C13" && extra == term::NAME {
        let mut w = Worker::new(root, 0, root, &Cfg::default());
        w.slow = 2;
        let h: Vec<String> = hist.iter().map(|i| i.line.clone()).collect();
        return match term::run(&mut w, &h) { Ok(_) => { println!("not reproduced"); 0 } Err(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 } };
    }
    if extra == keys::NAME {
        let mut w = Worker::new(root, 0, root, &keys::cfg());
        w.slow = 2;
        let h: Vec<String> = hist.iter().map(|i| i.line.clone()).collect();
        return match keys::run(&mut w, &h) { Ok(_) => { println!("not reproduced"); 0 } Err(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 } };
    }
    if extra == again::NAME {
        let mut w = Worker::new(root, 0, root, &again::cfg());
        w.slow = 2;
        let h: Vec<String> = hist.iter().map(|i| i.line.clone()).collect();
        return match again::run(&mut w, &h) { Ok(_) => { println!("not reproduced"); 0 } Err(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 } };
    }
    if prop == "C12" || prop == "C13" {
        let mut w = Worker::new(root, 0, root, &Cfg::default());
        w.slow = 2;
        return match jobs::replay(&mut w, if prop == "C12" { 1 } else { 2 }, &hist, &extra) { Ok(_) => { println!("not reproduced"); 0 } Err(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 } };
    }
    if prop == "C14" {
        let Some(c) = hist.last().cloned().and_then(|i| signals::Case::parse(i, &extra)) else { eprintln!("bad replay file"); return 2 };
        let mut w = Worker::new(root, 0, root, &signals::cfg());
        return match signals::fails_again(&mut w, &c) { None => { println!("not reproduced"); 0 } Some(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 } };
    }
    if prop == "C22" {
        let Some(c) = complete::Case::parse(&extra) else { eprintln!("bad replay file"); return 2 };
        let mut w = Worker::new(root, 0, root, &Cfg::default());
        w.slow = 2;
        return match complete::run(&mut w, &c) { Ok(_) => { println!("not reproduced"); 0 } Err(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 } };
    }
    if prop == "C15" && extra.starts_with("limit ") {
        let (Some(it), Ok(n)) = (hist.last().cloned(), extra[6..].parse()) else { eprintln!("bad replay file"); return 2 };
        let mut w = Worker::new(root, 0, root, &faults::cfg());
        w.slow = 2;
        return match faults::limited(&mut w, n, &it) { Ok(_) => { println!("not reproduced"); 0 } Err(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 } };
    }
    if prop == "C15" {
        let Some(c) = hist.last().cloned().and_then(|i| faults::parse(i, &extra)) else { eprintln!("bad replay file"); return 2 };
        let mut w = Worker::new(root, 0, root, &faults::cfg());
        return match faults::replay(&mut w, &c) { None => { println!("not reproduced"); 0 } Some(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 } };
    }
    if prop == "C21" {
        let Some(m) = modes::Mode::from_extra(&extra) else { eprintln!("bad replay file"); return 2 };
        let mut w = Worker::new(root, 0, root, &modes::cfg_of(&plan));
        w.slow = 2;
        return match modes::run_mode(&mut w, &m, true) { Ok(_) => { println!("not reproduced"); 0 } Err(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 } };
    }
    if prop == "C03" && extra == "orders" {
        let Some(it) = hist.last() else { eprintln!("bad replay file"); return 2 };
        let mut w = Worker::new(root, 0, root, &orders::cfg());
        w.slow = 2;
        return match orders::run(&mut w, &it.line) { Ok(_) => { println!("not reproduced"); 0 } Err(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 } };
    }
    let Some(p) = props::plans(&prop, tier == "thorough").into_iter().find(|p| p.name == plan) else { eprintln!("no such plan: {} {}", prop, plan); return 2 };
    let mut w = Worker::new(root, 0, root, &p.cfg);
    w.slow = 2;
    match run_history(&mut w, &hist) {
        Ok(()) => match plain(&mut w, &hist) { Err(e) => { println!("VIOLATION property={} replay={}\n  on the unmodified binary: {}", prop, file, e); 1 } _ => { println!("not reproduced"); 0 } },
        Err(e) => { println!("VIOLATION property={} replay={}\n  {}", prop, file, e); 1 }
    }
}
