//! Job control at a terminal: keys and commands in every order, on the shell as it
//! is, with real processes behind a pseudo-terminal.
use crate::complete::{Screen, Tty};
use crate::explore::*;
use crate::jobs::parse_jobs;
use crate::modes::{par, Done};
use crate::run::*;
use std::time::{Duration, Instant};

pub const NAME: &str = "on a terminal";
#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Run, Stop, Gone }
struct Job { pids: Vec<i32>, names: Vec<String>, own: bool }

/// (parent, state, group, name) of every process
pub fn look() -> Vec<(i32, i32, char, i32, String)> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let Some(p) = e.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) else { continue };
        if let Some(x) = stat(p) { v.push(x) }
    }
    v
}
pub fn stat(p: i32) -> Option<(i32, i32, char, i32, String)> {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", p)).ok()?;
    let (a, b) = (t.find('(')?, t.rfind(')')?);
    let f: Vec<&str> = t[b + 2..].split(' ').collect();
    Some((p, f[1].parse().ok()?, f[0].chars().next()?, f[2].parse().ok()?, t[a + 1..b].into()))
}
fn state(p: i32) -> St { match stat(p) { None => St::Gone, Some(x) => match x.2 { 'Z' | 'X' => St::Gone, 'T' | 't' => St::Stop, _ => St::Run } } }
pub fn wait(limit: Duration, f: &dyn Fn() -> bool) -> bool { let e = Instant::now() + limit; loop { if f() { return true } if Instant::now() > e { return false } std::thread::sleep(Duration::from_micros(500)) } }

pub const ACTS: &[&str] = &["job1", "job1 | job2", "job1 &", "^C", "^Z", "fg", "bg", "kill", "ok", "job1 ; job2", "stop", "cont"];

pub fn run(w: &mut Worker, h: &[String]) -> Result<Done, String> {
    let mut known = vec![];
    let r = history(w, h, &mut known);
    for p in known { unsafe { libc::kill(p, libc::SIGKILL); } }
    r
}
fn history(w: &mut Worker, h: &[String], known: &mut Vec<i32>) -> Result<Done, String> {
    let limit = w.timeout() / 2; let none = Duration::ZERO; let brief = Duration::from_millis(12);
    let mut env = w.env(); env.push(("MCJOB".into(), "1".into())); env.push(("TERM".into(), "xterm".into()));
    env.retain(|e| e.0 != "TERM" || e.1 == "xterm");
    let env: Vec<(String, String)> = env.iter().map(|(k, v)| (k.clone(), w.place.sub(v))).collect();
    let mut t = Tty::new(&w.place, &env)?;
    let prompt = |s: &Screen, n: u32| s.prompts > n && s.text.ends_with(' ');
    if !t.until(limit, none, &|s| prompt(s, 0)) { return Err(format!("no prompt: {:?}", t.scr.text)) }
    let sh = t.pid;
    let group = stat(sh).map_or(0, |x| x.3);
    let mut jobs: Vec<Job> = vec![];
    let mut doomed: Vec<i32> = vec![]; // stopped, with the interrupt key waiting for them
    let gone = |doomed: &Vec<i32>, pids: &[i32]| pids.iter().all(|p| !doomed.contains(p) || wait(limit, &|| state(*p) == St::Gone));
    let mut fg: Option<usize> = None; let mut rest: Vec<&str> = vec![]; // what the line still has to run
    let mut done = Done { states: 1, traces: 1, ..Done::default() };
    let job_state = |j: &Job| { let s: Vec<St> = j.pids.iter().map(|p| state(*p)).collect(); if s.contains(&St::Run) { St::Run } else if s.contains(&St::Stop) { St::Stop } else { St::Gone } };
    // start the processes of a pipeline: they appear with the names they have
    let started = |known: &mut Vec<i32>, names: &[String]| -> Result<Vec<i32>, String> {
        let mut got = vec![];
        let ok = wait(limit, &|| { let v: Vec<_> = look().into_iter().filter(|x| x.1 == sh && !known.contains(&x.0) && x.4.starts_with("job")).collect(); v.len() == names.len() });
        for x in look() { if x.1 == sh && !known.contains(&x.0) && x.4.starts_with("job") { got.push((x.0, x.4)) } }
        got.sort();
        if got.len() > 1 && got[got.len() - 1].0 - got[0].0 > 16000 { got.sort_by_key(|g| (g.0 < 16000, g.0)) } // the numbers start again
        known.extend(got.iter().map(|g| g.0));
        if !ok || got.iter().map(|g| &g.1).ne(names.iter()) { return Err(format!("processes {:?} run instead of {:?}", got, names)) }
        // past the start of the program: it waits for signals
        std::thread::sleep(Duration::from_micros(1500));
        Ok(got.into_iter().map(|g| g.0).collect())
    };
    let names = |s: &str| -> Vec<String> { s.trim_end_matches('&').split('|').map(|x| x.trim().to_string()).collect() };
    for (k, a) in h.iter().enumerate() {
        w.lines += 1;
        let p0 = t.scr.prompts;
        t.scr.text.clear();
        let at = |e: String| format!("after {:?}: {}", &h[..=k], e);
        match a.as_str() {
            "^C" | "^Z" => {
                let (key, want) = if a == "^C" { (3u8, St::Gone) } else { (26u8, St::Stop) };
                if fg.is_none() && key == 26 { return Ok(done) } // the line editor's business
                let Some(f) = fg else {
                    // at the prompt it ends the line that is being typed
                    t.send(b"out no"); t.send(&[key]);
                    if !t.until(limit, none, &|s| s.prompts > p0) { return Err(at("no prompt".into())) }
                    continue
                };
                if jobs[f].own { return Ok(done) } // in a group of its own, the key does not reach it
                let running: Vec<i32> = jobs.iter().flat_map(|j| j.pids.iter().copied()).filter(|p| state(*p) == St::Run).collect();
                if key == 3 { for j in &jobs { if !j.own { doomed.extend(j.pids.iter().filter(|p| state(**p) == St::Stop)) } } }
                t.send(&[key]);
                // it reaches every job in the group of the shell
                let pids: Vec<i32> = jobs.iter().filter(|j| !j.own).flat_map(|j| j.pids.iter().copied()).filter(|p| jobs[f].pids.contains(p) || running.contains(p)).collect();
                if !wait(limit, &|| pids.iter().all(|p| state(*p) == St::Gone || state(*p) == want)) { return Err(at(format!("the processes of the foreground job are {:?}", pids.iter().map(|p| state(*p)).collect::<Vec<_>>()))) }
            }
            "kill" => { // the first process of the foreground job, or of the newest job there is
                let Some(j) = fg.or_else(|| (0..jobs.len()).rev().find(|j| job_state(&jobs[*j]) != St::Gone)) else { return Ok(done) };
                let p = *jobs[j].pids.iter().find(|p| state(**p) != St::Gone).unwrap();
                unsafe { libc::kill(p, libc::SIGKILL); }
                if !wait(limit, &|| state(p) == St::Gone) { return Err(at("a killed process does not end".into())) }
            }
            "stop" | "cont" => { // from outside, the foreground job or the newest
                let Some(j) = fg.or_else(|| (0..jobs.len()).rev().find(|j| job_state(&jobs[*j]) != St::Gone)) else { return Ok(done) };
                let want = if a == "stop" { St::Stop } else { St::Run };
                let pids = jobs[j].pids.clone();
                for p in &pids { unsafe { libc::kill(*p, if a == "stop" { libc::SIGSTOP } else { libc::SIGCONT }); } }
                if !wait(limit, &|| pids.iter().all(|p| state(*p) == St::Gone || state(*p) == want)) { return Err(at("a process does not follow the signal".into())) }
                if a == "cont" && !gone(&doomed, &pids) { return Err(at("the interrupt key does not reach a job once it is continued".into())) }
            }
            _ if fg.is_some() => return Ok(done), // the shell does not read
            "fg" | "bg" => {
                let Some(j) = (0..jobs.len()).rev().find(|j| job_state(&jobs[*j]) != St::Gone) else { return Ok(done) };
                let alive = *jobs[j].pids.iter().find(|p| state(**p) != St::Gone).unwrap();
                t.send(format!("{} {}\r", a, alive).as_bytes());
                let pids = jobs[j].pids.clone();
                if !wait(limit, &|| pids.iter().all(|p| state(*p) != St::Stop)) { return Err(at("a process of the job is still stopped".into())) }
                if !gone(&doomed, &pids) { return Err(at("the interrupt key does not reach a job once it is continued".into())) }
                if a == "fg" { fg = Some(j); rest.clear() } else if !t.until(limit, none, &|s| prompt(s, p0)) { return Err(at(format!("no prompt: {:?}", t.scr.text))) }
            }
            "ok" => { t.send(b"ok\r"); if !t.until(limit, none, &|s| prompt(s, p0)) { return Err(at(format!("no prompt: {:?}", t.scr.text))) } }
            l => {
                t.send(format!("{}\r", l).as_bytes());
                let mut parts = l.split(" ; ");
                let first = parts.next().unwrap(); rest = parts.collect();
                let n = names(first);
                let pids = started(known, &n).map_err(at)?;
                let own = stat(pids[0]).map_or(false, |x| x.3 != group);
                if own != first.ends_with('&') { return Err(at(format!("the job is{} in the group of the shell", if own { " not" } else { "" }))) }
                jobs.push(Job { pids, names: n, own });
                if first.ends_with('&') { if !t.until(limit, none, &|s| prompt(s, p0)) { return Err(at(format!("no prompt after a background job: {:?}", t.scr.text))) } } else { fg = Some(jobs.len() - 1) }
            }
        }
        // the prompt is back exactly if the foreground job is over or stopped
        while let Some(f) = fg {
            if job_state(&jobs[f]) == St::Run {
                if t.until(brief, brief, &|s| s.prompts > p0) || t.scr.prompts > p0 { if job_state(&jobs[f]) == St::Run { return Err(at("the prompt is back although the foreground job runs".into())) } continue }
                break
            }
            fg = None;
            if !rest.is_empty() {
                let n = names(rest.remove(0));
                let pids = started(known, &n).map_err(at)?;
                jobs.push(Job { pids, names: n, own: false });
                fg = Some(jobs.len() - 1);
                continue
            }
            if !t.until(limit, none, &|s| prompt(s, p0)) { return Err(at(format!("the prompt does not come back: {:?}", t.scr.text))) }
        }
        done.outcome = done.outcome.wrapping_mul(31) + fg.is_some() as u64 + jobs.iter().map(|j| job_state(j) as u64 + 2).fold(0, |a, b| a * 7 + b);
    }
    // afterwards: the job table, what is left, and the next line
    let at = |e: String| format!("after {:?}: {}", h, e);
    let p0 = t.scr.prompts;
    if let Some(f) = fg {
        for p in &jobs[f].pids { unsafe { libc::kill(*p, libc::SIGKILL); } }
        if !rest.is_empty() { let n = names(rest[0]); for p in started(known, &n).map_err(at)? { unsafe { libc::kill(p, libc::SIGKILL); } } }
        if !t.until(limit, none, &|s| prompt(s, p0)) { return Err(at(format!("the prompt does not come back when the job is killed: {:?}", t.scr.text))) }
    }
    let p0 = t.scr.prompts;
    t.scr.text.clear();
    t.send(b"jobs\r");
    if !t.until(limit, none, &|s| prompt(s, p0)) { return Err(at(format!("no prompt after jobs: {:?}", t.scr.text))) }
    let mut shown: Vec<(String, Vec<String>)> = parse_jobs(&t.scr.text).into_iter().map(|j| (j.1, j.2)).collect();
    let mut want: Vec<(String, Vec<String>)> = jobs.iter().filter_map(|j| match job_state(j) { St::Gone => None, St::Run => Some(("Running".to_string(), j.names.clone())), St::Stop => Some(("Stopped".into(), j.names.clone())) }).collect();
    shown.sort(); want.sort();
    if shown != want { return Err(at(format!("jobs shows {:?}; in truth there are {:?}", t.scr.text, want))) }
    if let Some(z) = look().into_iter().find(|x| x.1 == sh && x.2 == 'Z') { return Err(at(format!("process {} ({}) was not collected", z.0, z.4))) }
    let p0 = t.scr.prompts;
    t.scr.text.clear();
    t.send(b"out still here\r");
    if !t.until(limit, none, &|s| prompt(s, p0)) || !t.scr.text.contains("\nstill here\n") && !t.scr.text.contains("still here\n$") { return Err(at(format!("the next line does not run: {:?}", t.scr.text))) }
    if t.scr.text.contains("panicked") { return Err(at("the shell panicked".into())) }
    drop(t);
    Ok(done)
}
pub fn c13(cx: &Ctx, th: bool, only: Option<&str>) {
    if only.map_or(false, |o| o != NAME) || cx.done() { return }
    // histories in which every action makes sense, by what the shell is doing
    let mut v: Vec<Vec<String>> = vec![];
    let depth = if th { 6 } else { 4 };
    fn grow(v: &mut Vec<Vec<String>>, h: &mut Vec<String>, fg: bool, own: bool, live: usize, two: bool, depth: usize, th: bool) {
        if h.len() == depth { v.push(h.clone()); return }
        let mut some = false;
        for a in ACTS {
            let (f, o, l, t) = match (*a, fg) {
                ("^C", true) => if own { continue } else { (two, false, live - 1 + two as usize, false) },
                ("^Z", true) => if own { continue } else { (two, false, live + two as usize, false) },
                ("stop", true) => (two, false, live, false),
                ("stop", false) => { if live == 0 || h.last().map_or(true, |x| x == "stop" || x == "^Z") { continue } (false, own, live, false) }
                ("cont", false) => { if live == 0 || h.last().map_or(true, |x| x == "cont" || x == "bg") { continue } (false, own, live, false) }
                ("kill", true) => (fg, own, live, two), // for one process it ends, for two it may not
                (_, true) => continue,
                ("^C", false) => { if h.last().map_or(true, |x| x != "^Z") { continue } (false, false, live, false) }
                ("^Z", false) => continue,
                ("kill", false) => { if live == 0 { continue } (false, false, live, false) }
                ("fg", false) => { if live == 0 { continue } (true, own, live, false) }
                ("bg", false) => { if live == 0 { continue } (false, own, live, false) }
                ("ok", false) => { if live == 0 || h.last().map_or(true, |x| x == "ok") { continue } (false, own, live, false) }
                ("job1 &", false) => { if live > 1 { continue } (false, true, live + 1, false) }
                ("job1 ; job2", false) => { if live > 1 || (!th && live > 0) { continue } (true, false, live + 1, true) }
                (_, false) => { if live > 1 { continue } (true, false, live + 1, false) }
            };
            some = true;
            h.push(a.to_string()); grow(v, h, f, o, l, t, depth, th); h.pop();
        }
        if !some { v.push(h.clone()) }
    }
    grow(&mut v, &mut vec![], false, false, 0, false, depth, th);
    par(cx, NAME, &Cfg::default(), &v, &|w, h| run(w, h), &|h| (h.iter().map(|l| Item::from(l.clone())).collect(), NAME.into()));
}
