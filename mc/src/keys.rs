//! Keys at a terminal: what is typed, edited, dropped and recalled in every order,
//! with signals and ends of jobs in between, on the shell as it is.
use crate::complete::{Screen, Tty};
use crate::explore::*;
use crate::jobs::parse_jobs;
use crate::model::*;
use crate::modes::{par, Done};
use crate::parse::brackets;
use crate::run::*;
use crate::term::{look, stat, wait};
use std::time::Duration;

pub const NAME: &str = "keys at a terminal";
/// The line editor, as far as these keys use it
#[derive(Default)]
struct Ed { buf: Vec<char>, at: usize, hist: Vec<String>, pos: usize, saved: (Vec<char>, usize) }
impl Ed {
    fn text(&self) -> String { self.buf.iter().collect() }
    fn clear(&mut self) { self.buf.clear(); self.at = 0; self.pos = self.hist.len(); self.saved = Default::default() }
    fn add(&mut self, s: &str) { for c in s.chars() { self.buf.insert(self.at, c); self.at += 1 } }
    fn put(&mut self, s: Vec<char>, at: usize) { self.buf = s; self.at = at }
    fn done(&mut self) { let t = self.text(); if !t.is_empty() && self.hist.last() != Some(&t) { self.hist.push(t) } self.clear() }
    /// up and down in the lines of the buffer are left alone: false
    fn up(&mut self) -> bool {
        if self.buf[..self.at].contains(&'\n') { return false }
        if self.hist.is_empty() || self.pos == 0 { return true }
        if self.pos == self.hist.len() { self.saved = (self.buf.clone(), self.at) }
        self.pos -= 1;
        let t: Vec<char> = self.hist[self.pos].chars().collect(); let n = t.len(); self.put(t, n);
        true
    }
    fn down(&mut self) -> bool {
        if self.buf[self.at..].contains(&'\n') { return false }
        if self.pos == self.hist.len() { return true }
        self.pos += 1;
        if self.pos < self.hist.len() { let t: Vec<char> = self.hist[self.pos].chars().collect(); let n = t.len(); self.put(t, n) } else { let (t, n) = std::mem::take(&mut self.saved); self.put(t, n) }
        true
    }
}
pub fn cfg() -> Cfg { Cfg { setup: vec![], files: vec![("L".into(), "".into())], ..Cfg::default() } }

pub fn run(w: &mut Worker, h: &[String]) -> Result<Done, String> {
    let mut pids = vec![];
    let r = history(w, h, &mut pids);
    for p in pids { unsafe { libc::kill(p, libc::SIGKILL); } }
    r
}
fn history(w: &mut Worker, h: &[String], known: &mut Vec<i32>) -> Result<Done, String> {
    let limit = w.timeout() / 2; let none = Duration::ZERO;
    let init = w.initial_files(); w.restore(&init);
    let mut env = w.env(); env.retain(|e| e.0 != "TERM"); env.push(("TERM".into(), "xterm".into())); env.push(("MCJOB".into(), "1".into()));
    let real: Vec<(String, String)> = env.iter().map(|(k, v)| (k.clone(), w.place.sub(v))).collect();
    let mut m = Model::new(&env, "@/work"); let mut fs = w.fs();
    let mut t = Tty::new(&w.place, &real)?;
    if !t.until(limit, none, &|s| s.prompts > 0 && s.text.ends_with(' ')) { return Err(format!("no prompt: {:?}", t.scr.text)) }
    let sh = t.pid;
    let mut ed = Ed::default();
    let mut jobs: Vec<(i32, char)> = vec![];
    let mut done = Done { states: 1, traces: 1, ..Done::default() };
    // at the end: the next line, the jobs, the end of the input; or at once the end with the status of the last command
    let tail: Vec<String> = if h.iter().any(|k| k == "no") { &["^C", "^D"][..] } else { &["^C", "out end >>L", "\r", "jobs", "\r", "^D"] }.iter().map(|s| s.to_string()).collect();
    for (k, a) in h.iter().chain(&tail).enumerate() {
        let at = |e: String| format!("after {:?}: {}", if k < h.len() { &h[..=k] } else { h }, e);
        let p0 = t.scr.prompts;
        let prompt = |s: &Screen| s.prompts > p0 && s.text.ends_with(' ');
        w.lines += 1;
        match a.as_str() {
            "\r" => {
                let text = ed.text();
                match brackets(&text) {
                    0 => {}
                    n if n > 0 => { t.send(b"\r"); ed.add("\n"); continue } // the line goes on
                    _ => { t.send(b"\r"); continue } // it is not accepted
                }
                t.scr.text.clear();
                t.send(b"\r");
                let mut wd = World { fs: fs.clone(), ..World::default() };
                let ended = if text.is_empty() { None } else { m.unit(&mut wd, &text) };
                if let Some(o) = wd.open { if !wd.bg { done.open = Some(o); return Ok(done) } }
                if ended.is_some() { return Err("a plan must not end the shell".into()) }
                if !t.until(limit, none, &prompt) { return Err(at(format!("no prompt{}: {:?}", if t.dead { ", the shell is gone" } else { "" }, t.scr.text))) }
                if wd.bg {
                    let had = known.clone();
                    if !wait(limit, &|| look().iter().any(|x| x.1 == sh && !had.contains(&x.0) && x.4 == "job1")) { return Err(at("the background job does not run".into())) }
                    for x in look() { if x.1 == sh && !known.contains(&x.0) && x.4 == "job1" { known.push(x.0); jobs.push((x.0, 'R')) } }
                }
                fs = wd.fs;
                let disk = w.scan();
                if disk != fs.files { let p = "@/work/L".to_string(); return Err(at(format!("the line {:?} leaves {:?} in L instead of {:?}", text, disk.get(&p).map(|b| String::from_utf8_lossy(b)), fs.files.get(&p).map(|b| String::from_utf8_lossy(b))))) }
                ed.done();
                if text == "jobs" {
                    let mut shown: Vec<(String, Vec<String>)> = parse_jobs(&t.scr.text).into_iter().map(|j| (j.1, j.2)).collect();
                    let mut want: Vec<(String, Vec<String>)> = jobs.iter().filter(|j| j.1 != 'X').map(|j| ((if j.1 == 'R' { "Running" } else { "Stopped" }).to_string(), vec!["job1".to_string()])).collect();
                    shown.sort(); want.sort();
                    if shown != want { return Err(at(format!("jobs shows {:?}; in truth there are {:?}", t.scr.text, want))) }
                    if let Some(z) = look().into_iter().find(|x| x.1 == sh && x.2 == 'Z') { return Err(at(format!("process {} ({}) was not collected", z.0, z.4))) }
                }
            }
            "^C" => { t.scr.text.clear(); t.send(&[3]); ed.clear(); if !t.until(limit, none, &prompt) { return Err(at(format!("no prompt after an interrupt{}: {:?}", if t.dead { ", the shell is gone" } else { "" }, t.scr.text))) } }
            "^D" => {
                t.send(&[4]);
                if !ed.buf.is_empty() { if ed.at < ed.buf.len() { ed.buf.remove(ed.at); } continue }
                let Some(st) = t.end(limit) else { return Err(at("the shell does not end at the end of its input".into())) };
                if !m.status.admits(st) { return Err(at(format!("the shell ends with status {} instead of {:?}", st, m.status))) }
                break
            }
            "Up" => { t.send(b"\x1b[A"); if !ed.up() { done.open = Some("moving within a line of several"); return Ok(done) } }
            "Down" => { t.send(b"\x1b[B"); if !ed.down() { done.open = Some("moving within a line of several"); return Ok(done) } }
            "Left" => { t.send(b"\x1b[D"); ed.at = ed.at.saturating_sub(1) }
            "Home" => { t.send(&[1]); while ed.at > 0 && ed.buf[ed.at - 1] != '\n' { ed.at -= 1 } }
            "BS" => { t.send(&[127]); if ed.at > 0 { ed.at -= 1; ed.buf.remove(ed.at); } }
            "^K" => { t.send(&[11]); if ed.buf.contains(&'\n') { done.open = Some("cutting within a line of several"); return Ok(done) } ed.buf.truncate(ed.at) }
            "INT" | "CHLD" => { std::thread::sleep(Duration::from_millis(2)); unsafe { libc::kill(sh, if a == "INT" { libc::SIGINT } else { libc::SIGCHLD }); } std::thread::sleep(Duration::from_millis(2)) }
            "KILL" | "STOP" | "CONT" => {
                let Some(j) = (0..jobs.len()).rev().find(|j| jobs[*j].1 != 'X') else { continue };
                let (p, sig, c) = match a.as_str() { "KILL" => (jobs[j].0, libc::SIGKILL, 'X'), "STOP" => (jobs[j].0, libc::SIGSTOP, 'S'), _ => (jobs[j].0, libc::SIGCONT, 'R') };
                unsafe { libc::kill(p, sig); }
                let is = |c: char| stat(p).map_or('X', |x| match x.2 { 'Z' | 'X' => 'X', 'T' | 't' => 'S', _ => 'R' }) == c;
                if !wait(limit, &|| is(c)) { return Err(at("a process does not follow the signal".into())) }
                jobs[j].1 = c;
            }
            s => { t.send(s.as_bytes()); ed.add(s) }
        }
        if t.dead { return Err(at(format!("the shell is gone: {:?}", t.scr.text))) }
        done.outcome = done.outcome.wrapping_mul(31) + fs.files.get("@/work/L").map_or(0, |b| b.len() as u64) * 7 + jobs.iter().map(|j| j.1 as u64).sum::<u64>();
    }
    if t.scr.text.contains("panicked") { return Err(format!("after {:?}: the shell panicked", h)) }
    Ok(done)
}
/// The sequences in which every key makes sense.
fn grow(v: &mut Vec<Vec<String>>, h: &mut Vec<String>, keys: &[&str], depth: usize) {
    if h.len() == depth { v.push(h.clone()); return }
    // what is known without running anything: is something typed, is there a line to recall, a job
    let (mut typed, mut hist, mut jobs, mut up) = (false, false, 0i32, 0i32);
    for k in h.iter() { match k.as_str() { "\r" => { if typed { hist = true } typed = false; up = 0 } "^C" => { typed = false; up = 0 } "Up" => { typed = true; up += 1 } "Down" => up -= 1, "KILL" => jobs -= 1, "job1 &" => { jobs += 1; typed = true } "INT" | "CHLD" | "STOP" | "CONT" | "Left" | "Home" | "BS" | "^K" | "^D" => {} _ => typed = true } }
    let last: String = h.last().cloned().unwrap_or_default();
    let last = last.as_str();
    let mut some = false;
    for k in keys {
        let ok = match *k {
            "BS" | "Home" | "^K" | "Left" => typed && !(last == *k && *k != "BS"),
            "Up" => hist, "Down" => up > 0,
            "\r" => typed || last.is_empty() || last == "INT" || (last == "\r" && h.len() > 1 && h[h.len() - 2] != "\r"),
            "^D" => typed, // the end comes at the end
            "KILL" => jobs > 0, "STOP" => jobs > 0 && last != "STOP", "CONT" => h.iter().any(|x| x == "STOP") && last != "CONT",
            "job1 &" => !typed && jobs < 2,
            s if s.starts_with(' ') => typed && last != s,
            s if s.len() > 3 && s != "^C" && s != "INT" && s != "CHLD" => last != s,
            _ => true,
        };
        if !ok || (last == "job1 &" && *k != "\r") { continue }
        some = true;
        h.push(k.to_string()); grow(v, h, keys, depth); h.pop();
    }
    if !some { v.push(h.clone()) }
}
pub fn plan(cx: &Ctx, prop: &str, th: bool, only: Option<&str>) {
    if only.map_or(false, |o| o != NAME) || cx.done() { return }
    let mut v = vec![];
    let mut sets: Vec<(&[&str], usize)> = vec![];
    if prop == "C11" {
        sets.push((&["out a >>L", " ; out b >>L", "\r", "^C", "^D", "Up", "Down", "BS", "Home", "^K"], if th { 6 } else { 5 }));
        sets.push((&["f() {", " out f >>L ; } ; f", "out )", "\r", "^C", "Up", "^D"], if th { 7 } else { 5 }));
        sets.push((&["no", "out ;;", "'", " x", "\r", "^C", "Up", "Left"], if th { 6 } else { 5 }));
    } else {
        sets.push((&["out a >>L", "\r", "^C", "INT", "CHLD", "job1 &", "KILL", "STOP", "CONT"], if th { 6 } else { 5 }));
        sets.push((&["f() {", " out f >>L ; } ; f", "\r", "^C", "INT", "Up"], if th { 7 } else { 5 }));
    }
    for (keys, depth) in sets { grow(&mut v, &mut vec![], keys, depth) }
    par(cx, NAME, &cfg(), &v, &|w, h| run(w, h), &|h| (h.iter().map(|l| Item::from(l.clone())).collect(), NAME.into()));
}
