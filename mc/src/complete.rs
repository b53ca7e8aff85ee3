//! C22: completion, on the shell as it is behind a pseudo-terminal.
use crate::ctl::*;
use crate::explore::*;
use crate::modes::{par, Done};
use crate::run::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::os::unix::ffi::OsStrExt;
use std::time::{Duration, Instant};

/// A terminal: what the shell writes moves a cursor over a grid.
pub struct Screen { rows: usize, cols: usize, grid: Vec<Vec<char>>, r: usize, c: usize, alt: bool, bells: u32, pub prompts: u32, pub text: String, pend: Vec<u8>, ask: bool }
impl Screen {
    fn new(rows: usize, cols: usize) -> Screen { Screen { rows, cols, grid: vec![vec![' '; cols]; rows], r: 0, c: 0, alt: false, bells: 0, prompts: 0, text: String::new(), pend: vec![], ask: false } }
    fn feed(&mut self, b: &[u8]) {
        self.pend.extend_from_slice(b);
        let p = std::mem::take(&mut self.pend);
        let mut i = 0;
        while i < p.len() {
            match p[i] {
                0x1b => {
                    if i + 1 >= p.len() { break }
                    if p[i + 1] == b'[' {
                        let Some(e) = (i + 2..p.len()).find(|&k| (0x40..0x7f).contains(&p[k])) else { break };
                        self.csi(&String::from_utf8_lossy(&p[i + 2..e]), p[e]);
                        i = e + 1;
                    } else if p[i + 1] == b'(' { if i + 2 >= p.len() { break } i += 3 } else { i += 2 }
                }
                b'\r' => { self.c = 0; i += 1 }
                b'\n' => { self.r = (self.r + 1).min(self.rows - 1); if !self.alt { self.text.push('\n') } i += 1 }
                8 => { self.c = self.c.saturating_sub(1); i += 1 }
                7 => { self.bells += 1; i += 1 }
                c if c < 0x20 || c == 0x7f => i += 1,
                c => {
                    let n = if c < 0x80 { 1 } else if c >= 0xf0 { 4 } else if c >= 0xe0 { 3 } else { 2 };
                    if i + n > p.len() { break }
                    let ch = std::str::from_utf8(&p[i..i + n]).ok().and_then(|s| s.chars().next()).unwrap_or('\u{fffd}');
                    if self.c < self.cols { self.grid[self.r][self.c] = ch; self.c += 1 }
                    if !self.alt { self.text.push(ch) }
                    i += n;
                }
            }
        }
        self.pend = p[i..].to_vec();
    }
    fn csi(&mut self, a: &str, f: u8) {
        let n = |k: usize, d: usize| a.split(';').nth(k).and_then(|x| x.parse::<usize>().ok()).unwrap_or(d);
        match f {
            b'H' => { self.r = n(0, 1).max(1).min(self.rows) - 1; self.c = n(1, 1).max(1).min(self.cols) - 1 }
            b'C' => self.c = (self.c + n(0, 1)).min(self.cols - 1),
            b'D' => self.c = self.c.saturating_sub(n(0, 1)),
            b'A' => self.r = self.r.saturating_sub(n(0, 1)),
            b'B' => self.r = (self.r + n(0, 1)).min(self.rows - 1),
            b'K' => { let c = self.c; for x in &mut self.grid[self.r][c..] { *x = ' ' } }
            b'J' => { let (r, c) = (self.r, self.c); for x in &mut self.grid[r][c..] { *x = ' ' } for l in &mut self.grid[r + 1..] { l.fill(' ') } }
            b'h' if a == "?1049" => { self.alt = true; for l in &mut self.grid { l.fill(' ') } }
            b'l' if a == "?1049" => { self.alt = false; for l in &mut self.grid { l.fill(' ') } }
            b'h' if a == "?2004" => self.prompts += 1,
            b'n' if a == "6" => self.ask = true,
            _ => {}
        }
    }
    fn line(&self, r: usize) -> String { self.grid[r].iter().collect::<String>().trim_end().to_string() }
    /// the names offered, and how many the finder says there are; the row of the marked one
    fn offered(&self) -> Option<(Vec<String>, usize, Option<usize>)> {
        if !self.alt { return None }
        let st = self.line(1);
        let total = st.split_whitespace().find_map(|w| w.split_once('/').and_then(|(a, b)| if a == b { b.parse::<usize>().ok() } else { None }))?;
        let mut v = vec![]; let mut cur = None;
        for r in 2..self.rows { let l: String = self.grid[r].iter().skip(2).collect::<String>().trim_end().to_string(); if self.grid[r][0] == '>' { cur = Some(v.len()) } if !l.is_empty() { v.push(l) } }
        Some((v, total, cur))
    }
}
/// The shell at a terminal, in a group of its own under a session leader, as it would be
pub struct Tty { fd: i32, leader: i32, pub pid: i32, pub scr: Screen, pub dead: bool }
impl Tty {
    pub fn new(place: &Place, env: &[(String, String)]) -> Result<Tty, String> {
        use std::os::unix::process::CommandExt;
        let (mut m, mut s) = (0, 0);
        let ws = libc::winsize { ws_row: 60, ws_col: 220, ws_xpixel: 0, ws_ypixel: 0 };
        if unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws) } != 0 { return Err("no pseudo-terminal".into()) }
        unsafe { libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC); libc::fchown(s, UID, UID); }
        let mut c = std::process::Command::new(place.base.join("rsh"));
        c.env_clear(); for (k, v) in env { c.env(k, v); }
        c.current_dir(place.sub("@/work"));
        unsafe { c.pre_exec(move || {
            libc::setsid(); libc::ioctl(s, libc::TIOCSCTTY, 0);
            libc::syscall(libc::SYS_close_range, 3u32, 4096u32, 4u32);
            libc::dup2(s, 0); libc::dup2(s, 1); libc::dup2(s, 2);
            libc::signal(libc::SIGTTOU, libc::SIG_IGN);
            let shell = libc::fork();
            if shell > 0 { // the leader: it only waits
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::setpgid(shell, shell); libc::tcsetpgrp(0, shell);
                libc::syscall(libc::SYS_close_range, 0u32, !0u32, 0u32);
                let mut st = 0;
                while libc::waitpid(shell, &mut st, 0) != shell {}
                libc::_exit(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 128 + libc::WTERMSIG(st) })
            }
            libc::setpgid(0, 0); libc::tcsetpgrp(0, libc::getpid());
            libc::signal(libc::SIGTTOU, libc::SIG_DFL);
            libc::setgroups(0, std::ptr::null()); libc::setgid(UID); libc::setuid(UID);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        }); }
        let child = c.spawn().map_err(|e| e.to_string())?;
        unsafe { libc::close(s); }
        let leader = child.id() as i32;
        let pid = std::fs::read_to_string(format!("/proc/{}/task/{}/children", leader, leader)).ok().and_then(|t| t.split_whitespace().next().and_then(|p| p.parse().ok()));
        let Some(pid) = pid else { unsafe { libc::kill(leader, 9); libc::close(m); let mut s = 0; libc::waitpid(leader, &mut s, 0); } return Err("the shell did not start".into()) };
        Ok(Tty { fd: m, leader, pid, scr: Screen::new(60, 220), dead: false })
    }
    /// The status with which the shell ends, if it does in time
    pub fn end(&mut self, limit: Duration) -> Option<i32> {
        let end = Instant::now() + limit;
        loop {
            let mut si: libc::siginfo_t = unsafe { std::mem::zeroed() };
            let r = unsafe { libc::waitid(libc::P_PID, self.leader as u32, &mut si, libc::WEXITED | libc::WNOHANG | libc::WNOWAIT) };
            if r == 0 && unsafe { si.si_pid() } == self.leader { self.dead = true; return Some(unsafe { si.si_status() }) }
            if Instant::now() > end { return None }
            self.until(Duration::from_millis(2), Duration::ZERO, &|_| false);
            if self.dead { std::thread::sleep(Duration::from_millis(1)) }
        }
    }
    pub fn send(&mut self, b: &[u8]) { let mut o = 0; while o < b.len() { let n = unsafe { libc::write(self.fd, b[o..].as_ptr() as *const _, b.len() - o) }; if n <= 0 { self.dead = true; return } o += n as usize } }
    /// read until the condition holds for a while; false if it does not in time
    pub fn until(&mut self, limit: Duration, settle: Duration, f: &dyn Fn(&Screen) -> bool) -> bool {
        let end = Instant::now() + limit; let mut since: Option<Instant> = None;
        loop {
            if f(&self.scr) { if since.is_none() { since = Some(Instant::now()) } } else { since = None }
            if let Some(t) = since { if t.elapsed() >= settle { return true } }
            if Instant::now() > end || self.dead { return since.is_some() }
            let mut p = libc::pollfd { fd: self.fd, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 5) } > 0 {
                let mut b = [0u8; 65536];
                let n = unsafe { libc::read(self.fd, b.as_mut_ptr() as *mut _, b.len()) };
                if n <= 0 { self.dead = true } else { self.scr.feed(&b[..n as usize]); if self.scr.ask { self.scr.ask = false; self.send(b"\x1b[1;1R") } }
            }
        }
    }
}
impl Drop for Tty { fn drop(&mut self) { unsafe { libc::kill(-self.pid, 9); libc::kill(self.pid, 9); libc::close(self.fd); let mut s = 0; libc::waitpid(self.leader, &mut s, 0); } } }

/// What the directories hold ('!' before a name: a directory, '^': not executable, '<': a link to nothing, '>': a link to a directory, '&': a link to a program, '|': a pipe, '%xx' a byte), the value of PATH, the text typed, and what is done then
#[derive(Clone, Debug, PartialEq)]
pub enum Act { List, Abort, Pick(usize) }
#[derive(Clone, Debug)]
pub struct Case { pub dirs: Vec<Vec<String>>, pub path: Option<String>, pub typed: String, pub act: Act, pub rest: String, /** the PATH the shell starts with and the lines typed before, if any; `path` is what they make of it */ pub pre: Option<(Option<String>, Vec<String>)> }
const SUFFIX: &[&str] = &[".", "..", " ", "é", "~", "*", "$x", "'", "\\", "-", "%41", "#"];
impl Case {
    fn extra(&self) -> String { format!("{}\u{1f}{}\u{1f}{}\u{1f}{}\u{1f}{}{}", self.dirs.iter().map(|d| d.join("\u{1e}")).collect::<Vec<_>>().join("\u{1d}"), self.path.as_deref().unwrap_or("\u{1c}"), self.typed, match self.act { Act::List => "l".to_string(), Act::Abort => "a".into(), Act::Pick(k) => k.to_string() }, self.rest, self.pre.as_ref().map_or(String::new(), |(p, l)| format!("\u{1f}{}\u{1f}{}", p.as_deref().unwrap_or("\u{1c}"), l.join("\u{1e}")))) }
    pub fn parse(x: &str) -> Option<Case> {
        let p: Vec<&str> = x.split('\u{1f}').collect();
        if p.len() != 5 && p.len() != 7 { return None }
        let path = |s: &str| if s == "\u{1c}" { None } else { Some(s.to_string()) };
        Some(Case { dirs: p[0].split('\u{1d}').map(|d| d.split('\u{1e}').filter(|s| !s.is_empty()).map(String::from).collect()).collect(), path: path(p[1]), typed: p[2].into(), act: match p[3] { "l" => Act::List, "a" => Act::Abort, k => Act::Pick(k.parse().ok()?) }, rest: p[4].into(), pre: if p.len() == 7 { Some((path(p[5]), p[6].split('\u{1e}').map(String::from).collect())) } else { None } })
    }
    fn show(&self) -> String { format!("{}PATH {:?} with {:?}: {:?} Tab {:?}{}", self.pre.as_ref().map_or(String::new(), |(p, l)| format!("PATH {:?}, {:?}, so ", p, l)), self.path, self.dirs, self.typed, self.act, if self.rest.is_empty() { String::new() } else { format!(" then {:?}", self.rest) }) }
}
fn bytes(n: &str) -> Vec<u8> {
    let b = n.as_bytes(); let mut v = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'%' && i + 3 <= b.len() { if let Ok(x) = u8::from_str_radix(&n[i + 1..i + 3], 16) { v.push(x); i += 3; continue } } v.push(b[i]); i += 1 }
    v
}
fn kind(n: &str) -> (char, &str) { match n.chars().next() { Some('!') => ('!', &n[1..]), Some(k @ ('^' | '<' | '>' | '|' | '&')) => (k, &n[1..]), _ => ('x', n) } }

pub struct State { tty: Option<Tty>, path: Option<Option<String>>, dirs: Vec<Vec<String>>, used: u32 }
thread_local! { static ST: RefCell<State> = const { RefCell::new(State { tty: None, path: None, dirs: vec![], used: 0 }) } }

fn fill(w: &Worker, dirs: &[Vec<String>]) {
    use std::os::unix::fs::PermissionsExt;
    for (k, d) in dirs.iter().enumerate() {
        let p = w.place.base.join(format!("p{}", k));
        let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
        let _ = std::fs::remove_dir_all(&p); let _ = std::fs::remove_file(&p);
        for s in SUFFIX { let l = w.place.base.join(format!("p{}{}", k, s)); if std::fs::symlink_metadata(&l).is_err() { let _ = std::os::unix::fs::symlink(format!("p{}", k), &l); } }
        if d.iter().any(|n| n == "?missing") { continue }
        if d.iter().any(|n| n == "?file") { std::fs::write(&p, b"").unwrap(); continue }
        std::fs::create_dir(&p).unwrap();
        for n in d {
            if n.starts_with('?') { continue }
            let (k, n) = kind(n);
            let f = p.join(std::ffi::OsStr::from_bytes(&bytes(n)));
            if k == '!' { std::fs::create_dir(&f).unwrap(); continue }
            match k {
                '<' => { std::os::unix::fs::symlink("nothing", &f).unwrap(); continue }
                '>' => { std::os::unix::fs::symlink("..", &f).unwrap(); continue }
                '&' => { std::os::unix::fs::symlink("/bin/true", &f).unwrap(); continue }
                '|' => { let c = std::ffi::CString::new(f.as_os_str().as_bytes()).unwrap(); unsafe { libc::mkfifo(c.as_ptr(), 0o644) }; continue }
                _ => {}
            }
            std::fs::write(&f, b"#!/bin/sh\nfor a in \"$0\" \"$@\"; do printf '<%s>' \"$a\"; done; echo\n").unwrap();
            if k == 'x' { std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap(); }
        }
        if d.iter().any(|n| n == "?closed") { std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o000)).unwrap(); }
    }
}
/// Which directory an entry of PATH names
fn dirno(d: &str) -> Option<usize> {
    let d = ["@/p", "../p", "@//p", "@/./p", "@/p0/../p"].iter().rev().find_map(|x| d.strip_prefix(x))?;
    let n = d.find(|c: char| !c.is_ascii_digit()).unwrap_or(d.len());
    let r = &d[n..];
    let r = SUFFIX.iter().rev().find_map(|s| r.strip_prefix(s).filter(|r| r.is_empty() || r.starts_with('/'))).unwrap_or(r);
    if !["", "/", "//", "/.", "/./"].contains(&r) { return None }
    d[..n].parse().ok()
}
/// The specification: every name in a directory of PATH that begins with the text, once.
fn matching(c: &Case) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    let Some(p) = &c.path else { return v };
    for d in p.split(':') {
        let Some(k) = dirno(d).filter(|k| *k < c.dirs.len()) else { continue };
        if c.dirs[k].iter().any(|n| ["?missing", "?file", "?closed"].contains(&n.as_str())) { continue }
        for n in &c.dirs[k] { if n.starts_with('?') { continue } if let Ok(n) = String::from_utf8(bytes(kind(n).1)) { if n.starts_with(&c.typed) { v.insert(n); } } }
    }
    v
}
pub fn run(w: &mut Worker, c: &Case) -> Result<Done, String> {
    ST.with(|st| {
        let st = &mut *st.borrow_mut();
        if st.dirs != c.dirs { fill(w, &c.dirs); st.dirs = c.dirs.clone(); }
        if c.pre.is_some() || st.path.as_ref() != Some(&c.path) || st.used > 60 || w.slow > 1 { st.tty = None }
        let r = one(w, st, c);
        if r.is_err() || c.pre.is_some() { st.tty = None }
        r
    })
}
fn one(w: &mut Worker, st: &mut State, c: &Case) -> Result<Done, String> {
    let limit = w.timeout() / 2; let none = Duration::ZERO;
    if st.tty.is_none() {
        let mut env: Vec<(String, String)> = [("HOME", "@/home"), ("TERM", "xterm"), ("RUST_BACKTRACE", "0")].iter().map(|(a, b)| (a.to_string(), w.place.sub(b))).collect();
        if let Some(p) = c.pre.as_ref().map_or(&c.path, |p| &p.0) { env.push(("PATH".into(), w.place.sub(p))) }
        let mut t = Tty::new(&w.place, &env)?;
        if !t.until(limit, none, &|s| s.prompts > 0 && s.text.ends_with(" ")) { return Err(format!("no prompt: {:?}", t.scr.text)) }
        for l in c.pre.iter().flat_map(|p| &p.1) {
            let n = t.scr.prompts; w.lines += 1;
            t.send(w.place.sub(l).as_bytes()); t.send(b"\r");
            if !t.until(limit, Duration::from_millis(2), &|s| s.prompts > n && s.text.ends_with(" ")) { return Err(format!("no prompt after {:?}: {:?}", l, t.scr.text)) }
        }
        st.tty = Some(t); st.path = Some(c.path.clone()); st.used = 0;
    }
    st.used += 1; w.lines += 1;
    let t = st.tty.as_mut().unwrap();
    let want = matching(c);
    let (b0, p0) = (t.scr.bells, t.scr.prompts);
    t.send(c.typed.as_bytes()); t.send(b"\t");
    let mut line = c.typed.clone();
    if want.is_empty() {
        if !t.until(limit, Duration::from_millis(15), &|s| s.bells > b0 && !s.alt) { return Err(if t.dead { "the shell is gone".into() } else { format!("nothing begins with {:?}, but {:?} is shown", c.typed, t.scr.offered().map(|o| o.0)) }) }
    } else {
        let set = |s: &Screen| s.offered().map(|(v, n, _)| (v.iter().cloned().collect::<BTreeSet<_>>(), v.len(), n));
        let full = Some((want.clone(), want.len(), want.len()));
        if !t.until(limit, Duration::from_millis(25), &|s| set(s) == full) {
            if t.dead { return Err(format!("the shell is gone: {}", t.scr.text)) }
            let o = t.scr.offered();
            return Err(format!("{:?} is offered ({} entries) instead of {:?}", o.as_ref().map(|o| &o.0), o.as_ref().map_or(0, |o| o.1), want))
        }
        match c.act {
            Act::List | Act::Abort => t.send(b"\x07"),
            Act::Pick(k) => {
                for i in 0..k { let r = t.scr.offered().unwrap().2; t.send(b"\x1b[B"); if !t.until(limit, none, &|s| s.offered().map_or(false, |o| o.2 != r && o.2.is_some())) { return Err(format!("the mark does not move on from entry {}", i)) } }
                let (v, _, cur) = t.scr.offered().unwrap();
                let Some(n) = cur.and_then(|k| v.get(k)) else { return Err("no entry is marked".into()) };
                line = n.clone();
                t.send(b"\r");
            }
        }
        if !t.until(limit, Duration::from_millis(5), &|s| !s.alt && s.line(s.r).starts_with("$ ")) { return Err("the list does not go away".into()) }
    }
    if c.act == Act::List { t.send(b"\x15"); if !t.until(limit, none, &|s| !s.alt && s.line(s.r) == "$") { return Err("the line cannot be cleared".into()) } return Ok(Done { outcome: want.iter().flat_map(|s| s.bytes()).fold(7, |h, b| h * 31 + b as u64), states: 1, traces: 1, lines: 1, ..Done::default() }) }
    // what is run is the text on the line
    line += &c.rest;
    t.send(c.rest.as_bytes());
    t.scr.text.clear();
    t.send(b"\r");
    if !t.until(limit, Duration::from_millis(5), &|s| s.prompts > p0) { return Err(format!("no prompt after {:?}: {:?}", line, t.scr.text)) }
    let dirs: Vec<usize> = c.path.iter().flat_map(|p| p.split(':')).filter_map(|d| d.strip_prefix("@/p").and_then(|k| k.parse().ok())).collect();
    let expect = |line: &str| -> Vec<String> {
        let words: Vec<&str> = line.split(' ').filter(|s| !s.is_empty()).collect();
        let Some(w0) = words.first() else { return vec![] };
        dirs.iter().find(|k| c.dirs[**k].iter().any(|n| n == w0)).map(|k| format!("<{}>{}", w.place.sub(&format!("@/p{}/{}", k, w0)), words[1..].iter().map(|a| format!("<{}>", a)).collect::<String>())).into_iter().collect()
    };
    if line.chars().all(|c| c.is_alphanumeric() || c == ' ' || c == '_') {
        let ran = t.scr.text.split(['<', '\n']).skip(1).filter(|p| p.contains('>')).map(|p| format!("<{}", p.trim_end())).collect::<String>();
        // a list that is left without a choice may still insert the marked name
        let may: Vec<String> = if c.act == Act::Abort { want.iter().map(|n| expect(&(n.clone() + &c.rest)).concat()).chain([expect(&line).concat()]).collect() } else { vec![expect(&line).concat()] };
        if !may.contains(&ran) { return Err(format!("the line {:?} ran {:?} instead of {:?}: {:?}", line, ran, may, t.scr.text)) }
    }
    if t.scr.text.contains("panicked") { return Err(format!("the shell panicked: {}", t.scr.text)) }
    Ok(Done { outcome: line.bytes().fold(11, |h: u64, b| h.wrapping_mul(31) + b as u64), states: 1, traces: 1, lines: 2, ..Done::default() })
}

pub fn c22(cx: &Ctx, th: bool, only: Option<&str>) {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<String>>();
    let mut plans: Vec<(&str, Vec<Case>)> = vec![];
    let path = |p: &str| Some(p.to_string());
    // every name in neither, one, the other or both directories
    let mut v = vec![];
    let names: &[&str] = if th { &["a", "ab", "b", "é", "abc"] } else { &["a", "ab", "abc", "é"] };
    let typed: &[&str] = if th { &["a", "ab", "abc", "abd", "b", "é", "", "A", "a b"] } else { &["a", "ab", "abc", "é", ""] };
    for m in 0..4usize.pow(names.len() as u32) {
        let mut d = vec![vec![], vec![]];
        for (i, n) in names.iter().enumerate() { let x = m / 4usize.pow(i as u32) % 4; if x & 1 != 0 { d[0].push(n.to_string()) } if x & 2 != 0 { d[1].push(n.to_string()) } }
        for t in typed { v.push(Case { dirs: d.clone(), path: path("@/p0:@/p1"), typed: t.to_string(), act: Act::List, rest: String::new(), pre: None }) }
    }
    plans.push(("every placement of names", v));
    // the directories themselves
    let mut v = vec![];
    for p in ["@/p0", "@/p0:@/p1:@/p2", "@/p2:@/p1:@/p0", "@/p0:@/p0", "@/p0/:@/p0", ":@/p0", "@/p0:", "@/p0::@/p1", "", ":", "@/nowhere", "@/nowhere:@/p0", "@/p0:nowhere:@/p2", "relative:@/p1"] {
        for kind in ["", "?missing", "?file", "?closed"] { for which in 0..3 {
            if kind.is_empty() && which > 0 { continue }
            let mut d = vec![s(&["ab", "ac", "b"]), s(&["ab", "ad"]), s(&["ab", "ae", "c"])];
            if !kind.is_empty() { d[which].push(kind.into()) }
            for t in ["a", "ab", "c", "x"] { v.push(Case { dirs: d.clone(), path: path(p), typed: t.into(), act: Act::List, rest: String::new(), pre: None }) }
        } }
    }
    for t in ["a", "", "ab"] { v.push(Case { dirs: vec![s(&["ab"])], path: None, typed: t.into(), act: Act::List, rest: String::new(), pre: None }); v.push(Case { dirs: vec![vec![], vec![]], path: path("@/p0:@/p1"), typed: t.into(), act: Act::List, rest: String::new(), pre: None }) }
    plans.push(("kinds of directories", v));
    // odd names
    let mut v = vec![];
    let odd = s(&["a b", "a-b", "a.b", ".a", "-a", "A", "a%ff", "%ff%fe", "aé", "日本", "a$b", "a'b", "a;b", "a|b", "a\"b", "a\\b", "!ad", "^an", "a_b", "a=b", "a*", "a(b", "a~", "~a", "#a", "a{b", "0", "a%c3", "aa", &format!("a{}", "x".repeat(150))]);
    for i in 0..odd.len() { for j in i..if th { odd.len() } else { i + 1 } {
        for t in ["a", "", "A", ".", "-", "日", "a b", "~", "#", "0", "é"] {
            let mut d = s(&["zz"]); d.push(odd[i].clone()); if j != i { d.push(odd[j].clone()) }
            if th && j != i && !["a", "", "a b"].contains(&t) { continue }
            v.push(Case { dirs: vec![d], path: path("@/p0"), typed: t.into(), act: Act::List, rest: String::new(), pre: None });
        }
    } }
    for t in ["a", "", "a-", "a b"] { v.push(Case { dirs: vec![odd.clone(), odd.iter().rev().take(9).cloned().collect()], path: path("@/p0:@/p1"), typed: t.into(), act: Act::List, rest: String::new(), pre: None }) }
    plans.push(("odd names", v));
    // what the names stand for
    let mut v = vec![];
    let kinds = ["", "!", "^", "<", ">", "|", "&"];
    for k in kinds { for l in kinds { for t in ["a", "ab", "", "b"] {
        v.push(Case { dirs: vec![vec![format!("{}ab", k), format!("{}b", l), "ac".into()], vec!["x".into()]], path: path("@/p0:@/p1"), typed: t.into(), act: Act::List, rest: String::new(), pre: None });
        v.push(Case { dirs: vec![vec![format!("{}ab", k), "x".into()], vec![format!("{}ab", l), format!("{}ac", k)]], path: path("@/p0:@/p1"), typed: t.into(), act: Act::List, rest: String::new(), pre: None });
    } } }
    plans.push(("what the names stand for", v));
    // how many directories, how long the names
    let mut v = vec![];
    let d: Vec<Vec<String>> = (0..130).map(|i| s(&[if i % 40 == 0 { "nn" } else { "m" }, if i % 20 == 7 { "nk" } else { "m" }, if i == 129 { "nz" } else if i == 64 { "ny" } else { "m" }])).collect();
    for n in if th { (1..=130).collect::<Vec<usize>>() } else { vec![1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130] } { for t in ["n", "nz", "m"] { for rev in [false, true] {
        let mut e: Vec<String> = (0..n).map(|i| format!("@/p{}", i)).collect(); if rev { e.reverse() }
        v.push(Case { dirs: d.clone(), path: path(&e.join(":")), typed: t.into(), act: Act::List, rest: String::new(), pre: None });
        if !rev && t == "n" { v.push(Case { dirs: d.clone(), path: path(&format!("{}@/p129", "@/nowhere:".repeat(n))), typed: t.into(), act: Act::List, rest: String::new(), pre: None }) }
    } } }
    let lens = [1usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150];
    let d = vec![lens.iter().map(|n| "n".repeat(*n)).collect::<Vec<_>>(), lens.iter().map(|n| format!("é{}", "k".repeat(*n))).collect()];
    for n in lens { for t in ["n".repeat(n), format!("é{}", "k".repeat(n)), format!("{}x", "n".repeat(n))] { v.push(Case { dirs: d.clone(), path: path("@/p0:@/p1"), typed: t, act: Act::List, rest: String::new(), pre: None }) } }
    plans.push(("how many and how long", v));
    // numbers of names
    let mut v = vec![];
    for n in (0..=if th { 55 } else { 24 }).chain([50, 55]) { for k in [1usize, 2, 3] { v.push(Case { dirs: (0..k).map(|j| (0..n).filter(|i| (i % k == j) || i % 5 == 0).map(|i| format!("n{:02}", i)).collect()).collect(), path: path(&(0..k).map(|j| format!("@/p{}", j)).collect::<Vec<_>>().join(":")), typed: "n".into(), act: Act::List, rest: String::new(), pre: None }) } }
    plans.push(("numbers of names", v));
    // what is run afterwards
    let mut v = vec![];
    for m in 1..64usize {
        let mut d = vec![vec![], vec![]];
        for (i, n) in ["a", "ab", "abc"].iter().enumerate() { let x = m / 4usize.pow(i as u32) % 4; if x & 1 != 0 { d[0].push(n.to_string()) } if x & 2 != 0 { d[1].push(n.to_string()) } }
        for t in ["a", "ab"] {
            let c = Case { dirs: d.clone(), path: path("@/p0:@/p1"), typed: t.into(), act: Act::Abort, rest: String::new(), pre: None };
            let n = matching(&c).len();
            for rest in if th || m % 4 == 3 { &["", " x y", "c"][..] } else { &[""] } {
                v.push(Case { rest: rest.to_string(), ..c.clone() });
                for k in 0..n { v.push(Case { act: Act::Pick(k), rest: rest.to_string(), ..c.clone() }) }
            }
        }
    }
    for t in ["a x", "ab a", "b a", "ab  "] { v.push(Case { dirs: vec![s(&["a", "ab", "b", "x"])], path: path("@/p0"), typed: t.into(), act: Act::Abort, rest: String::new(), pre: None }); v.push(Case { dirs: vec![s(&["a", "ab", "b", "x"])], path: path("@/p0"), typed: t.into(), act: Act::Abort, rest: "b".into(), pre: None }) }
    plans.push(("what is run afterwards", v));
    // every way of naming a directory
    let mut v = vec![];
    let d = vec![s(&["ab", "ac", "b"]), s(&["ab", "ad"])];
    for x in SUFFIX { for y in ["", "/", "/."] { for p in ["@/p0#", "../p0#", "@/p1:@/p0#", "@/p0#:@/p1#"] { for t in ["a", "b", ""] { v.push(Case { dirs: d.clone(), path: path(&p.replace('#', &format!("{}{}", x, y))), typed: t.into(), act: Act::List, rest: String::new(), pre: None }) } } } }
    for p in ["../p0", "../p0/", "@//p1", "@/./p1:@/p0", "@/p0/../p1", "@/p0//:../p1/./", "@/p0/.:@/p0", "@/p7:@/p1", "@/pp0:@/p1", "@/P0:@/p1", "@/p0,@/p1", "@/p0;@/p1:@/p1", " @/p0:@/p1", "@/p0 :@/p1"] { for t in ["a", "ab", "b", ""] { v.push(Case { dirs: d.clone(), path: path(p), typed: t.into(), act: Act::List, rest: String::new(), pre: None }) } }
    plans.push(("names of directories", v));
    // a PATH that the session itself changes
    let mut v = vec![];
    let d = vec![s(&["ab", "ac", "b"]), s(&["ab", "ad"]), s(&["x", "ae"])];
    for (start, lines, now) in [
        ("@/p0", &["export PATH=@/p1"][..], Some("@/p1")), ("@/p0", &["PATH=@/p1"], Some("@/p1")), ("@/p0", &["PATH=@/p1:@/p2"], Some("@/p1:@/p2")), ("@/p0", &["eval PATH=@/p1"], Some("@/p1")), ("@/p0", &["f() { PATH=@/p1 ; }", "f"], Some("@/p1")),
        ("@/p0", &["PATH=@/p1", "PATH=@/p0"], Some("@/p0")), ("@/p0", &["PATH=@/p1 nosuch"], Some("@/p0")), ("@/p0", &["x=$(PATH=@/p1)"], Some("@/p0")), ("@/p0", &["PATH=@/p1 | PATH=@/p2"], Some("@/p0")), ("@/p0", &["unset PATH"], None),
        ("@/p0", &["readonly PATH", "PATH=@/p1"], Some("@/p0")), ("@/p0", &["cd @/p1"], Some("@/p0")), (".", &["cd @/p1"], Some("@/p1")), (".:@/p2", &["cd @/p1"], Some("@/p1:@/p2")), (".:../p2", &["cd @/p1", "cd ../p0"], Some("@/p0:@/p2")), (".", &["cd @/p1", "cd nodir"], Some("@/p1")), (".", &["cd @/p1", "cd @/p2"], Some("@/p2")), ("../p0", &["cd @/p1"], Some("@/p0")),
        ("@/p0", &["unset PATH", "export PATH=@/p2"], Some("@/p2")), ("@/p0", &["export PATH=''"], Some("")), ("@/p0:@/p1", &["alias ab=b", "nosuch() { ab ; }"], Some("@/p0:@/p1")), ("@/p0:@/p1", &["ab"], Some("@/p0:@/p1")), ("@/p0", &["export X=@/p1"], Some("@/p0")),
    ] { for t in ["a", "ab", "b", "x", ""] {
        v.push(Case { dirs: d.clone(), path: now.map(|p| p.to_string()), typed: t.into(), act: Act::List, rest: String::new(), pre: Some((Some(start.to_string()), s(lines))) });
    } }
    plans.push(("a PATH that changes", v));
    let cfg = Cfg::default();
    for (name, cases) in plans {
        if only.map_or(false, |o| o != name) || cx.done() { continue }
        if let Some(c) = cases.get(cases.len() / 2) { cx.samples.lock().unwrap().push(format!("{}: {}", name, c.show())) }
        par(cx, name, &cfg, &cases, &|w, c| run(w, c), &|c| (vec![Item::from(c.show())], c.extra()));
        cx.count(&format!("cases: {}", name), cases.len() as u64);
    }
}
