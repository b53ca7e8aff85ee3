//! Driving shells under the shim: sessions, snapshots, observations.
use std::ffi::CString;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub static LIVE: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Debug, Default, PartialEq)]
pub struct FdEnt { pub fd: i32, pub flags: u32, pub link: String }
#[derive(Clone, Debug, Default)]
pub struct ChildEnt { pub vpid: i32, pub state: u32, pub rep: u32, pub status: i32, pub pgid: i32, pub ctrl: bool }
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub kind: u8, pub points: u32, pub blocking: u32, pub handlers: u32,
    pub mask: u32, pub pend: u32, pub ign: u32, pub hnd: u32,
    pub cwd: String, pub fds: Vec<FdEnt>, pub children: Vec<ChildEnt>,
}
#[derive(Clone, Debug)]
pub struct ExecEv {
    pub path: Vec<u32>, pub vpid: i32, pub root: bool, pub prog: String, pub argv: Vec<String>, pub envp: Vec<String>,
    pub cwd: String, pub fds: Vec<FdEnt>, pub mask: u32, pub ign: u32, pub pgid: i32,
}
#[derive(Clone, Debug)]
pub enum LogEv {
    Exec(ExecEv),
    Simple { kind: u8, path: String, a: i32, b: i32, s: String },
}

struct Rd<'a> { b: &'a [u8], i: usize }
impl<'a> Rd<'a> {
    fn u32(&mut self) -> u32 { let v = u32::from_ne_bytes(self.b[self.i..self.i + 4].try_into().unwrap()); self.i += 4; v }
    fn str(&mut self) -> String {
        let n = self.u32() as usize; let s = &self.b[self.i..self.i + n]; self.i += n;
        seen(s)
    }
    fn fds(&mut self) -> Vec<FdEnt> { let n = self.u32(); (0..n).map(|_| FdEnt { fd: self.u32() as i32, flags: self.u32(), link: self.str() }).collect() }
    fn vec(&mut self) -> Vec<String> { let n = self.u32(); (0..n).map(|_| self.str()).collect() }
}
fn ppath(s: &str) -> Vec<u32> { s.split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(0)).collect() }

pub fn parse_log(b: &[u8]) -> Result<Vec<LogEv>, String> {
    let mut v = vec![]; let mut i = 0;
    while i + 5 <= b.len() {
        let l = u32::from_ne_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        if i + 4 + l > b.len() || l == 0 { return Err("torn log".into()) }
        let kind = b[i + 4];
        let mut r = Rd { b: &b[i + 5..i + 4 + l], i: 0 };
        let path = r.str();
        if kind == b'X' {
            v.push(LogEv::Exec(ExecEv { path: ppath(&path), vpid: r.u32() as i32, root: r.u32() != 0, prog: r.str(), argv: r.vec(), envp: r.vec(), cwd: r.str(), fds: r.fds(), mask: r.u32(), ign: r.u32(), pgid: r.u32() as i32 }));
        } else {
            v.push(LogEv::Simple { kind, path, a: r.u32() as i32, b: r.u32() as i32, s: r.str() });
        }
        i += 4 + l;
    }
    Ok(v)
}
/// Fork order, a process after the processes it started.
pub fn path_order(a: &[u32], b: &[u32]) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    for i in 0.. {
        match (a.get(i), b.get(i)) {
            (None, None) => return Equal,
            (None, Some(_)) => return Greater,
            (Some(_), None) => return Less,
            (Some(x), Some(y)) if x != y => return x.cmp(y),
            _ => {}
        }
    }
    Equal
}

fn memfd(name: &str, append: bool) -> i32 {
    let n = CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(n.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd: {}", std::io::Error::last_os_error());
    unsafe {
        libc::fchmod(fd, 0o666);
        if append { libc::fcntl(fd, libc::F_SETFL, libc::O_APPEND); }
    }
    fd
}
fn read_from(fd: i32, off: &mut u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let mut b = [0u8; 65536];
        let n = unsafe { libc::pread(fd, b.as_mut_ptr() as *mut _, b.len(), *off as i64) };
        if n <= 0 { return v }
        v.extend_from_slice(&b[..n as usize]);
        *off += n as u64;
        if v.len() > 8 << 20 { return v }
    }
}
fn pair() -> (i32, i32) {
    let mut p = [0; 2];
    let r = unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) };
    assert!(r == 0, "socketpair: {}", std::io::Error::last_os_error());
    let sz: libc::c_int = 1 << 20;
    for fd in p { unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &sz as *const _ as *const _, 4); } }
    (p[0], p[1])
}

/// Text of the explorer as bytes: U+E080 to U+E0FF stand for the bytes 0x80 to 0xff.
pub fn raw(t: &str) -> Vec<u8> {
    if !is_raw(t) { return t.as_bytes().to_vec() }
    let mut v = vec![]; let mut b = [0; 4];
    for c in t.chars() { match c as u32 { n @ 0xE080..=0xE0FF => v.push((n - 0xE000) as u8), _ => v.extend_from_slice(c.encode_utf8(&mut b).as_bytes()) } }
    v
}
/// how bytes that are not UTF-8 show in a report
pub fn seen(s: &[u8]) -> String { match std::str::from_utf8(s) { Ok(t) => t.to_string(), Err(_) => s.iter().map(|&c| if c < 128 { (c as char).to_string() } else { format!("\\x{:02x}", c) }).collect() } }
pub fn is_raw(t: &str) -> bool { t.chars().any(|c| matches!(c as u32, 0xE080..=0xE0FF)) }
fn replace(d: &[u8], a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(d.len()); let mut i = 0;
    while i < d.len() { if d[i] == a[0] && d[i..].starts_with(a) { v.extend_from_slice(b); i += a.len() } else { v.push(d[i]); i += 1 } }
    v
}
/// Directory tree of one worker.
#[derive(Clone)]
pub struct Place { pub base: PathBuf }
pub const UID: u32 = 65534;
impl Place {
    pub fn s(&self) -> &str { self.base.to_str().unwrap() }
    pub fn sub(&self, s: &str) -> String { s.replace('@', self.s()) }
    pub fn subb(&self, d: &[u8]) -> Vec<u8> { if d.contains(&b'@') { replace(d, b"@", self.s().as_bytes()) } else { d.to_vec() } }
    pub fn unsubb(&self, d: Vec<u8>) -> Vec<u8> { replace(&d, self.s().as_bytes(), b"@") }
    pub fn unsub(&self, s: &str) -> String { s.replace(self.s(), "@") }
}
pub fn chown(p: &Path, uid: u32) { let c = CString::new(p.to_str().unwrap()).unwrap(); unsafe { libc::lchown(c.as_ptr(), uid, uid); } }

pub enum Got { Report(Report), Ended(i32), Hang }

pub struct Session {
    pub pid: i32, ctl: i32, out: i32, err: i32, log: i32,
    off: [u64; 3], pub dead: Option<i32>, pub at_wait: bool, buf: Vec<u8>,
}
/// A shell without the shim whose input is a pipe.
pub struct Live { pub s: Session, inp: i32 }
impl Live {
    pub fn spawn(place: &Place, env: &[(String, String)]) -> Live {
        let mut p = [0; 2];
        let r = unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) };
        assert!(r == 0, "pipe");
        let s = Session::spawn_with(place, &Spawn { args: &[], mode: "", env, cwd: "@/work", stdin: b"", nofile: 1024 }, p[0]);
        Live { s, inp: p[1] }
    }
    pub fn send(&mut self, t: &str) -> bool { unsafe { let t = raw(t); libc::write(self.inp, t.as_ptr() as *const _, t.len()) == t.len() as isize } }
    pub fn pid(&self) -> i32 { self.s.pid }
}
impl Drop for Live { fn drop(&mut self) { unsafe { libc::close(self.inp); } } }
pub struct Spawn<'a> { pub args: &'a [String], pub mode: &'a str, pub env: &'a [(String, String)], pub cwd: &'a str, pub stdin: &'a [u8], pub nofile: u64 }

impl Session {
    pub fn spawn(place: &Place, sp: &Spawn) -> Session { Session::spawn_with(place, sp, -1) }
    fn spawn_with(place: &Place, sp: &Spawn, input: i32) -> Session {
        use std::os::unix::process::CommandExt;
        let (a, b) = pair();
        let stdin = if input >= 0 { input } else { memfd("mc-in", false) };
        if !sp.stdin.is_empty() { unsafe { libc::pwrite(stdin, sp.stdin.as_ptr() as *const _, sp.stdin.len(), 0); } }
        let (out, err, log) = (memfd("mc-out", true), memfd("mc-err", true), memfd("mc-log", true));
        let nofile = sp.nofile;
        let mut c = std::process::Command::new(place.base.join("rsh"));
        for x in sp.args { c.arg(x); }
        c.env_clear();
        for (k, v) in sp.env { use std::os::unix::ffi::OsStringExt; c.env(std::ffi::OsString::from_vec(raw(k)), std::ffi::OsString::from_vec(raw(v))); }
        if !sp.mode.is_empty() { c.env("MC_SHIM", sp.mode).env("LD_PRELOAD", place.base.join("shim.so")); }
        c.current_dir(place.sub(sp.cwd));
        unsafe {
            c.pre_exec(move || {
                libc::setsid();
                libc::syscall(libc::SYS_close_range, 3u32, 4096u32, 4u32); // CLOEXEC
                libc::dup2(stdin, 0); libc::dup2(out, 1); libc::dup2(err, 2);
                libc::dup2(b, 900); libc::dup2(log, 901);
                let rl = libc::rlimit { rlim_cur: nofile, rlim_max: nofile };
                libc::setrlimit(libc::RLIMIT_NOFILE, &rl);
                libc::setgroups(0, std::ptr::null());
                libc::setgid(UID); libc::setuid(UID);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let child = c.spawn().expect("cannot start rsh");
        unsafe { libc::close(b); libc::close(stdin); }
        LIVE.fetch_add(1, Ordering::Relaxed);
        Session { pid: child.id() as i32, ctl: a, out, err, log, off: [0; 3], dead: None, at_wait: false, buf: vec![0; 1 << 19] }
    }
    fn send(&mut self, m: &[u8], fds: &[i32]) -> bool {
        unsafe {
            let mut iov = libc::iovec { iov_base: m.as_ptr() as *mut _, iov_len: m.len() };
            let mut cb = [0u64; 16];
            let mut mh: libc::msghdr = std::mem::zeroed();
            mh.msg_iov = &mut iov; mh.msg_iovlen = 1;
            if !fds.is_empty() {
                mh.msg_control = cb.as_mut_ptr() as *mut _;
                mh.msg_controllen = libc::CMSG_SPACE((fds.len() * 4) as u32) as usize;
                let cm = libc::CMSG_FIRSTHDR(&mh);
                (*cm).cmsg_level = libc::SOL_SOCKET; (*cm).cmsg_type = libc::SCM_RIGHTS;
                (*cm).cmsg_len = libc::CMSG_LEN((fds.len() * 4) as u32) as usize;
                std::ptr::copy_nonoverlapping(fds.as_ptr() as *const u8, libc::CMSG_DATA(cm), fds.len() * 4);
            }
            libc::sendmsg(self.ctl, &mh, libc::MSG_NOSIGNAL) >= 0
        }
    }
    fn recv(&mut self, timeout: Duration) -> Option<Option<usize>> { // None = timeout, Some(None) = closed
        let end = Instant::now() + timeout;
        loop {
            let left = end.saturating_duration_since(Instant::now());
            let mut p = libc::pollfd { fd: self.ctl, events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut p, 1, left.as_millis() as i32 + 1) };
            if r < 0 { continue }
            if r == 0 { return None }
            let n = unsafe { libc::recv(self.ctl, self.buf.as_mut_ptr() as *mut _, self.buf.len(), 0) };
            if n < 0 { if std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) { continue } return Some(None) }
            return Some(if n == 0 { None } else { Some(n as usize) });
        }
    }
    fn wait_end(&mut self, timeout: Duration) -> Option<i32> {
        if self.dead.is_some() { return self.dead }
        let end = Instant::now() + timeout;
        let mut nap = 20;
        loop {
            let mut st = 0;
            let r = unsafe { libc::waitpid(self.pid, &mut st, libc::WNOHANG) };
            if r == self.pid { self.dead = Some(st); LIVE.fetch_sub(1, Ordering::Relaxed); return Some(st) }
            if r < 0 { self.dead = Some(-1); return Some(-1) }
            if Instant::now() > end { return None }
            std::thread::sleep(Duration::from_micros(nap)); nap = (nap * 2).min(2000);
        }
    }
    pub fn get(&mut self, timeout: Duration) -> Got {
        let t = std::time::Instant::now();
        let got = self.recv(timeout);
        LONGEST.fetch_max(t.elapsed().as_millis() as u64, Ordering::Relaxed);
        match got {
            None => Got::Hang,
            Some(None) => match self.wait_end(timeout) { Some(s) => Got::Ended(s), None => Got::Hang },
            Some(Some(n)) => {
                let mut r = Rd { b: &self.buf[5..n], i: 0 };
                let kind = self.buf[4];
                let mut rep = Report { kind, points: r.u32(), blocking: r.u32(), handlers: r.u32(), mask: r.u32(), pend: r.u32(), ign: r.u32(), hnd: r.u32(), cwd: r.str(), fds: r.fds(), children: vec![] };
                let n = r.u32();
                for _ in 0..n { rep.children.push(ChildEnt { vpid: r.u32() as i32, state: r.u32(), rep: r.u32(), status: r.u32() as i32, pgid: r.u32() as i32, ctrl: r.u32() != 0 }) }
                self.at_wait = kind == b'W';
                Got::Report(rep)
            }
        }
    }
    pub fn snap(&mut self) -> Option<Session> {
        let (a, b) = pair();
        let (out, err, log) = (memfd("mc-out", true), memfd("mc-err", true), memfd("mc-log", true));
        let ok = self.send(b"F", &[b, out, err, log]);
        unsafe { libc::close(b); }
        let close = || unsafe { for fd in [a, out, err, log] { libc::close(fd); } };
        if !ok { close(); return None }
        match self.recv(Duration::from_secs(20)) {
            Some(Some(8)) => {}
            _ => { close(); return None }
        }
        let m: i32 = i32::from_ne_bytes(self.buf[0..4].try_into().unwrap());
        let pid: i32 = i32::from_ne_bytes(self.buf[4..8].try_into().unwrap());
        if m != -2 || pid <= 0 { close(); return None }
        LIVE.fetch_add(1, Ordering::Relaxed);
        Some(Session { pid, ctl: a, out, err, log, off: [0; 3], dead: None, at_wait: self.at_wait, buf: vec![0; 1 << 16] })
    }
    pub fn line(&mut self, flags: &str, plan: &str, text: &str, timeout: Duration) -> Got {
        let m = format!("L{}\n{}\n{}", flags, plan, text);
        if !self.send(&raw(&m), &[]) { return match self.wait_end(timeout) { Some(s) => Got::Ended(s), None => Got::Hang } }
        self.get(timeout)
    }
    pub fn cmd(&mut self, m: &str, timeout: Duration) -> Got {
        if !self.send(m.as_bytes(), &[]) { return match self.wait_end(timeout) { Some(s) => Got::Ended(s), None => Got::Hang } }
        self.get(timeout)
    }
    pub fn end(&mut self, timeout: Duration) -> Option<i32> {
        let t = std::time::Instant::now();
        let r = self.wait_end(timeout);
        LONGEST.fetch_max(t.elapsed().as_millis() as u64, Ordering::Relaxed);
        r
    }
    pub fn take_out(&mut self) -> Vec<u8> { read_from(self.out, &mut self.off[0]) }
    pub fn take_err(&mut self) -> Vec<u8> { read_from(self.err, &mut self.off[1]) }
    pub fn peek_log(&mut self) -> Result<Vec<LogEv>, String> { let mut o = self.off[2]; let b = read_from(self.log, &mut o); parse_log(&b) }
    pub fn take_log(&mut self) -> Result<Vec<LogEv>, String> { let b = read_from(self.log, &mut self.off[2]); parse_log(&b) }
}
/// the longest time the shell took for an answer, in milliseconds
pub static LONGEST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn longest() -> String { format!("longest answer {} ms", LONGEST.swap(0, Ordering::Relaxed)) }
impl Drop for Session {
    fn drop(&mut self) {
        unsafe {
            if self.dead.is_none() {
                libc::kill(-self.pid, libc::SIGKILL); libc::kill(self.pid, libc::SIGKILL);
                let mut st = 0;
                while libc::waitpid(self.pid, &mut st, 0) < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {}
                LIVE.fetch_sub(1, Ordering::Relaxed);
            } else { libc::kill(-self.pid, libc::SIGKILL); }
            for fd in [self.ctl, self.out, self.err, self.log] { libc::close(fd); }
        }
    }
}
