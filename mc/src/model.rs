//! Reference evaluator: what a command line does, by the property statements.
//!
//! Output streams of the model are bytes with three markers:
//!   \x01  a message of the shell (some text, at least one character)
//!   \x02 ... \x03  lines in any order
//!   \x04  possibly lines about jobs ("[n] ..." or "Job ...")
use crate::parse::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St { X(i32), Fail }
impl St {
    pub fn zero(self) -> bool { self == St::X(0) }
    pub fn admits(self, code: i32) -> bool { match self { St::X(n) => n & 255 == code & 255, St::Fail => code & 255 != 0 } }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Flow { Next(St), Return(St), Exit(St) }
use Flow::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Var { pub val: String, pub ro: bool }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Scope { pub vars: BTreeMap<String, Var>, pub funcs: BTreeMap<String, Rc<List>>, pub isolated: bool }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fs { pub files: BTreeMap<String, Vec<u8>>, pub dirs: BTreeSet<String>, pub closed: BTreeSet<String>, pub progs: BTreeSet<String>, pub noexec: BTreeSet<String>,
    /// symbolic links (path, where to), other names of a file (path, the file), what the owner may not do
    pub links: BTreeMap<String, String>, pub same: BTreeMap<String, String>, pub noenter: BTreeSet<String>, pub nowrite: BTreeSet<String>, pub noread: BTreeSet<String> }
impl Fs {
    pub fn norm(cwd: &str, p: &str) -> String {
        let full = if p.starts_with('@') || p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
        let mut v: Vec<&str> = vec![];
        let abs = full.starts_with('/');
        for c in full.split('/') { match c { "" | "." => {} ".." => { v.pop(); } c => v.push(c) } }
        if abs { format!("/{}", v.join("/")) } else { v.join("/") }
    }
    /// The file a path names; None if something on the way to it is not a directory.
    pub fn path(&self, cwd: &str, p: &str) -> Option<String> { self.follow(cwd, p, &mut 0) }
    fn follow(&self, cwd: &str, p: &str, n: &mut usize) -> Option<String> {
        let full = if p.starts_with(['@', '/']) { p.to_string() } else { format!("{}/{}", cwd, p) };
        let abs = full.starts_with('/');
        let comps: Vec<&str> = full.split('/').collect();
        let mut at = String::new();
        for (i, c) in comps.iter().enumerate() {
            if !c.is_empty() { at = if at.is_empty() { if abs { format!("/{}", c) } else { c.to_string() } } else { Fs::norm(&at, c) } }
            if at.is_empty() && abs { at = "/".into() }
            if let Some(to) = self.links.get(&at) { *n += 1; if *n > 40 { return None } at = self.follow(&Fs::parent(&at), to, n)?; }
            if i + 1 < comps.len() && at != "@" && at != "/" && (!self.dirs.contains(&at) || self.noenter.contains(&at)) { return None }
        }
        Some(self.same.get(&at).cloned().unwrap_or(at))
    }
    fn parent(p: &str) -> String { match p.rfind('/') { Some(i) => p[..i].to_string(), None => String::new() } }
    pub fn isfile(&self, p: &str) -> bool { self.files.contains_key(p) || self.progs.contains(p) || self.noexec.contains(p) }
}

/// files that keep nothing: writes are lost, or fail
pub const DEVICES: &[&str] = &["/dev/null", "/dev/full"];
#[derive(Debug)]
pub enum Ofd {
    In, Out, Err,
    File { path: String, read: bool, append: bool, pos: usize },
    PipeW(Rc<RefCell<Vec<u8>>>),
    PipeR(Rc<RefCell<Vec<u8>>>),
}
type Fd = Rc<RefCell<Ofd>>;

#[derive(Clone, Debug, PartialEq)]
pub struct MExec { pub prog: String, pub argv: Vec<String>, pub env: Vec<String>, pub cwd: String, pub fds: Vec<(i32, String)>, pub root: bool }

#[derive(Clone, Debug)]
pub struct Model {
    pub scopes: Vec<usize>, pub arena: Vec<Scope>, pub ctxs: BTreeMap<String, usize>,
    pub aliases: BTreeMap<String, String>, pub env: BTreeMap<String, String>, pub cwd: String, pub status: St,
    depth: usize, fds: BTreeMap<i32, Fd>, pub child: bool,
    /// a script or -c: jobs are not reported
    pub quiet: bool,
    /// concurrent processes this one is part of: (pipeline, stage, in the background)
    chain: Vec<(usize, usize, bool)>,
}
#[derive(Clone, Debug, Default)]
pub struct World {
    pub fs: Fs, pub out: Vec<u8>, pub err: Vec<u8>, pub execs: Vec<MExec>,
    pub open: Option<&'static str>, pub racy: bool, pub bg: bool, pub reads_in: bool, pub may_end: bool, pub steps: usize,
    pub parsed: usize, pub rejected: usize,
    pub killed: Option<(String, i32)>,
    pub touched: Vec<(String, bool, Vec<(usize, usize, bool)>)>,
}

impl World {
    /// Two concurrent processes using one file, and one of them writing: the result is not determined.
    fn touch(&mut self, path: &str, write: bool, chain: &[(usize, usize, bool)]) {
        for (p, wr, ch) in &self.touched {
            if p != path || !(write || *wr) { continue }
            let alone = |a: &[(usize, usize, bool)], b: &[(usize, usize, bool)]| a.iter().any(|x| (x.2 && !b.contains(x)) || b.iter().any(|y| y.0 == x.0 && y.1 != x.1));
            if alone(ch, chain) || alone(chain, ch) { self.open = Some("a file used by two processes at once") }
        }
        self.touched.push((path.into(), write, chain.to_vec()));
    }
}
pub const BUILTINS: &[&str] = &["cd", "exit", "return", "jobs", "fg", "bg", "alias", "unalias", "export", "eval", "unset", "pwd", "readonly", "exec", ".", "source"];

/// lines in any order
fn bag(v: Vec<String>) -> Vec<u8> {
    let t = v.concat().into_bytes();
    if v.len() < 2 { return t }
    [&[2u8][..], &t, &[3u8]].concat()
}

struct XCmd { assigns: Vec<(String, String)>, words: Vec<String>, redirs: Vec<Redir>, func: Option<(String, Rc<List>)> }

impl Model {
    pub fn new(env: &[(String, String)], cwd: &str) -> Model {
        let mut s0 = Scope::default();
        for (k, v) in [("PS1", ""), ("PS2", ""), ("PS4", ""), ("PPID", ""), ("PID", ""), ("PWD", "")] { s0.vars.insert(k.into(), Var { val: v.into(), ro: false }); }
        s0.vars.insert("PATH".into(), Var { val: "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin".into(), ro: false });
        // a value that is not text is handed on as it is, but expands to text
        for (k, v) in env { s0.vars.insert(k.clone(), Var { val: String::from_utf8_lossy(&crate::ctl::raw(v)).into_owned(), ro: false }); }
        let mut s1 = Scope::default();
        s1.vars.insert("0".into(), Var { val: "rsh".into(), ro: false });
        Model { scopes: vec![0, 1], arena: vec![s0, s1], ctxs: BTreeMap::new(), aliases: BTreeMap::new(), env: env.iter().map(|(k, v)| (k.clone(), crate::ctl::seen(&crate::ctl::raw(v)))).collect(), cwd: cwd.into(), status: St::X(0), depth: 0, fds: BTreeMap::new(), child: false, quiet: false, chain: vec![] }
    }
    fn reset_fds(&mut self) {
        self.fds.clear();
        for (i, k) in [Ofd::In, Ofd::Out, Ofd::Err].into_iter().enumerate() { self.fds.insert(i as i32, Rc::new(RefCell::new(k))); }
    }
    /// One entry at the prompt: one or more physical lines.
    pub fn enter(&mut self, w: &mut World, text: &str) -> Option<St> {
        let mut acc = String::new();
        for l in text.lines() {
            if !acc.is_empty() { acc.push('\n') }
            acc.push_str(l);
            if brackets(&acc) > 0 { continue }
            let t = std::mem::take(&mut acc);
            if t.is_empty() { continue }
            // a line that is not UTF-8 is reported, nothing else
            if crate::ctl::is_raw(&t) { w.rejected += 1; self.message(w); continue }
            if let Some(s) = self.unit(w, &t) { return Some(s) }
        }
        if !acc.is_empty() { w.open = Some("unfinished line") }
        None
    }
    /// A script: like the prompt, line by line.
    pub fn script(&mut self, w: &mut World, text: &str) -> St {
        let mut acc = String::new();
        for l in text.split_inclusive('\n') {
            acc.push_str(l);
            if brackets(&acc) > 0 { continue }
            let t = std::mem::take(&mut acc);
            if t.trim().is_empty() { continue }
            if let Some(s) = self.unit(w, &t) { return s }
        }
        if !acc.trim().is_empty() { if let Some(s) = self.unit(w, &acc) { return s } }
        self.status
    }
    pub fn positional(&mut self, name: &str, args: &[String]) {
        self.set_local("0", name);
        for (i, a) in args.iter().enumerate() { self.set_local(&(i + 1).to_string(), a); }
    }
    /// One accepted piece of input, parsed as a whole. Some(status) = the shell ended.
    pub fn unit(&mut self, w: &mut World, t: &str) -> Option<St> {
        self.reset_fds();
        match parse(t) {
            Parsed::Open => { w.open = Some("syntax left open"); None }
            Parsed::Reject => { w.rejected += 1; self.message(w); self.status = St::Fail; None }
            Parsed::Ok(l) => {
                w.parsed += 1;
                match self.list(w, &l) { Exit(s) => Some(s), _ => None }
            }
        }
    }

    // ------------------------------------------------------------ streams
    fn write_fd(&self, w: &mut World, fd: i32, data: &[u8]) -> bool {
        let Some(o) = self.fds.get(&fd) else { return false };
        match &mut *o.borrow_mut() {
            Ofd::Out => { w.out.extend_from_slice(data); true }
            Ofd::Err => { w.err.extend_from_slice(data); true }
            Ofd::PipeW(b) => { b.borrow_mut().extend_from_slice(data); true }
            Ofd::File { path, read: false, .. } if DEVICES.contains(&path.as_str()) => path == "/dev/null",
            Ofd::File { path, read: false, append, pos } => {
                let f = w.fs.files.entry(path.clone()).or_default();
                let at = if *append { f.len() } else { *pos };
                if f.len() < at { f.resize(at, 0) }
                let end = (at + data.len()).min(f.len());
                f.splice(at..end, data.iter().copied());
                *pos = at + data.len();
                true
            }
            _ => false,
        }
    }
    /// what a builtin prints; not being able to is a failure
    fn say(&self, w: &mut World, t: &[u8]) -> St { if t.iter().all(|c| (1..=4).contains(c)) || self.write_fd(w, 1, t) { St::X(0) } else { self.fail(w) } }
    fn read_fd(&self, w: &mut World, fd: i32) -> Option<Vec<u8>> {
        let o = self.fds.get(&fd)?;
        let mut o = o.borrow_mut();
        match &mut *o {
            Ofd::In => { w.reads_in = true; Some(vec![]) }
            Ofd::PipeR(b) => Some(std::mem::take(&mut *b.borrow_mut())),
            Ofd::File { path, read: true, pos, .. } => {
                let f = w.fs.files.get(path).cloned().unwrap_or_default();
                let r = f.get(*pos..).map(|x| x.to_vec()).unwrap_or_default();
                *pos = f.len().max(*pos);
                Some(r)
            }
            _ => None,
        }
    }
    fn message(&self, w: &mut World) { self.write_fd(w, 2, b"\x01"); }
    fn fail(&self, w: &mut World) -> St { self.message(w); St::Fail }
    fn class(o: &Ofd) -> String {
        match o { Ofd::In => "in".into(), Ofd::Out => "out".into(), Ofd::Err => "err".into(), Ofd::File { path, .. } => path.clone(), _ => "pipe".into() }
    }

    // ---------------------------------------------------------- variables
    fn var_at(&self, name: &str) -> Option<usize> { self.scopes.iter().rev().copied().find(|&s| self.arena[s].vars.contains_key(name)) }
    pub fn get(&self, name: &str) -> Option<String> {
        if let Some((ns, n)) = name.split_once("::") {
            let c = *self.ctxs.get(ns)?;
            return self.arena[c].vars.get(n).map(|v| v.val.clone());
        }
        self.var_at(name).map(|s| self.arena[s].vars[name].val.clone())
    }
    fn writable(&self) -> Vec<usize> {
        let mut v = vec![];
        for &s in self.scopes.iter().rev() { v.push(s); if self.arena[s].isolated { break } }
        v
    }
    fn holder(&self, name: &str) -> Option<usize> { self.writable().into_iter().find(|&s| self.arena[s].vars.contains_key(name)) }
    fn assign(&mut self, name: &str, val: &str) -> bool {
        match self.holder(name) {
            Some(s) => {
                let v = self.arena[s].vars.get_mut(name).unwrap();
                if v.ro { return false }
                v.val = val.to_string();
                if s == self.scopes[0] && self.env.contains_key(name) { self.env.insert(name.into(), val.into()); }
            }
            None => { let s = *self.scopes.last().unwrap(); self.arena[s].vars.insert(name.into(), Var { val: val.into(), ro: false }); }
        }
        true
    }
    fn set_local(&mut self, name: &str, val: &str) -> Option<Var> {
        let s = *self.scopes.last().unwrap();
        let old = self.arena[s].vars.get(name).cloned();
        if !old.as_ref().map_or(false, |v| v.ro) { self.arena[s].vars.insert(name.into(), Var { val: val.into(), ro: false }); }
        old
    }
    fn func(&self, name: &str) -> Option<Rc<List>> {
        if let Some((ns, n)) = name.split_once("::") { return self.ctxs.get(ns).and_then(|&c| self.arena[c].funcs.get(n).cloned()) }
        self.scopes.iter().rev().find_map(|&s| self.arena[s].funcs.get(name).cloned())
    }
    fn define(&mut self, name: &str, body: Rc<List>) {
        let s = self.writable().into_iter().find(|&s| self.arena[s].funcs.contains_key(name)).unwrap_or(*self.scopes.last().unwrap());
        self.arena[s].funcs.insert(name.into(), body);
    }
    pub fn lookup(&self, w: &World, name: &str) -> Option<String> {
        if name.is_empty() { return None }
        if name.contains('/') { return w.fs.path(&self.cwd, name) }
        let path = self.get("PATH")?;
        for d in path.split(':') {
            let Some(p) = w.fs.path(&self.cwd, &if d.is_empty() { format!("/{}", name) } else { format!("{}/{}", d, name) }) else { continue };
            if w.fs.isfile(&p) { return Some(p) }
        }
        None
    }

    // ---------------------------------------------------------- expansion
    fn subst(&mut self, w: &mut World, inner: &str) -> String {
        match parse(inner) {
            Parsed::Open => { w.open = Some("syntax left open"); String::new() }
            Parsed::Reject => { self.message(w); String::new() }
            Parsed::Ok(l) => {
                let mut c = self.clone(); c.child = true;
                let buf = Rc::new(RefCell::new(vec![]));
                c.fds.insert(1, Rc::new(RefCell::new(Ofd::PipeW(buf.clone()))));
                c.list(w, &l);
                let b = buf.borrow();
                if b.iter().any(|c| (1..=4).contains(c)) { w.open = Some("captured lines in any order") }
                String::from_utf8_lossy(&b).trim().to_string()
            }
        }
    }
    pub fn expand(&mut self, w: &mut World, word: &str) -> String {
        let r = if word.starts_with('\'') {
            word[1..word.len() - 1].to_string()
        } else if word.starts_with('"') {
            let inner: Vec<char> = word[1..word.len() - 1].chars().collect();
            let mut r = String::new(); let mut i = 0;
            while i < inner.len() {
                let (skip, close) = match (inner[i], inner.get(i + 1)) { ('$', Some('(')) => (2, ')'), ('`', _) => (1, '`'), (c, _) => { r.push(c); i += 1; continue } };
                let from = i + skip;
                match inner[from..].iter().position(|&c| c == close) {
                    Some(n) => { let t: String = inner[from..from + n].iter().collect(); r.push_str(&self.subst(w, &t)); i = from + n + 1 }
                    None => { w.open = Some("unfinished substitution in quotes"); return r }
                }
            }
            r
        } else if word.starts_with("$(") { self.subst(w, &word[2..word.len() - 1]) }
        else if word.starts_with('`') { self.subst(w, &word[1..word.len() - 1]) }
        else if let Some(n) = word.strip_prefix('$') { self.get(n).unwrap_or_else(|| word.to_string()) }
        else { word.to_string() };
        r.replace('\0', "")
    }
    fn expand_cmd(&mut self, w: &mut World, c: &Cmd) -> XCmd {
        let s = match c {
            Cmd::Func(n, b) => return XCmd { assigns: vec![], words: vec![], redirs: vec![], func: Some((n.clone(), b.clone())) },
            Cmd::Simple(s) => s,
        };
        let mut words = s.words.clone();
        if let Some(v) = words.first().and_then(|f| self.aliases.get(f)) {
            let mut a: Vec<String> = v.split_whitespace().map(|x| x.to_string()).collect();
            if !a.is_empty() {
                if a.iter().any(|x| x.starts_with(['"', '\'', '$', '`'])) { w.open = Some("alias value with quotes or expansions") }
                a.extend(words.drain(1..)); words = a;
            }
        }
        let assigns: Vec<_> = s.assigns.iter().map(|(n, v)| (n.clone(), self.expand(w, v))).collect();
        let words = words.iter().map(|x| {
            if x.contains('=') && !x.starts_with(['"', '\'', '`', '$']) {
                let (n, v) = x.split_once('=').unwrap(); format!("{}={}", n, self.expand(w, v))
            } else { self.expand(w, x) }
        }).collect();
        let redirs = s.redirs.iter().map(|r| Redir { fd: r.fd, op: r.op.clone(), word: self.expand(w, &r.word) }).collect();
        XCmd { assigns, words, redirs, func: None }
    }

    // --------------------------------------------------------- evaluation
    pub fn list(&mut self, w: &mut World, l: &List) -> Flow {
        let mut st = St::X(0);
        for ao in &l.0 {
            match self.and_or(w, ao) { Next(s) => st = s, f => return f }
        }
        Next(st)
    }
    fn and_or(&mut self, w: &mut World, a: &AndOr) -> Flow {
        let mut st = match self.pipeline(w, &a.first) { Next(s) => s, f => return f };
        for (op, p) in &a.rest {
            if st.zero() != (*op == Op::And) { continue }
            st = match self.pipeline(w, p) { Next(s) => s, f => return f };
        }
        Next(st)
    }
    fn in_shell(&self, x: &XCmd) -> bool {
        if x.func.is_some() || x.words.is_empty() { return true }
        BUILTINS.contains(&x.words[0].as_str()) || self.func(&x.words[0]).is_some()
    }
    fn pipeline(&mut self, w: &mut World, p: &Pipeline) -> Flow {
        w.steps += 1;
        if w.steps > 3000 { w.open = Some("too long"); return Exit(St::Fail) }
        let xs: Vec<XCmd> = p.cmds.iter().map(|c| self.expand_cmd(w, c)).collect();
        let mut flow = if !p.bg && xs.len() == 1 && self.in_shell(&xs[0]) {
            let saved = self.fds.clone();
            let f = if self.redirect(w, &xs[0].redirs) { self.run_builtin(w, &xs[0]) } else { Next(St::Fail) };
            self.fds = saved;
            f
        } else {
            let n = xs.len();
            if n > 1 { w.racy = true }
            let mut prev: Option<Fd> = None; let mut last = St::X(0);
            if p.bg { w.racy = true; w.bg = true }
            for (i, x) in xs.iter().enumerate() {
                let mut c = self.clone(); c.child = true;
                if n > 1 || p.bg { c.chain.push((w.steps, i, p.bg)) }
                if let Some(r) = prev.take() { c.fds.insert(0, r); }
                if i + 1 < n {
                    let b = Rc::new(RefCell::new(vec![]));
                    c.fds.insert(1, Rc::new(RefCell::new(Ofd::PipeW(b.clone()))));
                    prev = Some(Rc::new(RefCell::new(Ofd::PipeR(b))));
                }
                last = c.in_child(w, x);
            }
            let reports = !self.child && !self.quiet;
            if p.bg { if reports { self.write_fd(w, 1, b"\x04"); } last = St::X(0) }
            else if reports && (n > 1 || matches!(last, St::X(s) if s > 128)) { self.write_fd(w, 1, b"\x04"); }
            Next(last)
        };
        if let Next(s) | Return(s) = &mut flow {
            if p.bang { *s = if s.zero() { St::X(1) } else { St::X(0) } }
            self.status = *s;
        }
        flow
    }
    fn redirect(&mut self, w: &mut World, rs: &[Redir]) -> bool {
        for r in rs {
            let (path, way) = match w.fs.path(&self.cwd, &r.word) { Some(p) => (p, true), None => (Fs::norm(&self.cwd, &r.word), false) };
            let fd = r.fd.unwrap_or(if r.op == RedirOp::In { 0 } else { 1 });
            let bad = !way || r.word.is_empty() || path.split('/').any(|c| c.len() > 255) || path.len() > 3000 || r.word.ends_with('/') || w.fs.dirs.contains(&path) || w.fs.closed.contains(&path)
                || !w.fs.dirs.contains(&Fs::parent(&path)) || w.fs.progs.contains(&path)
                || if r.op == RedirOp::In { w.fs.noread.contains(&path) } else { w.fs.nowrite.contains(&path) || (w.fs.nowrite.contains(&Fs::parent(&path)) && !w.fs.files.contains_key(&path)) };
            if w.fs.progs.contains(&path) || w.fs.noexec.contains(&path) { w.open = Some("redirection to a program") }
            if fd >= 256 { w.open = Some("a descriptor beyond the limit") }
            if r.op == RedirOp::In && w.fs.dirs.contains(&path) && !r.word.is_empty() { w.open = Some("reading a directory") }
            if DEVICES.contains(&path.as_str()) { self.fds.insert(fd, Rc::new(RefCell::new(Ofd::File { path, read: r.op == RedirOp::In, append: false, pos: 0 }))); continue }
            if bad || (r.op == RedirOp::In && !w.fs.files.contains_key(&path)) { self.message(w); return false }
            w.touch(&path, r.op != RedirOp::In, &self.chain);
            if r.op == RedirOp::Out { w.fs.files.insert(path.clone(), vec![]); }
            if r.op == RedirOp::App { w.fs.files.entry(path.clone()).or_default(); }
            let o = Ofd::File { path, read: r.op == RedirOp::In, append: r.op == RedirOp::App, pos: 0 };
            self.fds.insert(fd, Rc::new(RefCell::new(o)));
        }
        true
    }
    fn in_child(&mut self, w: &mut World, x: &XCmd) -> St {
        if !self.redirect(w, &x.redirs) { return St::Fail }
        if self.in_shell(x) {
            if !x.words.is_empty() && !x.assigns.is_empty() { w.open = Some("assignment before a builtin") }
            return match self.run_builtin(w, x) { Next(s) | Return(s) | Exit(s) => match s { St::X(n) => St::X(n & 255), s => s } };
        }
        if x.words[0].is_empty() && !x.assigns.is_empty() { w.open = Some("assignment before an empty name") }
        for (n, v) in &x.assigns { self.env.insert(n.clone(), v.clone()); }
        let Some(p) = self.lookup(w, &x.words[0]) else { return self.fail(w) };
        let env = self.env.clone();
        match self.exec(w, &p, x.words.clone(), env, false) { Some(s) => s, None => self.fail(w) }
    }
    fn exec(&mut self, w: &mut World, prog: &str, argv: Vec<String>, env: BTreeMap<String, String>, root: bool) -> Option<St> {
        if !w.fs.progs.contains(prog) { return None }
        if argv.iter().any(|a| a.len() > 131000) { w.open = Some("an argument longer than the system takes") }
        w.execs.push(MExec {
            prog: prog.into(), argv: argv.clone(), env: { let mut e: Vec<String> = env.iter().map(|(k, v)| format!("{}={}", k, v)).collect(); e.sort(); e }, cwd: self.cwd.clone(),
            fds: self.fds.iter().map(|(n, o)| (*n, Self::class(&o.borrow()))).collect(), root,
        });
        Some(self.program(w, prog.rsplit('/').next().unwrap(), &argv))
    }
    fn program(&self, w: &mut World, base: &str, argv: &[String]) -> St {
        let a = |i: usize| argv.get(i).map(|s| s.as_str());
        let wr = |w: &mut World, fd: i32, d: &[u8], ok: i32| if d.is_empty() || self.write_fd(w, fd, d) { St::X(ok) } else { St::X(9) };
        let trim = |w: &mut World, mut b: Vec<u8>| { if b.iter().any(|c| (1..=4).contains(c)) { w.open = Some("several lines joined") } while b.last() == Some(&b'\n') { b.pop(); } for c in b.iter_mut() { if *c == b'\n' { *c = b',' } } b };
        match base {
            "out" | "outno" => { let l = format!("{}\n", argv[1.min(argv.len())..].join(" ")); wr(w, 1, l.as_bytes(), (base != "out") as i32) }
            "put" => match a(1) { Some(t) => wr(w, 1, t.as_bytes(), 0), None => St::X(0) },
            "ok" => St::X(0),
            "no" => St::X(1),
            "code" => St::X(a(1).and_then(|s| s.parse::<i32>().ok()).unwrap_or(0) & 255),
            "die" => St::X(128 + a(1).and_then(|s| s.parse().ok()).unwrap_or(9)),
            "pass" => { let b = self.read_fd(w, 0).unwrap_or_default(); wr(w, 1, &b, 0) }
            "wrap" => {
                let b = self.read_fd(w, 0).unwrap_or_default(); let b = trim(w, b);
                let mut t = a(1).unwrap_or("").as_bytes().to_vec(); t.push(b'('); t.extend(b); t.extend(b")\n"); wr(w, 1, &t, 0)
            }
            "err" => { if let Some(t) = a(1) { self.write_fd(w, 2, format!("{}\n", t).as_bytes()); } St::X(0) }
            "big" => { let n = a(1).and_then(|s| s.parse().ok()).unwrap_or(100000usize); wr(w, 1, &vec![b'b'; n], 0) }
            "fdw" => if argv.len() < 3 { St::X(2) } else { let fd = argv[1].parse().unwrap_or(0); wr(w, fd, format!("{}\n", argv[2]).as_bytes(), 0) },
            "fdr" => if argv.len() < 2 { St::X(2) } else {
                let fd = argv[1].parse().unwrap_or(0);
                if !self.fds.contains_key(&fd) { return St::X(9) }
                let b = self.read_fd(w, fd).unwrap_or_default(); let b = trim(w, b);
                let mut t = b"r(".to_vec(); t.extend(b); t.extend(b")\n"); self.write_fd(w, 1, &t); St::X(0)
            },
            _ => St::X(0),
        }
    }
    fn call(&mut self, w: &mut World, name: &str, body: Rc<List>, args: &[String]) -> Flow {
        self.arena.push(Scope::default());
        let s = self.arena.len() - 1;
        self.scopes.push(s);
        self.set_local("0", name);
        for (i, a) in args.iter().enumerate() { self.set_local(&(i + 1).to_string(), a); }
        self.depth += 1;
        let f = if self.depth > 150 { w.open = Some("deep recursion"); Next(St::Fail) } else { self.list(w, &body) };
        self.depth -= 1;
        self.scopes.pop();
        match f { Return(s) => Next(s), f => f }
    }
    fn run_text(&mut self, w: &mut World, t: &str) -> Flow {
        match parse(t) {
            Parsed::Open => { w.open = Some("syntax left open"); Next(St::Fail) }
            Parsed::Reject => Next(self.fail(w)),
            Parsed::Ok(l) => { let f = self.list(w, &l); if let Next(s) | Return(s) = f { self.status = s } f }
        }
    }
    fn run_builtin(&mut self, w: &mut World, x: &XCmd) -> Flow {
        if let Some((n, b)) = &x.func { self.define(n, b.clone()); return Next(St::X(0)) }
        if x.words.is_empty() {
            let mut st = St::X(0);
            for (n, v) in &x.assigns {
                if n.contains("::") { w.open = Some("assignment in a namespace") }
                if !self.assign(n, v) { st = self.fail(w) }
            }
            return Next(st);
        }
        let name = x.words[0].as_str();
        let a = &x.words[1..];
        if !x.assigns.is_empty() { w.open = Some("assignment before a builtin") }
        if !BUILTINS.contains(&name) {
            let b = self.func(name).unwrap();
            return self.call(w, name, b, a);
        }
        let int = |s: &String| s.parse::<i32>().ok();
        let ok = Next(St::X(0));
        match name {
            "cd" => {
                let to = match a.first() { Some(p) => p.clone(), None => match self.get("HOME") { Some(h) => h, None => return Next(self.fail(w)) } };
                let p = w.fs.path(&self.cwd, &to).unwrap_or_default();
                let good = !to.is_empty() && !w.fs.noenter.contains(&p);
                if p.is_empty() { w.open = Some("out of the scratch tree") }
                if good && w.fs.dirs.contains(&p) { self.cwd = p; ok } else { Next(self.fail(w)) }
            }
            "pwd" => { let t = format!("{}\n", self.cwd); Next(self.say(w, t.as_bytes())) }
            "exit" => match a.first() { None => Exit(self.status), Some(s) => match int(s) { Some(n) => Exit(St::X(n & 255)), None => Next(self.fail(w)) } },
            "return" => {
                if let Some(s) = a.first() { match int(s) { Some(n) => self.status = St::X(n), None => return Next(self.fail(w)) } }
                if self.depth > 0 { Return(self.status) } else { Next(self.status) }
            }
            "jobs" => { self.write_fd(w, 1, b"\x04"); ok }
            "fg" | "bg" => { if w.bg { w.open = Some("job control") } Next(self.fail(w)) }
            "alias" => {
                if a.is_empty() || a[0] == "-p" {
                    let t = bag(self.aliases.iter().map(|(k, v)| format!("alias {}='{}'\n", k, v)).collect());
                    return Next(self.say(w, &t));
                }
                for d in a { if let Some((n, v)) = d.split_once('=') { if n.is_empty() { w.open = Some("empty name") } self.aliases.insert(n.into(), v.into()); } else { w.open = Some("alias without a value") } }
                ok
            }
            "unalias" => {
                if a.len() != 1 { return Next(self.fail(w)) }
                if a[0] == "-a" { self.aliases.clear() } else if self.aliases.remove(&a[0]).is_none() { w.open = Some("unalias of an unknown name") }
                ok
            }
            "unset" => {
                let (kind, names) = match a.first().map(|s| s.as_str()) {
                    Some("-f") => ('f', &a[1..]), Some("-c") => ('c', &a[1..]), Some("-v") => ('v', &a[1..]),
                    Some(s) if s.starts_with('-') => return Next(self.fail(w)),
                    _ => ('v', a),
                };
                if names.is_empty() { return Next(self.fail(w)) }
                let mut st = St::X(0);
                for n in names {
                    match kind {
                        'f' => if let Some((ns, f)) = n.split_once("::") { if let Some(&c) = self.ctxs.get(ns) { self.arena[c].funcs.remove(f); } }
                            else if let Some(s) = self.writable().into_iter().find(|&s| self.arena[s].funcs.contains_key(n)) { self.arena[s].funcs.remove(n); },
                        'c' => { self.ctxs.remove(n); }
                        _ => {
                            let (at, n) = match n.split_once("::") { Some((ns, v)) => (self.ctxs.get(ns).copied().filter(|&c| self.arena[c].vars.contains_key(v)), v), None => (self.holder(n), n.as_str()) };
                            if let Some(s) = at {
                                if self.arena[s].vars[n].ro { st = self.fail(w); continue }
                                self.arena[s].vars.remove(n);
                                if s == self.scopes[0] { self.env.remove(n); }
                            }
                        }
                    }
                }
                Next(st)
            }
            "export" => {
                if a.is_empty() || a[0] == "-p" {
                    let t = bag(self.env.iter().map(|(k, v)| format!("{}={}\n", k, v)).collect());
                    return Next(self.say(w, &t));
                }
                if a[0] == "context" { return Next(self.export_context(w, &a[1..])) }
                let mut st = St::X(0);
                for d in a {
                    let (n, v) = match d.split_once('=') { Some((n, v)) => (n, Some(v)), None => (d.as_str(), None) };
                    if n.is_empty() { w.open = Some("empty name"); continue }
                    if let Some(v) = v { if !self.assign(n, v) { st = self.fail(w); continue } }
                    match self.holder(n) {
                        Some(s) => {
                            let v = self.arena[s].vars[n].clone();
                            if s != self.scopes[0] {
                                if !self.arena[s].isolated { self.arena[s].vars.remove(n); }
                                let z = self.scopes[0]; self.arena[z].vars.insert(n.into(), v.clone());
                            }
                            self.env.insert(n.into(), v.val);
                        }
                        None => if let Some(f) = self.func(n) { let z = self.scopes[0]; self.arena[z].funcs.insert(n.into(), f); },
                    }
                }
                Next(st)
            }
            "readonly" => {
                if a.is_empty() { return Next(self.fail(w)) }
                let mut i = 0; let mut kind = 'v'; let mut print = false;
                while i < a.len() && a[i].starts_with('-') {
                    for c in a[i].chars().skip(1) { match c { 'p' => print = true, 'f' | 'c' | 'v' => kind = c, _ => return Next(self.fail(w)) } }
                    i += 1;
                }
                if kind == 'f' || (kind == 'c' && print) { w.open = Some("readonly -f or -c"); return ok }
                if print {
                                        let mut all: BTreeMap<String, String> = BTreeMap::new();
                    for &s in &self.scopes { for (k, v) in &self.arena[s].vars { if v.ro { all.insert(k.clone(), v.val.clone()); } } }
                    for (ns, &c) in &self.ctxs { for (k, v) in &self.arena[c].vars { if v.ro { all.insert(format!("{}::{}", ns, k), v.val.clone()); } } }
                    let t = bag(all.iter().map(|(k, v)| format!("{}={}\n", k, v)).collect());
                    return Next(self.say(w, &t));
                }
                if a[i..].is_empty() { return Next(self.fail(w)) }
                let mut st = St::X(0);
                for d in &a[i..] {
                    let (n, v) = match d.split_once('=') { Some((n, v)) => (n, Some(v)), None => (d.as_str(), None) };
                    if n.is_empty() { w.open = Some("empty name"); continue }
                    if let Some((ns, n)) = n.split_once("::") {
                        let Some(&c) = self.ctxs.get(ns) else { w.open = Some("readonly in no namespace"); continue };
                        if n.is_empty() || n.contains("::") { w.open = Some("readonly in a namespace"); continue }
                        match (self.arena[c].vars.get_mut(n), v) {
                            (Some(x), v) => { if let Some(v) = v { if x.ro { st = self.fail(w); continue } x.val = v.into(); } x.ro = true }
                            (None, Some(v)) => { self.arena[c].vars.insert(n.into(), Var { val: v.into(), ro: true }); }
                            (None, None) => st = self.fail(w),
                        }
                        continue
                    }
                    if let Some(v) = v { if !self.assign(n, v) { st = self.fail(w); continue } }
                    match self.holder(n) { Some(s) => self.arena[s].vars.get_mut(n).unwrap().ro = true, None => st = self.fail(w) }
                }
                Next(st)
            }
            "eval" => { if a.is_empty() { return Next(self.fail(w)) } let t = a.join(" ") + "\n"; self.run_text(w, &t) }
            "." | "source" => {
                let Some(f) = a.first() else { return Next(self.fail(w)) };
                let Some(p) = (if f.contains('/') { w.fs.path(&self.cwd, f) } else { self.lookup(w, f).or_else(|| w.fs.path(&self.cwd, f)) }) else { return Next(self.fail(w)) };
                if w.fs.closed.contains(&p) || w.fs.noread.contains(&p) || f.is_empty() { return Next(self.fail(w)) }
                if w.fs.progs.contains(&p) || w.fs.noexec.contains(&p) { w.open = Some("source of a program"); return ok }
                let Some(t) = w.fs.files.get(&p).cloned() else { return Next(self.fail(w)) };
                let Ok(t) = String::from_utf8(t) else { return Next(self.fail(w)) };
                let saved: Vec<_> = a[1..].iter().enumerate().map(|(i, v)| { let n = (i + 1).to_string(); let o = self.set_local(&n, v); (n, o) }).collect();
                let f = self.run_text(w, &t);
                let s = *self.scopes.last().unwrap();
                for (n, o) in saved { match o { Some(v) => { self.arena[s].vars.insert(n, v); } None => { self.arena[s].vars.remove(&n); } } }
                f
            }
            "exec" => {
                let (mut empty, mut dash, mut nm, mut i) = (false, false, None, 0);
                while i < a.len() && a[i].starts_with('-') {
                    let mut ren = false;
                    for c in a[i].chars().skip(1) { match c { 'c' => empty = true, 'l' => dash = true, 'a' => ren = true, _ => return Next(self.fail(w)) } }
                    i += 1;
                    if ren { match a.get(i) { Some(v) => nm = Some(v.clone()), None => return Next(self.fail(w)) } i += 1 }
                }
                let a = &a[i..];
                if a.is_empty() { return Next(self.fail(w)) }
                let mut z = nm.unwrap_or(a[0].clone());
                if dash { z.insert(0, '-') }
                let mut argv = vec![z]; argv.extend(a[1..].iter().cloned());
                let env = if empty { BTreeMap::new() } else { self.env.clone() };
                let p = self.lookup(w, &a[0]);
                let root = !self.child;
                match p.and_then(|p| self.exec(w, &p, argv, env, root)) { Some(s) => Exit(s), None => Next(self.fail(w)) }
            }
            _ => unreachable!(),
        }
    }
    fn export_context(&mut self, w: &mut World, a: &[String]) -> St {
        let Some(d) = a.first() else { return self.fail(w) };
        let (ns, src) = match d.split_once('=') {
            Some((n, s)) => (n.to_string(), s.to_string()),
            None if d == "self" => (self.get("0").unwrap_or_default(), "self".into()),
            None => (d.clone(), d.clone()),
        };
        if src == "self" { let s = *self.scopes.last().unwrap(); self.ctxs.insert(ns, s); return St::X(0) }
        let Some(p) = w.fs.path(&self.cwd, &src) else { return self.fail(w) };
        let t = match w.fs.files.get(&p) { Some(t) if !w.fs.closed.contains(&p) && !w.fs.noread.contains(&p) && !src.is_empty() => match std::str::from_utf8(t) { Ok(t) => t.to_string(), Err(_) => return self.fail(w) }, _ => return self.fail(w) };
        let l = match parse(&t) { Parsed::Open => { w.open = Some("syntax left open"); return St::Fail } Parsed::Reject => return self.fail(w), Parsed::Ok(l) => l };
        self.arena.push(Scope { isolated: true, ..Scope::default() });
        let s = self.arena.len() - 1;
        self.scopes.push(s);
        let f = self.list(w, &l);
        self.scopes.pop();
        self.arena[s].isolated = false;
        match f { Exit(_) => { w.open = Some("exit in a context file"); } Return(_) => { w.open = Some("return in a context file"); } _ => {} }
        self.ctxs.insert(ns, s);
        St::X(0)
    }
}
