//! C03: every order in which the stages of a pipeline end, as the shell sees it.
//! The stages do their work and write their output; when each of them ends is the
//! explorer's choice at every wait of the shell.
use crate::ctl::*;
use crate::explore::*;
use crate::modes::{par, Done};
use crate::props::seqs;
use crate::run::*;
use std::cell::RefCell;

pub const NAME: &str = "orders of endings";
pub fn cfg() -> Cfg { let mut c = Cfg { setup: crate::props::C03_SETUP.iter().map(|s| s.to_string()).collect(), ..Cfg::default() }; c.files = vec![("f0".into(), "zero\n".into())]; c }

struct Base { s: Session, node: Node, rep: Report }
fn base(w: &mut Worker) -> Result<Base, String> { let (s, node, rep) = w.start()?; Ok(Base { s, node, rep }) }

/// One schedule: `pick` chooses at each wait which of the running children end there.
fn one(w: &mut Worker, b: &mut Base, line: &str, prefix: &[u32]) -> Result<(Vec<(u32, u32)>, u64, Option<&'static str>), String> {
    let Some(mut s) = b.s.snap() else { return Err("the shell is gone".into()) };
    let mut n = b.node.clone();
    w.restore(&n.fs.files.clone());
    let to = w.timeout();
    w.lines += 1;
    let mut world = crate::model::World { fs: n.fs.clone(), ..Default::default() };
    let ended = n.model.enter(&mut world, line);
    let mut got = s.line("a", "", &(w.place.sub(line) + "\n"), to);
    let mut picks: Vec<(u32, u32)> = vec![]; let mut trace = vec![];
    let mut known: Vec<i32> = b.rep.children.iter().map(|c| c.vpid).collect(); let mut running: Vec<i32> = vec![];
    let err = |e: String, t: &[String]| if t.is_empty() { e } else { format!("{} (the stages end like this: {})", e, t.join(", ")) };
    loop {
        let r = match &got { Got::Report(r) => r.clone(), _ => break };
        let new: Vec<i32> = r.children.iter().map(|c| c.vpid).filter(|v| !known.contains(v)).collect();
        if !new.is_empty() && !running.is_empty() { return Err(err(format!("the next command is started while {} of the stages before it run", running.len()), &trace)) }
        known.extend(&new);
        if r.kind != b'W' { break }
        running = r.children.iter().filter(|c| c.state == 0).map(|c| c.vpid).collect();
        let all = 1u32 << running.len().min(10);
        // a wait that blocks goes on only if something ends
        let least = (r.blocking != 0 && all > 1) as u32;
        if r.blocking != 0 && all == 1 && r.children.iter().all(|c| c.state == 3) { return Err(err("the shell waits although everything it started was collected".into(), &trace)) }
        if picks.len() > 60 { return Err(err("the shell keeps waiting".into(), &trace)) }
        let p = prefix.get(picks.len()).copied().unwrap_or(least).max(least);
        picks.push((p, all - 1));
        let mut ev = vec![];
        for (i, v) in running.iter().enumerate() { if p >> i & 1 == 1 { ev.push(*v) } }
        if !ev.is_empty() {
            trace.push(ev.iter().map(|v| format!("process {}", v - 1000)).collect::<Vec<_>>().join(" and "));
            got = s.cmd(&format!("E{}", ev.iter().map(|v| format!("f {} 0", v)).collect::<Vec<_>>().join(";")), to);
            running.retain(|v| !ev.contains(v));
            match &got { Got::Report(r) if r.kind == b'W' => {} _ => return Err(err("the shell is gone or hangs at a wait".into(), &trace)) }
        } else if !running.is_empty() { trace.push("a look with nothing new".into()) }
        got = s.cmd("G", to);
    }
    if let Got::Report(_) = &got { if !running.is_empty() { return Err(err(format!("the prompt is back while {} of the stages run", running.len()), &trace)) } }
    let r = w.judge(&mut s, &mut n, world, ended, got, &b.rep).map_err(|e| err(e, &trace))?;
    Ok((picks, r.outcome, if r.open { Some(r.why) } else { None }))
}
thread_local! { static BASE: RefCell<Option<Base>> = const { RefCell::new(None) } }
pub fn run(w: &mut Worker, line: &str) -> Result<Done, String> {
    BASE.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() || w.slow > 1 { *b = Some(base(w)?) }
        let b = b.as_mut().unwrap();
        let mut d = Done::default(); let mut prefix = vec![];
        loop {
            let (mut picks, o, open) = one(w, b, line, &prefix)?;
            d.states += 1; d.outcome ^= o.rotate_left((d.states % 60) as u32);
            if open.is_some() { d.open = open; break }
            while let Some((p, max)) = picks.last().copied() { if p < max { break } picks.pop(); }
            let Some(l) = picks.last_mut() else { break };
            l.0 += 1;
            prefix = picks.iter().map(|x| x.0).collect();
        }
        Ok(d)
    })
}
pub fn c03(cx: &Ctx, th: bool, only: Option<&str>) {
    if only.map_or(false, |o| o != NAME) { return }
    let st = ["out a", "wrap w", "code 5", "die 9", "nosuch", "g", "h", "pwd", "exit 3", "ok", "x=1", "big 70000", "eval 'wrap e'", "cd nodir"];
    let few = ["out a", "wrap w", "die 6", "g", "no", "pwd"];
    let mut v: Vec<String> = vec![];
    let tails = [" && out t || out u", " ; out n", " | wrap z >o ; wrap y <o"];
    for s in seqs(&st, 2) { for t in tails { v.push(s.join(" | ") + t) } }
    for s in seqs(if th { &st } else { &st[..7] }, 3) { v.push(s.join(" | ") + tails[0]) }
    for s in seqs(&few[..if th { 6 } else { 3 }], 4) { v.push(s.join(" | ") + tails[1]) }
    if th { for s in seqs(&few[..3], 5) { v.push(s.join(" | ") + tails[0]) } }
    for a in seqs(&few, 2) { for b in seqs(&few[..3], 2) { for j in [" ; ", " && ", " || "] { v.push(format!("{}{}{} && out t || out u", a.join(" | "), j, b.join(" | "))) } v.push(format!("k() {{ {} ; }} ; k ; out $0 | wrap k && {}", a.join(" | "), b.join(" | "))); v.push(format!("! {} && {}", a.join(" | "), b.join(" | "))) } }
    par(cx, NAME, &cfg(), &v, &|w, l| run(w, l), &|l| (vec![Item::from(l.clone())], "orders".into()));
}
