//! C11: what was refused or has failed hundreds of times in one shell leaves the next lines as they are.
use crate::explore::*;
use crate::modes::{par, Done};
use crate::run::*;

pub const NAME: &str = "again and again";
pub fn cfg() -> Cfg {
    let mut k = Cfg::default();
    k.setup = vec![];
    k.files = vec![("bad.sh".into(), "out a\nout ;;\n".into()), ("open.sh".into(), "out 'a\n".into()), ("deep.sh".into(), "source ./deep.sh\n".into()), ("f0".into(), "zero\n".into())];
    k.dirs = vec!["@/work/d".into()];
    k
}
const HEAD: &str = "f() { f ; }\ng() { h ; }\nh() { g ; }\ne() { eval e ; }\ns() { out $(s) ; }\nrv=1\nreadonly rv\nn() { no ; return 3 ; }\nw() { rv=2 ; }\nq() { cd nodir ; q2 ; }\nq2() { return x ; }\nalias la=lb lb=la\n";
const TAIL: &str = "d0() { d1 ; }\nd1() { d2 ; }\nd2() { d3 ; }\nd3() { d4 ; }\nd4() { d5 ; }\nd5() { d6 ; }\nd6() { d7 ; }\nd7() { d8 ; }\nd8() { d9 $1 ; }\nd9() { out deep ; return 7 ; out never ; }\nd0 && out never\neval eval eval eval eval eval eval eval out e\nout \"$(out s)\" | pass | pass\nout x >r ; pass <r\nok ; return ; out top\nl() { v=1 ; out $v ; }\nl\nok\nexit\n";
const WANT: &str = "deep\ne\ns\nx\ntop\n1\n";
/// lines that fail, are refused or change nothing
pub const LINES: &[&str] = &["f", "g", "e", "source ./deep.sh", "out ;;", "nosuch", "cd nodir", "rv=2", "w", "out a >nodir/x", "w >nodir/x", "f >o", "n", "q", "return", "return x", "source nofile", "source ./bad.sh", "source ./open.sh", "export context c=./bad.sh", "export context c=./deep.sh",
    "export context c=nofile", "eval ';;'", "eval w", "n | n", "w | nosuch", "f | no", "exec nosuch", "exec", "out $(w)", "out `rv=2`", "x=1 nosuch", "x=1 w", "rv=2 ok", "unset rv", "la", "export", "alias", "jobs", "fg", "bg 3", "! w", "w || n", "n && f", "code 3 >o <nofile", "ok <d", "./f0", "d", "out ;",
    "x=", "readonly rv=2", "unset -f f9", "unset -c nons", "export context c=self ; unset -c c", "l() { f ; } ; l", "l() { w ; } ; l", "l() { rv=2 ; } ; l >o", "eval 'l() { return 4 ; } ; l'", "l() { source ./bad.sh ; } ; l", "nons::f", "out $nons::x", "exit nonum x"];

fn text(h: &[String]) -> String {
    let mut t = HEAD.to_string();
    let n: usize = h[0].parse().unwrap_or(1);
    for _ in 0..n { for l in &h[1..] { t += l; t.push('\n') } }
    t + TAIL
}
pub fn run(w: &mut Worker, h: &[String]) -> Result<Done, String> {
    let init = w.initial_files(); w.restore(&init);
    if let Some(n) = h[0].strip_prefix("long ") { return long(w, n.parse().unwrap_or(1), &h[1], &h[2]) }
    let t = text(h); let lines = t.lines().count() as u64;
    let Some((out, st, _, err)) = w.limited(&t, 256) else { return Err("the shell does not end".into()) };
    if !out.ends_with(WANT.as_bytes()) { let n = out.len().saturating_sub(200); return Err(format!("the lines at the end print {:?} instead of {:?}; messages end with {:?}", String::from_utf8_lossy(&out[n..]), WANT, String::from_utf8_lossy(&err[err.len().saturating_sub(200)..]))) }
    if st != 0 { return Err(format!("the shell ends with {} instead of 0", st)) }
    Ok(Done { states: lines, lines, traces: 1, outcome: out.len() as u64 * 31 + err.len() as u64, ..Done::default() })
}
/// One line of n characters, typed and in a file; what it and the next one print.
const LONG: &[(&str, &str)] = &[("x='§' ; out a", "a\n"), ("x=\"§\" ; x=1 ; out $x", "1\n"), ("out a # §", "a\n"), ("# §", ""), ("out a%", "a\n"), ("out 'a'% ; out b", "a\nb\n"), ("nosuch§", ""), ("'§'", ""), ("out a ;; '§'", ""), ("out a+", "a\n"), ("out c <§", ""), ("cd '§' || out d", "d\n"), ("k() { x='§' ; out k ; } ; k", "k\n"),
    ("eval 'x=§ ; out e'", "e\n"), ("rv=§ ; out v", "v\n"), ("alias z='§' ; out z", "z\n"), ("unset x§ ; out u", "u\n"), ("export context c=§ || out c", "c\n"), ("source ./§ || out s", "s\n"), ("out $(put '§' | pass >o) p", " p\n")];
fn long(w: &mut Worker, n: usize, t: &str, want: &str) -> Result<Done, String> {
    let pad = n.saturating_sub(t.len() - 1).max(1);
    let line = t.replace('§', &"a".repeat(pad)).replace('%', &" ".repeat(pad)).replace('+', &" ; x=1".repeat((pad / 6).max(1)));
    for typed in [true, false] {
        let mut init = w.initial_files();
        init.insert("@/work/t.sh".into(), format!("{}\nout i\n", line).into_bytes());
        w.restore(&init);
        let (text, exp) = if typed { (format!("{}\nout n\nexit\n", line), format!("{}n\n", want)) } else { ("source ./t.sh\nout n\nexit\n".to_string(), format!("{}i\nn\n", want)) };
        let exp = if !typed && t.contains(";;") { "n\n".to_string() } else { exp };
        let Some((out, st, _, err)) = w.limited(&text, 256) else { return Err(format!("the shell does not end ({})", if typed { "typed" } else { "in a file" })) };
        if out != exp.as_bytes() || st != 0 { return Err(format!("{}: it prints {:?} and ends with {} instead of {:?} and 0; messages end with {:?}", if typed { "typed" } else { "in a file" }, String::from_utf8_lossy(&out[..out.len().min(300)]), st, exp, String::from_utf8_lossy(&err[err.len().saturating_sub(100)..]))) }
    }
    Ok(Done { states: 2, lines: 4, traces: 2, outcome: n as u64 * 31 + t.len() as u64, ..Done::default() })
}
pub fn plan(cx: &Ctx, th: bool, only: Option<&str>) {
    if only.map_or(false, |o| o != NAME) || cx.done() { return }
    let mut v: Vec<Vec<String>> = vec![];
    for l in LINES { for n in if th { vec![1usize, 40, 270, 1100] } else { vec![270] } { v.push(vec![n.to_string(), l.to_string()]) } }
    for a in LINES.iter().take(if th { LINES.len() } else { 12 }) { for b in LINES { if a != b { v.push(vec![if th { "230" } else { "40" }.into(), a.to_string(), b.to_string()]) } } }
    let mut sizes = vec![100usize, 1000, 10000, 100_000];
    for p in if th { 8..=20 } else { 12..=18 } { sizes.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]) }
    for n in sizes { for (t, want) in LONG { v.push(vec![format!("long {}", n), t.to_string(), want.to_string()]) } }
    par(cx, NAME, &cfg(), &v, &|w, h| run(w, h), &|h| (h.iter().map(|l| Item::from(l.clone())).collect(), NAME.into()));
}
