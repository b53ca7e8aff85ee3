//! The alphabets and bounds of every property decided by line exploration.
use crate::explore::*;
use crate::run::*;

fn cfg(setup: &[&str]) -> Cfg { Cfg { setup: setup.iter().map(|s| s.to_string()).collect(), ..Cfg::default() } }
fn cfgf(setup: &[&str], files: &[(&str, &str)]) -> Cfg { Cfg { files: files.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), ..cfg(setup) } }
/// all sequences of length n
pub fn seqs<T: Clone>(a: &[T], n: usize) -> Vec<Vec<T>> {
    let mut v: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n { v = v.into_iter().flat_map(|p| a.iter().map(move |x| { let mut q = p.clone(); q.push(x.clone()); q })).collect() }
    v
}
fn all<'a>(t: &[&str], w: &[&'a str]) -> Vec<String> { t.iter().flat_map(|t| w.iter().map(move |x| t.replace("%", x))).collect() }
fn it(v: Vec<String>) -> Vec<Item> { items(&v) }
/// a file holding `text`, sourced
pub fn sourced(text: &str) -> Item { Item { line: "source ./t.sh".into(), put: vec![("t.sh".into(), text.into())] } }

pub const WORDS: &[&str] = &[
    "a", "-n", "$v", "'a b'", "\"a b\"", "$q", "$s", "''", "\"\"", "'$v'", "\"$v\"", "k=v", "k='a b'", "$nope", "$e", "$d", "$m",
    "\"'\"", "'\"'", "';'", "\"|&<>\"", "'`out x`'", "'$(out x)'", "é日", "' x '", "'#'", "'a=b'", "if", "10", "x/y.z~", "$(out s)", "\"c$(out s)\"", "`out b`",
    "k=$s", "[x]:,^+?\\n",
];
const WVARS: &[&str] = &["v=val", "q=\"it's\"", "s='  a  b '", "e=''", "d='$v'", "m='$(out x);`out y`|\"z\" >f #'", "f() { out $1 $2; }", "alias al='out al'", "p=out"];

/// the shell the "quantities" plans start in
pub fn base_cfg() -> Cfg { Cfg { dirs: vec!["@/work/d".into()], ..cfgf(&["v=val", "f() { out $0 $1 ; }"], &[("f0", "zero\n"), ("g0", "one\n")]) } }

pub fn plans(id: &str, thorough: bool) -> Vec<Plan> {
    let mut v = own(id, thorough); v.extend(crate::sizes::plan(id, thorough)); v.extend(crate::kinds::plan(id, thorough)); v
}
fn own(id: &str, thorough: bool) -> Vec<Plan> {
    match id {
        "C01" => c01(thorough),
        "C02" => c02(thorough),
        "C03" => c03(thorough),
        "C04" => c04(thorough),
        "C05" => c05(thorough),
        "C06" => c06(thorough),
        "C07" => c07(thorough),
        "C08" => c08(thorough),
        "C09" => c09(thorough),
        "C10" => c10(thorough),
        "C11" => c11(thorough),
        "C16" => c16(thorough),
        "C17" => c17(thorough),
        "C18" => c18(thorough),
        "C19" => c19(thorough),
        "C20" => c20(thorough),
        _ => vec![],
    }
}

fn c01(th: bool) -> Vec<Plan> {
    let c = || cfg(WVARS);
    let w = WORDS;
    let mut v = vec![];
    let mut one = vec![];
    for n in 0..=if th { 3 } else { 2 } { for s in seqs(w, n) { one.push(format!("out {}", s.join(" "))) } }
    if !th { let few = ["a", "$v", "'a  b'", "\"a b\"", "$s", "''", "$m", "k='x y'", "'\"'", "$(out s t)", "\"`out b`\""]; for s in seqs(&few, 3) { one.push(format!("out {}", s.join(" "))) } }
    v.push(Plan::flat("words", c(), it(one)));
    // every word in every place a word can have
    let places = ["f %", "f % %", "al %", "f a %", "ok && out %", "no || out %", "ok ; out % ; out b", "! out %", "out a | wrap %", "out % | wrap w", "x=1 out %", ">f out %", "out % >f", "out >f %", "out <f0 % b",
        "x=% ; out $x", "x=% out b", "x=% ; y=$x ; out $y", "readonly x=% ; out $x", "export x=% ; out $x", "x=% ; f $x", "x=% ; out \"$(out $x)\"", "x=% ; out $x $x", "out % # c", "  out\t%  ", "out   a    %", "eval out % b", "alias z=% ; alias", "out % &",
        "$p %", "'out' %", "\"out\" %", "$(out out) %", "`out out` %", "out $(out %)", "g() { out $1 $2 ; f $2 $1 ; } ; g % b", "unset v ; out %", "code 3 % || out %", "'nosuch %'", "% a", "%"];
    v.push(Plan::flat("places", Cfg { files: vec![("f0".into(), "zero\n".into())], ..c() }, it(all(&places, w))));
    // spacing and comments
    let gaps = ["", " ", "\t", "  \t "];
    let mut sp = vec![];
    for s in seqs(&gaps, 4) { sp.push(format!("{}out{}'a b'{}b{}", s[0], if s[1].is_empty() { " " } else { s[1] }, if s[2].is_empty() { " " } else { s[2] }, s[3])) }
    for t in ["# out a", "#", "out a #b", "out a # b ; out c", "out a#b", "out '#' a #'", "out \"#\" #\"", "out a;#c", "out a &&#c", "out # ; out b", "  # c"] { sp.push(t.into()) }
    for (i, j) in [(";", ";"), ("&&", "||"), ("|", ";"), (";", "&")] { for g in gaps { for h in gaps { sp.push(format!("out a{g}{i}{h}wrap b{g}{j}{h}")); sp.push(format!("out 'a'{g}{i}{h}out \"b\"{g}{j}{h}out c")) } } }
    v.push(Plan::flat("blanks", c(), it(sp)));
    // quoted strings over an alphabet of significant characters, in both kinds of quotes
    let chars = ["a", " ", "$", "v", "'", "\"", ";", "|", "&", "#", "=", "!", "\\", "<", ">", "*", "é", "~", "-"];
    let mut qs = vec![];
    for n in 1..=if th { 4 } else { 3 } { for s in seqs(&chars, n) { let t = s.concat();
        if !t.contains('\'') { qs.push(format!("out '{}' x", t)) }
        if !t.contains('"') { qs.push(format!("out \"{}\" x", t)) } } }
    v.push(Plan::flat("quoted", c(), it(qs)));
    // characters beyond the usual ones, alone, inside words and next to the significant ones
    let odd = ["\u{feff}", "\u{200b}", "\u{ad}", "\u{301}", "\u{7f}", "\u{5}", "\u{1b}", "\u{202e}", "\u{fffd}", "\u{10ffff}", "𝄞", "ß", "İ", "ﬀ", "日本", "^", "%", "+", ",", ":", "?", "[", "]", "~", "-", "_", ".", "/", "\\"];
    let t = ["out #", "out a#b", "out #a b#", "out a #b", "out '#' \"#\"", "out 'a#b'", "out $v#", "out \"$v#\"", "out #$v", "x=# ; out $x", "x='a#b' ; out $x \"$x\"", "f # a#", "al a#b", "out $(out a#b)", "out \"`out #`\"", "out a#|wrap b#", "out a#;out #b", "out a#&&out b", "out a>f# ; wrap <f#", "eval out a#b", "g#() { out in $1 ; } ; g# x", "alias k='out a#b' ; k", "v#=1 ; out $v#", "#", "a# b", "# a", "out a#b # c#"];
    let mut pl = vec![]; for o in odd { for t in t { let l = t.replace('#', o); if balanced(&l) { pl.push(Item::from(l.clone())) } pl.push(sourced(&format!("{}\nout n\n", l))) } }
    for o in odd { for q in odd { let l = format!("out {o}{q} a{o}b{q}c '{o}{q}'"); if balanced(&l) { pl.push(Item::from(l)) } else { pl.push(sourced(&l)) } } }
    v.push(Plan::flat("odd characters", c(), pl));
    // white space of other kinds: between words where it is not quoted, kept where it is
    let ws = ["\u{a0}", "\u{85}", "\u{2028}", "\u{3000}", "\u{b}", "\u{c}", "\u{2003}"];
    let t = ["out '#'", "out 'a#b' c", "out \"a#b\"", "x='#' ; out $x \"$x\"", "out $(put 'a#b')", "f 'a#b'", "x='a#b' ; f $x"];
    let mut pl = vec![]; for o in ws { for t in t { let l = t.replace('#', o); pl.push(Item::from(l.clone())); pl.push(sourced(&format!("{}\nout n\n", l))) } }
    for o in ["\r\n", "\r", "\n", "\r\n\r\n", "\n\r", "\t\n", " \n "] { for t in t { pl.push(sourced(&format!("{}\nout n\n", t.replace('#', o)))) } }
    v.push(Plan::flat("quoted white space", c(), pl));
    // many words
    let mut pl = vec![];
    for n in 0..=if th { 60 } else { 30 } { for w in ["w", "'a b'", "$v", "$q", "''", "\"$s\"", "k=v"] { let a = vec![w; n].join(" "); let m = (0..n).map(|i| format!("w{}", i)).collect::<Vec<_>>().join(" "); for t in ["out #", "al #", "out a | wrap #", "eval out #", "out $(out #)", "f #", "x=1 out #"] { pl.push(t.replace('#', &a)); if w == "w" { pl.push(t.replace('#', &m)) } } } }
    v.push(Plan::flat("many words", c(), it(pl)));
    v
}

fn joined(ms: &[&str], ops: &[&str], n: usize) -> Vec<String> {
    let mut v = vec![];
    for m in seqs(ms, n) { for o in seqs(ops, n - 1) {
        let mut t = m[0].to_string();
        for i in 1..n { t.push_str(o[i - 1]); t.push_str(m[i]); }
        v.push(t);
    } }
    v
}

fn c02(th: bool) -> Vec<Plan> {
    let c = || cfgf(&["fok() { out in ; ok ; }", "f3() { out in ; return 3 ; out never ; }", "fno() { no ; }", "fneg() { return -1 ; }", "f256() { return 256 ; }", "readonly rv=1", "alias al='code 4'", "alias an=no", "n=no", "export ex=1"],
        &[("t0", "out in\nok\n"), ("t1", "out in\nno\n"), ("bad", "out in ;; out\n"), ("f0", "zero\n")]);
    let ms: &[&str] = &["ok", "no", "code 2", "code 255", "die 9", "die 15", "nosuch", "fok", "f3", "fno", "x=1", "cd nodir", "cd .", "unset", "unset zz", "! ok", "! no", "! nosuch", "! f3", "! cd nodir", "! x=1", "ok | no", "no | ok", "! ok | no", "nosuch | ok", "ok | nosuch", "f3 | fok", "ok | f3",
        "eval no", "eval 'no ; ok'", "eval 'ok && no'", "eval", "eval 'a ;; b'", "source nofile", "source ./t0", "source ./t1", "source ./bad", "rv=2", "out a >nodir/f", "out a >f", ">nodir/f", ">f", "ok <f0", "fok <nofile", "pwd", "al", "an", "$n", "'no'", "$(out no)", "readonly rv=3", "unset rv", "export ex=2", "fg", "bg", "alias q=ok", "unalias", "exec nosuch", "exec", "readonly nosuchv", "jobs", "x=1 no", "x=1 ok", "! ! ok", "fneg", "! fneg", "f256"];
    let few: &[&str] = &["ok", "no", "die 9", "nosuch", "f3", "fneg", "x=1", "! ok", "! no", "ok | no", "no | ok", "cd nodir", "eval no", "rv=2"];
    let ops = [" ; ", " && ", " || "];
    let tail = |v: Vec<String>| -> Vec<String> { v.into_iter().map(|t| t + " && out t || out f").collect() };
    let mut v = vec![];
    let mut l2 = tail(joined(ms, &ops, 1)); l2.extend(tail(joined(ms, &ops, 2)));
    v.push(Plan::flat("two members", c(), it(l2)));
    v.push(Plan::flat("three members", c(), it(tail(joined(if th { ms } else { few }, &ops, 3)))));
    v.push(Plan::flat("four members", c(), it(tail(joined(if th { few } else { &["ok", "no", "! no", "f3"] }, &ops, 4)))));
    v.push(Plan::flat("six members", c(), it(joined(&["ok", "no"], &ops, if th { 7 } else { 6 }))));
    // the same lists in other places
    let inner = joined(&["ok", "no", "nosuch", "f3", "! no", "cd nodir"], &ops, 2);
    let mut pl = vec![];
    for t in &inner {
        for p in ["g() { % ; } ; g && out t || out f", "eval '%' && out t || out f", "out $(% && out t || out f)", "ok | eval '%' && out t || out f", "! eval '%' && out t || out f", "%;out x&&out y", "eval '%' &", "g() { % ; return ; out never ; } ; g && out t || out f", "g() { % && return 5 ; out tail ; } ; g && out t || out f"] { pl.push(Item::from(p.replace("%", t))) }
        pl.push(sourced(&format!("{}\n", t)));
    }
    v.push(Plan::flat("in places", c(), pl));
    // newlines as separators, and after && and ||
    let nops = [" ; ", "\n", " ;\n", " && ", " || ", " &&\n", " ||\n\n", "\n\n"];
    let nl = joined(&["ok", "no", "f3", "! ok"], &nops, 3);
    let mut pl: Vec<Item> = nl.iter().map(|t| sourced(&format!("{} && out t || out f\n", t))).collect();
    pl.extend(joined(&["ok", "no", "! ok"], &nops, 3).iter().map(|t| Item::from(format!("g() {{\n{} && out t || out f\n}}\ng", t))));
    v.push(Plan::flat("newlines", c(), pl));
    // the status of the last line, as exit sees it
    let mut ex: Vec<String> = ms.iter().map(|m| format!("{} ; exit", m)).collect();
    ex.extend(joined(few, &ops, 2).into_iter().map(|t| t + " ; exit"));
    for m in ms { for t in ["% && exit 7 ; out on", "% || exit 7 ; out on", "% ; exit nonum ; out on", "f() { % ; exit 6 ; out never ; } ; f ; out never", "eval '%' ; exit"] { if !(t.contains('\'') && m.contains('\'')) { ex.push(t.replace("%", m)) } } }
    v.push(Plan::flat("exit", c(), it(ex)));
    // every status there is
    let mut pl = vec![];
    for n in -3..=260 { for t in ["code #", "k() { return # ; } ; k", "k() { code # ; } ; k", "eval 'code #'"] { if n < 0 && t.contains("code") { continue } for u in ["% && out t || out f", "! % && out t || out f", "% ; exit", "ok | % && out t || out f", "% | ok && out t || out f"] {
        // what a program gets is what the system makes of it
        if t.starts_with("k()") && u.contains("| %") { pl.push(format!("{} ; {}", &t[..t.len() - 4], u.replace('%', "k").replace('#', &n.to_string())).replace('#', &n.to_string())) }
        else if t.starts_with("k()") { pl.push(format!("{} ; {}", &t[..t.len() - 4], u.replace('%', "k")).replace('#', &n.to_string())) }
        else { pl.push(u.replace('%', t).replace('#', &n.to_string())) } } }
        pl.push(format!("exit {}", n)); pl.push(format!("k() {{ exit {} ; }} ; k", n)); pl.push(format!("no ; eval 'exit {}'", n)) }
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31] { for u in ["die # && out t || out f", "! die # && out t || out f", "die # ; exit", "die # | ok && out t || out f", "ok | die # && out t || out f", "k() { die # ; } ; k && out t || out f"] { pl.push(u.replace('#', &n.to_string())) } }
    v.push(Plan::flat("statuses", c(), it(pl)));
    v.push(Plan { name: "exit on the next line".into(), cfg: c(), levels: vec![items(ms), items(&["exit", "exit 3", "exit 256"])], ..Plan::default() });
    v
}

pub const C03_SETUP: &[&str] = &["f() { out f $1 ; }", "g() { wrap g ; }", "h() { pass | wrap h ; return 3 ; }", "alias al='wrap al'", "v='a b'", "readonly rv=1"];
fn c03(th: bool) -> Vec<Plan> {
    let c = || cfgf(C03_SETUP, &[("f0", "zero\n"), ("t0", "wrap t\n"), ("t1", "out s1\nout s2\n")]);
    let ms: &[&str] = &["out a", "pass", "wrap w", "ok", "no", "code 5", "die 9", "nosuch", "f b", "g", "h", "al", "pwd", "alias", "eval 'wrap e'", "eval 'out x ; out y'", "big 100000", "put nonl", "x=1", "exit 3", "return 2", "cd nodir", "cd /", "err e", "source ./t0", "source ./t1", "wrap i <f0", "out o >f", "pass >f", "out \"$(out s)\"", "exec out ex", "unset v", "$v", "export zz=1", "x=1 wrap p", "rv=2"];
    let few: &[&str] = &["out a", "pass", "wrap w", "no", "nosuch", "g", "f b", "big 100000", "pwd", "exit 3"];
    let pipe = [" | "];
    let mut one: Vec<String> = vec![];
    for n in 1..=2 { for t in joined(ms, &pipe, n) { for tail in [" && out t || out f", " ; out n", " | wrap z", " | wrap z >o"] { one.push(format!("{}{}", t, tail)) } } }
    let mut v = vec![Plan::flat("two stages", c(), it(one)).probe(&["out $v $x $zz"])];
    v.push(Plan::flat("three stages", c(), it(joined(if th { ms } else { &ms[..18] }, &pipe, 3).into_iter().map(|t| t + " && out t || out f").collect())));
    v.push(Plan::flat("four stages", c(), it(joined(few, &pipe, 4).into_iter().map(|t| t + " ; out n").collect())));
    let tiny: &[&str] = &["out a", "wrap w", "no", "g"];
    v.push(Plan::flat("six stages", c(), it(joined(tiny, &pipe, if th { 7 } else { 5 }))));
    // long pipelines with one stage that is not like the others
    let mut long = vec![];
    for n in (6..=if th { 24 } else { 12usize }).chain([17, 33]) { for k in ["wrap k", "no", "nosuch", "g", "big 70000", "out m", "pass >f", "err e", "wrap i <f0"] { for i in (0..n).step_by(if n > 12 { 5 } else { 1 }) {
        long.push((0..n).map(|j| if j == i { k.to_string() } else if j == 0 { "out a".into() } else if j % 3 == 1 { "pass".into() } else { format!("wrap {}", j) }).collect::<Vec<_>>().join(" | ") + " && out t || out f");
    } } }
    v.push(Plan::flat("long pipelines", c(), it(long)).probe(&["out a | wrap w"]));
    // every status a last stage can have, by every kind of stage
    let mut pl = vec![];
    for n in (-2..=9).chain(if th { 10..=200 } else { 100..=131 }).chain([137, 143, 192, 200]).chain(251..=262).chain([511, 512, 513, 1000, 65535, 65536]) { for k in ["code #", "die #", "kr", "exit #", "eval 'code #'", "eval 'exit #'", "eval kr", "kx", "kc", "kp", "source ./t.sh"] {
        if k == "die #" && ![1, 2, 3, 4, 5, 6, 7, 8, 9].contains(&n) { continue }
        if n < 0 && k.contains("code") || n < 0 && k == "kc" || n < 0 && k == "kp" { continue }
        for t in ["out a | % && out t || out f", "% | wrap w && out t || out f", "out a | % ; exit", "! out a | % ; exit", "out a | pass | % ; out n", "l() { out a | % ; } ; l ; exit"] {
            let l = t.replace('%', k).replace('#', &n.to_string());
            let def = if k.contains("kr") { format!("kr() {{ return {} ; }} ; ", n) } else if k == "kx" { format!("kx() {{ exit {} ; }} ; ", n) } else if k == "kc" { format!("kc() {{ code {} ; }} ; ", n) } else if k == "kp" { format!("kp() {{ out b | code {} ; }} ; ", n) } else { String::new() };
            let mut i = Item::from(def + &l);
            if k.starts_with("source") { i.put.push(("t.sh".into(), format!("out s\nreturn {}\n", n))) }
            pl.push(i);
        }
    } }
    v.push(Plan::flat("statuses of stages", c(), pl).probe(&["out a | wrap w"]));
    let mut pl = vec![];
    let mut inner = joined(few, &pipe, 2); inner.extend(joined(tiny, &pipe, 3));
    for t in &inner { for p in ["k() { % ; out k ; } ; k", "k() { % ; } ; out x | k | wrap z", "out \"$(%)\"", "out x | eval '%' | wrap z", "! % && out t || out f", "% | % ; out n", "% ; %", "% && %", "% &", "out `%`", "eval '%' | wrap z"] { if !(p.contains('\'') && t.contains('\'')) { pl.push(p.replace("%", t)) } } }
    v.push(Plan::flat("in places", c(), it(pl)));
    // what a stage that is a builtin does to the shell: nothing
    v.push(Plan::tree("histories", c(), items(&["x=1 | ok", "ok | x=2", "cd / | ok", "ok | cd /", "unset v | ok", "alias al=out | ok", "ok | alias q=out", "f | unalias -a", "f() { out new ; } | ok", "ok | exit 4", "exit 4 | ok", "ok | readonly v", "export v | ok", "exec out a | wrap w", "ok | return 3", "eval 'v=5' | ok", "source ./t1 | wrap w"]), 2).probe(&["out $v $x", "f 1", "al 2", "pwd", "v=z"]));
    v
}

fn c04(th: bool) -> Vec<Plan> {
    let c = || {
        let mut c = cfgf(&["n=f", "m='a b'", "fn() { out in $1 ; wrap w ; }", "alias al='out al >f'", "readonly rv=1"], &[("in", "one\ntwo\n"), ("f", "old-f-long-content\nold\n"), ("a b", "blank\n"), ("ro", "ro\n"), ("t.src", "out sourced\nwrap src\n")]);
        c.dirs = vec!["@/work/d".into()]; c.closed = vec!["cl".into()]; c
    };
    let rs: &[&str] = &[">f", ">>f", "<f", ">g", ">>g", "<in", "<nofile", ">nodir/x", ">d", "<d", ">cl", "<cl", "2>g", "2>>f", "3>g", "3<in", "0<in", "1>f", ">d/x", ">$n", ">'a b'", ">>\"a b\"", ">$m", "<$m", ">''", ">$(out g)", "> f", "5>f", "9>>g", "<\"in\"", "4<nofile", ">é"];
    let cmds: &[&str] = &["out a", "wrap w", "err e", "fdw 3 t", "fdr 3", "fn b", "pwd", "alias", "nosuch", "ok", "x=1", "cd nodir", "", "eval 'out a ; err e'", "source ./t.src", "fdw 5 t", "big 70000", "al", "rv=2", "unset", "exec nosuch", "cd d", "readonly zz=1", "exit 3 |"];
    let mut one = vec![];
    for r in rs { for k in cmds {
        for t in ["% # && out t || out f", "# % && out t || out f"] { if k.is_empty() && t.starts_with('#') { continue } let l = t.replace("%", &k.replace('|', "")).replace("#", r); one.push(l) }
    } }
    let mut v = vec![Plan::flat("one redirection", c(), it(one)).probe(&["out alive", "err alive"])];
    let mut two = vec![];
    let cm2: &[&str] = if th { cmds } else { &["out a", "wrap w", "fdw 3 t", "pwd", "fn b", "", "err e", "eval 'out a ; err e'"] };
    for r in seqs(rs, 2) { for k in cm2 { two.push(format!("{} {} {} && out t || out f", k.replace('|', ""), r[0], r[1])) } }
    v.push(Plan::flat("two redirections", c(), it(two)));
    let mut pl = vec![];
    for r in rs { for p in ["out a # | wrap w", "out a | wrap w #", "out a | wrap w # | wrap z", "out a # | wrap w # | wrap z #", "fn a # | wrap w", "out a | fn b #", "pwd # | wrap w", "# | wrap w", "out a | #", "out a # &", "fn a # &", "ok && out a # ; out b", "k() { out k # ; out l ; } ; k ; out m", "k() { out k ; wrap l ; } ; k # ; out m", "eval 'out a' # ; out b", "out $(out s #) ; out b", "out \"$(wrap w #)\"", "! out a #", "x=1 out a #", "k=2 # ; out $k", "out a # b c", "x=1 # out a", "out a ; # ; out b", "# # # out a"] { if !(p.contains('\'') && r.contains('\'')) && !(p.contains('"') && r.contains('"')) && !(p.contains("$(") && r.contains("$(")) { pl.push(p.replace("#", r)) } } }
    v.push(Plan::flat("in places", c(), it(pl)).probe(&["out alive"]));
    // files that take nothing, or lose it
    let dev = [">/dev/full", ">>/dev/full", "2>/dev/full", ">/dev/null", ">>/dev/null", "2>/dev/null", "</dev/null", ">/dev/full 2>/dev/null", ">/dev/null 2>/dev/full", ">/dev/full 2>/dev/full", "2>/dev/full >f", ">f >/dev/full", ">/dev/full >f", "3>/dev/full", "</dev/null >/dev/full"];
    let cm3 = ["out a", "wrap w", "err e", "pwd", "alias", "export -p", "readonly -p", "readonly", "jobs", "fn b", "eval pwd", "source ./t.src", "nosuch", "cd nodir", "rv=2", "x=1", "", "big 70000", "fdw 3 t", "out $(pwd)", "alias zz='1 2' ; alias", "exec nosuch", "exec", "set", "no ; alias", "out ;;"];
    let mut pl = vec![];
    for r in dev { for k in cm3 { for t in ["% # && out t || out u", "# % ; out n", "k() { % # && out t || out u ; out k ; } ; k", "% # | wrap z", "out x | % # | wrap z", "out $(% #) n", "k() { % && out t ; pwd || out u ; } ; k # && out y || out z", "% # &", "eval '% #' || out u", "! % # && out t"] { let t = t.replace('%', k).replace('#', r); if !(t.matches("$(").count() > 1) { pl.push(Item::from(t)) } } } }
    v.push(Plan::flat("devices", c(), pl).probe(&["out alive", "pwd ; err alive"]));
    // what in front of an operator is a number, and how large it can be
    let nums = ["0", "1", "2", "3", "02", "00", "+2", "-1", "-0", "+0", "1x", "x1", "1.", "1.0", "2,", "-", "+", "9", "10", "11", "63", "64", "98", "99", "100", "101", "200", "255", "1024", "2147483647", "2147483648", "99999999999", "²", "٣", "1é", "é1", "$n", "'2'", "\"1\"", "0x2", "1e1", "2:"];
    let mut pl = vec![];
    for n in nums { for t in ["out a #>f", "out #>f", "#>f out a", "out a #>>f b", "wrap w #<in", "#<in wrap w", "#>f", "out a # >f", "fdw 3 t #>g", "err e #>f #>g", "fn #>f", "pwd #>f", "out a #>f | wrap w", "out $(out a #>f)", "al #>f", "out a #>nodir/f", "eval 'out a #>f'", "k() { out a #>f ; } ; k", "exec nosuch #>f"] { if !(t.contains('\'') && n.contains('\'')) { pl.push(t.replace('#', n)) } } }
    for n in nums { for m in nums { pl.push(format!("err e {}>f {}>g", n, m)) } }
    for n in ["0", "1", "2", "3", "9", "10", "11", "12", "13", "20", "50", "98", "99"] { for m in ["0", "1", "2", "3", "10", "11", "12", "13", "20", "99"] { for t in ["fn b #>f %>g", "pwd #>f %>g", "eval 'out e ; fdw # u ; fdw % w' #>f %>g", "k() { fn c #>f ; fdw % x ; out k ; } ; k %>g ; out n", "fn b #>f %>nodir/x", "source ./t.src #>>f %>>g", "k() { fdw # i ; l #>h ; fdw # j ; } ; l() { fdw # l ; fdw % l ; } ; k #>f %>g", "#>f %>g"] { pl.push(t.replace('#', n).replace('%', m)) } } }
    v.push(Plan::flat("numbers", c(), it(pl)).probe(&["out alive", "pwd ; err alive ; fdw 3 x"]));
    // names of files, taken as they are
    let names = [" f", "f ", " f ", "  ", " ", "\t", "\tf", "f\t", "\u{a0}f", "-f", "-", "--", "~", "~x", "*", "f*", "?", "f?", "[f]", "#f", "f#", "$n", "`n`", "=f", "a=b", ";", "f;", "|", "&", "&1", ">f", "<f", "!", "%1", "+", ",", ":", "...", ".f", "f.", "é ", "F", "ff", "f/../g", "./f", "d//x", "d/../f", "\\", "f\\n", "(", "{}", "if", "1", "2", "f'", "\"f\"", "a\nb", "f\n", "\nf", "f\r", "x y  z"];
    let mut pl = vec![];
    for n in names { for q in ["'", "\""] {
        if n.contains(q) || (q == "\"" && n.contains(['$', '`'])) { continue }
        let qn = format!("{q}{n}{q}");
        for t in ["out a >#", "out a >># ; out b >>#", "err e 2># ; wrap w <#", "pwd ># ; wrap w <#", "fn b ># && wrap w <# || out u", "ok ># ; out c >f ; wrap w <#", "out a | wrap w ># | ok", "># ; out b >>#", "w=# ; out a >$w ; wrap w <$w", "k() { wrap w <# ; } ; out a ># ; k", "wrap w <# || out none", "out a ># >g", "eval pwd >>#"] {
            pl.push(sourced(&(t.replace('#', &qn) + "\nout n\n")));
        }
    } }
    v.push(Plan::flat("names", c(), pl).probe(&["out alive"]));
    let rr: &[&str] = &["out a >f", "out b >>f", "wrap w <f", "out c >g", "out d >>g <f", "wrap w <g >f", "err e 2>f", "err e 2>>g", "pwd >f", "alias >>g", ">f", ">>g", "fn x >f", "fn y >>g", "eval 'out e' >>f", "out a >nodir/f >f", "out a >f >nodir/f", "wrap w <f <g", "out a >f >g", "out a >>f | wrap w >>g", "cd d >f", "cd @/work >>f", "out z >f 2>g", "nosuch >f", "nosuch 2>g", "wrap w <f >>f", "x=1 >f", "source ./t.src >g", "exec nosuch >f", "put x >>f", "big 5000 >g", "! no >>f"];
    v.push(Plan::tree("histories", c(), items(rr), if th { 4 } else { 3 }));
    v
}

fn c05(th: bool) -> Vec<Plan> {
    let c = || cfgf(&["x=g", "f() { out $x $y ; x=f ; y=l ; out $x $y ; }", "g() { y=gy ; f ; out $x $y ; }", "h() { out $y ; }", "r() { z=$1 ; out $z $x ; }"], &[("s.sh", "x=s\ny=$x\n")]);
    let a: &[&str] = &["x=1", "x='a  b'", "x=$y", "y=2", "y=$x", "y=\"$x  $y\"", "unset x", "unset y", "unset x y", "f", "g", "h() { x=h ; unset x ; out $x ; }", "h() { unset y ; y=hh ; out $y ; f ; out $y ; }", "h", "x=a y=b", "x=p ok", "eval x=e", "eval 'y=$x'", "r $x", "x='$y'", "x=';out b'", "x='a=b'", "x=$(out $y)", "xx=1 ; x=$xx", "source ./s.sh", "y=$nope", "x=''", "h() { k() { x=k ; y=ky ; unset z ; } ; z=hz ; k ; out $x $y $z ; }", "x=' #\"`$(out p)'", "y=$x x=$y", "x=1 y=$x z=$y"];
    let mut v = vec![];
    v.push(Plan::tree("histories", c(), items(if th { &a[..24] } else { a }), if th { 4 } else { 3 }).probe(&["out $x $y $z $xx"]));
    if th { v.push(Plan::tree("histories, all commands", c(), items(a), 3).probe(&["out $x $y $z $xx", "g"])); }
    // every way of passing through nested calls
    v.push(Plan::flat("calls within calls", c(), nested(&["", "x=v#", "y=w#", "unset x", "x=$y", "export x=e#", "x=p# ok"], "out # $x $y", if th { 5 } else { 4 }, if th { 7 } else { 5 })).probe(&["out $x $y"]));
    // several in one line, with no program in between
    let ops = ["x=1", "x=$y", "y=$x", "y=\"2$x\"", "unset x", "unset y", "x=\"$x$y\"", "l", "z=$x", "m $x"];
    let mut pl = vec![];
    for n in 2..=if th { 5 } else { 4 } { for q in seqs(&ops, n) { pl.push(format!("{} ; out $x $y $z", q.join(" ; "))); if n < 4 { pl.push(format!("q() {{ {} ; }} ; q ; x=$x$y ; out $x $y $z", q.join(" ; "))); pl.push(format!("eval '{}' && y=$x && out $x $y $z", q.join(" && ").replace('"', ""))) } } }
    let mut k = c(); k.setup.extend(["l() { x=lx ; y=$x ; unset x ; w=$x ; }".to_string(), "m() { unset x ; y=\"$1$x\" ; }".to_string()]);
    v.push(Plan::flat("in one line", k, it(pl)));
    // deep chains: which of the calls assigns, which unsets, which changes
    let mut pl = vec![];
    for n in 1..=if th { 14 } else { 9usize } { for i in 0..n { for j in 0..n { for what in ["v=b", "unset v", "v=$v"] {
        let mut t = String::new();
        for k in 0..n { t += &format!("d{}() {{ {}{}{}out {} $v $x ; }} ; ", k, if k == i { "v=a ; " } else { "" }, if k == j { format!("{} ; ", what) } else { String::new() }, if k + 1 < n { format!("d{} ; ", k + 1) } else { String::new() }, k) }
        pl.push(format!("{}d0 ; out g $v", t)) } } } }
    v.push(Plan::flat("deep calls", c(), it(pl)).probe(&["out $v $x"]));
    // every value through every way of setting and using a variable
    let vals = ["a", "'a b'", "''", "' lead'", "'trail '", "'a=b'", "'=x'", "'$y'", "'`out p`'", "'$(out p)'", "'\"q\"'", "\"'q'\"", "';'", "'|'", "'&'", "'>f'", "'#c'", "'*'", "'!'", "'é日'", "'\\n'", "'  '", "'-n'", "'::'", "'x'", "'$'", "'$x'", "'${x}'", "'\t'", "'a;b|c&d'", "10", "-1"];
    let ways = ["x=% ; out $x", "x=% ; y=$x ; out $y", "x=% ; y=$x ; z=$y ; out $z $x", "x=1 y=% ; out $x $y", "y=% x=2 ; out $x $y", "export x=% ; out $x ; ok", "readonly w=% ; out $w", "x=% ok ; out $x", "r % ; out $z", "l() { q=% ; out $q ; m ; } ; m() { out $q ; q=m ; } ; l ; out $q", "eval x=% ; out $x", "x=% ; out $x $x | wrap w", "x=% ; unset x ; out $x", "x=% ; x=$x ; out $x", "x=% ; out \"$(out $x)\"", "x=% ; >$x ; out b", "x=% ; $x a", "x=$(put %) ; out $x", "x=%\nout $x", "x=% ; y=% ; out $x $y"];
    let mut pl = it(all(&ways, &vals));
    for x in ["'a\nb'", "'a\r\nb'", "'\n'", "'a\n'", "'\na'", "'\r'", "\"a\n\nb\"", "\"a\r\n$y\r\nb\"", "'a\tb'", "' \n '", "'a\n# c\nb'", "'a\nout x\nb'", "\"a\n'b'\""] { for w in ways { if !(w.contains('\'') && x.contains('\'')) && !(w.contains('"') && x.contains('"')) { pl.push(sourced(&(w.replace('%', x) + "\nout $x $y \"$z\"\n"))) } } }
    v.push(Plan::flat("values", c(), pl).probe(&["out $x $y $z"]));
    // names that are prefixes of each other, digits, underscore
    let names = ["a", "ab", "a_", "_", "a1", "A", "é", "aa"];
    let mut pl = vec![];
    for n in names { for m in names { pl.push(format!("{n}=1 ; {m}=2 ; out ${n} ${m}")); pl.push(format!("{n}=1 ; {m}=2 ; unset {n} ; out ${n} ${m}")); pl.push(format!("{n}=1 ; q() {{ {m}=2 ; out ${n} ${m} ; unset {n} ; }} ; q ; out ${n} ${m}")) } }
    for t in ["out $", "out $ a", "out $1 $9", "out $PATH", "out $HOME $TERM", "out $a$b", "out $a-b $a.b $a/b", "out $?", "out $$", "out $#", "out $@", "out \"$\""] { pl.push(t.replace("$@", "$-").into()) }
    v.push(Plan::flat("names", c(), it(pl)));
    v
}

/// chains of functions, each of which does one of `ops` before and `show` after calling the next one
fn nested(ops: &[&str], show: &str, depth: usize, few: usize) -> Vec<Item> {
    let mut pl = vec![];
    for n in 1..=depth { for s in seqs(if n < 4 { ops } else { &ops[..few] }, n) {
        let mut t = String::new();
        for (i, o) in s.iter().enumerate() {
            let k = i.to_string();
            t += &format!("d{}() {{ {}{}{} ; }} ; ", i, if o.is_empty() { String::new() } else { o.replace('#', &k) + " ; " }, if i + 1 < n { format!("d{} a{} ; ", i + 1, i) } else { String::new() }, show.replace('#', &k));
        }
        pl.push(Item::from(t + "d0 z ; " + &show.replace('#', "g")));
    } }
    pl
}

fn c06(th: bool) -> Vec<Plan> {
    let c = || cfgf(&["x=g", "y=h", "f() { x=f ; y=f ; out $x $y ; }", "p() { out $0 $1 $x ; readonly 1 ; out $1 ; source ./a.sh new ; out $1 ; }", "p2() { export 1 2=e ; readonly 1 ; source ./a.sh new other ; readonly -p ; unset 1 ; out $1 $2 ; ok ; unset 2 ; out $1 $2 ; ok ; readonly 1=z ; export 1=q ; out $1 ; }"], &[("s.sh", "x=s\ny=s\n"), ("a.sh", "out $1\n"), ("c.sh", "x=c\nreadonly y=c\n")]);
    let a: &[&str] = &["readonly x", "readonly x=r", "readonly y=2", "readonly x y", "readonly y=5 x=6", "readonly nosuch", "readonly nosuch x", "p2 a b", "x=1", "y=2", "x=1 y=3", "y=4 x=1", "x=$y", "export x=e", "export x", "export y=e x=e", "export y", "unset x", "unset y", "unset x y", "unset y x", "unset -v x", "f", "eval x=e", "eval 'y=e ; x=e'", "source ./s.sh", "x=p ok", "x=p y=q ok", "k() { readonly w=1 ; w=2 ; out $w $x ; unset w ; out $w ; } ; k", "readonly w=k ; w=2", "export context n=./c.sh", "export context m=self", "unset m::x", "p a", "x=$(x=9 ; out $x)", "x=1 | ok", "readonly -v x", "alias x=1", "x() { out fx ; }", "unset -f x"];
    let mut v = vec![Plan::tree("histories", c(), items(if th { a } else { &a[..30] }), if th { 3 } else { 2 }).probe(&["out $x $y $w $n::x", "readonly -p", "x=7 ; y=8 ; out $x $y", "ok"])];
    let core: &[&str] = &["readonly x", "readonly y=2", "x=1 y=3", "export y=e x=e", "unset x y", "f", "source ./s.sh", "x=p y=q ok", "readonly y=5 x=6", "eval x=e"];
    v.push(Plan::tree("deep", c(), items(core), if th { 5 } else { 4 }).probe(&["out $x $y", "readonly -p"]));
    // what cannot be done to one, in every place
    let at = ["rx=1", "rx='a b'", "unset rx", "unset -v rx", "readonly rx=1", "export rx=1", "export rx", "readonly rx", "rx=1 oth=2", "oth=2 rx=1", "unset oth rx", "unset rx oth", "rx=1 ok", "rx=$oth", "rx=$(out 1)", "export oth=5 rx=5", "readonly oth=5 rx=5", "rx=", "rx=1 >f", "source ./a.sh rx", "eval 'rx=1'", "alias rx=1", "unset -f rx", "unset -c rx"];
    let places = ["%", "% ; out n", "% && out t || out f", "! % && out t || out f", "eval '%'", "q() { % ; out $rx ; } ; q", "q() { q2() { % ; } ; q2 ; out $rx ; } ; q", "% | ok", "ok | %", "out $(%)", "% &", "oth=3 ; % ; out $oth"];
    let mut pl = vec![];
    for p in places { for t in at { if !(p.contains('\'') && t.contains('\'')) && !(p.contains("$(") && t.contains("$(")) { pl.push(Item::from(p.replace("%", t))) } } }
    for t in at { pl.push(sourced(&format!("{}\nout $rx\n", t))); pl.push(Item { line: "export context n=./t.sh".into(), put: vec![("t.sh".into(), format!("{}\n", t))] }) }
    let mut k = c(); k.setup.extend(["oth=o".to_string(), "readonly rx='k v'".to_string()]);
    v.push(Plan::flat("attempts", k.clone(), pl.clone()).probe(&["out $rx $oth", "readonly -p", "ok"]));
    // the variables of a namespace
    let ns: &[&str] = &["export context n=self", "export context n=./c.sh", "readonly n::x=1", "readonly n::x=2", "readonly n::x", "n::x=3", "export n::x=4", "unset n::x", "readonly n::y=5", "x=6", "readonly x=7", "out $n::x $n::y", "export context x", "q() { readonly n::x=8 ; out $n::x ; } ; q", "eval 'readonly n::x=9'"];
    v.push(Plan::tree("namespaces", c(), items(if th { ns } else { &ns[..12] }), if th { 4 } else { 3 }).probe(&["out $n::x $n::y $x", "readonly -p", "readonly n::x=z ; out $n::x"]));
    let mut k2 = c(); k2.setup.extend(["oth=o".to_string(), "export rx='k v'".to_string(), "readonly rx".to_string(), "readonly TERM".to_string()]);
    v.push(Plan::flat("attempts on an exported one", k2, pl).probe(&["out $rx $oth", "readonly -p", "ok", "TERM=2 ; unset TERM ; ok"]));
    // readonly variables of a file that is sourced or becomes a namespace, beside those of the shell
    let parts = ["x=c", "readonly x", "readonly x=d", "readonly y=e", "readonly w='f f'", "readonly -p", "out $x $y $w", "unset x", "y=2", "export x", "x=p out $x", "q() { readonly w=1 ; out $w ; readonly -p ; }\nq", "x=$x$x"];
    let mut pl = vec![];
    for n in 1..=3 { for q in seqs(if n < 3 { &parts } else if th { &parts } else { &parts[..8] }, n) { for l in ["export context n=./t.sh", "source ./t.sh", "q() { x=l ; export context n=./t.sh ; out $x ; } ; q"] { if n == 3 && l.len() > 30 { continue } pl.push(Item { line: l.into(), put: vec![("t.sh".into(), q.join("\n") + "\n")] }) } } }
    let mut k3 = c(); k3.setup.extend(["readonly x=rx".to_string()]);
    v.push(Plan::flat("files", c(), pl.clone()).probe(&["out $x $y $w $n::x $n::y", "readonly -p", "x=7 ; y=8 ; out $x $y"]));
    v.push(Plan::flat("files beside a readonly variable", k3, pl).probe(&["out $x $y $w $n::x $n::y", "readonly -p", "x=7 ; y=8 ; out $x $y", "readonly n::x=9"]));
    v
}

fn c07(th: bool) -> Vec<Plan> {
    let c = || {
        let mut c = cfgf(&["b=bb", "f() { a=fa ; ok ; }", "e() { export a=ea ; ok ; }", "l() { loc=1 ; export loc ; ok ; unset loc ; ok ; }"], &[("s.sh", "export a=s\nb=s\n")]);
        c.env = base_env(); for (k, v) in [("EV", "a=b=c"), ("EMPTY", ""), ("SP", " a  b "), ("QU", "'x' \"y\""), ("DO", "$HOME `out p` $(out p)"), ("UN", "é日")] { c.env.push((k.into(), v.into())) }
        c
    };
    let a: &[&str] = &["export a", "export a=1", "export a='2 3' b=3", "a=5", "b='x  y'", "unset a", "unset b", "a=p ok", "a=p b='q r' ok", "a=$b ok", "a=p out $a", "a=p nosuch", "a=p ok | ok", "ok | b=z ok", "f", "e", "l", "export c", "c=9", "export b", "HOME=h", "unset HOME", "export a=''", "eval a=ev", "out $(a=1 ok)", "export c=$a", "EV='k=v'", "export EV=$SP", "unset EMPTY SP", "source ./s.sh", "a=\"$b\" ok", "export PATH=@/bin", "a=p b=$a ok", "unset EV ; EV=1", "a=p b=q a=r ok"];
    let mut v = vec![Plan::tree("histories", c(), items(if th { a } else { &a[..26] }), 3).probe(&["ok"])];
    if th { v.push(Plan::tree("deep", c(), items(&["export a", "export a=1 b=2", "a=5", "b=6", "unset a", "unset b", "a=p ok", "f", "e", "export c=$a", "export b"]), 5).probe(&["ok"])); }
    v.push(Plan::flat("calls within calls", c(), nested(&["", "export x=e#", "unset x", "x=v#", "export x y", "unset x y", "x=p# ok", "y=w#"], "ok # ; out $x $y", if th { 5 } else { 4 }, if th { 7 } else { 5 })).probe(&["ok", "out $x $y"]));
    // many assignments before one command, many exported variables
    let mut pl = vec![];
    for n in 1..=if th { 40 } else { 20 } { let a = (0..n).map(|i| format!("p{}=v{}", i, i)).collect::<Vec<_>>().join(" ");
        for t in ["# ok", "# out $p0 ; ok", "# ok | ok", "# nosuch ; ok", "# ; ok", "export # ; ok", "export # ; unset p0 ; # ok ; ok", "# b=q ok ; out $b", "b=q # ok ; out $b", "e() { # ok ; ok ; } ; e", "# ok & ; ok", "out $(# ok)", "# exec ok", "export # ; p0=n ; unset p3 p1 ; ok ; exec -c ok"] { pl.push(t.replace('#', &a)) } }
    v.push(Plan::flat("many", c(), it(pl)).probe(&["ok", "out $p0 $p1"]));
    let vals = ["a", "'a b'", "''", "\"q\"", "' x '", "'a=b'", "'=x'", "'$b'", "'`out p`'", "'\"'", "\"'\"", "';|&'", "'#'", "'é日'", "$b", "$SP", "$QU", "$DO", "$nope", "$(out 's t')", "`out b`", "\"x $(out y) z\"", "a-b", "1", "'\\'"];
    let ways = ["export x=% ; ok", "x=% ; export x ; ok", "export x ; x=% ; ok", "x=1 ; export x ; x=% ; ok", "x=% ok ; ok", "x=% y=% ok ; ok", "x=% out a | y=% wrap w", "q() { x=% ok ; ok ; } ; q", "q() { export x=% ; } ; q ; ok", "eval x=% ok", "x=% ok & ; ok", "out $(x=% ok)", "export x=% y=% ; ok ; unset x ; ok", "export EV=% ; ok", "EV=% ; ok ; unset EV ; ok", "export x=% ; q() { x=2 ; ok ; } ; q ; ok", "export -p ; export x=% ; export", "x=% >f ok ; ok", "x=% nosuch ; ok", "export x=% && x=1 ok ; ok", "! x=% no && ok", "x=1 y=% x=2 ok ; ok", "x=% y=1 x=% ok", "x=% x=1 out $x", "x=1 x=% y=2 x=% y=3 ok", "x=1 y=2 x=% ; out $x $y"];
    let mut pl = vec![]; for w in ways { for x in vals { if !(w.contains("$(") && x.contains("$(")) { pl.push(w.replace("%", x)) } } }
    v.push(Plan::flat("values", c(), it(pl)).probe(&["ok", "out $x $y"]));
    // environments the shell is started with
    let odd: Vec<(&str, Vec<(&str, String)>)> = vec![
        ("bytes", vec![("V", "\u{e0ff}".into()), ("W", "a\u{e0c3}b é".into()), ("X", "\u{e080}\u{e0a0}".into())]),
        ("space", vec![("V", " a  b ".into()), ("W", "\n".into()), ("X", "a\nb\tc\r".into())]),
        ("empty", vec![("V", "".into()), ("W", "=".into()), ("X", "==a=".into())]),
        ("code", vec![("V", "$W".into()), ("W", "$(out no) `out no` ; out no".into()), ("X", "'\"\\".into())]),
        ("long", vec![("V", "v".repeat(20000)), ("W", "é日".repeat(3000)), ("X", "x ".repeat(4096))]),
        ("own", vec![("PS1", "p".into()), ("PS4", "+x".into()), ("PID", "77".into()), ("PPID", "w".into()), ("PWD", "nowhere".into()), ("OLDPWD", "old".into()), ("V", "v".into()), ("W", "w".into()), ("X", "x".into())]),
        ("names", vec![("V", "1".into()), ("v", "2".into()), ("W.x", "3".into()), ("W-y", "4".into()), ("é", "5".into()), ("_", "6".into()), ("VV", "7".into()), ("W", "8".into()), ("X", "9".into()), ("a b", "10".into()), ("context", "11".into())]),
    ];
    for (n, e) in odd {
        let mut k = c(); k.env = base_env(); for (a, b) in e { k.env.push((a.into(), b)) }
        let l: &[&str] = &["ok", "export V", "export W=1", "unset V", "V=2", "X=$V", "export X=\"$V\"", "V=p ok", "V=$W ok", "out $V $W $X", "q() { V=l ; export W ; X=$W ok ; } ; q", "ok | ok", "out $(ok) $V", "export Y=$W", "readonly V", "unset W X", "out \"$V$X\" $v $W.x $_ $é", "exec nosuch", "ok & ; ok", "source ./s.sh", "export context V=self", "y=1"];
        v.push(Plan::tree(&format!("started with {}", n), k, items(if th { l } else { &l[..20] }), if th { 3 } else { 2 }).probe(&["ok", "exec ok"]));
    }
    v
}

fn c08(th: bool) -> Vec<Plan> {
    let c = || cfgf(&["f() { out f0 $0 $1 ; }", "g() { out g0 $0 $1 $2 $3 ; no ; }", "r() { out $0 $1 $2 ; $1 $2 $3 $4 ; out $0 $1 $2 ; }", "v='p q'"], &[("s.sh", "out $0 $1 $2\nf $1\nout $1\n"), ("d.sh", "f() {\nout fd $1\n}\n\ng() {\n  f $2\n}\n")]);
    let defs: &[&str] = &["f() { out f1 $1 ; }", "f() { g $2 $1 ; out f2 $0 $1 $2 ; }", "f() { out b ; return 3 ; out never ; }", "f() { no ; }", "f() { no || return ; out t ; }", "f() { ok ; return ; out never ; }", "g() { out g1 $0 $1 $2 $3 ; return 0 ; }", "g() { f() { out inner $0 $1 ; } ; f $1 ; }", "g() { unset -f g ; out still ; }", "g() { f $1 && out t || out u ; out g2 $2 ; }", "f() { out $1 | wrap w ; }", "f() {\nout nl $1\n}", "f() { return $1 ; }", "f() { code 7 ; }", "f() { nosuch ; }", "f() { eval 'return 4' ; out never ; }", "f() { source ./s.sh in ; out after $1 ; }", "f() { return 2 | ok ; out goes on ; }", "f() { out $9 $10 $11 ; }", "f() { code 7 && ok ; }", "f() { code 7 && ok || code 8 && ok ; }", "f() { ok || no ; }", "f() { no || code 5 ; }", "source ./d.sh", "f() { out $(out s $1 ; no) ; }", "f() { x=1 ; }", "f() { ok && return 9 || out never ; out never ; }"];
    let ops: &[&str] = &["f", "f a", "f 'a b' ''", "g x y", "f $1", "f f", "g 1 ; g", "f a | wrap w", "out $(f a)", "f a >o", "! f a", "f a && out t || out u", "g && out t || out u", "unset -f f", "unset -f g", "unset f", "f=1 ; out $f", "r r f a", "r f b c", "r g 1 2", "f &", "alias f='f al'", "eval f e", "source ./s.sh p q", "f 1 2 3 4 5 6 7 8 9 10 11", "f $v", "f \"$v\" '$v'", "x=$(f a) ; out $x", "return 5 && out t || out u", "f a ; f b", "f 0 && out t || out u", "f x && out t || out u", "f2() { f $1 ; out $1 ; } ; f2 z"];
    let mut v = vec![];
    let mut both: Vec<&str> = defs.to_vec(); both.extend(ops);
    let probes = ["out $0 $1 $2", "f a b && out t || out u", "g a b && out t || out u"];
    v.push(Plan { name: "definitions and calls".into(), cfg: c(), levels: vec![items(&both), items(&both)], probes: items(&probes), ..Plan::default() });
    v.push(Plan { name: "histories".into(), cfg: c(), levels: vec![items(defs), items(if th { &both } else { defs }), items(ops)], probes: if th { items(&probes) } else { vec![] }, ..Plan::default() });
    // bodies from parts, called with different argument lists
    let parts = ["out $0 $1", "no", "return", "return 3", "g $1", "x=$1", "f2 n", "unset -f k", "eval return 4", "ok && return 6", "ok || return 6", "out a | wrap w", "exit 5 | ok", "k2() { out k2 $0 $1 ; return 8 ; } ; k2 q", "cd nodir", "! ok", "source ./t.sh u"];
    let calls = ["k && out t || out u", "k a b && out t || out u", "! k 'p q' && out t || out u", "k $v | wrap z && out t || out u", "k x & ; out n", "out $(k s) n"];
    let mut pl = vec![];
    for n in 1..=if th { 3 } else { 2 } { for b in seqs(&parts, n) { for (i, k) in calls.iter().enumerate() { if n == 3 && i > 1 { continue }
        pl.push(Item { line: format!("k() {{ {} ; }} ; {}", b.join(" ; "), k), put: vec![("t.sh".into(), "out t $0 $1\nreturn 2\nout never\n".into())] }) } } }
    // the status of a body, as exit shows it
    let m = ["ok", "no", "code 7", "! ok", "! code 7", "nosuch", "return 3", "x=1", "code 9 | code 4", "cd nodir", "f2 x"];
    for n in 1..=if th { 4 } else { 3 } { for s in joined(if n < 3 { &m } else { &m[..if n < 4 { 7 } else { 4 }] }, &[" ; ", " && ", " || "], n) { pl.push(Item::from(format!("k() {{ {} ; }} ; k ; exit", s))); if n < 3 { for t in ["k() { eval '%' ; } ; k ; exit", "k() { % ; } ; k2() { k ; } ; k2 ; exit", "k() { % ; } ; k && exit ; exit", "k() { % ; } ; k | k ; exit", "k() { % ; } ; eval k ; exit", "out $(k() { % ; } ; k) ; exit"] { pl.push(Item::from(t.replace('%', &s))) } pl.push(sourced(&format!("k() {{\n{}\n}}\nk\nexit\n", s))) } } }
    let mut kk = c(); kk.setup.push("f2() { out f2 $0 $1 ; return 1 ; }".into());
    v.push(Plan::flat("bodies", kk.clone(), pl).probe(&["out $0 $1 $x"]));
    // words as arguments
    let mut pl = vec![];
    for n in 1..=2 { for s in seqs(WORDS, n) { pl.push(format!("k {}", s.join(" "))) } }
    let mut k3 = cfg(WVARS); k3.setup.push("k() { out $0 $1 $2 ; k2 $2 $1 x ; out $1 $2 ; }".into()); k3.setup.push("k2() { out $0 $1 $2 $3 ; }".into());
    v.push(Plan::flat("arguments", k3, it(pl)).probe(&["out $0 $1"]));
    // up to thirteen arguments, and which of them a body names
    let mut pl = vec![];
    for n in 0..=13usize { let a = (1..=n).map(|i| format!("a{}", i)).collect::<Vec<_>>().join(" "); for b in ["$1 $2 $3", "$9 $10 $11", "$8$9 $1$0 $10$1", "$12 $13 $14", "\"$9 $10\" $100", "$(out $10 $1)"] { for t in ["k() { out # ; } ; k %", "k() { k2 # ; } ; k2() { out $10 $2 $1 ; } ; k % ; out $10", "k() { k2 1 2 ; out # ; } ; k2() { out # ; } ; k %", "k() { out # | wrap $10 ; } ; k %"] { pl.push(t.replace('#', b).replace('%', &a)) } }
        for b in ["out $10 $11", "out $1 $9"] { pl.push(format!("source ./n.sh {} ; {}", a, b)) } }
    let mut k4 = c(); k4.files.push(("n.sh".into(), "out $1 $9 $10 $13\nf $11 $10\n".into()));
    v.push(Plan::flat("many arguments", k4, it(pl)).probe(&["out $1 $10"]));
    v.push(Plan::flat("calls within calls", c(), nested(&["", "h() { out h# $1 ; }", "unset -f h", "h k#", "d9() { h q# ; }"], "h # ; out $0 $1", if th { 5 } else { 4 }, 5)).probe(&["h p", "d9"]));
    // definitions that are exported
    v.push(Plan::flat("exported within calls", c(), nested(&["", "h() { out h# $1 ; }", "h() { out e# $1 ; } ; export h", "export h", "unset -f h", "h k#"], "h # ; out $0 $1", if th { 5 } else { 4 }, 5)).probe(&["h p", "h() { out new ; }", "h"]));
    // calls that nest
    let mut pl = vec![];
    for d in [2, 3, 5, 10, 30] { pl.push(format!("r {} f z ; out $1", vec!["r"; d].join(" "))); let mut t = String::new(); for i in 0..d { t += &format!("n{}() {{ out {} $1 ; n{} x{} ; out $0 $1 ; }} ; ", i, i, i + 1, i) } pl.push(format!("{}n{}() {{ out end $0 $1 ; return 3 ; }} ; n0 s && out t || out u", t, d)) }
    // which of the calls in a chain returns early, and with what; a return that is in no call ends nothing
    for d in (1..=12usize).chain(if th { vec![20, 33, 64, 100] } else { vec![20, 40] }) { for i in (0..d).step_by(if d > 12 { 7 } else { 1 }) { for (k, what) in ["return 4", "return", "no ; return", "rv=2", "cd nodir || return 5", "eval 'return 6'"].iter().enumerate() {
        let mut t = String::new();
        for j in 0..d { t += &format!("n{}() {{ out {} $1 ; {}{}out after $0 $1 ; return 1{} ; out never ; }} ; ", j, j, if j + 1 < d { format!("n{} x{} ; ", j + 1, j) } else { String::new() }, if j == i { format!("{} ; ", what) } else { String::new() }, j % 10) }
        pl.push(format!("{}n0 s && out t || out u", t));
        if k < 2 { pl.push(format!("{}n0 s ; n0 v ; exit", t)); pl.push(format!("{}n0 s ; return ; out on $0 $1", t)) }
    } } }
    let mut k5 = c(); k5.setup.push("readonly rv=1".into());
    v.push(Plan::flat("nesting", k5, it(pl)).probe(&["out $0 $1", "return ; out on", "f a"]));
    // functions of a namespace
    let calls = ["n::f", "n::f a", "n::f 'a b' ''", "n::g x", "n::h 1 2", "f q", "g q", "k() { n::f $1 ; out $0 $1 ; } ; k z", "n::f a | wrap w", "out $(n::h s)", "n::r n::f m ; out $0", "export n::f", "n::f a && out t || out u", "k() { n::h in ; out $0 $1 ; return 2 ; } ; k z && out t || out u"];
    let mut k6 = c(); k6.files.push(("c.sh".into(), "f() { out cf $0 $1 $2 ; }\ng() { out cg $0 $1 ; f $1 in ; out cg $0 $1 ; return 6 ; out never ; }\nh() { n::g $1 ; f $2 ; out ch $0 $1 ; }\n".into()));
    k6.setup.push("export context n=./c.sh".into());
    v.push(Plan::tree("functions of a namespace", k6, items(&calls), if th { 3 } else { 2 }).probe(&["out $0 $1", "n::f p"]));
    v
}

fn c09(th: bool) -> Vec<Plan> {
    let c = || cfgf(&["f() { out f $1 $2 ; }", "w() { a in ; }", "v='p q'", "n=a"], &[("s.sh", "alias a='out src'\na s\n")]);
    let defs: &[&str] = &["alias a=out", "alias a='out x'", "alias a=pwd", "alias a='f k'", "alias a=b", "alias b='a y'", "alias a='a z'", "alias out='out -o'", "alias a='cd d'", "alias a='out k=v'", "alias a=''", "alias a=' '", "alias a=';'", "alias a='| out'", "alias a='out ; out b'", "alias a='  out   x  '", "alias a=out b='out two'", "alias b=out", "alias a='nosuch q'", "alias a='x=1'", "alias a='eval out'", "alias f='f al'", "alias a='source ./s.sh'", "alias a='exec nosuch'", "alias a='!'", "alias a='no'", "alias a='out #'", "alias a=$v", "alias a='out é日'", "unalias a", "unalias b", "unalias -a", "unalias", "unalias out"];
    let uses: &[&str] = &["a", "a 1", "a '2 3' $v", "b", "b 1", "a | wrap w", "out x | a", "ok && a", "a q && out t || out u", "x=1 a 5", "a >f", "! a", "out $(a s)", "eval a e", "'a'", "$n 1", "w", "out a", "alias", "alias -p", "a & ; out n", "f 1", "a1", "A", "\"a\" 2", "source ./s.sh", "a ; b ; a"];
    let mut both: Vec<&str> = defs.to_vec(); both.extend(uses);
    let mk = || { let mut k = c(); k.dirs = vec!["@/work/d".into()]; k };
    let mut v = vec![Plan { name: "definitions and uses".into(), cfg: mk(), levels: vec![items(defs), items(&both)], probes: items(&["alias", "a p", "b p", "f q"]), ..Plan::default() }];
    v.push(Plan { name: "histories".into(), cfg: mk(), levels: vec![items(defs), items(defs), items(if th { &both } else { &uses[..6] })], probes: if th { items(&["alias", "a p"]) } else { vec![] }, ..Plan::default() });
    let vals = ["'out a  b'", "out", "'a=b'", "'out x=y=z'", "\"out p\"", "'=x'", "' out'", "'out -'", "'out $'", "'é'", "'(('", "'{'", "')'", "'&&'", "'>f'", "'<f'", "'out >f'", "'out &'", "'*'", "'-p'", "'x y z'", "'alias'", "'exit 3'", "'return'", "'!'", "'if'", "'out if'", "'\\'", "$v", "$nope", "$(out out c)", "\"$(out out d)\"", "\"\"", "'\t'", "'out \t x'"];
    let ways = ["alias k=% ; k 1", "alias k=% ; alias", "alias k=% ; unalias k ; k 1 ; alias", "alias k=1 ; alias k=% ; alias", "alias k=% l=% ; l 2", "alias k=% ; k | wrap w", "alias k=% ; ok && k 1 ; out n", "alias k=% ; q() { k 1 ; } ; q", "alias k=% & ; alias", "alias k=% | ok ; alias", "alias k=% ; out $(k 1)", "alias out=% ; out 1 ; unalias out", "alias k=% ; eval k 1", "alias k=% k2=out ; unalias k ; alias ; k2 1"];
    let mut pl = vec![]; for w in ways { for x in vals { if !(w.contains("$(") && x.contains("$(")) { pl.push(w.replace("%", x)) } } }
    v.push(Plan::flat("values", mk(), it(pl)).probe(&["alias", "out n"]));
    v
}

/// Long texts in which characters of two, three and four bytes lie over the borders of all blocks of all sizes, in every
/// way they can.
pub fn long_texts(n: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..9).map(|k| format!("{}{}", "a".repeat(k), "é€𝄞".repeat(n / 9))).collect();
    for c in ["é", "€", "𝄞"] { for k in 0..c.len() { v.push(format!("{}{}", "a".repeat(k), c.repeat(n / c.len()))) } }
    v
}

fn c10(th: bool) -> Vec<Plan> {
    let c = || { let mut k = cfgf(&["v=val", "f() { out f $1 ; }", "alias al='out al'", "p=out", "d='$v'", "q='a \"b\" c'", "export ev=1"], &[("f0", "zero\n"), ("t.src", "v=src\nout sourced\n")]); k.dirs = vec!["@/work/d".into()]; k };
    let inner: &[&str] = &["out a", "out a b", "put xyz", "put ' x  y '", "put '\t'", "out", "", "ok", "no", "nosuch", "big 100000", "v=1", "cd d", "unset v", "alias z=out", "unalias -a", "export v=2", "readonly v", "exit 3", "return 2", "exec out e", "err e", "out a ; out b", "out a && no || out c", "out a | wrap w", "out a >f", "wrap w <f0", "out '$v'", "out $v", "out $d", "out $q", "$p a", "die 9", "al 1", "f 2", "pwd", "eval 'out ev ; v=9'", "source ./t.src", "out a ;; b", "|", "out '", "v=5 ; out $v", "cd d ; pwd", "out 'x;y|z'", "x=2 out pre", "out 'é日'", "out a &&", "unset ev", "! ok", "out '  '", "wrap w", "alias", "out a # c", "exec nosuch", "cd nodir", "out >nodir/f", "out '*' '>f'", "out -n", "set"];
    let pos = ["out I", "out I I", "out b I c", "x=I ; out $x", "I a", "I", "f I", "al I", "I | wrap w", "out I | wrap w", "out x | wrap I", "alias zz=I ; alias", "eval out I", "out I && out t || out u", "export y=I ; ok", "readonly y=I ; out $y", "cd I ; pwd", "y=I ok", "outno <I", "out >I.x", "k() { out I ; } ; k", "! I", "out I & ; out n", "out >f I", "out k=I", "ok ; out I ; ok", "no || out I", "no && out I", "exec nosuch I", "out # I"];
    let mut pl = vec![];
    for i in inner { for p in pos { for (o, e) in [("$(", ")"), ("`", "`")] {
        pl.push(p.replace("I", &format!("{}{}{}", o, i, e)));
    } } }
    let mut v = vec![Plan::flat("every position", c(), it(pl)).probe(&["out $v $x ; f a ; al 1 ; pwd ; alias"])];
    let dq = ["out \"I\"", "out \"a I b\"", "out \"I I\"", "out \" I\"", "x=\"I\" ; out $x", "x=\"pre I\" ; out $x", "f \"I\"", "out \"'I'\"", "out \"$v I $v\"", "y=\"I\" ok", "export y=\"I z\" ; ok", "out \"a\" \"I\"", "\"I\" a", "out \"I;I\"", "alias zz=\"I\" ; alias", "out \"I | I\" | wrap w", "out \"\tI\t\""];
    let mut pl = vec![];
    for i in inner { if i.contains('"') { continue } for p in dq { for (o, e) in [("$(", ")"), ("`", "`")] { pl.push(p.replace("I", &format!("{}{}{}", o, i, e))); } } }
    v.push(Plan::flat("inside quotes", c(), it(pl)).probe(&["out $v $x ; pwd ; alias"]));
    // texts of more than one line
    let lines: &[&str] = &["out a\nout b", "out a\n", "\nout a", "\n\nout a\n\n", "out a # c\nout b", "# c\nout b", "v=1\nout $v", "out a &&\nout b", "no ||\n\nout b", "out a ;\nout b ;\n", "no\nout '1 2'", "put 'x\ny'", "put 'x\n\n'", "put '\n\nx\n\n\n'", "out a\nexit 3\nout b", "cd d\npwd", "out\n\tb", "  out a\n  out b  ", "k() {\nout k $1\n}\nk 2", "out 'a\nb' c\nout d", "out a\n;; b", "alias z=out\nz b", "source ./t.src\nout $v", "out a &\nout b >f\nwrap w <f", "out a\nno"];
    let at = ["out I", "out \"I\"", "out b \"I\" c", "x=I ; out $x", "x=\"I\" ; out $x", "out I | wrap w", "f \"I\"", "out \"I I\"", "out I && out t || out u", "y=\"p I\" ok", "ok ; out I\nout n", "h() {\nout \"I\"\n}\nh", "alias zz=\"I\"\nalias", "eval out \"I\"", "export y=I\nok", "k() { out I ; } ; k"];
    let mut pl = vec![];
    for i in lines { for p in at { for (o, e) in [("$(", ")"), ("`", "`")] { if i.contains(')') && o == "$(" { continue } let mut s = sourced(&(p.replace("I", &format!("{}{}{}", o, i, e)) + "\n")); s.put.push(("t.src".into(), "v=src\nout sourced\n".into())); pl.push(s) } } }
    v.push(Plan::flat("several lines", c(), pl).probe(&["out $v $x", "pwd ; alias"]));
    // nested, and sequences of isolation attempts
    let mut pl = vec![];
    for i in inner { if i.contains(['`', '(']) { continue } for p in ["out $(out `I`)", "out `out $(I)`", "out \"$(out `I`)\"", "out \"`out $(I) x`\"", "out $(eval I)", "out $(f `I`)", "x=$(x=`I` ; out $x) ; out $x", "out $(out a | wrap `I`)"] { pl.push(p.replace("I", i)) } }
    v.push(Plan::flat("nested", c(), it(pl)).probe(&["out $v $x ; pwd"]));
    let eff = ["out $(v=1)", "out `cd d`", "x=$(unset v)", "out \"$(unalias -a)\"", "out `f() { out new ; }`", "`alias f=out`", "out $(export ev=2)", "out $(unset ev)", "$(readonly v)", "out $(unset -f f)", "out $(exit 4)", "out $(exec ok)", "out $(source ./t.src)", "out `export context n=self`", "x=$(out a ; v=2 ; out b)", "v=$(v=3 ; out $v)", "out $(out a >f ; wrap w <f)", "v=2", "cd d", "cd @/work", "alias al='out b'", "f() { out two $1 ; }", "unset v"];
    v.push(Plan::tree("isolation", c(), items(&eff), if th { 3 } else { 2 }).probe(&["out $v $x $n::v", "f 1", "al 2", "pwd", "v=z ; out $v"]));
    // sizes around the capacity of a pipe
    let mut pl = vec![];
    for n in [1, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 131000, 131072, 200000, 1000000, 1048577, 1500000] { for p in ["x=$(big #) ; ok", "alias zz=`big #` ; alias", "alias zz=$(big # | pass) ; alias", "alias zz=\"$(big # | pass | pass)\" ; alias", "x=`big # ; big #` ; out done"] { pl.push(p.replace("#", &n.to_string())) } }
    v.push(Plan::flat("sizes", c(), it(pl)).probe(&["out n"]));
    // characters of several bytes over every border a buffer can have
    let mut pl = vec![];
    for text in long_texts(if th { 300_000 } else { 140_000 }) { for p in ["alias zz=$(pass <t) ; alias", "alias zz=\"`pass <t`\" ; alias", "x=$(pass <t | pass) ; alias zz=$x ; alias", "alias \"zz=$(pass <t)$(out b)$(pass <t)\" ; alias"] { pl.push(Item { line: p.into(), put: vec![("t".into(), text.clone())] }) } }
    v.push(Plan::flat("characters over borders", c(), pl).probe(&["out n"]));
    v
}

fn balanced(t: &str) -> bool { crate::parse::brackets(t) == 0 && !t.contains('\n') }
fn c11(th: bool) -> Vec<Plan> {
    let c = || { let mut k = cfgf(&["v=val", "f() { out f $1 ; }", "alias al='out al'", "readonly rv=1", "e=''"], &[("f0", "zero\n"), ("u.sh", "out 'unclosed\n"), ("bin", "\u{1}\u{2}")]); k.dirs = vec!["@/work/d".into()]; k };
    let probes = ["out $v $x", "al 1 ; f 2", "pwd ; alias"];
    let mut v = vec![];
    // sequences of tokens, as a line (when the brackets match) and as a file
    let toks = ["out", "a", ";", "&", "&&", "|", "||", "(", ")", "{", "}", "<", ">", ">>", "!", "=", "$(", "`", "'", "\"", "x=1", "f", "#", "if", "$v", "\n", "2>", "*"];
    let few = ["out", ";", "&", "&&", "|", "(", ")", "{", "}", ">", "!", "x=1", "'", "\n"];
    let mut pl = vec![]; let mut seen = std::collections::HashSet::new();
    let mut add = |s: Vec<&str>, glue: &str, pl: &mut Vec<Item>| { let t = s.join(glue); if !seen.insert(t.clone()) { return } if balanced(&t) { pl.push(Item::from(t)) } else { pl.push(sourced(&t)) } };
    for n in 1..=3 { for s in seqs(&toks, n) { add(s, " ", &mut pl) } }
    for s in seqs(if th { &toks[..22] } else { &few[..11] }, 4) { add(s, " ", &mut pl) }
    if th { for s in seqs(&few[..11], 5) { add(s, " ", &mut pl) } }
    v.push(Plan::flat("token sequences", c(), pl).probe(&probes[..1]));
    let chars = ["a", " ", ";", "&", "|", "<", ">", "(", ")", "{", "}", "$", "`", "'", "\"", "=", "!", "#", "*", "\\", "1", "é", "~", "[", "]", "\t"];
    let mut pl = vec![];
    for n in 1..=3 { for s in seqs(&chars, n) { add(s, "", &mut pl) } }
    if th { for s in seqs(&chars[..20], 4) { add(s, "", &mut pl) } }
    v.push(Plan::flat("short strings", c(), pl));
    // a line that is not accepted has no effect, whatever stands before the error
    let pre = ["out a", "x=1", ">nf", "alias q=out", "cd d", "g() { ok ; }", "unset v", "out a | wrap w", "export x=1", "f 1 && out b", "out $(out s >nf)", "unalias al", "readonly v", "exec out a", "exit 3", "out a >>f0", "eval x=2", "out a & "];
    let bad = [";;", "|", "&&", "| |", "a |", "&& &&", "|| b", "'", "\"", "`", ">", "<", "> ;", "<<", ">&", "<& 1", "if", "for x", "(", ")", "}", "{", "{ out", "f( {", "f() out", "f()", "f() { }", "f() { out", "out (", "out )", "*", "${x}", "$(out", "x=", "2>", "! ! !", "!", "& &", "a & b", "=", "= a", "done", "while", "out a ; fi", "\"a'", "f() { out ; } }"];
    let mut pl = vec![];
    for p in pre { for b in bad { for t in [format!("{} ; {}", p, b), format!("{} && {}", p, b), format!("{} {}", p, b), format!("{} | {}", p, b), format!("f() {{ {} ; }} ; {}", p, b)] {
        if balanced(&t) { pl.push(Item::from(t.clone())) } pl.push(sourced(&(t.clone() + "\n"))); if !t.contains('\'') && balanced(&t) { pl.push(Item::from(format!("eval '{}'", t))) } } } }
    for b in bad { pl.push(sourced(&format!("x=1\nout a\n{}\nout b\n", b))); pl.push(sourced(&format!("{}\nout b\n", b))); pl.push(sourced(&format!("out a &\n{} # c", b))); for t in [format!("out `{}`", b), format!("out $({})", b), format!("out \"$({})\"", b), format!("{} ; x=1", b), format!("x=1 {}", b)] { if balanced(&t) { pl.push(Item::from(t)) } else { pl.push(sourced(&t)) } } }
    v.push(Plan::flat("rejected lines", c(), pl).probe(&probes));
    // bytes that are not UTF-8: U+E0xx stands for the byte xx
    let bytes = ["\u{e0ff}", "\u{e080}", "\u{e0c3}", "\u{e0e2}\u{e082}", "\u{e0f0}\u{e09f}\u{e098}", "\u{e0c0}\u{e080}", "\u{e0ed}\u{e0a0}\u{e080}", "é\u{e0a9}"];
    let mut pl = vec![];
    for b in bytes { for t in ["%", "out %", "out a ; out %", "out a%", "out '%'", "out a # %", "x=%", "out a >n%", "%%%", "f() { out % ; }", "out a | wrap %", "out $(out %)", "% out a", "alias z='%'"] { let t = t.replace('%', b); pl.push(sourced(&format!("{}\n", t))); pl.push(sourced(&format!("x=1\nout b\n{}\nout c\n", t))); pl.push(Item { line: "export context n=./t.sh".into(), put: vec![("t.sh".into(), t.clone())] }); pl.push(Item::from(t)); }
        for l in ["out $(pass <t.bin)", "x=\"$(pass <t.bin)\" ; out $x", "out `pass <t.bin` | wrap w", "pass <t.bin | pass >g", "pass <t.bin", "source ./t.bin || out no", "eval $(pass <t.bin) || out no", "alias z=`pass <t.bin` ; alias", "f $(pass <t.bin)", "ok >$(pass <t.bin)", "$(pass <t.bin)", "cd $(pass <t.bin)"] { for t in ["%", "out a\n%\nb", "a%\n"] { pl.push(Item { line: l.into(), put: vec![("t.bin".into(), t.replace('%', b))] }) } } }
    v.push(Plan::flat("bytes that are not UTF-8", c(), pl).probe(&["out alive", "f 1"]));
    // operands of builtins and of everything else
    let cmds = ["cd", "exit", "return", "jobs", "fg", "bg", "alias", "unalias", "export", "eval", "unset", "pwd", "readonly", "exec", ".", "source", "f", "nosuch", "export context", "$v", "$e", "''", "out", "al", "!"];
    let ops = ["''", "a", "-a", "-p", "-x", "-c", "-f", "-v", "-l", "--", "-", "'a='", "'=b'", "'='", "a=b", "'a::b'", "'::'", "'x::'", "1", "0", "-1", "99999999999", "1a", "%1", "$u", "d", "./f0", "./u.sh", "./bin", "é", "context", "self", "' '", "'a b'", "-pf", "1000", "/", "'$'", "'\"'"];
    let mut pl = vec![];
    for k in cmds { pl.push(k.to_string()); for n in 1..=2 { for s in seqs(&ops, n) { pl.push(format!("{} {}", k, s.join(" "))) } } }
    if th { for k in ["unset", "export", "readonly", "exec", "alias", "source", "export context"] { for s in seqs(&ops[..26], 3) { pl.push(format!("{} {}", k, s.join(" "))) } } }
    for k in cmds { for o in ["", " a", " ''", " -x", " 1"] { for p in ["# | ok", "ok | #", "# &", "out $(#)", "! #", "# && out t || out u", "q() { # ; } ; q", "# >f", "# <f0", "x=1 #", "eval #"] { pl.push(p.replace("#", &format!("{}{}", k, o))) } } }
    v.push(Plan::flat("operands", c(), it(pl)).probe(&["out alive"]));
    // size and depth
    let mut pl: Vec<Item> = vec![];
    for n in [1000usize, 4000] { for t in [format!("out {}", "a".repeat(n)), format!("out '{}'", "é".repeat(n)), format!("x={} ; x=1", "b".repeat(n)), format!("out{}", " a".repeat(n)), format!("nosuch{}", "a".repeat(n)), format!("# {}", "c".repeat(n)), format!("out >{}", "f".repeat(n)), format!("cd {}", "d/".repeat(n)), "; ".repeat(n), " ".repeat(n), "! ".repeat(n) + "ok", format!("f() {{ {} }}", "ok ; ".repeat(n / 10)), "|".repeat(n), "'".repeat(n), "\"\" ".repeat(n / 10), "$".repeat(n), "x=1 ".repeat(n / 10), ">nf ".repeat(100), "ok ; ".repeat(n / 10) + "out z", "ok && ".repeat(n / 10) + "out z", "ok || ".repeat(n / 10) + "out z"] { pl.push(Item::from(t)) } }
    for n in [10usize, 100, 250, 1000, 20000] { for t in ["(".repeat(n), "{".repeat(n), "{ ".repeat(n) + "ok" + &" ; }".repeat(n), "f() { ".repeat(n) + "ok" + &" ; }".repeat(n), ")".repeat(n), "}".repeat(n), "$(".repeat(n) + &")".repeat(n), "`".repeat(n.min(2000))] { pl.push(sourced(&t)) } }
    for t in ["f() { f ; } ; f", "f() { g ; } ; g() { f ; } ; f", "f() { eval f ; } ; f", "f() { out $(f) ; } ; ok", "source ./t.sh", "alias a=b b=a ; a ; b", "alias a=a ; a", "f() { source ./t.sh ; } ; f", "f() { f | ok ; } ; ok"] { pl.push(Item { line: t.into(), put: vec![("t.sh".into(), "source ./t.sh\n".into())] }) }
    for n in [5usize, 50] { let mut t = "ok".to_string(); for _ in 0..n { t = format!("eval {}", t) } pl.push(Item::from(t)); }
    for n in [5, 60] { pl.push(Item::from(vec!["pass"; n].join(" | "))); pl.push(Item::from(format!("out a | {} ; out n", vec!["pass"; n].join(" | ")))) }
    v.push(Plan::flat("size and depth", c(), pl).probe(&["f() { ok ; }", "out alive"]));
    // what was broken stays broken only for that line: pairs
    let l: &[&str] = &["out a ;;", "'", "cd", "cd nodir", "exit x", "return", "fg", "bg 3", "unset", "export context", "source", "nosuch", "$e", "out >nodir/f", "unset PS1", "unset HOME", "PS1=''", "unset PWD PID PPID PS2 PS4", "unset PATH ; export PATH=@/bin", "alias out=", "eval '('", "out `'`", "cd d", "unset 0", "readonly PS1", "unset -c nosuch", "readonly 0", "export 0", "jobs x", "out a | | wrap", "é", "'é", "if", "f() { nosuch ; }", "x=$x$", "exec nosuch", "alias ''=''", "export ''", "readonly ''", "HOME='' ; cd"];
    v.push(Plan::tree("pairs", c(), items(l), if th { 3 } else { 2 }).probe(&["out alive", "f 1"]));
    v
}

fn c16(th: bool) -> Vec<Plan> {
    let c = || { let mut k = cfgf(&["v=val", "f() { out f $1 ; }", "alias al=out", "export ex='e x'", "readonly rv=1"], &[("f0", "zero\n")]); k.dirs = vec!["@/work/d".into(), "@/p2".into()]; k.progs = vec!["@/p2/only2".into(), "@/work/d/rel".into()]; k };
    let opts = ["-c", "-l", "-a NAME", "-a 'n m'", "-a ''", "-cl", "-lc", "-la NAME", "-ca NAME", "-cla N", "-z", "-cz", "-a", "-c -c", "-al NM", "-a -x", "-la -NM", "-la -- "];
    let progs = ["out", "@/bin/out", "nosuch", "nodir/out", "d", "./f0", "''", "", "d/rel", "$v", "only2", "'out'", "code 7", "al"];
    let args = ["", "a 'b  c'", "-c", "-a x", "'$v' \"q\"", "k=v", "$v $ex", "'' ''"];
    let mut lines = vec![];
    for p in progs { for a in args { lines.push(format!("exec {} {}", p, a)); for o in opts { lines.push(format!("exec {} {} {}", o, p, a)) } } }
    for o in seqs(&opts, 2) { for p in ["out a", "nosuch a", "d/rel", ""] { lines.push(format!("exec {} {}", o.join(" "), p)) } }
    let probes = ["out still $v $ex", "ok | wrap w", "f 1 ; al 2", "pwd ; jobs", "out $(out s) >f0", "nosuch ; no & ", "jobs", "exec nosuch2", "ok"];
    let mut v = vec![Plan::flat("operands", c(), it(lines.clone())).probe(&probes)];
    let ex = ["exec out a", "exec -c out a", "exec -a N out 'b c'", "exec -l out", "exec nosuch", "exec", "exec -z out", "exec code 5", "exec d", "exec -cla M out $v", "exec ./f0", "exec d/rel x", "exec die 15"];
    let ways = ["#", "# ; out after", "ok && # ; out after", "no && # ; out after", "no || #", "# || out failed", "! # ; out after", "q() { # ; out in ; } ; q ; out after", "eval '# ; out in' ; out after", "# | wrap w ; out after", "out a | # ; out after", "out $(#) ; out after", "# & ; out after", "# >f ; out after", "# <f0 ; out after", "# 2>f 3>g ; out after", "# >nodir/f ; out after", "ex=2 ; #", "export nw='n w' ; #", "cd d ; #", "unset ex ; #", "alias exec2=exec ; #", "# ; #", "x=$(#) ; out $x", "out a | q() { ok ; } | # ; out after", "PATH=@/p2 ; # ; @/bin/out after", "PATH=@/p2 ; exec only2 z", "unset PATH ; # ; @/bin/out after"];
    let mut pl = vec![]; for w in ways { for e in ex { if !(w.contains('\'') && e.contains('\'')) { pl.push(Item::from(w.replace("#", e))) } } }
    for e in ex { pl.push(sourced(&format!("out a\n{}\nout b\n", e))) }
    v.push(Plan::flat("places", c(), pl).probe(&["@/bin/out still $v", "ok | wrap w", "f 1 ; al 2", "exec nosuch2"]));
    // many operands
    let mut pl = vec![];
    for n in 0..=if th { 40 } else { 20 } { let a = (0..n).map(|i| format!("w{}", i)).collect::<Vec<_>>().join(" "); for o in ["", "-c ", "-l ", "-a N ", "-cla N "] { for p in ["out", "@/bin/out", "nosuch"] { pl.push(format!("exec {}{} {}", o, p, a)); pl.push(format!("exec {}{} '' {} ''", o, p, a)); } } }
    v.push(Plan::flat("many operands", c(), it(pl)).probe(&probes[..1]));
    // failures and other commands in any order before an exec
    let h: &[&str] = &["exec nosuch a", "exec -a", "exec -z out", "exec d", "exec ./f0", "x=1 ; out $x", "export ex=3", "no | ok", "cd d", "out a >f", "ok &", "f 1", "exec >nodir/f", "exec nosuch >f", "cd @/work", "unset ex", "exec nosuch | wrap w", "out $(exec nosuch)", "exec -a N out $x", "exec -c out end", "exec -l @/bin/code 9"];
    v.push(Plan::tree("histories", c(), items(h), 3).probe(if th { &probes[..4] } else { &probes[..1] }));
    v
}

fn c17(th: bool) -> Vec<Plan> {
    let c = || { let mut k = cfgf(&["v=val", "f() { out f $1 ; }", "alias al='out al'"], &[("f0", "zero\n"), ("in.sh", "out in $1\nv=in\n")]); k.dirs = vec!["@/work/d".into()]; k };
    let parts = ["", "out a", "# c", "x=1", "out $x $v", "g() {\n  out g $1\n}", "g b", "f 1", "alias q=out", "q z", "cd d", "pwd", "no", "no && out n", "out a ; out b", "   ", "\t", "out 'b  c' \"d\" # c", "unset v", "export x", "out a | wrap w", "out `out s` $(out t)", "eval out e", "source ./in.sh i", "out a >f", "x='p q'", "! ok", "nosuch", "h() { out h1 $0 ; return 4 ; }", "h && out t || out u", "v=$x", "ok &", "wrap w <f0", "out $1 $2", "f() { out new ; }\n\n\nf", "return 3", "exit 4", "out a ;", ";", "out é日", "al k", "unset -f f", "exec nosuch"];
    let mut progs: Vec<String> = vec![];
    for p in parts { progs.push(p.into()) }
    for s in seqs(&parts, 2) { progs.push(s.join("\n")) }
    let few = ["", "out a", "x=1", "out $x", "g() {\n  out g $1\n}", "g b", "# c", "no", "return 3", "alias q=out", "q z", "cd d"];
    for s in seqs(if th { &few } else { &few[..9] }, 3) { progs.push(s.join("\n")) }
    let probes = ["out $v $x $1 $2", "al 1 ; f 2 ; g 3 ; h", "alias ; pwd"];
    let mut typed = vec![]; let mut ev = vec![]; let mut so = vec![];
    for p in &progs {
        typed.push(Item::from(p.clone()));
        for t in ["# && out t || out u"] {
            // eval: quoted whole where the text has no single quote
            if !p.contains('\'') { let l = t.replace("#", &format!("eval '{}'", p)); ev.push(if p.contains('\n') { sourced(&l) } else { Item::from(l) }) }
            for (name, arg) in [("./t.sh", ""), ("./t.sh", " A 'B C'")] {
                for end in ["\n", ""] { so.push(Item { line: t.replace("#", &format!("source {}{}", name, arg)), put: vec![("t.sh".into(), p.clone() + end)] }); if !th { break } }
            }
        }
    }
    let mut v = vec![Plan::flat("typed", c(), typed).probe(&probes), Plan::flat("eval", c(), ev).probe(&probes), Plan::flat("source", c(), so).probe(&probes)];
    // shapes of the text itself
    let mut pl = vec![];
    for p in ["out a", "g() {\nout g\n}\ng", "x=1\nout $x", "no", "return 2\nout n", "out 'q'", "", "# only", "out 'a\r\nb' \"c\r\nd\"", "x='1\r\n'\r\nout $x"] {
        for t in ["#", "#\n", "\n#", "\n\n\n#\n\n\n", "  #  ", "\t#\t\n", "# # c", "# # c\n", "\n# c\n#\n", "#;", "#;\n", " \n \n#", "#\n#", "#\n\n\n#", "# ; #", "#\n;\n#", "#\n}\n", "#\n'", "'\n#", "#\n;;", "(\n#", "#\n&&", "&& #", "#\r\n", "\r\n#\r\n", "#\r", "# c\r\n#\r\n\r\n"] {
            let x = t.replace("#", p);
            for l in ["source ./t.sh && out t || out u", ". ./t.sh", "source t.sh p q", "source @/work/t.sh", "q() { source ./t.sh $1 ; out after $1 ; } ; q z && out t || out u", "out $(source ./t.sh)", "source ./t.sh | wrap w", "source ./t.sh >o", "source ./t.sh &", "! source ./t.sh && out t || out u", "out x ; source ./t.sh ; out $x", "eval source ./t.sh", "export context n=./t.sh"] { pl.push(Item { line: l.into(), put: vec![("t.sh".into(), x.clone())] }) }
            if balanced(&x.replace('\n', " ")) && !x.contains('\'') { pl.push(sourced(&format!("eval '{}' && out t || out u", x))) }
        }
    }
    v.push(Plan::flat("shapes", c(), pl).probe(&probes));
    // files of many sizes: what stands at the end is run, and nothing else
    let mut pl = vec![];
    let mut sizes: Vec<usize> = vec![200, 1000, 20000, 40000];
    for p in [512usize, 1024, 2048, 4096, 8192, 16384, 32768, 65536] { sizes.extend([p - 1, p, p + 1]) }
    if th { sizes.extend([100_000, 131_072, 200_000]) }
    for n in sizes { for (unit, end) in [("x=1\n", "out end $x"), ("# c d\n", "out end"), ("\n", "out end"), ("          \n", "out end"), ("w='a  b'\n", "out $w ; no")] { for l in ["source ./t.sh p && out t || out u", "export context n=./t.sh", "out \"$(source ./t.sh)\""] {
        if end.len() + 1 > n { continue }
        let k = (n - end.len() - 1) / unit.len(); let mut t = unit.repeat(k); let r = n - t.len() - end.len() - 1; t = " ".repeat(r) + &t + end + "\n";
        pl.push(Item { line: l.into(), put: vec![("t.sh".into(), t)] });
    } } }
    for n in [100usize, 1000, 4090, 4096, 8190, 8192, 8200, 65530, 65536, 65600] { for t in ["out '#' b", "x='#' ; ok", "out # b", "# #\nout b", "out b # #", "ok ; ok ; ok # #\nout b"] { let t = t.to_string(); let i = t.rfind('#').unwrap(); pl.push(Item { line: "source ./t.sh && out t || out u".into(), put: vec![("t.sh".into(), format!("{}{}{}\n", &t[..i], "y".repeat(n), &t[i + 1..]))] }) } }
    v.push(Plan::flat("sizes", c(), pl).probe(&["out $1 alive"]));
    // eval joins its operands with blanks; what they hold runs
    let w = ["out", "a", "'b c'", "';'", "'out d'", "'x=1'", "\"$(out s)\"", "'$v'", "$v", "'|'", "wrap", "'>f'", "'&&'", "''", "'# c'", "'\"p  q\"'", "\"'r  s'\"", "'f'", "$(out s)"];
    let mut pl = vec![];
    for n in 1..=if th { 4 } else { 3 } { for s in seqs(&w, n) { pl.push(format!("eval {}", s.join(" "))) } }
    v.push(Plan::flat("operands of eval", c(), it(pl)).probe(&["out $v $x"]));
    // missing or odd files; arguments and nesting
    let mut pl: Vec<Item> = items(&["source nofile", "source", "source ''", "source d", "source ./d/none", ". nofile ; out n", "source nofile && out t || out u", "eval", "eval ''", "eval '' && out t || out u", "eval ' ' && out t || out u", "eval '#' && out t || out u", "source cl ; out n", "source ./cl ; out n", "source out", "source nofile a b ; out $1", "eval eval eval out a", "eval 'eval \"out a  b\"'", "eval \"eval 'out a  b'\"", "x='out p ; out q' ; eval $x", "x='y=5' ; eval $x ; out $y"]);
    for a in ["", "a", "a b", "'a b'", "'' b", "$v", "1 2 3 4 5 6 7 8 9 10 11 12"] { for p in ["out $1 $2 $3 $10", "out $1\nsource ./in.sh x y\nout $1 $2", "f $2 ; out $1", "eval 'out $1'", "k() { out $1 ; }\nk kk\nout $1", "out $(out $1)", "out $1 | wrap $2", "return 2", "no", "out $0"] { for l in ["source ./t.sh #", "q() { source ./t.sh # ; out $1 $2 ; } ; q QA QB", "source ./t.sh # ; out $1 $2", "source ./t.sh # && out t || out u"] { pl.push(Item { line: l.replace("#", a), put: vec![("t.sh".into(), p.into())] }) } } }
    let mut k = c(); k.closed = vec!["cl".into()];
    v.push(Plan::flat("files and arguments", k, pl).probe(&["out $1 $2 $3 $10 $11 $12", "f 1"]));
    // characters of several bytes over every border a buffer can have
    let mut pl = vec![];
    for text in long_texts(if th { 140_000 } else { 70_000 }) {
        let cs: Vec<char> = text.chars().collect();
        pl.push(sourced(&format!("out a\n# {}\nout z\n", text)));
        pl.push(sourced(&format!("{}\nout z\n", cs.chunks(900).map(|l| format!("out {}", l.iter().collect::<String>())).collect::<Vec<_>>().join("\n"))));
        pl.push(sourced(&format!("{}\nout $x\n", cs.chunks(400).map(|l| format!("# {}\nx='{}'", l.iter().collect::<String>(), l.iter().collect::<String>())).collect::<Vec<_>>().join("\n"))));
    }
    v.push(Plan::flat("characters over borders", c(), pl).probe(&["out n $x"]));
    v
}

fn c18(th: bool) -> Vec<Plan> {
    let c = || { let mut k = cfgf(&["x=g", "f() { out f $x ; }", "s() { loc=1 ; h() { out h $1 ; } ; export context k=self ; loc=2 ; }", "export ev=1"],
        &[("c1.sh", "x=c\ny='c y'\nf() { out cf $x $1 ; }\n"), ("c2.sh", "x=d\nz=cz\ng() { out cg $z $1 ; }\nout loading\n"), ("bad.sh", "x=b ;;\n"), ("bad2.sh", "x=b\nout 'open\n"), ("fail.sh", "x=2\nno\nnosuch\n"), ("empty.sh", ""), ("ev.sh", "ev=9\nexport ev\nexport new=1\n"), ("ro.sh", "readonly x=ro\nv=1\n"), ("nest.sh", "export context i=./c1.sh\nx=$x\nw=1\n")]); k };
    let a: &[&str] = &["export context n=./c1.sh", "export context n=./c2.sh", "export context m=./c1.sh", "export context n=nofile", "export context n=./bad.sh", "export context n=./bad2.sh", "export context n=./fail.sh", "export context e=./empty.sh", "export context n=self", "export context m=self", "s", "unset -c n", "unset -c m", "unset -c nosuch", "x=1", "unset x", "unset n::x", "unset -f n::f", "out $x $y $z", "out $n::x $n::y $n::z $n::nope", "out $m::x $k::loc $e::x", "n::f a", "m::f b", "n::nosuch", "f a", "g", "k::h 1", "out $loc $w", "y=2", "export context r=./ro.sh", "export context t=./nest.sh", "export context v=./ev.sh", "f() { out f2 $x ; }", "out $n::x | wrap w", "q=$n::y ; out $q", "n::f $n::x >o", "unset -f f", "out $t::w $i::x $t::x", "readonly x", "out $r::x $v::ev"];
    let probes = ["out $x $y $z $loc", "out $n::x $n::y $m::x $k::loc", "n::f 1 ; f 2 ; ok"];
    let mut v = vec![Plan { name: "histories".into(), cfg: c(), levels: vec![items(a), items(a), items(if th { a } else { &["export context n=./c1.sh", "export context n=./c2.sh", "export context m=self", "unset -c n", "x=1", "unset n::x", "n::f a", "f a"] })], probes: items(&probes), ..Plan::default() }];
    // what a file can hold
    let parts = ["x=c", "y='c  y'", "f() { out cf $x $1 ; }", "unset x", "out $x", "no", "nosuch", "# c", "", "cd /", "alias q=out", "export x", "export cx=1", "x=c ok", "source ./c1.sh", "eval x=ce", "g() { x=g2 ; }\ng", "export context i=./c2.sh", "unset -c n", "readonly x", "x=$(out s)", "f", "out a | wrap w", "export context i=self", "unset -f f", "ok && y=1"];
    let mut pl = vec![];
    for n in 1..=2 { for s in seqs(&parts, n) { pl.push(Item { line: "export context n=./t.sh".into(), put: vec![("t.sh".into(), s.join("\n") + "\n")] }) } }
    if th { for s in seqs(&parts[..14], 3) { pl.push(Item { line: "export context n=./t.sh".into(), put: vec![("t.sh".into(), s.join("\n") + "\n")] }) } }
    v.push(Plan::flat("files", c(), pl).probe(&["out $x $y $cx ; pwd", "out $n::x $n::y $n::cx $i::x $i::z", "n::f 1 && out t || out u", "f 2", "ok", "alias"]));
    let mut pl = vec![];
    for n in ["a", "A1", "n_", "é", "a-b", "self2", "1"] { for w in ["export context #=./c1.sh ; out $#::x ; #::f 1", "export context #=self ; y=2 ; out $#::x $#::y", "export context #=./c1.sh ; unset -c # ; out $#::x ; #::f 1", "export context #=./c1.sh ; x=2 ; out $#::x $x", "export context #=./c1.sh b=./c2.sh ; out $#::x $b::x", "q() { export context #=./c1.sh ; out $#::x $x ; } ; q ; out $#::x", "q() { x=l ; export context #=self ; y=loc ; } ; q ; out $#::x $#::y $x", "ok | export context #=./c1.sh ; out $#::x", "out $(export context #=./c1.sh ; out $#::x) $#::x", "export context #=./c1.sh & ; out $#::x", "export context #=./c1.sh && out t || out u", "export context #=nofile && out t || out u", "export context #=./bad.sh && out t || out u", "export context #=./c1.sh ; export context #=./bad.sh ; out $#::x", "export context #=./c1.sh ; export context #=./c2.sh ; out $#::x $#::y ; #::f 1", "eval 'export context #=./c1.sh' ; out $#::x", "export context", "export context #", "export context self ; out $rsh::x", "export context #= ; out n", "export context =x ; out n"] { pl.push(w.replace("#", n)) } }
    v.push(Plan::flat("names and places", c(), it(pl)).probe(&["out $x $y", "f 1"]));
    // a name that the namespace does not hold, but something else does
    let mut pl = vec![];
    for d in ["export context n=./c1.sh", "export context n=./c2.sh", "export context n=./empty.sh", "export context n=self", "ok"] { for q in ["HOME", "PATH", "TERM", "ev", "x", "y", "z", "0", "1", "loc", "n", "n::x", "", "out", "f", "self"] { for w in ["out $n::#", "q() { out $n::# ; } ; q a", "export # ; out $n::#", "#=new ; out $n::# $#", "export context m=./c2.sh ; out $n::# $m::#", "n::#", "n::# a b", "q() { loc=l ; n::# $n::# ; } ; q a", "out $nn::# $m::#"] { pl.push(Item::from(format!("{} ; {}", d, w.replace('#', q)))) } } }
    v.push(Plan::flat("what a namespace does not hold", c(), pl).probe(&["out $x $y $ev", "f 1"]));
    // names of namespaces that look like each other
    let names = ["n", "nn", "n1", "N", "m", "an", "n_"];
    let mut pl = vec![];
    for a in names { for b in names { if a == b { continue } for w in ["export context #=./c1.sh %=./c2.sh ; unset -c # ; out $#::x $%::x", "export context #=./c1.sh ; export context %=./c2.sh ; #::f 1 ; %::f 1 ; %::g 2 ; #::g 2", "export context #=./c1.sh ; export context %=self ; x=3 ; unset #::x ; out $#::x $%::x", "export context #=./c1.sh ; export context %=./c1.sh ; unset -f #::f ; %::f 1 ; #::f 2", "export context #=./c1.sh ; export context %=./c1.sh ; readonly #::x ; unset %::x ; out $#::x $%::x", "export context #=./c1.sh ; export context %=./c2.sh ; export context #=./c2.sh ; unset -c % ; out $#::x $%::x", "export context #=./c1.sh ; unset -c % ; out $#::x", "export context #=./c1.sh ; %=1 ; #=2 ; out $# $% $#::x", "export context #=./c1.sh ; #::f() { out new ; } ; #::f 1", "export context #=./c1.sh ; export context %=./c1.sh ; unset -c # % ; out $#::x $%::x"] { pl.push(w.replace('#', a).replace('%', b)) } } }
    v.push(Plan::flat("names that look alike", c(), it(pl)).probe(&["out $x $n::x $nn::x $m::x", "nn::f 1"]));
    // colons where they do not belong
    let mut pl = vec![];
    for d in ["export context n=./c1.sh", "export context n=self", "export context x=./c1.sh", "export context ''=./c1.sh", "ok"] { for q in ["n:x", "n:", ":x", ":n", "x:", ":", "n:y", "n:f", "x:y", "n.x", "n-x", "n::x::y", "n:::x", ":n::x", "n::x::", "n::", "::x", "::", "n::x:y", "n::f::g", "m::n::x", "n::n::x"] { for w in ["out $#", "#=own ; out $# $x $n::x", "#=own ; unset # ; out $# $n::x", "q() { #=l ; out $# ; } ; q ; out $# $n::x", "export #=e ; out $# $n::x", "readonly #=r ; #=2 ; out $# $n::x", "#() { out own $1 ; } ; # a ; n::f b", "# a ; n::f b", "unset # ; out $n::x $x", "unset -f # ; n::f b ; f c", "unset -c # ; out $n::x", "out \"$#\" '$#'"] {
        if q.contains("::") && (w.starts_with("#=") || w.starts_with("q()") || w.starts_with("#()") || w.contains(" #=")) { continue }
        pl.push(Item::from(format!("{} ; {}", d, w.replace('#', q))))
    } } }
    v.push(Plan::flat("colons", c(), pl).probe(&["out $x $y $n::x $n::y", "n::f 1 ; f 2"]));
    v
}

fn c19(th: bool) -> Vec<Plan> {
    let c = || { let mut k = cfgf(&["v=val", "f() { out f ; wrap w ; }", "alias al='out al >f'", "readonly rv=1"], &[("in", "zero\n"), ("bad.sh", "out ;;\n"), ("ok.sh", "out in\nok | ok\n")]); k.dirs = vec!["@/work/d".into()]; k };
    let l: &[&str] = &["out a | wrap b | wrap c", "out a >f", "wrap w <in 3<in 4>g 5>>h", "out a >nodir/f | wrap b", "out a | wrap b <nofile | wrap c", "wrap <in >f >g >nodir/x", "nosuch | nosuch2", "out a >f | nosuch", "f >f <in", "f | f >g", "f >f >nodir/f", "pwd >f", "alias >f >nodir/x", "cd nodir >f", ">f >g", ">f >nodir/g", "3>f 4<in", "out $(out a >f | wrap b)", "out `nosuch` \"$(f <in)\"", "out $(out a ;; b) >f", "x=$(big 70000) ; x=1", "out a ;;", "out a >", "source ./bad.sh >f", "source ./ok.sh >f", "source nofile >f", "eval 'out a | f >f' >g", "exec nosuch >f", "exec >f", "out a | exec out b >f", "out a | x=1 >f | f", "export context n=./ok.sh >f", "out a >f &", "f | f &", "fdw 7 x 7>f", "fdr 8 8<in", "out >cl", "out $(", "rv=2 >f", "code 3 9>f | die 9 9>>g", "f() { out f ; wrap w ; } >f", "out a >$v >'x y' >$(out z)", "jobs >f", "return >f", "unset >f <nofile", "out a | | out b", "out 2>f 1>g 0<in", "al 1", "out a | eval 'wrap b | wrap c >f'", "k() { out a | f >f ; return 2 ; out b ; } ; k >g | k"];
    let p = ["fdr 3 ; out a | wrap b", "fdw 3 x", "f | wrap y"];
    let mut v = vec![Plan::tree("pairs", c(), items(if th { l } else { l }), 2).probe(&p)];
    let few: &[&str] = &["out a | wrap b >f", "out a >nodir/f | wrap b", "f >f >nodir/f", "pwd >f", "x=$(out a | nosuch)", "out a ;; >f", "source ./bad.sh >f", "exec nosuch >f", "out a >f &", "eval 'f <nofile | f'"];
    v.push(Plan::tree("deep", c(), items(few), if th { 5 } else { 4 }).probe(&p[..1]));
    v.push(Plan::tree("triples", c(), items(if th { l } else { &l[..14] }), 3));
    // many lines in a row in one shell
    let l: Vec<&str> = l.iter().copied().filter(|t| !t.starts_with("f() {")).collect();
    // many lines in a row in one shell, in several orders
    let n = if th { 4000 } else { 700 };
    let long = [1, 3, 7, 9, 11, 13, 17, 19].iter().map(|k| (0..n).map(|i| Item::from(l[(i * k + i / l.len()) % l.len()])).filter(|x| balanced(&x.line)).collect()).collect();
    v.push(Plan::sessions("long sessions", c(), long));
    for p in v.iter_mut() { for l in p.levels.iter_mut() { l.retain(|i| balanced(&i.line)) } }
    v
}

fn c20(th: bool) -> Vec<Plan> {
    let c = || { let mut k = cfgf(&["f() { who in ; }", "g() { cd d1 ; pwd ; }", "nd=d1"], &[("f0", "zero\n"), ("who.txt", "x"), ("s.sh", "cd d1\n")]);
        k.dirs = ["@/p1", "@/p2", "@/work/d1", "@/work/d1/e", "@/work/d 2", "@/work/é", "@/home/sub", "@/p1/only2", "@/work/d1/only2", "@/p2/ok"].iter().map(|s| s.to_string()).collect();
        k.progs = ["@/p1/who", "@/p2/who", "@/p2/only2", "@/work/d1/rel", "@/work/here", "@/work/d1/who", "@/work/d 2/who", "@/p1/sub prog", "@/work/é/é", "@/home/athome"].iter().map(|s| s.to_string()).collect(); k };
    let a: &[&str] = &["PATH=@/p1:@/bin", "PATH=@/p1:@/p2:@/bin", "PATH=@/p2:@/p1:@/bin", "export PATH=@/p2:@/bin", "unset PATH", "export PATH=@/bin", "PATH=@/nodir:@/p1", "PATH=d1:@/bin", "PATH=@/p1/who:@/p2", "who a", "only2", "@/p1/who", "../p1/who", "./who", "./here b", "d1/rel", "here", "cd d1", "cd d1/e", "cd ..", "cd .", "cd", "cd @/p1", "cd nodir", "cd f0", "cd ''", "HOME=@/work/d1", "unset HOME", "cd 'd 2'", "cd $nd", "g", "f", "source ./s.sh", "cd d1 | ok", "out $(cd d1 ; pwd)", "cd ../work/./d1/../d1", "nosuch", "./nosuch", "nodir/who", "cd d1 extra", "cd /"];
    let probes = ["pwd", "who x ; only2 ; ./here ; d1/rel", "@/bin/out p"];
    let mut v = vec![Plan::tree("histories", c(), items(a), 2).probe(&probes)];
    v.push(Plan { name: "triples".into(), cfg: c(), levels: vec![items(a), items(a), items(if th { a } else { &["who a", "pwd", "cd", "cd ..", "./who", "only2 x"] })], probes: if th { items(&probes[..2]) } else { vec![] }, ..Plan::default() });
    // every order of every set of directories
    let dirs = ["@/p1", "@/p2", "@/bin", "@/nodir", "d1", "@/work/d1/", ".", "@/work/f0"];
    let mut pl = vec![];
    for n in 1..=3 { for s in seqs(&dirs, n) { for w in ["PATH=# ; who a", "PATH=# ; only2 || @/bin/out none", "export PATH=# ; cd d1 ; who ; ../here", "PATH=# ; ok ; rel"] { pl.push(w.replace("#", &s.join(":"))) } } }
    v.push(Plan::flat("search order", c(), it(pl)).probe(&["@/bin/out $PATH"]));
    // every way of naming a directory
    let comp = ["d1", "e", "..", ".", "nodir", "f0", "d 2", "é", ""];
    let mut pl = vec![];
    for n in 1..=3 { for s in seqs(&comp, n) { let p = s.join("/"); for w in ["cd '#' ; pwd ; ok", "cd '#' && @/bin/out t || @/bin/out u", "cd @/work/'#'", "'#/who' a"] { if w.contains("@/work/'") { let t = format!("cd '@/work/{}' ; pwd ; @/bin/ok", p); pl.push(t) } else { pl.push(w.replace("#", &p)) } } } }
    for d in ["-", "~", "+", "--", "-P", "-L", "~root", "$OLDPWD", "OLDPWD"] { for w in ["cd #", "cd '#'", "cd d1 ; cd #", "OLDPWD=@/p1 ; cd #", "export OLDPWD=@/p1 ; cd d1 ; cd '#'", "export CDPATH=@/p1:@/work/d1 ; cd # ; cd e", "cd # d1", "cd d1 #"] { for x in ["%", "% && @/bin/out t || @/bin/out u ; pwd"] { pl.push(x.replace('%', &w.replace('#', d))) } } }
    let mut kd = c(); kd.dirs.extend(["@/work/-".to_string(), "@/work/~".into(), "@/work/--".into()]);
    v.push(Plan::flat("directories with odd names", kd, it(pl.clone())).probe(&["pwd", "@/bin/ok"]));
    v.push(Plan::flat("directories", c(), it(pl)).probe(&["pwd", "./who z", "@/bin/ok"]));
    let mut pl = vec![];
    for k in ["who", "@/p2/who", "./here", "nosuch", "./nosuch", "d1/rel", "nodir/x", "only2", "'who'", "$nd", "'sub prog'", "@/p1/'sub prog'", "'@/p1/sub prog'", "who.txt", "../work/here", "d1/../here", "./d1/./rel", "here/", "who/"] { for w in ["# a", "# && out t || out u", "! # && out t || out u", "# | wrap w", "out a | #", "out $(#)", "# &", "cd d1 ; # ; out n", "q() { # b ; } ; q", "eval #", "x=1 # c", "# >f", "exec # z", "alias al='#' ; al"] { if !(w.contains('\'') && k.contains('\'')) { pl.push(w.replace("#", k)) } } }
    let mut k = c(); k.setup.push("PATH=@/p1:@/p2:@/bin".into());
    v.push(Plan::flat("names in places", k, it(pl)).probe(&["pwd", "out alive"]));
    // files that come to be between one lookup and the next; source looks up in the shell itself
    let mut k = c(); k.files.extend([("@/p2/lib".to_string(), "out two\n".to_string()), ("@/work/d1/lib".into(), "out d1\n".into()), ("@/work/d1/e/lib".into(), "out e\n".into())]);
    k.files.push(("@/p1/shut".into(), "out shut\n".into())); k.closed.push("@/p1/shut".into());
    let ops = ["source shut || out none", "out out here >shut", "source lib", "lib", "out out one >@/p1/lib", "out out here >lib", "out out changed >@/p2/lib", "PATH=@/p1:@/p2:@/bin", "PATH=@/bin:.:@/p2", "PATH=d1:@/p2:@/bin", "PATH=@/bin:@/work/d1:@/p2", "cd d1", "cd @/work", "cd @/p1", "who a", "export PATH=@/nodir:@/p2:.:@/bin", "out x >@/p1/fresh", "fresh", "f() { source lib ; } ; f"];
    v.push(Plan::tree("files that come to be", k, items(&ops), if th { 4 } else { 3 }).probe(&["source lib", "@/bin/out $PATH"]));
    // files of every kind in the directories that are searched
    let kinds = ["", "|big", "|link", "|text", "|empty", "dir", "file", "none"];
    let mut k = c(); k.dirs.extend(["@/a".to_string(), "@/b".into()]);
    for (i, a) in kinds.iter().enumerate() { for (j, b) in kinds.iter().enumerate() { for (d, x) in [("a", a), ("b", b)] { let n = format!("@/{}/k{}{}", d, i, j); match *x { "none" => {} "dir" => k.dirs.push(n), "file" => k.files.push((n, "x\n".into())), x => k.progs.push(n + x) } } } }
    let mut pl = vec![];
    for i in 0..kinds.len() { for j in 0..kinds.len() { for p in ["@/a:@/b:@/bin", "@/b:@/a:@/bin", "@/a", "@/nodir:@/b:@/bin:@/a", "../a:@/b:@/bin"] { for t in ["PATH=# ; % a", "PATH=# ; ! % a | ok", "PATH=# ; exec % b", "PATH=# ; cd d1 ; % ; ../a/% 1"] { pl.push(t.replace('#', p).replace('%', &format!("k{}{}", i, j))) } } } }
    v.push(Plan::flat("kinds of files", k, it(pl)).probe(&["@/bin/out alive", "pwd"]));
    // what PATH the shell is started with
    for (n, path) in [("none", None), ("empty", Some("")), ("colon", Some(":")), ("last", Some("@/no:@/bin")), ("colons", Some("::@/bin::")), ("relative", Some("d:@/bin")), ("dot", Some(".:@/bin")), ("slash", Some("@/bin/")), ("file", Some("@/work/f0:@/bin"))] {
        let mut k = base_cfg(); k.env = base_env(); k.env.retain(|x| x.0 != "PATH"); if let Some(p) = path { k.env.push(("PATH".into(), p.into())) }
        let l: &[&str] = &["out a", "nosuch", "@/bin/out $PATH", "PATH=@/bin", "export PATH", "export PATH=@/bin", "unset PATH", "PATH=@/bin out b", "f 1", "cd d", "out a | @/bin/wrap w", "q() { PATH=@/bin ; out in ; } ; q", "x=$PATH ; @/bin/out $x", "exec nosuch", "source t.sh", "@/bin/out $(out s)"];
        v.push(Plan::tree(&format!("started with PATH {}", n), k, items(l), if th { 4 } else { 3 }).probe(&["@/bin/out $PATH", "out alive"]));
    }
    v
}
