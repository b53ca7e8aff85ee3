//! "quantities": for every kind of thing a property speaks of, lines and files that hold n of them, for every n up to a
//! bound and on both sides of the sizes where a fixed buffer, counter or table would show.
use crate::explore::*;
use crate::props::{sourced, base_cfg};

fn ns(max: usize, th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=12).collect();
    v.extend([15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]);
    if th { v.extend((13..=70).chain([199, 200, 201, 300, 500, 511, 512, 513, 1000])); v.sort(); v.dedup() }
    v.retain(|n| *n <= max); v
}
fn rep(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String { (1..=n).map(f).collect::<Vec<_>>().join(sep) }
fn wrap(n: usize, open: &str, mid: &str, close: &str) -> String { format!("{}{}{}", open.repeat(n), mid, close.repeat(n)) }

/// texts of one property, and the lines run after each
fn texts(id: &str, th: bool) -> (Vec<String>, Vec<String>, &'static [&'static str]) {
    let (mut typed, mut files) = (vec![], vec![]);
    let probes: &[&str] = match id {
        "C01" => {
            for n in ns(if th { 1000 } else { 300 }, th) {
                let long = "x".repeat(n);
                typed.push(format!("out {}", rep(n, " ", |i| format!("w{i}"))));
                typed.push(format!("out {}", rep(n, " ", |i| if i % 2 == 0 { "$v".into() } else { format!("'{i} {i}'") })));
                typed.push(format!("out {}", rep(n, " ", |_| "''".into())));
                typed.push(format!("out a{}b", " ".repeat(n)));
                typed.push(format!("out {long} '{long}' \"{long}\" z"));
                typed.push(format!("out \"{}\" z", rep(n, " ", |_| "$v".into())));
                typed.push(format!("out '{}' z", " ".repeat(n)));
                typed.push(format!("out \"{}\" z", rep(n, "", |i| if i % 3 == 0 { "$v".into() } else { "é".into() })));
                typed.push(format!("out a # {}", "c ".repeat(n)));
                files.push(format!("{}out a\n{}out b\n", "\n".repeat(n), " \n".repeat(n)));
                files.push(format!("{}\nout z\n", rep(n, "\n", |i| format!("out l{i} # {i}"))));
            }
            &["out $v n"]
        }
        "C02" => {
            for n in ns(if th { 300 } else { 129 }, th) {
                for (a, op) in [("ok", " && "), ("no", " || "), ("no", " && "), ("ok", " || "), ("ok", " ; "), ("no", " ; ")] { typed.push(format!("{} && out t || out u", rep(n, op, |_| a.into()))) }
                typed.push(format!("{} ; out s", rep(n, " && ", |i| if i == n { "no".into() } else { "ok".into() })));
                typed.push(format!("{} && out t", rep(n, " || ", |i| if i == n { "ok".into() } else { "no".into() })));
                typed.push(format!("out a{} && out b", rep(n, "", |i| if i % 2 == 0 { " && ok".into() } else { " || no".into() })));
                typed.push(format!("{} || out u", rep(n, " ; ", |i| format!("code {}", i % 256))));
                files.push(format!("{}\nout z\n", rep(n, "\n", |i| if i % 2 == 0 { format!("ok && out e{i}") } else { format!("no || out o{i}") })));
                files.push(format!("{} || out u\n", rep(n, " &&\n", |_| "ok".into())));
            }
            &["out n"]
        }
        "C04" => {
            for n in ns(if th { 128 } else { 101 }, th) {
                typed.push(format!("out a {} ; out n", rep(n, " ", |i| format!(">f{i}"))));
                typed.push(format!("out a {} ; out n", rep(n, " ", |_| ">>f".into())));
                typed.push(format!("wrap w {} ; out n", rep(n, " ", |i| format!("<{}", if i == n { "f0" } else { "g0" }))));
                typed.push(format!("pwd {} ; out n", rep(n, " ", |i| format!(">f{i}"))));
                typed.push(format!("fdw {} x {} ; out n", n + 2, rep(n, " ", |i| format!("{}>f{i}", i + 2))));
                typed.push(format!("k() {{ out in ; err e ; fdw {} y ; }} ; k {} ; out n", n + 2, rep(n, " ", |i| format!("{}>>f{i}", i + 2))));
                typed.push(format!("{} ; out n", rep(n, " ; ", |i| format!("out l{i} >>f"))));
                typed.push(format!("{} ; out n", rep(n, " ; ", |i| format!("pwd >{}", if i % 2 == 0 { "nodir/f" } else { "g" }))));
                typed.push(format!("out a >{} ; out n", "n".repeat(n)));
                typed.push(format!("out a >{}f ; out n", "./".repeat(n)));
                typed.push(format!("out a {} >nodir/f ; out n", rep(n, " ", |i| format!(">f{i}"))));
                typed.push(format!("{} ; out n", rep(n, " ; ", |i| format!("k{i}() {{ {} ; pwd ; }}", if i == 1 { "out deep".into() } else { format!("k{} >>h{i}", i - 1) })) + &format!(" ; k{n} >top")));
            }
            &["out alive", "fdw 3 q", "pwd"]
        }
        "C05" => {
            for n in ns(if th { 513 } else { 257 }, th) {
                let long = "x".repeat(n);
                typed.push(format!("{} ; out {}", rep(n, " ; ", |i| format!("p{i}=v{i}")), rep(n, " ", |i| format!("$p{i}"))));
                typed.push(format!("{} ; {} ; out {}", rep(n, " ; ", |i| format!("p{i}=v{i}")), rep(n, " ; ", |i| if i % 2 == 0 { format!("unset p{i}") } else { format!("p{i}=w") }), rep(n, " ", |i| format!("$p{i}"))));
                typed.push(format!("{} ; out $x", rep(n, " ; ", |i| format!("x={i}"))));
                typed.push(format!("x=a ; {} ; out $x", rep(n.min(150), " ; ", |i| format!("x=\"b$x{}\"", if i % 9 == 0 { "c" } else { "" }))));
                typed.push(format!("{long}=1 ; {long}y=2 ; out ${long} ${long}y ; unset {long} ; out ${long} ${long}y"));
                typed.push(format!("x='{long}' ; out $x ; y=\"$x$x\" ; out $y ; out \"{}\"", "$x".repeat(n.min(20))));
                typed.push(format!("{} ; k1 ; out $x $y", rep(n.min(150), " ; ", |i| format!("k{i}() {{ x={i} ; {} ; out {i} $x $y ; }}", if i == n.min(150) { "y=end".into() } else { format!("k{}", i + 1) }))));
                typed.push(format!("y=top ; {} ; k1 ; out $x $y", rep(n.min(150), " ; ", |i| if i == n.min(150) { format!("k{i}() {{ out $x $y $v ; y=in ; x=2 ; unset v ; z=1 ; }}") } else { format!("k{i}() {{ {}k{} ; out {i} $x $y $z ; }}", if i == 1 { "x=1 ; " } else { "" }, i + 1) })));
                files.push(format!("{}\nout $x $y\n", rep(n, "\n", |i| format!("{}={i}", if i % 2 == 0 { "x" } else { "y" }))));
            }
            &["out $x $y $p1 $p2"]
        }
        "C06" => {
            for n in ns(if th { 300 } else { 129 }, th) {
                let long = "x".repeat(n);
                typed.push(format!("{} ; readonly -p ; {}", rep(n, " ; ", |i| format!("readonly p{i}=v{i}")), rep(n, " ; ", |i| format!("p{i}=w"))));
                typed.push(format!("{} ; {} ; readonly -p", rep(n, " ; ", |i| format!("p{i}={i}")), rep(n, " ; ", |i| format!("readonly p{i}"))));
                typed.push(format!("readonly r=1 ; {} ; out $r", rep(n, " ; ", |i| ["r=2", "unset r", "readonly r=3", "export r=4", "r=5 ok"][i % 5].into())));
                typed.push(format!("readonly {long}=1 ; {long}=2 ; out ${long} ; {long}y=3 ; out ${long}y"));
                typed.push(format!("readonly r=1 ; {} ; k1 ; out $r", rep(n.min(150), " ; ", |i| format!("k{i}() {{ r={i} ; {} ; out {i} $r ; }}", if i == n.min(150) { "unset r".into() } else { format!("k{}", i + 1) }))));
                files.push(format!("{}\nout $r\n", rep(n, "\n", |i| format!("readonly r={i}"))));
            }
            &["readonly -p", "out $p1 $r ; p1=z ; r=z ; out $p1 $r"]
        }
        "C07" => {
            for n in ns(if th { 513 } else { 257 }, th) {
                let long = "X".repeat(n);
                typed.push(format!("{} ; ok", rep(n, " ; ", |i| format!("export p{i}=v{i}"))));
                typed.push(format!("{} ; {} ; ok", rep(n, " ; ", |i| format!("export p{i}=v{i}")), rep(n, " ; ", |i| if i % 2 == 0 { format!("unset p{i}") } else { format!("p{i}=w") })));
                typed.push(format!("{} ok ; ok", rep(n, " ", |i| format!("p{i}=v{i}"))));
                typed.push(format!("export {long}=1 {long}y='{long} {long}' ; ok ; unset {long} ; ok"));
                typed.push(format!("{} | ok", rep(n.min(16), " | ", |i| format!("q=s{i} out a"))));
                typed.push(format!("{} ; k1 ; ok", rep(n.min(150), " ; ", |i| format!("k{i}() {{ export x={i} ; {} ; ok ; }}", if i == n.min(150) { "y=l ok".into() } else { format!("k{}", i + 1) }))));
                files.push(format!("{}\nok\n", rep(n, "\n", |i| format!("export x={i}"))));
            }
            &["ok"]
        }
        "C08" => {
            for n in ns(if th { 300 } else { 129 }, th) {
                let long = "k".repeat(n);
                typed.push(format!("{} ; {}", rep(n, " ; ", |i| format!("k{i}() {{ out in{i} $1 ; }}")), rep(n, " ; ", |i| format!("k{i} a{i}"))));
                typed.push(format!("k() {{ {} ; }} ; k a", rep(n, " ; ", |i| format!("out b{i} $1"))));
                typed.push(format!("{} ; k a", rep(n, " ; ", |i| format!("k() {{ out v{i} $1 ; }}"))));
                typed.push(format!("{long}() {{ out $0 $1 ; }} ; {long} a ; unset -f {long} ; {long} b"));
                typed.push(format!("k() {{ out $1 ${n} ; }} ; k {}", rep(n, " ", |i| format!("a{i}"))));
                typed.push(format!("k() {{ {} ; out never ; }} ; k ; out n", rep(n, " ; ", |i| if i == n { "return 3".into() } else { "ok".into() })));
                typed.push(format!("k() {{ out $0 $1 ; }} ; {}", rep(n, " ; ", |i| format!("k {i}"))));
                typed.push(format!("{} ; k1 a b ; out z", rep(n.min(150), " ; ", |i| if i == n.min(150) { format!("k{i}() {{ out $0 $1 $2 ; return 4 ; }}") } else { format!("k{i}() {{ k{} n$1 $2 && out t || out $0 $1 ; }}", i + 1) })));
                files.push(format!("k() {{\n{}\n}}\nk a\nk b\n", rep(n, "\n", |i| format!("out b{i} $1"))));
                files.push(format!("k() {{{}out a $1{}}}\nk x\n", "\n".repeat(n), "\n".repeat(n)));
            }
            &["k p", "k1 q", "out $0 $1"]
        }
        "C09" => {
            for n in ns(if th { 300 } else { 129 }, th) {
                let long = "k".repeat(n);
                typed.push(format!("{} ; {}", rep(n, " ; ", |i| format!("alias a{i}='out v{i}'")), rep(n, " ; ", |i| format!("a{i} x"))));
                typed.push(format!("{} ; a{n} x", rep(n, " ; ", |i| format!("alias a{i}='{}'", if i == 1 { "out".into() } else { format!("a{} {i}", i - 1) }))));
                typed.push(format!("{} ; a1 x", rep(n, " ; ", |i| format!("alias a{i}=a{}", i % n + 1))));
                typed.push(format!("{} ; a x", rep(n, " ; ", |i| format!("alias a='out {i}'"))));
                typed.push(format!("alias {long}='out {long}' ; {long} y ; unalias {long} ; {long} z"));
                typed.push(format!("alias a='out {}' ; a z", rep(n, " ", |i| format!("w{i}"))));
                typed.push(format!("alias a=out ; {}", rep(n, " ; ", |i| format!("a {i}"))));
            }
            &["out n", "a1 q", "a q"]
        }
        "C10" => {
            for n in ns(if th { 101 } else { 65 }, th) {
                typed.push(format!("out {} z", rep(n, " ", |i| format!("$(out s{i})"))));
                typed.push(format!("out \"{}\" z", rep(n, " ", |i| format!("$(out s{i})"))));
                typed.push(format!("out \"{}\" z", rep(n, "-", |i| if i % 2 == 0 { format!("`out s{i}`") } else { "$v".into() })));
                typed.push(format!("out \"$({})\" z", rep(n, " ; ", |i| format!("out s{i}"))));
                typed.push(format!("out $({}) z", rep(n.min(9), " | ", |i| if i == 1 { "out s".into() } else { format!("wrap w{i}") })));
                typed.push(format!("{} ; out $p1 $p{n}", rep(n, " ; ", |i| format!("p{i}=$(out s{i} $v)"))));
                typed.push(format!("{} ; out $(k1) z", rep(n, " ; ", |i| format!("k{i}() {{ out {} ; }}", if i == n { "deep".into() } else { format!("in{i} $(k{})", i + 1) }))));
                typed.push(format!("out {} z", rep(n, " ", |i| if i % 3 == 0 { "$(nosuch)".into() } else if i % 3 == 1 { "$(no)".into() } else { "$(out y)".into() })));
                typed.push(format!("out \"$(put '{}')\" z", "\n".repeat(n)));
                typed.push(format!("out \"$(put 'a{}b{}')\" z", "\n".repeat(n), "\n".repeat(n)));
                typed.push(format!("out $(out {}) z", "s".repeat(n * 100)));
            }
            &["out $v $p1 ; pwd"]
        }
        "C16" => {
            for n in ns(if th { 300 } else { 129 }, th) {
                typed.push(format!("exec {}", rep(n, " ", |i| if i == 1 { "nosuch".into() } else { format!("a{i}") })));
                typed.push(rep(n, " ; ", |i| format!("exec nosuch{i}")));
                typed.push(format!("exec out {}", rep(n, " ", |i| format!("a{i}"))));
                typed.push(format!("{} exec out a", rep(n.min(20), " ; ", |i| format!("p{i}=v{i} ; export p{i}")) + " ;"));
                typed.push(format!("{} ; exec ok x", rep(n, " ; ", |i| if i % 2 == 0 { "exec nosuch".into() } else { "exec nodir/x".into() })));
                typed.push(format!("{} ; k1 ; out after", rep(n.min(150), " ; ", |i| format!("k{i}() {{ {} ; out {i} ; }}", if i == n.min(150) { "exec nosuch".into() } else { format!("k{}", i + 1) }))));
                typed.push(format!("exec {}", "n".repeat(n)));
            }
            &["out still", "f 1"]
        }
        "C17" => {
            for n in ns(if th { 257 } else { 101 }, th) {
                typed.push(wrap(n, "eval ", "out a $v", ""));
                typed.push(format!("eval '{} ; out z'", rep(n, " ; ", |i| format!("out e{i}"))));
                typed.push(format!("eval {}", rep(n, " ", |i| if i == 1 { "out".into() } else { format!("a{i}") })));
                typed.push(rep(n, " ; ", |i| format!("eval 'x={i}'")) + " ; out $x");
                typed.push(rep(n, " ; ", |i| if i % 3 == 0 { "eval '| x'".into() } else { format!("eval 'out {i}'") }));
                typed.push(format!("{} ; eval k1 ; out after", rep(n.min(64), " ; ", |i| format!("k{i}() {{ eval {} ; out {i} ; }}", if i == n.min(64) { "x=deep".into() } else { format!("k{}", i + 1) }))));
                files.push(format!("{}\n", rep(n, "\n", |i| format!("eval 'out e{i}' ; out o{i}"))));
                files.push(format!("{}out a\n", "# c\n".repeat(n)));
                files.push(format!("out a \\\nout b\n{}\nout z\n", rep(n, "\n", |i| if i % 4 == 0 { "out 'x".into() } else { format!("out {i}") })));
                files.push(format!("k() {{\n{}\n}}\nk\n", rep(n, "\n", |i| format!("if{i}=1 ; out b{i}"))));
                files.push(format!("{}out a{}\n", "\n".repeat(n), "\n".repeat(n)));
            }
            &["out $1 $x alive", "f 1"]
        }
        "C18" => {
            for n in ns(if th { 257 } else { 129 }, th) {
                let long = "n".repeat(n);
                typed.push(format!("x=1 ; {} ; {}", rep(n, " ; ", |i| format!("export context n{i}=self ; x={i}")), rep(n, " ; ", |i| format!("out $n{i}::x"))));
                typed.push(format!("{} ; export context n=self ; out {}", rep(n, " ; ", |i| format!("p{i}=v{i}")), rep(n, " ", |i| format!("$n::p{i}"))));
                typed.push(format!("x=1 ; export context {long}=self ; x=2 ; out ${long}::x $x ; f() {{ out new ; }} ; {long}::f a"));
                typed.push(format!("{} ; export context n=self ; {} ; out z", rep(n, " ; ", |i| format!("k{i}() {{ out k{i} $1 ; }}")), rep(n, " ; ", |i| format!("n::k{i} a"))));
                typed.push(format!("{} ; out $n::x", rep(n, " ; ", |i| format!("x={i} ; export context n=self"))));
                typed.push(format!("x={long} ; export context n=self ; out $n::x $x"));
            }
            &["out $x $n::x", "n::f 1"]
        }
        "C20" => {
            for n in ns(if th { 257 } else { 101 }, th) {
                let dirs = rep(n, ":", |i| format!("@/no{i}"));
                typed.push(format!("PATH={dirs}:@/bin ; ok && out t || out u"));
                typed.push(format!("PATH=@/bin:{dirs} ; out a ; nosuch ; out b"));
                typed.push(format!("PATH={dirs} ; nosuch ; out a"));
                typed.push(format!("PATH={}@/bin ; out a", ":".repeat(n)));
                typed.push(format!("cd d ; {} ; pwd", rep(n, " ; ", |i| if i % 2 == 0 { "cd ../d".into() } else { "cd .".into() })));
                typed.push(format!("cd {}d ; pwd ; out a", "./".repeat(n)));
                typed.push(format!("cd {} ; pwd", "d/../".repeat(n)));
                typed.push(format!("cd {} ; pwd", "n".repeat(n)));
                typed.push(format!("{} ; out z", rep(n, " ; ", |i| format!("nosuch{i}"))));
                typed.push(format!("{}out a", "./".repeat(n)));
                typed.push(format!("@/{}bin/out a", "/".repeat(n)));
            }
            &["pwd", "@/bin/out alive"]
        }
        _ => &[],
    };
    (typed, files, probes)
}

pub fn plan(id: &str, th: bool) -> Option<Plan> {
    let (typed, files, probes) = texts(id, th);
    if typed.is_empty() { return None }
    let mut l: Vec<Item> = typed.into_iter().map(Item::from).collect();
    l.extend(files.iter().map(|t| sourced(t)));
    Some(Plan::flat("quantities", base_cfg(), l).probe(probes))
}
