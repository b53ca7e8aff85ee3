//! "links and modes": files and directories of every kind that are reached under other names (symbolic links,
//! chains and loops of them, hard links) or that their owner may only read, only write or only pass through.
use crate::explore::*;
use crate::props::{base_cfg, sourced};
use crate::run::Cfg;

const TEXT: &str = "x=s\nout file $1 $x\nk() { out k $x ; }\n";
/// names by which something can be reached
pub const NAMES: &[&str] = &["a", "ln", "dang", "chain", "lnd", "lnd/x", "lnd/up", "d/../ln", "loop", "hard", "dangd", "lndd/../a", "ln/", "lnd/", "ro", "wo", "x", "s", "rx", "dn/i", "dn/new", "dx/i", "dx/new", "dc/i", "dc/new", "dn/ln", "abs", "up2"];
pub fn cfg() -> Cfg {
    let mut k = base_cfg();
    let t = |s: &str| s.to_string();
    k.dirs.extend(["@/work/dn", "@/work/dx", "@/work/dc", "@/work/d/e", "@/p"].map(t));
    for n in ["a", "in", "ro", "wo", "x", "s", "dn/i", "dx/i", "dc/i", "rx"] { k.files.push((t(n), TEXT.replace("file", n))) }
    k.links = [("ln", "a"), ("dang", "g"), ("chain", "ln"), ("lnd", "d"), ("d/up", "../a"), ("loop", "loop2"), ("loop2", "loop"), ("hard", "=a"), ("dangd", "nodir/x"), ("lndd", "@/work/lnd/e/.."), ("dn/ln", "../dx/i"), ("abs", "@/work/in"), ("up2", ".."), ("lndc", "dc"), ("lndx", "dx"), ("lnp", "@/p")].iter().map(|(a, b)| (t(a), t(b))).collect();
    k.modes = [("ro", 0o444), ("wo", 0o222), ("x", 0o755), ("s", 0o600), ("rx", 0o4555), ("dn", 0o555), ("dx", 0o311), ("dc", 0o600)].iter().map(|(a, m)| (t(a), *m)).collect();
    k.progs = ["@/p/prog", "@/p/lprog|link", "@/work/d/rel"].map(t).to_vec();
    k
}

pub fn plan(id: &str, th: bool) -> Vec<Plan> {
    let mut pl: Vec<Item> = vec![];
    let mut add = |t: &str| { if t.contains('\n') { pl.push(sourced(t)) } else { pl.extend(items(&[t])) } };
    let probes: &[&str] = match id {
        "C04" => {
            let ops = [">", ">>", "<", "2>", "2>>", "3<", "5>"];
            for n in NAMES {
                for o in ops { for c in ["out a", "wrap w", "err e", "fdr 3", "f b", "pwd", "", "eval 'out a ; fdw 5 e'", "source ./a", "exec nosuch", "x=1", "readonly"] { add(&format!("{c} {o}{n} && out t || out u")) } }
                for c in ["out a >#", "out a >>#", "pwd >#", "f b >>#", "wrap w <#"] { for p in ["% | wrap z", "out z | %", "k() { % ; } ; k", "out $(%) n", "% &", "cd d ; %", "cd lnd ; %", "eval '%' ; out n", "k() { out 1 ; % ; out 2 ; } ; k >>a", "k() { out 1 ; % ; out 2 ; } ; k >hard"] { if !(c.starts_with("pwd") && p.contains("out 1")) { add(&p.replace('%', &c.replace('#', n))) } } }
                for m in NAMES { for (i, t) in ["out a ># ; out b >>% ; wrap w <a", "out a ># >%", "wrap w <# >>%", "err e 2># >%", "out a >># >nodir/x >%", "f a ># ; wrap w <% >>a"].into_iter().enumerate() { if th || i < 4 { add(&t.replace('#', n).replace('%', m)) } } }
            }
            &["out alive", "wrap a <a ; wrap g <g"]
        }
        "C20" => {
            let dirs = ["lnd", "lnd/..", "lnd/e", "lnd/../lnd/e/..", "ln", "dang", "loop", "lndd", "lndd/e", "dn", "dx", "dc", "lndc", "lndx", "up2", "up2/work", "up2/work/lnd/..", "dangd", "lnp", "lnp/..", "chain", "dc/..", "dx/..", "dn/ln", "d/up", "@/work/lnd", ""];
            for d in dirs {
                for t in ["cd # && out t || out u ; pwd", "cd # ; cd .. ; pwd", "cd # ; cd # ; pwd", "cd # ; ./rel a ; rel b", "HOME=# ; cd ; pwd", "cd # | pwd", "q() { cd # ; pwd ; } ; q ; pwd", "out $(cd # ; pwd)", "cd # ; @/work/d/rel a", "cd # ; cd @/work ; out a >#/new", "PATH=#:@/bin ; rel a ; prog b ; lprog c", "PATH=@/nodir:#:@/bin ; exec rel z", "#/rel a ; #/prog b ; #/lprog c", "export PATH=#:@/bin ; cd d ; rel ; prog", "cd # && cd e ; pwd"] { if !(t.contains("/new") && matches!(d, "up2" | "lnp" | "lnp/.." | "lnd/.." | "up2/work/lnd/..")) { add(&t.replace('#', d)) } }
                for e in dirs { for t in ["cd # ; cd % ; pwd", "PATH=#:%:@/bin ; rel a ; prog b", "cd # ; cd .. ; cd % ; pwd ; out a"] { if th || !t.contains("..") { add(&t.replace('#', d).replace('%', e)) } } }
            }
            for n in NAMES { for t in ["# a", "./# a", "exec ./# a", "cd #", "source #", "source ./# p", "PATH=@/work:@/bin ; # a", "PATH=@/work:@/bin ; source # a ; k"] { add(&format!("{} && out t || out u", t.replace('#', n))) } }
            &["@/bin/out alive", "pwd"]
        }
        "C17" => {
            for n in NAMES { for t in ["source ./# && out t || out u", ". ./# p q ; k", "source # p ; k", "source @/work/# ; out $x", "q() { source ./# $1 ; out after $1 ; } ; q z ; k", "source ./# | wrap w", "out $(source ./#)", "eval source ./# ; k", "source ./# >o", "cd d ; source ../#", "cd lnd ; source ../#", "out x=3 >./# ; source ./# ; out $x", "source ./# ; out 'out again $x' >./# ; source ./#", "! source ./#"] { add(&t.replace('#', n)) }
                for m in NAMES { add(&format!("source ./{n} a ; source ./{m} b ; out $x ; k")) }
            }
            &["out $x $1", "k"]
        }
        "C18" => {
            for n in NAMES { for t in ["export context n=./# && out t || out u", "export context n=# ; n::k", "export context n=@/work/# ; out $n::x $x", "q() { export context n=./# ; n::k ; } ; q ; n::k", "export context n=./a ; export context n=./# ; n::k ; out $n::x", "cd lnd ; export context n=../# ; n::k", "export context ./# ; out alive", "export context n=./# | wrap w", "out x=3 >./# ; export context n=./# ; out $n::x"] { add(&t.replace('#', n)) }
                for m in NAMES { add(&format!("export context n=./{n} ; export context m=./{m} ; n::k ; m::k")) }
            }
            &["out $x $n::x $m::x", "k"]
        }
        "C10" => {
            for n in NAMES { for t in ["out $(wrap w <#)", "out \"$(wrap w <#)\" z", "x=`wrap w <#` ; out $x", "out $(out a >#) n ; wrap w <a", "out $(out a >>#) n ; wrap w <a", "out $(cd # ; pwd) ; pwd", "out $(source ./#) ; k", "$(source ./#)", "out b >$(out #)", "cd $(out #) ; pwd"] { add(&t.replace('#', n)) } }
            &["out $x", "pwd"]
        }
        "C16" => {
            for n in NAMES { for t in ["exec ./#", "exec out a >#", "exec out a >>#", "exec wrap w <#", "exec nosuch >#", "exec -a N ./#", "cd # ; exec @/work/d/rel a", "PATH=#:@/bin ; exec rel a", "exec lnd/rel a >#", "exec lnp/lprog <#", "exec up2/work/lnd/rel"] { add(&t.replace('#', n)) } }
            &["out alive", "pwd"]
        }
        "C19" => {
            for n in NAMES { for t in ["out a ># | wrap w", "fdr 3 3<#", "f ># <#", "f >># 2># 3<#", "source ./# | wrap w", "export context n=./#", "out $(wrap w <#)", "f >o ># ; fdw 3 x", "pwd ># | f >># <#", "exec nosuch >#", "cd # >o"] { add(&t.replace('#', n)) }
                for m in NAMES { add(&format!("f >{n} <{m}")); add(&format!("out a <{n} >{m} | f >{m} <{n}")) }
            }
            &["fdr 3 ; out a | wrap b"]
        }
        _ => return vec![],
    };
    vec![Plan::flat("links and modes", cfg(), pl).probe(probes)]
}
