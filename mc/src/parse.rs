//! Reference lexer and parser: an independent reading of the shell language.
//!
//! `parse` answers one of three things: the line is a program of the language
//! (and which one), the line is not, or the language leaves it open (words
//! glued to each other without a blank, brace groups as commands, ...), in
//! which case only survival is judged.
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Nl, Semi, Pipe, Or, Amp, And, Eq, Bang, Lp, Rp, Lb, Rb, Gt, Lt, DGt, Other,
    Word(String), Num(i32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum RedirOp { In, Out, App }
#[derive(Clone, Debug, PartialEq)]
pub struct Redir { pub fd: Option<i32>, pub op: RedirOp, pub word: String }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Simple {
    pub assigns: Vec<(String, String)>,
    pub words: Vec<String>, // raw, words[0] is the command name
    pub redirs: Vec<Redir>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cmd { Simple(Simple), Func(String, Rc<List>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Pipeline { pub bang: bool, pub bg: bool, pub cmds: Vec<Cmd> }
#[derive(Clone, Debug, PartialEq)]
pub enum Op { And, Or }
#[derive(Clone, Debug, PartialEq)]
pub struct AndOr { pub first: Pipeline, pub rest: Vec<(Op, Pipeline)> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct List(pub Vec<AndOr>);

#[derive(Clone, Debug)]
pub enum Parsed { Ok(Rc<List>), Reject, Open }

const RESERVED: &[&str] = &["for", "in", "while", "if", "then", "else", "elif", "fi", "do", "done", "case", "esac"];

fn wordc(c: char) -> bool {
    !matches!(c, ';' | '&' | '|' | '(' | ')' | '{' | '}' | '<' | '>' | '!' | '$' | '`' | '*' | '=') && !c.is_whitespace()
}

/// Err(()) = not a token sequence at all.
pub fn lex(s: &str, open: &mut bool) -> Result<Vec<Tok>, ()> {
    let c: Vec<char> = s.chars().collect();
    let mut v = Vec::new();
    let mut i = 0;
    let mut glued = false; // previous token was a word ending right here
    while i < c.len() {
        let at = i;
        let nx = c.get(i + 1).copied();
        let mut is_word = false;
        match c[i] {
            '\n' => { while i < c.len() && c[i] == '\n' { i += 1 } v.push(Tok::Nl) }
            ';' => { i += 1; v.push(Tok::Semi) }
            '|' => if nx == Some('|') { i += 2; v.push(Tok::Or) } else { i += 1; v.push(Tok::Pipe) },
            '&' => if nx == Some('&') { i += 2; v.push(Tok::And) } else { i += 1; v.push(Tok::Amp) },
            '(' => { i += 1; v.push(Tok::Lp) }
            ')' => { i += 1; v.push(Tok::Rp) }
            '{' => { i += 1; v.push(Tok::Lb) }
            '}' => { i += 1; v.push(Tok::Rb) }
            '!' => { i += 1; v.push(Tok::Bang) }
            '=' => { i += 1; v.push(Tok::Eq) }
            '*' => return Err(()),
            '>' => match nx { Some('>') => { i += 2; v.push(Tok::DGt) } Some('&') => { i += 2; v.push(Tok::Other) } _ => { i += 1; v.push(Tok::Gt) } },
            '<' => match nx { Some('<') | Some('&') => { i += 2; v.push(Tok::Other) } _ => { i += 1; v.push(Tok::Lt) } },
            '#' if !glued => { while i < c.len() && c[i] != '\n' { i += 1 } }
            q @ ('"' | '\'' | '`') => {
                i += 1;
                while i < c.len() && c[i] != q { i += 1 }
                if i == c.len() { return Err(()) }
                i += 1; is_word = true;
            }
            '$' if nx == Some('(') => {
                i += 2;
                while i < c.len() && c[i] != ')' { i += 1 }
                if i == c.len() { return Err(()) }
                i += 1; is_word = true;
            }
            '$' if nx == Some('{') => { i += 1; v.push(Tok::Other) }
            '$' => { i += 1; while i < c.len() && wordc(c[i]) { i += 1 } is_word = true; }
            ch if ch.is_whitespace() => { i += 1 }
            _ => { while i < c.len() && wordc(c[i]) { i += 1 } is_word = true; }
        }
        if is_word {
            let w: String = c[at..i].iter().collect();
            if glued { *open = true }
            // quotes in the middle of a word: meaning left open
            if !w.starts_with(['"', '\'', '`']) && !w.starts_with("$(") && w.contains(['"', '\'']) { *open = true }
            let after = c.get(i).copied();
            if matches!(after, Some('<') | Some('>')) && !w.starts_with(['"', '\'', '$', '`']) {
                if let Some(n) = w.parse::<i32>().ok().filter(|_| w.bytes().all(|b| b.is_ascii_digit())) { v.push(Tok::Num(n)); glued = false; continue }
            }
            v.push(Tok::Word(w));
            glued = true;
        } else {
            glued = false;
        }
    }
    Ok(v)
}

struct P { t: Vec<Tok>, i: usize, open: bool }
type R<T> = Result<T, ()>;

impl P {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn peek2(&self) -> Option<&Tok> { self.t.get(self.i + 1) }
    fn eat(&mut self, t: &Tok) -> bool { if self.peek() == Some(t) { self.i += 1; true } else { false } }
    fn nls(&mut self) -> usize { let s = self.i; while self.eat(&Tok::Nl) {} self.i - s }
    /// separator between members: `;`, newlines, `;` followed by newlines
    fn sep(&mut self) -> bool { let s = self.eat(&Tok::Semi); let n = self.nls(); s || n > 0 }

    fn program(&mut self) -> R<List> {
        self.sep();
        if self.peek().is_none() { return Ok(List::default()) }
        let l = self.list(None)?;
        if self.peek().is_some() { return Err(()) }
        Ok(l)
    }
    fn list(&mut self, end: Option<Tok>) -> R<List> {
        let mut v = vec![self.and_or()?];
        loop {
            let at = self.i;
            if !self.sep() { break }
            match self.peek() {
                None => break,
                t if t == end.as_ref() => break,
                Some(Tok::Semi) => { self.i = at; return Err(()) }
                _ => v.push(self.and_or()?),
            }
        }
        Ok(List(v))
    }
    fn and_or(&mut self) -> R<AndOr> {
        let first = self.pipeline()?;
        let mut rest = vec![];
        loop {
            let op = if self.eat(&Tok::And) { Op::And } else if self.eat(&Tok::Or) { Op::Or } else { break };
            self.nls();
            if first.bg || rest.iter().any(|(_, p): &(Op, Pipeline)| p.bg) { self.open = true }
            rest.push((op, self.pipeline()?));
        }
        Ok(AndOr { first, rest })
    }
    fn pipeline(&mut self) -> R<Pipeline> {
        let bang = self.eat(&Tok::Bang);
        let mut cmds = vec![self.command()?];
        while self.eat(&Tok::Pipe) { cmds.push(self.command()?) }
        let bg = self.eat(&Tok::Amp);
        Ok(Pipeline { bang, bg, cmds })
    }
    fn command(&mut self) -> R<Cmd> {
        if self.peek() == Some(&Tok::Lb) {
            // brace group as a command: parsed, but its meaning is left open
            self.open = true;
            self.brace()?;
            return Ok(Cmd::Simple(Simple::default()));
        }
        if let (Some(Tok::Word(n)), Some(Tok::Lp)) = (self.peek(), self.peek2()) {
            let n = n.clone();
            if RESERVED.contains(&n.as_str()) { return Err(()) }
            self.i += 2;
            if !self.eat(&Tok::Rp) { return Err(()) }
            self.nls();
            let b = self.brace()?;
            let at = self.i;
            self.redirect()?;
            if self.i != at { self.open = true; while { let a = self.i; self.redirect()?; self.i != a } {} }
            return Ok(Cmd::Func(n, Rc::new(b)));
        }
        self.simple()
    }
    fn brace(&mut self) -> R<List> {
        if !self.eat(&Tok::Lb) { return Err(()) }
        self.nls();
        let l = self.list(Some(Tok::Rb))?;
        if !self.eat(&Tok::Rb) { return Err(()) }
        Ok(l)
    }
    fn word(&mut self) -> Option<String> {
        if let Some(Tok::Word(w)) = self.peek() { let w = w.clone(); self.i += 1; Some(w) } else { None }
    }
    fn redirect(&mut self) -> R<Option<Redir>> {
        let at = self.i;
        let fd = if let Some(Tok::Num(n)) = self.peek() { let n = *n; self.i += 1; Some(n) } else { None };
        let op = match self.peek() { Some(Tok::Lt) => RedirOp::In, Some(Tok::Gt) => RedirOp::Out, Some(Tok::DGt) => RedirOp::App, _ => { self.i = at; return Ok(None) } };
        self.i += 1;
        match self.word() { Some(word) => Ok(Some(Redir { fd, op, word })), None => Err(()) }
    }
    fn simple(&mut self) -> R<Cmd> {
        let mut s = Simple::default();
        let mut any = false;
        loop {
            if let Some(r) = self.redirect()? { s.redirs.push(r); any = true; continue }
            if let (Some(Tok::Word(w)), Some(Tok::Eq)) = (self.peek(), self.peek2()) {
                let w = w.clone();
                let reserved = RESERVED.contains(&w.as_str());
                self.i += 2;
                let Some(v) = self.word() else { return Err(()) };
                if reserved { if s.words.is_empty() { return Err(()) } self.open = true }
                if s.words.is_empty() {
                    if !w.chars().all(|c| c.is_alphanumeric() || c == '_') || w.starts_with(|c: char| c.is_ascii_digit()) { self.open = true }
                    s.assigns.push((w, v));
                } else {
                    if w.starts_with(['"', '\'', '$', '`']) { self.open = true }
                    s.words.push(format!("{}={}", w, v));
                }
                any = true;
                continue;
            }
            if let Some(Tok::Word(w)) = self.peek() {
                if s.words.is_empty() && RESERVED.contains(&w.as_str()) { return Err(()) }
                let w = w.clone(); self.i += 1;
                s.words.push(w); any = true;
                continue;
            }
            break;
        }
        if !any { return Err(()) }
        Ok(Cmd::Simple(s))
    }
}

pub fn parse(s: &str) -> Parsed {
    let mut open = false;
    let Ok(t) = lex(s, &mut open) else { return Parsed::Reject };
    let (mut d, mut deep) = (0i32, 0);
    for x in &t { match x { Tok::Lb => { d += 1; deep = deep.max(d) } Tok::Rb => d -= 1, _ => {} } }
    if deep > 100 { return Parsed::Open }
    let mut p = P { t, i: 0, open };
    match p.program() {
        Err(()) => if p.open { Parsed::Open } else { Parsed::Reject },
        Ok(l) => if p.open { Parsed::Open } else { Parsed::Ok(Rc::new(l)) },
    }
}

/// What the line editor does with a physical line before the shell sees it
/// (only round, square and curly brackets matter): complete, wait for more,
/// or refuse.
pub fn brackets(s: &str) -> i32 {
    let mut st = vec![];
    for c in s.chars() {
        match c {
            '(' | '[' | '{' => st.push(c),
            ')' | ']' | '}' => match (st.pop(), c) { (Some('('), ')') | (Some('['), ']') | (Some('{'), '}') => {} _ => return -1 },
            _ => {}
        }
    }
    st.len() as i32
}
