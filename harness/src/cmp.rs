//! Comparison of a parsed document with the reference reading of its text.
use crate::model::*;
use crate::sym::*;
use dockerfile_parser::*;

/// what to compare
#[derive(Clone, Copy, PartialEq)]
pub enum Sel { Kinds, Shell, Exec, From, Digest, Env, Label, Arg, Copy, Spans }

pub struct C { pub sel: Sel, pub hits: usize }

// violation numbers
pub const REJECTED: u32 = 1;
pub const ACCEPTED: u32 = 2;
pub const COUNT: u32 = 3;
pub const KIND: u32 = 4;
pub const CONTENT: u32 = 5;
pub const SPAN: u32 = 6;
pub const FORM: u32 = 7;

fn want(i: &Ins, actual: &Instruction) -> bool {
    matches!((i.kw, actual),
        (Kw::From, Instruction::From(_)) | (Kw::Arg, Instruction::Arg(_)) | (Kw::Label, Instruction::Label(_)) |
        (Kw::Run, Instruction::Run(_)) | (Kw::Entrypoint, Instruction::Entrypoint(_)) | (Kw::Cmd, Instruction::Cmd(_)) |
        (Kw::Copy, Instruction::Copy(_)) | (Kw::Env, Instruction::Env(_)) | (Kw::Misc, Instruction::Misc(_)))
}

impl C {
    fn on(&self, s: Sel) -> bool { self.sel == s }
    fn word(&mut self, s: Sel, w: &Word, a: &SpannedString) {
        if self.sel == s { self.hits += 1; check(a.content.as_bytes() == &w.val[..], CONTENT) }
        self.span(w.sp, a.span);
    }
    fn span(&mut self, m: Sp, a: Span) {
        if self.on(Sel::Spans) { self.hits += 1; check(a.start == m.0 && a.end == m.1, SPAN) }
    }
    fn shell(&mut self, text: &[u8], s: Sel, m: &Shell, a: &BreakableString) {
        if self.sel == s || (self.on(Sel::Shell) && s != Sel::Kinds) {
            self.hits += 1;
            let mut all: Vec<u8> = vec![];
            check(a.components.len() == m.pieces.len(), COUNT);
            for (p, c) in m.pieces.iter().zip(&a.components) {
                let src = &text[p.1 .0..p.1 .1];
                match c {
                    BreakableStringComponent::String(s) => { check(!p.0, FORM); check(s.content.as_bytes() == src, CONTENT) }
                    BreakableStringComponent::Comment(s) => { check(p.0, FORM); check(s.content.as_bytes() == src, CONTENT) }
                }
                if !p.0 { all.extend_from_slice(src) }
            }
            check(a.to_string().as_bytes() == &all[..], CONTENT);
        }
        if self.on(Sel::Spans) {
            check(a.components.len() == m.pieces.len(), COUNT);
            for (p, c) in m.pieces.iter().zip(&a.components) {
                match c {
                    BreakableStringComponent::String(s) => self.span(p.1, s.span),
                    BreakableStringComponent::Comment(s) => self.span(p.1, s.span),
                }
            }
        }
    }
    fn expr(&mut self, text: &[u8], m: &Arg, a: &ShellOrExecExpr) {
        match (m, a) {
            (Arg::Shell(m), ShellOrExecExpr::Shell(a)) => {
                if self.on(Sel::Exec) { self.hits += 1 }
                self.shell(text, Sel::Shell, m, a)
            }
            (Arg::Exec(sp, m), ShellOrExecExpr::Exec(a)) => {
                if self.on(Sel::Exec) || self.on(Sel::Spans) { check(m.len() == a.elements.len(), COUNT) }
                if self.on(Sel::Exec) { self.hits += 1; let v = a.as_str_vec(); check(v.len() == m.len(), COUNT); for (x, y) in v.iter().zip(m) { check(x.as_bytes() == &y.val[..], CONTENT) } }
                self.span(*sp, a.span);
                for (m, a) in m.iter().zip(&a.elements) { self.word(Sel::Exec, m, a) }
            }
            _ => if self.on(Sel::Exec) || self.on(Sel::Shell) || self.on(Sel::Spans) { fail(FORM) },
        }
    }
    fn ins(&mut self, text: &[u8], m: &Ins, a: &Instruction, from_index: usize) {
        match (&m.body, a) {
            (Body::From { flags, image, alias }, Instruction::From(f)) => {
                let on = self.on(Sel::From);
                if on {
                    self.hits += 1;
                    check(f.index == from_index, CONTENT);
                    let i = split_image(&text[image.sp.0..image.sp.1]);
                    let p = &f.image_parsed;
                    check(p.registry.as_ref().map(|s| s.as_bytes()) == i.registry && p.image.as_bytes() == i.image
                        && p.tag.as_ref().map(|s| s.as_bytes()) == i.tag && p.hash.as_ref().map(|s| s.as_bytes()) == i.hash, CONTENT);
                    check(ImageRef::parse(&f.image.content) == *p, CONTENT);
                }
                if on || self.on(Sel::Spans) { check(f.flags.len() == flags.len(), COUNT) }
                for (m, a) in flags.iter().zip(&f.flags) {
                    self.word(Sel::From, &m.name, &a.name);
                    self.word(Sel::From, &m.value, &a.value);
                    self.span(m.sp, a.span);
                }
                self.word(Sel::From, image, &f.image);
                if self.on(Sel::Digest) {
                    let i = split_image(&text[image.sp.0..image.sp.1]);
                    if i.hash.is_some() { self.hits += 1 }
                    check(f.image_parsed.hash.as_ref().map(|s| s.as_bytes()) == i.hash, CONTENT);
                    check(f.image.content.as_bytes() == &image.val[..], CONTENT);
                }
                match (alias, &f.alias) {
                    (None, None) => (),
                    (Some(m), Some(a)) => self.word(Sel::From, m, a),
                    _ => if on || self.on(Sel::Spans) { fail(FORM) },
                }
            }
            (Body::Arg { name, value }, Instruction::Arg(a)) => {
                self.word(Sel::Arg, name, &a.name);
                match (value, &a.value) {
                    (None, None) => (),
                    (Some(m), Some(a)) => self.word(Sel::Arg, m, a),
                    _ => if self.on(Sel::Arg) || self.on(Sel::Spans) { fail(FORM) },
                }
            }
            (Body::Label(v), Instruction::Label(l)) => {
                if self.on(Sel::Label) || self.on(Sel::Spans) { self.hits += 1; check(v.len() == l.labels.len(), COUNT) }
                for (m, a) in v.iter().zip(&l.labels) {
                    self.word(Sel::Label, &m.name, &a.name);
                    self.word(Sel::Label, &m.value, &a.value);
                    if self.on(Sel::Spans) {
                        // a label with a separated value may include blanks around it
                        let (mut s, mut e) = (a.span.start, a.span.end);
                        check(s <= m.sp.0 && m.sp.1 <= e && e <= text.len(), SPAN);
                        let r = R { b: text };
                        while s < m.sp.0 { if is_ws(text[s]) { s += 1 } else if let Some(_) = r.cont(s) { break } else { fail(SPAN) } }
                        while e > m.sp.1 { if is_ws(text[e - 1]) { e -= 1 } else { fail(SPAN) } }
                    }
                }
            }
            (Body::Shellish(m), Instruction::Run(r)) => {
                self.expr(text, m, &r.expr);
            }
            (Body::Shellish(m), Instruction::Cmd(r)) => self.expr(text, m, &r.expr),
            (Body::Shellish(m), Instruction::Entrypoint(r)) => self.expr(text, m, &r.expr),
            (Body::Copy { flags, paths }, Instruction::Copy(c)) => {
                if self.on(Sel::Copy) || self.on(Sel::Spans) {
                    check(flags.len() == c.flags.len(), COUNT);
                    check(paths.len() == c.sources.len() + 1, COUNT);
                }
                for (m, a) in flags.iter().zip(&c.flags) {
                    self.word(Sel::Copy, &m.name, &a.name);
                    self.word(Sel::Copy, &m.value, &a.value);
                    self.span(m.sp, a.span);
                }
                for (m, a) in paths.iter().zip(c.sources.iter().chain(std::iter::once(&c.destination))) { self.word(Sel::Copy, m, a) }
            }
            (Body::Env(v), Instruction::Env(e)) => {
                if self.on(Sel::Env) || self.on(Sel::Spans) { self.hits += 1; check(v.len() == e.vars.len(), COUNT) }
                for ((name, value), a) in v.iter().zip(&e.vars) {
                    self.word(Sel::Env, name, &a.key);
                    match value {
                        Value::Shell(m) => { self.shell(text, Sel::Env, m, &a.value); self.span((name.sp.0, m.sp.1), a.span) }
                        Value::Word(w) => {
                            self.span((name.sp.0, w.sp.1), a.span);
                            self.span(w.sp, a.value.span);
                            if self.on(Sel::Env) || self.on(Sel::Spans) {
                                check(a.value.components.len() == 1, COUNT);
                                match &a.value.components[0] {
                                    BreakableStringComponent::String(s) => {
                                        self.word(Sel::Env, w, s);
                                    }
                                    _ => fail(FORM),
                                }
                                if self.on(Sel::Env) { check(a.value.to_string().as_bytes() == &w.val[..], CONTENT) }
                            }
                        }
                    }
                }
            }
            (Body::Misc { word, args }, Instruction::Misc(a)) => {
                if self.on(Sel::Kinds) {
                    check(a.instruction.content.as_bytes() == &text[word.0..word.1], CONTENT);
                    self.shell(text, Sel::Kinds, args, &a.arguments);
                }
                if !m.malformed { self.shell(text, Sel::Shell, args, &a.arguments) }
                self.span(*word, a.instruction.span);
            }
            _ => fail(KIND),
        }
    }
}

fn concerns(sel: Sel, m: &Doc) -> bool {
    m.ins.iter().any(|i| match sel {
        Sel::Kinds | Sel::Spans => true,
        Sel::Shell => matches!(i.kw, Kw::Run | Kw::Cmd | Kw::Entrypoint | Kw::Env | Kw::Misc),
        Sel::Exec => matches!(i.kw, Kw::Run | Kw::Cmd | Kw::Entrypoint),
        Sel::From | Sel::Digest => i.kw == Kw::From,
        Sel::Env => i.kw == Kw::Env,
        Sel::Label => i.kw == Kw::Label,
        Sel::Arg => i.kw == Kw::Arg,
        Sel::Copy => i.kw == Kw::Copy,
    })
}

/// marks: 0 compared, 1 rejected as required, 2 malformed read as generic,
/// 3 malformed rejected, 4 unreadable, 5 left open
pub fn against_model(text: &str, sel: Sel) {
    let r = R { b: text.as_bytes() }.read();
    let d = Dockerfile::parse(text);
    match &d {
        Ok(d) => { out(b"ok"); out_n(d.instructions.len()); }
        Err(_) => out(b"err"),
    }
    let m = match r {
        Read::Unreadable => { reach(4); return }
        Read::Open => { reach(5); return }
        Read::Doc(m) => m,
    };
    if !concerns(sel, &m) { return }
    let d = match d {
        Err(_) => {
            if m.must_reject { reach(1); return }
            check(m.may_reject, REJECTED);
            reach(3);
            return;
        }
        Ok(d) => d,
    };
    if m.must_reject { if sel == Sel::Digest { fail(ACCEPTED) } return }
    check(d.instructions.len() == m.ins.len(), COUNT);
    let mut c = C { sel, hits: 0 };
    let mut from_index = 0;
    for (mi, ai) in m.ins.iter().zip(&d.instructions) {
        if mi.malformed {
            check(matches!(ai, Instruction::Misc(_)), KIND);
            reach(2);
        } else {
            check(want(mi, ai), KIND);
        }
        if sel == Sel::Spans { check(ai.span().start == mi.start, SPAN) }
        c.ins(text.as_bytes(), mi, ai, from_index);
        if let Instruction::From(_) = ai { from_index += 1 }
    }
    if c.hits > 0 || sel == Sel::Kinds { reach(0) }
    out_n(c.hits);
}
