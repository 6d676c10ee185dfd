//! Views of a parsed document used by several properties.
use dockerfile_parser::*;

/// how the text under a leaf relates to its content
#[derive(Clone, Copy, PartialEq)]
pub enum Src { Verbatim, MaybeQuoted, MaybeQuotedLabel }

/// the reported elements as a tree
pub struct Node<'a> {
    pub span: Span,
    /// content, for leaves
    pub leaf: Option<(&'a str, Src)>,
    pub kids: Vec<Node<'a>>,
}

fn leaf<'a>(s: &'a SpannedString, src: Src) -> Node<'a> { Node { span: s.span, leaf: Some((&s.content, src)), kids: vec![] } }
fn inner(span: Span, kids: Vec<Node>) -> Node { Node { span, leaf: None, kids } }

pub fn breakable<'a>(b: &'a BreakableString, src: Src) -> Node<'a> {
    inner(b.span, b.components.iter().map(|c| match c {
        BreakableStringComponent::String(s) => leaf(s, src),
        BreakableStringComponent::Comment(c) => Node { span: c.span, leaf: Some((&c.content, Src::Verbatim)), kids: vec![] },
    }).collect())
}
pub fn expr(e: &ShellOrExecExpr) -> Node<'_> {
    match e {
        ShellOrExecExpr::Shell(b) => breakable(b, Src::Verbatim),
        ShellOrExecExpr::Exec(a) => inner(a.span, a.elements.iter().map(|s| leaf(s, Src::MaybeQuoted)).collect()),
    }
}
pub fn node(i: &Instruction) -> Node<'_> {
    use Src::*;
    match i {
        Instruction::From(f) => {
            let mut k: Vec<Node> = f.flags.iter().map(|f| inner(f.span, vec![leaf(&f.name, Verbatim), leaf(&f.value, MaybeQuoted)])).collect();
            k.push(leaf(&f.image, Verbatim));
            if let Some(a) = &f.alias { k.push(leaf(a, Verbatim)) }
            inner(f.span, k)
        }
        Instruction::Arg(a) => {
            let mut k = vec![leaf(&a.name, Verbatim)];
            if let Some(v) = &a.value { k.push(leaf(v, MaybeQuoted)) }
            inner(a.span, k)
        }
        Instruction::Label(l) => inner(l.span, l.labels.iter().map(|l| inner(l.span, vec![leaf(&l.name, MaybeQuotedLabel), leaf(&l.value, MaybeQuotedLabel)])).collect()),
        Instruction::Run(r) => inner(r.span, vec![expr(&r.expr)]),
        Instruction::Cmd(r) => inner(r.span, vec![expr(&r.expr)]),
        Instruction::Entrypoint(r) => inner(r.span, vec![expr(&r.expr)]),
        Instruction::Copy(c) => {
            let mut k: Vec<Node> = c.flags.iter().map(|f| inner(f.span, vec![leaf(&f.name, Verbatim), leaf(&f.value, MaybeQuoted)])).collect();
            for s in &c.sources { k.push(leaf(s, MaybeQuoted)) }
            k.push(leaf(&c.destination, MaybeQuoted));
            inner(c.span, k)
        }
        Instruction::Env(e) => inner(e.span, e.vars.iter().map(|v| inner(v.span, vec![leaf(&v.key, Verbatim), breakable(&v.value, MaybeQuoted)])).collect()),
        Instruction::Misc(m) => inner(m.span, vec![leaf(&m.instruction, Verbatim), breakable(&m.arguments, Verbatim)]),
    }
}

/// every reported span, in order of report
pub fn spans(d: &Dockerfile) -> Vec<Span> {
    fn go(n: &Node, v: &mut Vec<Span>) { v.push(n.span); for k in &n.kids { go(k, v) } }
    let mut v = vec![];
    for i in &d.instructions { go(&node(i), &mut v) }
    v
}

pub fn kind(i: &Instruction) -> u8 {
    match i {
        Instruction::From(_) => 0, Instruction::Arg(_) => 1, Instruction::Label(_) => 2, Instruction::Run(_) => 3,
        Instruction::Entrypoint(_) => 4, Instruction::Cmd(_) => 5, Instruction::Copy(_) => 6, Instruction::Env(_) => 7,
        Instruction::Misc(_) => 8,
    }
}

/// Everything reported about an instruction except positions (and the FROM
/// index), as bytes that are equal exactly when the reports are.
pub struct Content { pub out: Vec<u8>, pub fold_newlines: bool }
impl Content {
    pub fn new() -> Content { Content { out: vec![], fold_newlines: false } }
    fn n(&mut self, n: usize) { self.out.extend_from_slice(&(n as u32).to_le_bytes()) }
    pub fn s(&mut self, s: &str) {
        if self.fold_newlines {
            let mut t: Vec<u8> = vec![];
            let mut run = false;
            for c in s.as_bytes() {
                if *c == b'\n' || *c == b'\r' { if !run { t.push(b'\n') } run = true } else { t.push(*c); run = false }
            }
            self.n(t.len());
            self.out.extend_from_slice(&t);
        } else {
            self.n(s.len());
            self.out.extend_from_slice(s.as_bytes());
        }
    }
    fn o(&mut self, s: &Option<String>) { match s { None => self.out.push(0), Some(s) => { self.out.push(1); self.s(s) } } }
    fn b(&mut self, b: &BreakableString) {
        self.n(b.components.len());
        for c in &b.components {
            match c {
                BreakableStringComponent::String(s) => { self.out.push(0); self.s(&s.content) }
                BreakableStringComponent::Comment(s) => { self.out.push(1); self.s(&s.content) }
            }
        }
    }
    fn e(&mut self, e: &ShellOrExecExpr) {
        match e {
            ShellOrExecExpr::Shell(b) => { self.out.push(0); self.b(b) }
            ShellOrExecExpr::Exec(a) => { self.out.push(1); self.n(a.elements.len()); for s in &a.elements { self.s(&s.content) } }
        }
    }
    pub fn image(&mut self, i: &ImageRef) { self.o(&i.registry); self.s(&i.image); self.o(&i.tag); self.o(&i.hash) }
    pub fn arg(&mut self, a: &ArgInstruction) {
        self.s(&a.name.content);
        match &a.value { None => self.out.push(0), Some(v) => { self.out.push(1); self.s(&v.content) } }
    }
    pub fn ins(&mut self, i: &Instruction) {
        self.out.push(kind(i));
        match i {
            Instruction::From(f) => {
                self.n(f.flags.len());
                for f in &f.flags { self.s(&f.name.content); self.s(&f.value.content) }
                self.s(&f.image.content);
                self.image(&f.image_parsed);
                match &f.alias { None => self.out.push(0), Some(a) => { self.out.push(1); self.s(&a.content) } }
            }
            Instruction::Arg(a) => self.arg(a),
            Instruction::Label(l) => { self.n(l.labels.len()); for l in &l.labels { self.s(&l.name.content); self.s(&l.value.content) } }
            Instruction::Run(r) => self.e(&r.expr),
            Instruction::Cmd(r) => self.e(&r.expr),
            Instruction::Entrypoint(r) => self.e(&r.expr),
            Instruction::Copy(c) => {
                self.n(c.flags.len());
                for f in &c.flags { self.s(&f.name.content); self.s(&f.value.content) }
                self.n(c.sources.len());
                for s in &c.sources { self.s(&s.content) }
                self.s(&c.destination.content);
            }
            Instruction::Env(e) => { self.n(e.vars.len()); for v in &e.vars { self.s(&v.key.content); self.b(&v.value) } }
            Instruction::Misc(m) => { self.s(&m.instruction.content); self.b(&m.arguments) }
        }
    }
    /// the whole document, with FROM positions
    pub fn doc(&mut self, d: &Dockerfile) {
        self.n(d.instructions.len());
        for i in &d.instructions { self.ins(i); if let Instruction::From(f) = i { self.n(f.index) } }
        self.n(d.global_args.len());
        for a in &d.global_args { self.arg(a) }
    }
}
pub fn content(d: &Dockerfile) -> Vec<u8> { let mut c = Content::new(); c.doc(d); c.out }
pub fn content_folded(d: &Dockerfile) -> Vec<u8> { let mut c = Content::new(); c.fold_newlines = true; c.doc(d); c.out }
