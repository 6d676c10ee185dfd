//! Reference reader: an independent statement of what the text of a Dockerfile
//! means, used as the oracle for the properties about instruction contents.
//! It works on bytes, never calls the crate under test and shares no code or
//! grammar with it.

/// a byte range of the source text
pub type Sp = (usize, usize);

/// a leaf and its content
#[derive(Clone, Debug)]
pub struct Word { pub sp: Sp, pub val: Vec<u8> }

/// shell-form text: pieces are (is a comment, range)
#[derive(Clone, Debug)]
pub struct Shell { pub sp: Sp, pub pieces: Vec<(bool, Sp)> }

#[derive(Clone, Debug)]
pub enum Arg { Shell(Shell), Exec(Sp, Vec<Word>) }

#[derive(Clone, Debug)]
pub struct Pair { pub sp: Sp, pub name: Word, pub value: Word }

#[derive(Clone, Debug)]
pub enum Value { Word(Word), Shell(Shell) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kw { From, Arg, Label, Run, Entrypoint, Cmd, Copy, Env, Misc }

#[derive(Clone, Debug)]
pub enum Body {
    From { flags: Vec<Pair>, image: Word, alias: Option<Word> },
    Arg { name: Word, value: Option<Word> },
    Label(Vec<Pair>),
    Shellish(Arg),
    Copy { flags: Vec<Pair>, paths: Vec<Word> },
    Env(Vec<(Word, Value)>),
    Misc { word: Sp, args: Shell },
}

#[derive(Clone, Debug)]
pub struct Ins {
    pub start: usize,
    /// the kind the keyword asks for
    pub kw: Kw,
    /// arguments that do not fit the keyword: read as a generic instruction, or
    /// the document is rejected
    pub malformed: bool,
    pub body: Body,
}

pub struct Doc { pub ins: Vec<Ins>, pub may_reject: bool, pub must_reject: bool }

pub enum Read {
    Doc(Doc),
    /// some line is not an instruction at all
    Unreadable,
    /// the properties do not say what this text means
    Open,
}

enum Line { Ok(Body, usize), Malformed, Open }

pub struct R<'a> { pub b: &'a [u8] }

pub fn is_ws(c: u8) -> bool { c == b' ' || c == b'\t' }
fn alpha(c: u8) -> bool { (c | 32).wrapping_sub(b'a') < 26 }
fn digit(c: u8) -> bool { c.wrapping_sub(b'0') < 10 }
fn alnum(c: u8) -> bool { alpha(c) || digit(c) }
fn name_char(c: u8) -> bool { alnum(c) || c == b'_' }
fn quote_char(c: u8) -> bool { c == b'"' || c == b'\'' }

impl<'a> R<'a> {
    fn at(&self, i: usize) -> Option<u8> { self.b.get(i).copied() }
    fn is(&self, i: usize, c: u8) -> bool { i < self.b.len() && self.b[i] == c }
    fn ws(&self, mut i: usize) -> usize { while i < self.b.len() && is_ws(self.b[i]) { i += 1 } i }
    /// end of a newline starting at i
    pub fn nl(&self, i: usize) -> Option<usize> {
        if i >= self.b.len() { return None }
        if self.b[i] == b'\n' { return Some(i + 1) }
        if self.b[i] == b'\r' { return Some(if self.is(i + 1, b'\n') { i + 2 } else { i + 1 }) }
        None
    }
    fn eol(&self, mut i: usize) -> usize { while i < self.b.len() && self.nl(i).is_none() { i += 1 } i }
    /// end of a line continuation starting at i
    pub fn cont(&self, i: usize) -> Option<usize> {
        if !self.is(i, b'\\') { return None }
        self.nl(self.ws(i + 1))
    }
    /// what may separate two arguments; returns i itself if there is nothing
    fn sep(&self, mut i: usize) -> usize {
        loop {
            if i < self.b.len() && is_ws(self.b[i]) { i += 1; continue }
            match self.cont(i) {
                None => return i,
                Some(j) => {
                    i = j;
                    loop {
                        let k = self.ws(i);
                        if self.is(k, b'#') {
                            let e = self.eol(k);
                            i = self.nl(e).unwrap_or(e);
                        } else if let Some(n) = self.nl(k) { i = n } else { break }
                    }
                }
            }
        }
    }
    /// the instruction is over: only blanks up to the end of the line
    fn done(&self, i: usize) -> bool {
        let k = self.ws(i);
        k == self.b.len() || self.nl(k).is_some()
    }
    /// a run of characters up to a separator
    fn word(&self, mut i: usize) -> usize {
        while i < self.b.len() && !is_ws(self.b[i]) && self.nl(i).is_none() && self.cont(i).is_none() { i += 1 }
        i
    }
    fn raw(&self, s: usize, e: usize) -> Word { Word { sp: (s, e), val: self.b[s..e].to_vec() } }
    /// end of the quoted literal starting at i
    fn literal(&self, i: usize) -> Option<usize> {
        let q = self.at(i)?;
        if !quote_char(q) { return None }
        let mut i = i + 1;
        loop {
            let c = self.at(i)?;
            if c == q { return Some(i + 1) }
            if c == 0 || c == 0x1f { return None }
            if c == b'\\' {
                i += 1;
                match self.at(i) { Some(b'\\') | Some(b'"') | Some(b'\'') => i += 1, _ => () }
            } else { i += 1 }
        }
    }
    /// text of one argument that may be a single quoted word
    fn plain(&self, s: usize, e: usize) -> Result<Word, Bad> {
        if self.is(s, b'`') { return Err(Bad::Open) }
        if s < e && quote_char(self.b[s]) {
            return Ok(Word { sp: (s, e), val: decode(&self.b[s..e], false)? });
        }
        Ok(self.raw(s, e))
    }
    fn quoted(&self, s: usize, e: usize, label: bool) -> Result<Word, Bad> {
        Ok(Word { sp: (s, e), val: decode(&self.b[s..e], label)? })
    }

    fn flag(&self, i: usize) -> Result<Option<Pair>, Bad> {
        if !(self.is(i, b'-') && self.is(i + 1, b'-')) { return Ok(None) }
        let mut n = i + 2;
        while n < self.b.len() && alpha(self.b[n]) { n += 1 }
        if n == i + 2 || !self.is(n, b'=') { return Ok(None) }
        let e = self.word(n + 1);
        if e == n + 1 { return Ok(None) }
        Ok(Some(Pair { sp: (i, e), name: self.raw(i + 2, n), value: self.plain(n + 1, e)? }))
    }
    fn flags(&self, mut i: usize) -> Result<(Vec<Pair>, usize), Bad> {
        let mut v = vec![];
        loop {
            let k = self.sep(i);
            if k == i { return Ok((v, i)) }
            match self.flag(k)? {
                Some(p) => { i = p.sp.1; v.push(p) }
                None => return Ok((v, i)),
            }
        }
    }

    fn from(&self, i: usize) -> Result<Line, Bad> {
        let (flags, i) = self.flags(i)?;
        let s = self.sep(i);
        if s == i { return Ok(Line::Malformed) }
        let mut e = s;
        while e < self.b.len() {
            let c = self.b[e];
            if alnum(c) || c == b'_' || c == b'-' || c == b'.' || c == b':' || c == b'/' || c == b'$' || c == b'{' || c == b'}' || c == b'@' { e += 1 } else { break }
        }
        if e == s { return Ok(Line::Malformed) }
        let image = self.raw(s, e);
        let mut end = e;
        let mut alias = None;
        let k = self.sep(e);
        if k != e && k + 1 < self.b.len() && self.b[k] | 32 == b'a' && self.b[k + 1] | 32 == b's' {
            let a = self.sep(k + 2);
            if a != k + 2 {
                let mut z = a;
                while z < self.b.len() && (name_char(self.b[z]) || self.b[z] == b'-') { z += 1 }
                if z > a { alias = Some(self.raw(a, z)); end = z }
            }
        }
        if !self.done(end) { return Ok(Line::Malformed) }
        Ok(Line::Ok(Body::From { flags, image, alias }, end))
    }

    fn arg(&self, i: usize) -> Result<Line, Bad> {
        let s = self.sep(i);
        if s == i || s >= self.b.len() || !alpha(self.b[s]) { return Ok(Line::Malformed) }
        let mut e = s;
        while e < self.b.len() && name_char(self.b[e]) { e += 1 }
        let name = self.raw(s, e);
        let mut end = e;
        let mut value = None;
        if self.is(e, b'=') {
            let v = e + 1;
            if let Some(z) = self.literal(v) { value = Some(self.quoted(v, z, false)?); end = z }
            else {
                let z = self.word(v);
                if z == v { return Ok(Line::Malformed) }
                value = Some(self.plain(v, z)?);
                end = z;
            }
        }
        if !self.done(end) { return Ok(Line::Malformed) }
        Ok(Line::Ok(Body::Arg { name, value }, end))
    }

    fn key(&self, i: usize) -> usize {
        let mut e = i;
        while e < self.b.len() && !is_ws(self.b[e]) && self.b[e] != b'=' && self.nl(e).is_none() { e += 1 }
        e
    }
    fn label_key(&self, s: usize) -> Result<Option<Word>, Bad> {
        if let Some(z) = self.literal(s) { return Ok(Some(self.quoted(s, z, true)?)) }
        let z = self.key(s);
        if z == s { return Ok(None) }
        Ok(Some(self.plain(s, z)?))
    }
    fn label_val(&self, s: usize) -> Result<Option<Word>, Bad> {
        if let Some(z) = self.literal(s) { return Ok(Some(self.quoted(s, z, true)?)) }
        let z = self.word(s);
        if z == s { return Ok(None) }
        Ok(Some(self.plain(s, z)?))
    }
    fn label(&self, i: usize) -> Result<Line, Bad> {
        let s = self.sep(i);
        if s == i { return Ok(Line::Malformed) }
        if self.done(s) { return Ok(Line::Open) }
        // name, blanks, value
        let kend = match self.literal(s) { Some(z) => z, None => self.key(s) };
        let v = self.sep(kend);
        if kend > s && v != kend {
            if let Some(name) = self.label_key(s)? {
                if let Some(value) = self.label_val(v)? {
                    if !self.done(value.sp.1) { return Ok(Line::Malformed) }
                    let end = value.sp.1;
                    return Ok(Line::Ok(Body::Label(vec![Pair { sp: (s, end), name, value }]), end));
                }
            }
        }
        // pairs
        let mut v = vec![];
        let mut i = i;
        loop {
            let k = self.sep(i);
            if k == i || self.done(k) { break }
            let name = match self.label_key(k)? { Some(n) => n, None => return Ok(Line::Malformed) };
            if !self.is(name.sp.1, b'=') { return Ok(Line::Malformed) }
            let value = match self.label_val(name.sp.1 + 1)? { Some(n) => n, None => return Ok(Line::Malformed) };
            i = value.sp.1;
            v.push(Pair { sp: (k, i), name, value });
        }
        let e = self.sep(i);
        if !self.done(e) { return Ok(Line::Malformed) }
        Ok(Line::Ok(Body::Label(v), e))
    }

    fn env(&self, i: usize) -> Result<Line, Bad> {
        let s = self.sep(i);
        if s == i { return Ok(Line::Malformed) }
        if self.done(s) { return Ok(Line::Open) }
        let mut e = s;
        while e < self.b.len() && name_char(self.b[e]) { e += 1 }
        if e == s { return Ok(Line::Malformed) }
        let v = self.sep(e);
        if v != e {
            let name = self.raw(s, e);
            if let Some(z) = self.literal(v) {
                if !self.done(z) { return Ok(Line::Malformed) }
                let q = self.quoted(v, z, false)?;
                return Ok(Line::Ok(Body::Env(vec![(name, Value::Word(q))]), z));
            }
            return Ok(match self.shell(v) {
                Some(sh) => { let z = sh.sp.1; Line::Ok(Body::Env(vec![(name, Value::Shell(sh))]), z) }
                None => Line::Malformed,
            });
        }
        let mut vars = vec![];
        let mut i = i;
        loop {
            let k = self.sep(i);
            if k == i || self.done(k) { break }
            let mut e = k;
            while e < self.b.len() && name_char(self.b[e]) { e += 1 }
            if e == k || !self.is(e, b'=') { return Ok(Line::Malformed) }
            let name = self.raw(k, e);
            let v = e + 1;
            if let Some(z) = self.literal(v) { vars.push((name, Value::Word(self.quoted(v, z, false)?))); i = z }
            else {
                let z = self.word(v);
                if z == v { return Ok(Line::Malformed) }
                vars.push((name, Value::Word(self.raw(v, z))));
                i = z;
            }
        }
        let e = self.sep(i);
        if !self.done(e) { return Ok(Line::Malformed) }
        Ok(Line::Ok(Body::Env(vars), e))
    }

    /// shell-form text from i to the end of the (continued) line
    fn shell(&self, start: usize) -> Option<Shell> {
        let mut pieces = vec![];
        let mut i = start;
        let mut first = true;
        loop {
            // comment lines are recognised only after a continuation
            if !first {
                let k = self.ws(i);
                if self.is(k, b'#') {
                    let e = self.eol(k);
                    pieces.push((true, (k, e)));
                    i = self.nl(e).unwrap_or(e);
                    if i == self.b.len() || self.nl(i).is_some() { return Some(Shell { sp: (start, i), pieces }) }
                    continue;
                }
            }
            let mut e = i;
            while e < self.b.len() && self.nl(e).is_none() && self.cont(e).is_none() { e += 1 }
            if e == i { return None }
            pieces.push((false, (i, e)));
            match self.cont(e) {
                None => return Some(Shell { sp: (start, e), pieces }),
                Some(j) => { i = j; first = false }
            }
        }
    }

    /// a bracketed list of quoted strings; Ok(None) if there is none here
    fn array(&self, i: usize) -> Result<Option<(usize, Vec<Word>)>, Bad> {
        if !self.is(i, b'[') { return Ok(None) }
        let mut v: Vec<Sp> = vec![];
        let mut p = self.sep(i + 1);
        if self.is(p, b']') { return Ok(Some((p + 1, vec![]))) }
        loop {
            let z = match self.literal(p) { Some(z) => z, None => return Ok(None) };
            v.push((p, z));
            // a comma directly after the last element may be left over
            let k = self.sep(z);
            if self.is(k, b']') { p = k; break }
            if !self.is(k, b',') { return Ok(None) }
            let n = self.sep(k + 1);
            if self.is(n, b']') {
                if k != z { return Ok(None) }
                p = n;
                break;
            }
            p = n;
        }
        let mut w = vec![];
        for (s, e) in v { w.push(self.quoted(s, e, false)?) }
        Ok(Some((p + 1, w)))
    }

    fn shellish(&self, i: usize) -> Result<Line, Bad> {
        let s = self.sep(i);
        if s == i { return Ok(Line::Malformed) }
        if let Some((z, w)) = self.array(s)? {
            if !self.done(z) { return Ok(Line::Malformed) }
            return Ok(Line::Ok(Body::Shellish(Arg::Exec((s, z), w)), z));
        }
        Ok(match self.shell(s) {
            Some(sh) => { let z = sh.sp.1; Line::Ok(Body::Shellish(Arg::Shell(sh)), z) }
            None => Line::Malformed,
        })
    }

    fn copy(&self, i: usize) -> Result<Line, Bad> {
        let (flags, mut i) = self.flags(i)?;
        let mut paths = vec![];
        loop {
            let k = self.sep(i);
            if k == i { break }
            let z = self.word(k);
            if z == k { break }
            paths.push((k, z));
            i = z;
        }
        if paths.len() < 2 || !self.done(i) { return Ok(Line::Malformed) }
        let mut w = vec![];
        for (s, e) in paths { w.push(self.plain(s, e)?) }
        Ok(Line::Ok(Body::Copy { flags, paths: w }, i))
    }

    pub fn read(&self) -> Read {
        let mut d = Doc { ins: vec![], may_reject: false, must_reject: false };
        let mut i = 0;
        loop {
            i = self.ws(i);
            if i == self.b.len() { break }
            if self.is(i, b'#') { i = self.eol(i) }
            else if self.nl(i).is_none() {
                let s = i;
                while i < self.b.len() && alpha(self.b[i]) { i += 1 }
                if i == s { return Read::Unreadable }
                let kw = keyword(&self.b[s..i]);
                let r = match kw {
                    Kw::From => self.from(i),
                    Kw::Arg => self.arg(i),
                    Kw::Label => self.label(i),
                    Kw::Run | Kw::Entrypoint | Kw::Cmd => self.shellish(i),
                    Kw::Copy => self.copy(i),
                    Kw::Env => self.env(i),
                    Kw::Misc => Ok(Line::Malformed),
                };
                match r {
                    Err(Bad::Open) | Ok(Line::Open) => return Read::Open,
                    Ok(Line::Ok(body, end)) => {
                        if let Body::From { image, .. } = &body {
                            if !digest_ok(&self.b[image.sp.0..image.sp.1]) { d.must_reject = true }
                        }
                        d.ins.push(Ins { start: s, kw, malformed: false, body });
                        i = end;
                    }
                    Ok(Line::Malformed) | Err(Bad::Invalid) => {
                        if kw != Kw::Misc { d.may_reject = true }
                        match self.shell(i) {
                            None => return Read::Unreadable,
                            Some(args) => {
                                let e = args.sp.1;
                                d.ins.push(Ins { start: s, kw, malformed: kw != Kw::Misc, body: Body::Misc { word: (s, i), args } });
                                i = e;
                            }
                        }
                    }
                }
            }
            i = self.ws(i);
            match self.nl(i) {
                Some(n) => i = n,
                None => { if i == self.b.len() { break } else { return Read::Unreadable } }
            }
        }
        Read::Doc(d)
    }
}

pub enum Bad { Invalid, Open }

fn keyword(w: &[u8]) -> Kw {
    const T: [(&[u8], Kw); 8] = [
        (b"from", Kw::From), (b"arg", Kw::Arg), (b"label", Kw::Label), (b"run", Kw::Run),
        (b"entrypoint", Kw::Entrypoint), (b"cmd", Kw::Cmd), (b"copy", Kw::Copy), (b"env", Kw::Env),
    ];
    for (k, v) in T {
        if k.len() == w.len() && k.iter().zip(w).all(|(a, b)| *a == *b | 32) { return v }
    }
    Kw::Misc
}

/// the digest rule for the text of an image (after the registry, if any)
pub fn digest_ok(t: &[u8]) -> bool {
    let r = split_image(t);
    match r.hash {
        None => true,
        Some(h) => {
            h.len() == 71 && h.starts_with(b"sha256:")
                && h[7..].iter().all(|c| digit(*c) || (*c | 32).wrapping_sub(b'a') < 6)
        }
    }
}

pub struct Image<'a> { pub registry: Option<&'a [u8]>, pub image: &'a [u8], pub tag: Option<&'a [u8]>, pub hash: Option<&'a [u8]> }

pub fn split_image(t: &[u8]) -> Image<'_> {
    let mut rest = t;
    let mut registry = None;
    if let Some(p) = t.iter().position(|c| *c == b'/') {
        let r = &t[..p];
        if r == b"localhost" || r.iter().any(|c| *c == b'.' || *c == b':') { registry = Some(r); rest = &t[p + 1..] }
    }
    if let Some(p) = rest.iter().position(|c| *c == b'@') {
        return Image { registry, image: &rest[..p], tag: None, hash: Some(&rest[p + 1..]) };
    }
    match rest.iter().position(|c| *c == b':') {
        Some(p) => Image { registry, image: &rest[..p], tag: Some(&rest[p + 1..]), hash: None },
        None => Image { registry, image: rest, tag: None, hash: None },
    }
}

fn hexval(c: u8) -> Option<u32> {
    if digit(c) { Some((c - b'0') as u32) }
    else if (c | 32).wrapping_sub(b'a') < 6 { Some(((c | 32) - b'a') as u32 + 10) }
    else { None }
}

/// The unescaped value of a quoted literal; `Open` when it uses an escape
/// outside the documented set. In labels, line continuations are removed first.
pub fn decode(lit: &[u8], label: bool) -> Result<Vec<u8>, Bad> {
    let n = lit.len();
    if n < 2 || lit[n - 1] != lit[0] { return Err(Bad::Invalid) }
    let mut b: Vec<u8> = vec![];
    let r = R { b: lit };
    let mut i = 0;
    while i < n {
        if label {
            if let Some(j) = r.cont(i) { i = j; continue }
        }
        b.push(lit[i]);
        i += 1;
    }
    let n = b.len();
    let q = b[0];
    let mut out = vec![];
    let mut i = 1;
    while i < n - 1 {
        let c = b[i];
        i += 1;
        if c == q { return Err(Bad::Invalid) }
        if c != b'\\' { out.push(c); continue }
        if i == n - 1 { return Err(Bad::Invalid) }
        let c = b[i];
        i += 1;
        match c {
            b'\\' | b'"' | b'\'' => out.push(c),
            b'b' => out.push(8),
            b't' => out.push(9),
            b'n' => out.push(10),
            b'f' => out.push(12),
            b'r' => out.push(13),
            b'u' | b'U' => {
                let k = if c == b'u' { 4 } else { 8 };
                let mut v = 0u32;
                for _ in 0..k {
                    if i >= n - 1 { return Err(Bad::Open) }
                    match hexval(b[i]) { Some(h) => v = (v << 4) | h, None => return Err(Bad::Open) }
                    i += 1;
                }
                match char::from_u32(v) {
                    None => return Err(Bad::Invalid),
                    Some(ch) => { let mut t = [0u8; 4]; out.extend_from_slice(ch.encode_utf8(&mut t).as_bytes()) }
                }
            }
            // further escapes of the unquoting library: left open
            b'a' | b'v' | b'`' | b'x' | b'0'..=b'9' => return Err(Bad::Open),
            _ => return Err(Bad::Invalid),
        }
    }
    Ok(out)
}
