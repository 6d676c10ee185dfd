//! One entry per property harness. Part 0 is the document (or the image text)
//! unless said otherwise; failure numbers distinguish what went wrong.
use crate::cmp::{against_model, Sel};
use crate::model::{decode, is_ws, split_image, Bad, Read, R};
use crate::sym::*;
use crate::view::*;
use dockerfile_parser::*;
use std::collections::HashSet;
use std::convert::TryFrom;
use std::str::FromStr;

fn doc() -> Option<(String, Dockerfile)> {
    let s = part_str(0);
    match Dockerfile::parse(&s) {
        Ok(d) => { reach(0); out(b"ok"); out_n(d.instructions.len()); Some((s, d)) }
        Err(_) => { reach(1); out(b"err"); None }
    }
}

// C01 ----------------------------------------------------------------------

/// everything except formatting with Debug
pub fn c01_ops() {
    let s = part_str(0);
    let look = part_str(1);
    let repl = part_str(2);
    let d = match Dockerfile::parse(&s) {
        Err(e) => { reach(1); out_n(e.to_string().len()); return }
        Ok(d) => d,
    };
    reach(0);
    let stages = d.stages();
    for st in stages.iter() {
        out_n(st.parent.to_string().len() + st.root.to_string().len());
        out_n(st.arg_index(&look).unwrap_or(99));
    }
    out_n(stages.get(&look).map(|s| s.index).unwrap_or(99));
    out_n(stages.get_by_name(&look).map(|s| s.index).unwrap_or(99));
    out_n(d.iter_stages().count());
    out_n(d.get_global_arg(&look).is_some() as usize);
    for i in &d.instructions {
        if let Instruction::From(f) = i {
            reach(2);
            if let Some((i, used)) = f.image_parsed.resolve_vars_with_context(&d) { reach(3); out(i.to_string().as_bytes()); out_n(used.len()) }
            out_n(f.image_parsed.resolve_vars(&d).is_some() as usize);
        }
    }
    let sps = spans(&d);
    for sp in sps.iter().step_by(sps.len() / 40 + 1) {
        let (l, r) = sp.relative_span(&d);
        out_n(l); out_n(r.start); out_n(r.end);
        let mut p = d.splicer();
        p.splice(sp, &repl);
        out_n(p.content.len());
    }
    let _ = d.clone() == d;
}

/// Debug and Display output
pub fn c01_fmt() {
    let s = part_str(0);
    match Dockerfile::parse(&s) {
        Err(e) => { reach(1); out_n(e.to_string().len()); out_n(format!("{:?}", e).len()) }
        Ok(d) => {
            reach(0);
            out_n(format!("{:?}", d).len());
            out_n(format!("{:?}", d.stages()).len());
            for i in &d.instructions {
                if let Err(e) = <&ArgInstruction>::try_from(i) { out_n(e.to_string().len()) }
                let _ = crate::view::content(&d);
            }
        }
    }
}

/// plain parsing of arbitrary text
pub fn c01_parse() {
    if let Some((_, d)) = doc() { for sp in spans(&d) { out_n(sp.start); out_n(sp.end) } }
}

// C02 ----------------------------------------------------------------------

fn tree(text: &str, n: &Node) {
    let (s, e) = (n.span.start, n.span.end);
    check(s <= e && e <= text.len(), 1);
    check(text.is_char_boundary(s) && text.is_char_boundary(e), 2);
    if let Some((c, src)) = &n.leaf {
        let t = &text[s..e];
        if t != *c {
            let q = t.as_bytes().first().copied();
            check(*src != Src::Verbatim && (q == Some(b'"') || q == Some(b'\'') || q == Some(b'`')), 3);
            if q != Some(b'`') {
                match decode(t.as_bytes(), *src == Src::MaybeQuotedLabel) {
                    Ok(v) => check(&v[..] == c.as_bytes(), 4),
                    Err(Bad::Open) => (),
                    Err(Bad::Invalid) => fail(5),
                }
            }
        }
    }
    let mut at = s;
    for k in &n.kids {
        check(k.span.start >= at && k.span.end <= e, 6);
        at = k.span.end;
        tree(text, k);
    }
}
/// parts of quoted words that are flags (whole text is name=value)
fn flag_text(text: &str, sp: Span, name: &SpannedString, value: &SpannedString) {
    check(sp.start + 2 == name.span.start && name.span.end + 1 == value.span.start && value.span.end == sp.end, 7);
    check(text[sp.start..].starts_with("--") && text.as_bytes()[name.span.end] == b'=', 8);
}
pub fn c02_spans() {
    if let Some((s, d)) = doc() {
        let mut at = 0;
        for i in &d.instructions {
            let n = node(i);
            check(n.span == i.span(), 9);
            check(n.span.start >= at, 6);
            tree(&s, &n);
            at = n.span.end;
            match i {
                Instruction::From(f) => for f in &f.flags { flag_text(&s, f.span, &f.name, &f.value) },
                Instruction::Copy(f) => for f in &f.flags { flag_text(&s, f.span, &f.name, &f.value) },
                _ => (),
            }
        }
        for a in &d.global_args {
            check(d.instructions.iter().any(|i| i.span() == a.span), 10);
        }
    }
}
pub fn c02_model() { against_model(&part_str(0), Sel::Spans) }

// C03 ----------------------------------------------------------------------

/// only blanks, newlines and whole comment lines in text[s..e]
fn gap(b: &[u8], s: usize, e: usize, first: bool) {
    let r = R { b };
    let mut i = s;
    // the rest of the line the previous instruction ended on
    let mut at_line_start = first || (s > 0 && (b[s - 1] == b'\n' || b[s - 1] == b'\r'));
    let mut newline = first;
    while i < e {
        if is_ws(b[i]) { i += 1; continue }
        if let Some(n) = r.nl(i) { check(n <= e, 1); i = n; at_line_start = true; newline = true; continue }
        check(b[i] == b'#' && at_line_start, 2);
        while i < e && r.nl(i).is_none() { i += 1 }
        at_line_start = false;
    }
    // the next instruction begins a line
    if e < b.len() { check(newline, 3); check(at_line_start, 4) }
}
fn quoted_leaves(n: &Node, b: &[u8], v: &mut Vec<(usize, usize)>) {
    if let Some((_, src)) = &n.leaf {
        if *src != Src::Verbatim && n.span.end - n.span.start >= 2 {
            let q = b[n.span.start];
            if (q == b'"' || q == b'\'') && b[n.span.end - 1] == q { v.push((n.span.start, n.span.end)) }
        }
    }
    for k in &n.kids { quoted_leaves(k, b, v) }
}
pub fn c03_source() {
    if let Some((s, d)) = doc() {
        let b = s.as_bytes();
        let mut at = 0;
        for (n, i) in d.instructions.iter().enumerate() {
            let sp = i.span();
            check(at <= sp.start && sp.start < sp.end && sp.end <= b.len(), 5);
            gap(b, at, sp.start, n == 0);
            at = sp.end;
            // newlines inside the instruction
            let mut q = vec![];
            quoted_leaves(&node(i), b, &mut q);
            let r = R { b };
            let mut cont = false;
            let mut line = sp.start;
            let mut p = sp.start;
            while p < sp.end {
                if let Some(z) = q.iter().find(|z| z.0 == p) { p = z.1; line = z.0; continue }
                match r.nl(p) {
                    None => p += 1,
                    Some(n) => {
                        reach(2);
                        let mut k = p;
                        while k > line && is_ws(b[k - 1]) { k -= 1 }
                        let mut f = line;
                        while f < p && is_ws(b[f]) { f += 1 }
                        let comment = cont && f < p && b[f] == b'#';
                        let blank = f == p;
                        if comment || (cont && blank) { reach(3) }
                        else { check(k > line && b[k - 1] == b'\\', 6); cont = true; reach(4) }
                        p = n;
                        line = n;
                    }
                }
            }
            check(p == sp.end, 7);
        }
        gap(b, at, b.len(), d.instructions.is_empty());
    }
}

// C04 - C08, C17 - C20 ------------------------------------------------------

pub fn c04_kinds() { against_model(&part_str(0), Sel::Kinds) }
pub fn c05_shell() { against_model(&part_str(0), Sel::Shell) }
pub fn c06_exec() { against_model(&part_str(0), Sel::Exec) }
pub fn c07_from() { against_model(&part_str(0), Sel::From) }
pub fn c08_digest() { against_model(&part_str(0), Sel::Digest) }
pub fn c17_env() { against_model(&part_str(0), Sel::Env) }
pub fn c18_label() { against_model(&part_str(0), Sel::Label) }
pub fn c19_arg() { against_model(&part_str(0), Sel::Arg) }
pub fn c20_copy() { against_model(&part_str(0), Sel::Copy) }

// C09, C10 ------------------------------------------------------------------

pub fn c09_roundtrip() {
    let s = part_str(0);
    let i = ImageRef::parse(&s);
    let t = i.to_string();
    check(t == s, 1);
    check(ImageRef::parse(&t) == i, 2);
    if i.registry.is_some() { reach(0) }
    if i.tag.is_some() { reach(1) }
    if i.hash.is_some() { reach(2) }
    out(t.as_bytes());
}
pub fn c10_split() {
    let s = part_str(0);
    let i = ImageRef::parse(&s);
    let m = split_image(s.as_bytes());
    check(i.registry.as_ref().map(|s| s.as_bytes()) == m.registry, 1);
    check(i.hash.as_ref().map(|s| s.as_bytes()) == m.hash, 2);
    check(i.tag.as_ref().map(|s| s.as_bytes()) == m.tag, 3);
    check(i.image.as_bytes() == m.image, 4);
    if m.registry.is_some() { reach(0) }
    if m.tag.is_some() { reach(1) }
    if m.hash.is_some() { reach(2) }
    if m.registry.is_none() && s.contains('/') { reach(3) }
    out_n(i.image.len());
}

// C11 ----------------------------------------------------------------------

fn var_char(c: u8) -> bool { c == b'_' || c.wrapping_sub(b'0') < 10 || (c | 32).wrapping_sub(b'a') < 26 }

/// reference substitution; None when a name is unknown or nesting is too deep
fn resolve(t: &[u8], args: &[(&[u8], &[u8])], depth: usize, used: &mut Vec<Vec<u8>>) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        let mut name = None;
        if t[i] == b'$' {
            let braced = i + 1 < t.len() && t[i + 1] == b'{';
            let s = if braced { i + 2 } else { i + 1 };
            let mut e = s;
            while e < t.len() && var_char(t[e]) { e += 1 }
            if e > s {
                if !braced { name = Some((s, e, e)) }
                else if e < t.len() && t[e] == b'}' { name = Some((s, e, e + 1)) }
            }
        }
        match name {
            None => { o.push(t[i]); i += 1 }
            Some((s, e, next)) => {
                if depth == 0 { return None }
                let n = &t[s..e];
                let mut v = None;
                for (k, val) in args { if *k == n { v = Some(*val) } }
                let r = resolve(v?, args, depth - 1, used)?;
                if !used.iter().any(|u| &u[..] == n) { used.push(n.to_vec()) }
                o.extend_from_slice(&r);
                i = next;
            }
        }
    }
    Some(o)
}
/// what a reference must resolve to, given the arguments in order
fn resolved(img: &ImageRef, text: &[u8], d: &Dockerfile, args: &[(&[u8], &[u8])]) {
    let mut used = vec![];
    let exp = resolve(text, args, 16, &mut used);
    let act = img.resolve_vars_with_context(d);
    check(img.resolve_vars(d) == act.as_ref().map(|a| a.0.clone()), 6);
    match (exp, act) {
        (None, None) => { reach(2); out(b"none") }
        (Some(e), Some((img, u))) => {
            if used.is_empty() { reach(3) } else { reach(4) }
            check(img.to_string().as_bytes() == &e[..], 1);
            let m = split_image(&e);
            check(img.registry.as_ref().map(|s| s.as_bytes()) == m.registry && img.image.as_bytes() == m.image
                && img.tag.as_ref().map(|s| s.as_bytes()) == m.tag && img.hash.as_ref().map(|s| s.as_bytes()) == m.hash, 2);
            check(u.len() == used.len(), 3);
            for n in &used { check(u.contains(std::str::from_utf8(n).unwrap()), 4) }
            out(&e);
        }
        (a, _) => fail(if a.is_some() { 5 } else { 7 }),
    }
}
pub fn c11_resolve() {
    let s = part_str(0);
    let d = match Dockerfile::parse(&s) { Ok(d) => d, Err(_) => { reach(1); return } };
    // the global ARGs, read off the instruction list
    let mut args: Vec<(&[u8], &[u8])> = vec![];
    for i in &d.instructions {
        match i {
            Instruction::From(_) => break,
            Instruction::Arg(a) => if let Some(v) = &a.value { args.push((a.name.content.as_bytes(), v.content.as_bytes())) },
            _ => (),
        }
    }
    for i in &d.instructions {
        let f = match i { Instruction::From(f) => f, _ => continue };
        resolved(&f.image_parsed, f.image.content.as_bytes(), &d, &args);
    }
}
/// the public substitution function on any text, one map
pub fn c11_substitute() {
    let (t, k, v) = (part_str(0), part_str(1), part_str(2));
    let mut m = std::collections::HashMap::new();
    m.insert(&k[..], &v[..]);
    let mut used = HashSet::new();
    let act = substitute(&t, &m, &mut used, 16);
    let mut u = vec![];
    let exp = resolve(t.as_bytes(), &[(k.as_bytes(), v.as_bytes())], 16, &mut u);
    match (act, exp) {
        (None, None) => reach(0),
        (Some(a), Some(e)) => {
            if u.is_empty() { reach(1) } else { reach(2) }
            check(a.as_bytes() == &e[..], 1);
            check(used.len() == u.len(), 2);
            for n in &u { check(used.contains(std::str::from_utf8(n).unwrap()), 3) }
        }
        _ => fail(4),
    }
}

// C12, C13, C14 --------------------------------------------------------------

fn lower(s: &str) -> String { s.bytes().map(|c| if c.wrapping_sub(b'A') < 26 { (c + 32) as char } else { c as char }).collect() }
fn lower_utf8(s: &str) -> Vec<u8> { s.bytes().map(|c| if c.wrapping_sub(b'A') < 26 { c + 32 } else { c }).collect() }

pub fn c12_stages() { if let Some((_, d)) = doc() { partition(&d, true) } }
fn partition(d: &Dockerfile, parsed: bool) {
    // expected partition, as instruction positions
    let mut exp: Vec<Vec<usize>> = vec![];
    for (n, i) in d.instructions.iter().enumerate() {
        if let Instruction::From(f) = i { if parsed { check(f.index == exp.len(), 10) } exp.push(vec![n]) }
        else if let Some(l) = exp.last_mut() { l.push(n) }
        else { reach(2) }
    }
    let st = d.stages();
    check(st.stages.len() == exp.len(), 1);
    if exp.len() > 1 { reach(3) }
    for (n, (s, e)) in st.stages.iter().zip(&exp).enumerate() {
        check(s.index == n, 2);
        check(s.instructions.len() == e.len(), 3);
        for (i, p) in s.instructions.iter().zip(e) { check(std::ptr::eq(*i, &d.instructions[*p]), 4) }
        let f = d.instructions[e[0]].as_from().unwrap();
        match (&s.name, &f.alias) {
            (None, None) => (),
            (Some(n), Some(a)) => { reach(4); check(*n == lower(&a.content), 5) }
            _ => fail(6),
        }
        check(std::ptr::eq(&st[n], s), 7);
    }
    let ids: Vec<usize> = st.iter().map(|s| s.index).collect();
    check(ids.len() == exp.len() && ids.iter().enumerate().all(|(a, b)| a == *b), 8);
    let it: Vec<Stage> = d.iter_stages().collect();
    let it2: Vec<Stage> = d.stages().into_iter().collect();
    let it3 = Stages::new(d);
    check(it.len() == exp.len() && it2.len() == exp.len() && it3.stages.len() == exp.len(), 9);
    for (n, s) in st.iter().enumerate() {
        for x in [&it[n], &it2[n], &it3[n]] {
            check(x.index == s.index && x.name == s.name && x.parent == s.parent && x.root == s.root && x.instructions.len() == s.instructions.len(), 11);
            for (a, b) in x.instructions.iter().zip(&s.instructions) { check(std::ptr::eq(*a, *b), 12) }
        }
        for (m, t) in it.iter().enumerate() {
            check((s == t) == (n == m) && s.cmp(t) == n.cmp(&m) && s.partial_cmp(t) == Some(n.cmp(&m)), 13);
        }
    }
    out_n(exp.len());
}

#[derive(Clone, Copy, PartialEq)]
enum P { Scratch, Stage(usize), Image(usize) }

pub fn c13_parents() { if let Some((_, d)) = doc() { parents(&d) } }
fn parents(d: &Dockerfile) {
    let froms: Vec<&FromInstruction> = d.instructions.iter().filter_map(|i| i.as_from()).collect();
    let mut par = vec![];
    for (n, f) in froms.iter().enumerate() {
        let im = lower(&f.image.content);
        let p = if im == "scratch" { P::Scratch } else {
            match (0..n).find(|k| froms[*k].alias.as_ref().map(|a| lower(&a.content) == im).unwrap_or(false)) {
                Some(k) => P::Stage(k),
                None => P::Image(n),
            }
        };
        par.push(p);
    }
    let st = d.stages();
    check(st.stages.len() == froms.len(), 1);
    let same = |a: &StageParent, p: P| match (a, p) {
        (StageParent::Scratch, P::Scratch) => true,
        (StageParent::Stage(x), P::Stage(y)) => *x == y,
        (StageParent::Image(x), P::Image(y)) => **x == froms[y].image_parsed,
        _ => false,
    };
    for (n, s) in st.iter().enumerate() {
        check(same(&s.parent, par[n]), 2);
        let mut r = par[n];
        let mut hops = 0;
        while let P::Stage(k) = r { r = par[k]; hops += 1; check(hops <= froms.len(), 3) }
        if hops > 0 { reach(2) }
        if hops > 1 { reach(3) }
        if r == P::Scratch { reach(4) }
        check(same(&s.root, r), 4);
        let shown = match par[n] {
            P::Scratch => "scratch".to_string(),
            P::Stage(k) => k.to_string(),
            P::Image(k) => froms[k].image.content.clone(),
        };
        check(s.parent.to_string() == shown, 5);
        out(shown.as_bytes());
    }
}

pub fn c14_lookup() { if let Some((_, d)) = doc() { lookup(&d, &part_str(1)) } }
fn lookup(d: &Dockerfile, k: &str) {
    let st = d.stages();
    let froms: Vec<&FromInstruction> = d.instructions.iter().filter_map(|i| i.as_from()).collect();
    let lk = lower_utf8(k);
    let by_name = froms.iter().position(|f| f.alias.as_ref().map(|a| lower_utf8(&a.content) == lk).unwrap_or(false));
    let g = st.get_by_name(k).map(|s| s.index);
    check(g == by_name, 1);
    if by_name.is_some() { reach(2) }
    let b = k.as_bytes();
    let numeric = !b.is_empty() && b.iter().all(|c| c.wrapping_sub(b'0') < 10);
    // an explicit plus sign and numbers beyond the machine word are left open
    if !(b.len() > 1 && b[0] == b'+') && b.len() < 19 {
        let e = if numeric {
            let mut n = 0usize;
            for c in b { n = n * 10 + (*c - b'0') as usize }
            reach(3);
            if n < froms.len() { reach(4); Some(n) } else { None }
        } else { by_name };
        check(st.get(k).map(|s| s.index) == e, 2);
        out_n(e.unwrap_or(99));
    }
    // ARGs within a stage
    let mut cur: Option<usize> = None;
    let mut pos = 0;
    let mut found: Vec<Option<usize>> = vec![];
    for i in &d.instructions {
        match i {
            Instruction::From(_) => { cur = Some(cur.map_or(0, |c| c + 1)); pos = 0; found.push(None) }
            _ => pos += 1,
        }
        if let (Some(c), Instruction::Arg(a)) = (cur, i) {
            if found[c].is_none() && a.name.content == k { found[c] = Some(pos); reach(5) }
        }
    }
    for (s, f) in st.iter().zip(&found) { check(s.arg_index(k) == *f, 3) }
}

// C15, C16 ------------------------------------------------------------------

/// part 1: for each splice, one byte choosing the span; parts 2..: replacements
pub fn c15_splice() {
    let (s, d) = match doc() { Some(x) => x, None => return };
    let order = part(1);
    let all = spans(&d);
    let mut done: Vec<(Span, String)> = vec![];
    let mut p = d.splicer();
    check(p.content == s, 9);
    let mut nested = false;
    for (n, k) in order.iter().enumerate() {
        let k = pick(*k);
        assume(k < all.len());
        let sp = all[k];
        // each span once, disjoint from or enclosing those before it
        for (q, _) in &done {
            let apart = sp.end <= q.start || q.end <= sp.start;
            let around = sp.start <= q.start && q.end <= sp.end && *q != sp;
            assume(apart || around);
            if !apart { nested = true }
        }
        let r = part_str(2 + n as u32);
        p.splice(&sp, &r);
        done.retain(|(q, _)| q.end <= sp.start || sp.end <= q.start);
        done.push((sp, r));
    }
    done.sort_by_key(|(q, _)| (q.start, q.end));
    let mut e = String::new();
    let mut at = 0;
    for (q, r) in &done { e.push_str(&s[at..q.start]); e.push_str(r); at = q.end }
    e.push_str(&s[at..]);
    check(p.content == e, 1);
    reach(2);
    if nested { reach(3) }
    if done.len() > 1 { reach(4) }
    out(e.as_bytes());
}

pub fn c16_relative() {
    let (s, d) = match doc() { Some(x) => x, None => return };
    let b = s.as_bytes();
    let all = spans(&d);
    let many = all.len() > 120;
    for (n, sp) in all.iter().enumerate() {
        // long documents: some elements from every region
        if many && n % (all.len() / 40) != 0 && n + 6 < all.len() { continue }
        let mut line = 0;
        let mut start = 0;
        for i in 0..sp.start { if b[i] == b'\n' { line += 1; start = i + 1 } }
        let (l, r) = sp.relative_span(&d);
        check(l == line, 1);
        check(r.start == sp.start - start, 2);
        check(r.end == r.start + (sp.end - sp.start), 3);
        if line > 0 { reach(2) }
        if line > 0 && r.start > 0 { reach(3) }
        out_n(l); out_n(r.start);
    }
}

// C21, C22, C23 ---------------------------------------------------------------

/// Part 0: text with marks: byte 1 = one separator between arguments, byte 2 =
/// start of a line or of the text (indentation, blank and comment lines may go
/// here), byte 3 = end of an instruction line (trailing blanks may go here).
/// Parts 1, 2, 3: what to put there instead of one blank / nothing / nothing.
/// Part 4: which occurrences (bit mask per kind; empty = all).
const KEYWORDS: [&str; 8] = ["FROM", "ARG", "LABEL", "RUN", "ENTRYPOINT", "CMD", "COPY", "ENV"];
pub fn c21_layout() {
    let t = part(0);
    let r = [part(1), part(2), part(3)];
    let sel = part(4);
    let mut base = vec![];
    let mut var = vec![];
    let mut count = [0usize; 3];
    for c in t {
        if c >= 1 && c <= 3 {
            let k = (c - 1) as usize;
            if k == 0 { base.push(b' ') }
            let n = count[k];
            count[k] += 1;
            let on = match sel.get(k) { None => true, Some(m) => n < 8 && (*m >> n) & 1 == 1 };
            if on { var.extend_from_slice(&r[k]) } else if k == 0 { var.push(b' ') }
        } else { base.push(c); var.push(c) }
    }
    let (a, b) = match (String::from_utf8(base), String::from_utf8(var)) { (Ok(a), Ok(b)) => (a, b), _ => { assume(false); return } };
    let da = Dockerfile::parse(&a);
    // the statement is about accepted documents
    let da = match da { Ok(d) => d, Err(_) => { reach(1); return } };
    // a malformed instruction was kept as a generic one, whose text is free
    for i in &da.instructions {
        if let Instruction::Misc(m) = i {
            if KEYWORDS.iter().any(|k| m.instruction.content.eq_ignore_ascii_case(k)) { reach(2); return }
        }
    }
    let db = match Dockerfile::parse(&b) { Ok(d) => d, Err(_) => fail(1) };
    reach(0);
    check(content(&da) == content(&db), 2);
    out_n(da.instructions.len());
}

pub fn c22_newlines() {
    let s = part_str(0);
    assume(!s.as_bytes().contains(&b'\r'));
    let mut crlf = String::new();
    let mut cr = String::new();
    let mut at = 0;
    let b = s.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'\n' {
            crlf.push_str(&s[at..i]); crlf.push_str("\r\n");
            cr.push_str(&s[at..i]); cr.push('\r');
            at = i + 1;
        }
    }
    crlf.push_str(&s[at..]);
    cr.push_str(&s[at..]);
    let a = Dockerfile::parse(&s);
    for (k, t) in [crlf, cr].iter().enumerate() {
        match (&a, Dockerfile::parse(t)) {
            (Err(_), Err(_)) => reach(1),
            (Ok(x), Ok(y)) => {
                reach(0);
                if content(x) != content(&y) {
                    // raw newlines in quoted values follow the newline style
                    reach(2);
                    check(s.contains('"') || s.contains('\''), 3);
                    check(content_folded(x) == content_folded(&y), 4);
                }
            }
            (Ok(_), Err(_)) => fail(10 + k as u32),
            (Err(_), Ok(_)) => fail(20 + k as u32),
        }
    }
    out_n(a.map(|d| d.instructions.len()).unwrap_or(99));
}

/// whether the last line is, or may be, continued
fn ends_continued(b: &[u8]) -> bool {
    let r = R { b };
    let mut cont = false;
    let mut i = 0;
    loop {
        let mut e = i;
        while e < b.len() && r.nl(e).is_none() { e += 1 }
        let mut f = i;
        while f < e && is_ws(b[f]) { f += 1 }
        let mut z = e;
        while z > i && is_ws(b[z - 1]) { z -= 1 }
        let blank = f == e;
        let comment = !blank && b[f] == b'#';
        if cont && (blank || comment) { /* still continued */ }
        else if comment { cont = false }
        else { cont = z > f && b[z - 1] == b'\\' }
        match r.nl(e) { Some(n) => i = n, None => return cont }
    }
}
pub fn c23_compose() {
    let a = part_str(0);
    let b = part_str(1);
    for c in a.bytes().chain(b.bytes()) { assume(c != b'"' && c != b'\'') }
    assume(!ends_continued(a.as_bytes()));
    let j = format!("{}\n{}", a, b);
    let (da, db, dj) = (Dockerfile::parse(&a), Dockerfile::parse(&b), Dockerfile::parse(&j));
    match (&da, &db, &dj) {
        (Ok(x), Ok(y), Ok(z)) => {
            reach(0);
            check(z.instructions.len() == x.instructions.len() + y.instructions.len(), 3);
            let mut froms = 0;
            let mut globals = vec![];
            for (p, q) in x.instructions.iter().chain(&y.instructions).zip(&z.instructions) {
                let (mut u, mut v) = (Content::new(), Content::new());
                u.ins(p);
                v.ins(q);
                check(u.out == v.out, 4);
                if let Instruction::From(f) = q { check(f.index == froms, 5); froms += 1 }
                if let (0, Instruction::Arg(_)) = (froms, q) { globals.push(q) }
            }
            check(z.global_args.len() == globals.len(), 6);
            for (g, q) in z.global_args.iter().zip(globals) { check(q.as_arg() == Some(g), 7) }
            out_n(z.instructions.len());
        }
        (Ok(_), Ok(_), Err(_)) => fail(1),
        (_, _, Ok(_)) => fail(2),
        _ => reach(1),
    }
}

// C24 ----------------------------------------------------------------------

const KINDS: [std::io::ErrorKind; 18] = {
    use std::io::ErrorKind::*;
    [Other, UnexpectedEof, WouldBlock, TimedOut, BrokenPipe, ConnectionReset, ConnectionAborted, NotConnected, InvalidData, InvalidInput,
     PermissionDenied, NotFound, WriteZero, OutOfMemory, Unsupported, AlreadyExists, AddrInUse, ConnectionRefused]
};
struct Chunks<'a> { data: &'a [u8], sizes: Vec<u8>, at: usize, fail_at: usize, kind: usize, failed: bool }
impl<'a> std::io::Read for Chunks<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.fail_at == self.at {
            // once: whoever asks again gets the rest
            self.fail_at = usize::MAX;
            self.failed = true;
            return Err(if self.kind < KINDS.len() { std::io::Error::new(KINDS[self.kind], "x") } else { std::io::Error::from_raw_os_error(self.kind as i32) })
        }
        let want = self.sizes.get(self.at).copied().map(pick);
        self.at += 1;
        if want == Some(255) { return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)) }
        let n = want.unwrap_or(usize::MAX).max(1).min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn agree(a: &Result<Dockerfile>, b: &Result<Dockerfile>, text: &str) {
    match (a, b) {
        (Ok(x), Ok(y)) => { check(x == y, 1); check(x.content == text && y.content == text, 2) }
        (Err(_), Err(_)) => (),
        _ => fail(3),
    }
}
/// part 0: bytes; part 1: chunk sizes (255 = an interrupted read)
pub fn c24_entry() {
    let b = part(0);
    let sizes = part(1);
    let r = Dockerfile::from_reader(Chunks { data: &b, sizes, at: 0, fail_at: usize::MAX, kind: 0, failed: false });
    match std::str::from_utf8(&b) {
        Err(_) => { reach(2); check(matches!(r, Err(Error::ReadError { .. })), 4); out(b"bad") }
        Ok(s) => {
            let a = Dockerfile::parse(s);
            if a.is_ok() { reach(0) } else { reach(1) }
            agree(&a, &r, s);
            agree(&a, &Dockerfile::from_str(s), s);
            agree(&a, &s.parse::<Dockerfile>(), s);
            check(!matches!(r, Err(Error::ReadError { .. })), 5);
            out_n(a.map(|d| d.instructions.len()).unwrap_or(99));
        }
    }
}
/// part 2: number of reads before the failure, and its kind
pub fn c24_fail() {
    let b = part(0);
    let sizes = part(1);
    let f = part(2);
    let n = pick(f[0]);
    let mut chunks = Chunks { data: &b, sizes, at: 0, fail_at: n, kind: f.get(1).map_or(0, |k| pick(*k)), failed: false };
    let r = Dockerfile::from_reader(&mut chunks);
    // the reader failed unless the end of input was seen before
    if chunks.failed { reach(0); check(matches!(r, Err(Error::ReadError { .. })), 1) }
    else { reach(1); check(!matches!(r, Err(Error::ReadError { .. })) || std::str::from_utf8(&b).is_err(), 2) }
}

// C25 ----------------------------------------------------------------------

macro_rules! view {
    ($i:expr, $k:expr, $n:expr, $as:ident, $into:ident, $var:ident) => {{
        let a = $i.$as();
        let b = $i.clone().$into();
        check(a.is_some() == ($k == $n), 1);
        check(b.is_some() == ($k == $n), 2);
        if let (Some(a), Some(b)) = (a, b) {
            check(*a == b, 3);
            check(a.span == $i.span(), 4);
            if let Instruction::$var(x) = $i { check(x == a, 5) } else { fail(6) }
            check(Instruction::from(b) == *$i, 7);
        }
    }};
}
macro_rules! conv {
    ($i:expr, $k:expr, $n:expr, $t:ident) => {{
        match <&$t>::try_from($i) {
            Ok(v) => { check($k == $n, 10); check(Instruction::from(v.clone()) == *$i, 11) }
            Err(Error::ConversionError { to, .. }) => { check($k != $n, 12); check(to == stringify!($t), 13) }
            Err(_) => fail(14),
        }
    }};
}
macro_rules! forms {
    ($r:expr) => {{
        let (sh, ex) = match &$r.expr { ShellOrExecExpr::Shell(s) => (Some(s), None), ShellOrExecExpr::Exec(e) => (None, Some(e)) };
        if sh.is_some() { reach(2) } else { reach(3) }
        check($r.as_shell() == sh && $r.as_exec() == ex, 20);
        check($r.expr.as_shell() == sh && $r.expr.as_exec() == ex, 21);
        check($r.clone().into_shell().as_ref() == sh && $r.clone().into_exec().as_ref() == ex, 22);
        check($r.expr.clone().into_shell().as_ref() == sh && $r.expr.clone().into_exec().as_ref() == ex, 23);
        check(sh.is_some() != ex.is_some(), 24);
    }};
}
/// another instruction of the same kind: its lists twice, empty or reversed
fn varied(i: &Instruction, how: usize) -> Option<Instruction> {
    fn list<T: Clone>(v: &mut Vec<T>, how: usize) {
        match how { 0 => { let w = v.clone(); v.extend(w) } 1 => v.clear(), _ => v.reverse() }
    }
    fn expr(e: &mut ShellOrExecExpr, how: usize) {
        match e { ShellOrExecExpr::Shell(b) => list(&mut b.components, how), ShellOrExecExpr::Exec(a) => list(&mut a.elements, how) }
    }
    let mut i = i.clone();
    match &mut i {
        Instruction::From(f) => { list(&mut f.flags, how); if how == 1 { f.alias = None } f.span = Span::new(7, 3) }
        Instruction::Arg(a) => { if how == 1 { a.value = None } else { a.value = Some(a.name.clone()) } }
        Instruction::Label(l) => list(&mut l.labels, how),
        Instruction::Run(r) => expr(&mut r.expr, how),
        Instruction::Cmd(r) => expr(&mut r.expr, how),
        Instruction::Entrypoint(r) => expr(&mut r.expr, how),
        Instruction::Copy(c) => { list(&mut c.flags, how); list(&mut c.sources, how) }
        Instruction::Env(e) => { if how == 2 { for v in &mut e.vars { list(&mut v.value.components, 1) } } list(&mut e.vars, how) }
        Instruction::Misc(m) => { list(&mut m.arguments.components, how); if how == 1 { m.instruction.content.clear() } }
    }
    Some(i)
}
fn span_mut(i: &mut Instruction) -> &mut Span {
    match i {
        Instruction::From(x) => &mut x.span,
        Instruction::Arg(x) => &mut x.span,
        Instruction::Label(x) => &mut x.span,
        Instruction::Run(x) => &mut x.span,
        Instruction::Entrypoint(x) => &mut x.span,
        Instruction::Cmd(x) => &mut x.span,
        Instruction::Copy(x) => &mut x.span,
        Instruction::Env(x) => &mut x.span,
        Instruction::Misc(x) => &mut x.span,
    }
}

pub fn c25_views() {
    let (_, d) = match doc() { Some(x) => x, None => return };
    let n = d.instructions.len();
    let mut all = d.instructions;
    // the same by hand: parts repeated, removed and in another order
    if n <= 12 { for j in 0..n { for how in 0..3 { all.extend(varied(&all[j], how)) } } }
    // and with spans of their own
    if n <= 12 {
        for j in 0..n {
            for (x, y) in [(0, 2), (9, 3)] {
                let mut c = all[j].clone();
                *span_mut(&mut c) = Span::new(x, y);
                check(c.span() == Span::new(x, y), 20);
                check((c == all[j]) == (all[j].span() == Span::new(x, y)), 21);
                all.push(c);
            }
        }
    }
    for i in &all {
        let k = kind(i);
        view!(i, k, 0, as_from, into_from, From);
        view!(i, k, 1, as_arg, into_arg, Arg);
        view!(i, k, 2, as_label, into_label, Label);
        view!(i, k, 3, as_run, into_run, Run);
        view!(i, k, 4, as_entrypoint, into_entrypoint, Entrypoint);
        view!(i, k, 5, as_cmd, into_cmd, Cmd);
        view!(i, k, 6, as_copy, into_copy, Copy);
        view!(i, k, 7, as_env, into_env, Env);
        view!(i, k, 8, as_misc, into_misc, Misc);
        conv!(i, k, 0, FromInstruction);
        conv!(i, k, 1, ArgInstruction);
        conv!(i, k, 2, LabelInstruction);
        conv!(i, k, 3, RunInstruction);
        conv!(i, k, 5, CmdInstruction);
        conv!(i, k, 6, CopyInstruction);
        conv!(i, k, 7, EnvInstruction);
        conv!(i, k, 8, MiscInstruction);
        match EntrypointInstruction::try_from(i.clone()) {
            Ok(v) => { check(k == 4, 15); check(Instruction::from(v) == *i, 16) }
            Err(Error::ConversionError { to, .. }) => { check(k != 4, 17); check(to == "EntrypointInstruction", 18) }
            Err(_) => fail(19),
        }
        match i {
            Instruction::Run(r) => forms!(r),
            Instruction::Cmd(r) => forms!(r),
            Instruction::Entrypoint(r) => forms!(r),
            _ => (),
        }
        reach(8 + k as u32);
    }
}

// C26 ----------------------------------------------------------------------

/// part 1: a name to look up
pub fn c26_globals() {
    let (_, d) = match doc() { Some(x) => x, None => return };
    let k = part_str(1);
    let mut g: Vec<&ArgInstruction> = vec![];
    for i in &d.instructions {
        match i {
            Instruction::From(_) => break,
            Instruction::Arg(a) => g.push(a),
            _ => reach(2),
        }
    }
    check(d.global_args.len() == g.len(), 1);
    for (a, b) in g.iter().zip(&d.global_args) { check(*a == b, 2) }
    let exp = g.iter().find(|a| a.name.content == k).copied();
    let act = d.get_global_arg(&k);
    if exp.is_some() { reach(3) } else { reach(4) }
    check(act == exp, 3);
    for a in &d.instructions {
        if let Instruction::Arg(a) = a {
            let n = &a.name.content;
            let e = g.iter().find(|x| x.name.content == *n).copied();
            check(d.get_global_arg(n) == e, 4);
        }
    }
    out_n(g.len());
}

// C01: stack use ------------------------------------------------------------

/// parts 0, 1, 2: text before, a repeated piece, text after. The stack needed
/// must not grow with the number of repetitions.
pub fn c01_depth() {
    let (a, u, z) = (part_str(0), part_str(1), part_str(2));
    let work = |n: usize| {
        let mut s = a.clone();
        for _ in 0..n { s.push_str(&u) }
        s.push_str(&z);
        stack_of(|| match Dockerfile::parse(&s) {
            Err(_) => 0,
            Ok(d) => {
                for st in d.stages().iter() { if let StageParent::Image(i) = st.parent { out_n(i.resolve_vars(&d).is_some() as usize) } }
                1 + d.instructions.len()
            }
        })
    };
    work(2);
    let (n, x) = work(20);
    let (_, y) = work(44);
    if n == 0 { reach(1) } else { reach(0) }
    out_n(n);
    check(y <= x + 1024, 1);
}

// C27 ------------------------------------------------------------------------

/// everything the queries say about a document, as bytes
fn answers(d: &Dockerfile, k: &str, r: &str) -> Vec<u8> {
    let mut c = Content::new();
    c.doc(d);
    let st = d.stages();
    for s in st.iter() {
        c.s(&format!("{} {} {} {:?}", s.index, s.parent, s.root, s.arg_index(k)));
        c.s(s.name.as_deref().unwrap_or("-"));
        c.s(&s.instructions.len().to_string());
    }
    c.s(&format!("{:?} {:?} {}", st.get(k).map(|s| s.index), st.get_by_name(k).map(|s| s.index), d.iter_stages().count()));
    if let Some(a) = d.get_global_arg(k) { c.arg(a) }
    for i in &d.instructions {
        if let Instruction::From(f) = i {
            match f.image_parsed.resolve_vars_with_context(d) {
                None => c.s("none"),
                Some((i, used)) => {
                    c.image(&i);
                    let mut u: Vec<&str> = used.iter().map(|s| s.as_ref()).collect();
                    u.sort();
                    for x in u { c.s(x) }
                }
            }
        }
    }
    for sp in spans(d) {
        let (l, q) = sp.relative_span(d);
        c.s(&format!("{} {} {} {} {}", sp.start, sp.end, l, q.start, q.end));
    }
    let mut p = d.splicer();
    c.s(&p.content);
    if let Some(i) = d.instructions.last() { p.splice(&i.span(), r); c.s(&p.content) }
    c.out
}
fn story(t: &str, k: &str, r: &str) -> Vec<u8> {
    match Dockerfile::parse(t) {
        Err(e) => { reach(1); e.to_string().into_bytes() }
        Ok(d) => {
            reach(0);
            let before = d.clone();
            let x = answers(&d, k, r);
            check(x == answers(&d, k, r), 1);
            check(d == before, 2);
            check(x == answers(&before, k, r), 3);
            x
        }
    }
}
/// parts 0, 1: two texts; 2: a name to look up; 3: a replacement; 4: how many
/// times the second is read and asked, the first only read
pub fn c27_pure() {
    let (a, b, k, r) = (part_str(0), part_str(1), part_str(2), part_str(3));
    fresh(|| story(&b, &k, &r), |alone| {
        let x = story(&a, &k, &r);
        let y = story(&b, &k, &r);
        check(y == alone, 6);
        // and not because of how often it was asked
        let many = part(4);
        let first = Dockerfile::parse(&a).ok();
        for _ in 0..many.get(0).map_or(0, |n| pick(*n)) { check(Dockerfile::parse(&b).map_or(true, |d| answers(&d, &k, &r) == y), 7) }
        for _ in 0..many.get(1).map_or(0, |n| pick(*n)) { check(Dockerfile::parse(&a).ok() == first, 8) }
        check(x == story(&a, &k, &r), 4);
        check(y == story(&b, &k, &r), 5);
        out_n(x.len());
        out_n(y.len());
    })
}

// C28 ------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum Place { Word, Quotable, Element, Piece, Comment, Args }

/// the values of a document, with how each may be written
fn places(d: &mut Dockerfile) -> Vec<(&mut Span, &mut String, Place)> {
    fn pieces<'a>(b: &'a mut BreakableString, p: Place, v: &mut Vec<(&'a mut Span, &'a mut String, Place)>) {
        for c in &mut b.components {
            match c {
                BreakableStringComponent::String(s) => v.push((&mut s.span, &mut s.content, p)),
                BreakableStringComponent::Comment(c) => v.push((&mut c.span, &mut c.content, Place::Comment)),
            }
        }
    }
    fn expr<'a>(e: &'a mut ShellOrExecExpr, v: &mut Vec<(&'a mut Span, &'a mut String, Place)>) {
        match e {
            ShellOrExecExpr::Shell(b) => pieces(b, Place::Piece, v),
            ShellOrExecExpr::Exec(a) => for s in &mut a.elements { v.push((&mut s.span, &mut s.content, Place::Element)) },
        }
    }
    let mut v = vec![];
    for i in &mut d.instructions {
        match i {
            Instruction::From(f) => {
                for f in &mut f.flags { v.push((&mut f.value.span, &mut f.value.content, Place::Quotable)) }
                v.push((&mut f.image.span, &mut f.image.content, Place::Word));
                if let Some(a) = &mut f.alias { v.push((&mut a.span, &mut a.content, Place::Word)) }
            }
            Instruction::Arg(a) => {
                v.push((&mut a.name.span, &mut a.name.content, Place::Word));
                if let Some(x) = &mut a.value { v.push((&mut x.span, &mut x.content, Place::Quotable)) }
            }
            Instruction::Label(l) => for l in &mut l.labels {
                v.push((&mut l.name.span, &mut l.name.content, Place::Quotable));
                v.push((&mut l.value.span, &mut l.value.content, Place::Quotable));
            },
            Instruction::Run(r) => expr(&mut r.expr, &mut v),
            Instruction::Cmd(r) => expr(&mut r.expr, &mut v),
            Instruction::Entrypoint(r) => expr(&mut r.expr, &mut v),
            Instruction::Copy(c) => {
                for f in &mut c.flags { v.push((&mut f.value.span, &mut f.value.content, Place::Quotable)) }
                for s in &mut c.sources { v.push((&mut s.span, &mut s.content, Place::Quotable)) }
                v.push((&mut c.destination.span, &mut c.destination.content, Place::Quotable));
            }
            Instruction::Env(e) => for x in &mut e.vars {
                v.push((&mut x.key.span, &mut x.key.content, Place::Word));
                pieces(&mut x.value, Place::Quotable, &mut v);
            },
            Instruction::Misc(m) => {
                let known = KEYWORDS.iter().any(|k| k.eq_ignore_ascii_case(&m.instruction.content));
                if !known { pieces(&mut m.arguments, Place::Args, &mut v) }
            }
        }
    }
    v
}
/// parts 1, 2: for each edit, a byte choosing the value and the new value
/// (a letter, then letters, digits or underscores)
pub fn c28_edit() {
    let (s, d) = match doc() { Some(x) => x, None => return };
    let which = part(1);
    let mut e = d.clone();
    let mut p = d.splicer();
    let all = spans(&d);
    let mut edits: Vec<(Span, usize)> = vec![];
    for (n, k) in which.iter().enumerate() {
        let k = pick(*k);
        let r = part_str(2 + n as u32);
        let b = r.as_bytes();
        assume(!b.is_empty() && alpha(b[0]) && b.iter().all(|c| var_char(*c)));
        let mut l = places(&mut e);
        assume(k < l.len());
        let (sp, c, place) = &mut l[k];
        assume(edits.iter().all(|(q, _)| *q != **sp));
        let t = &s[sp.start..sp.end];
        let quoted = t != **c;
        let new = match place {
            Place::Element => { reach(2); format!("\"{}\"", r) }
            Place::Quotable if quoted => { reach(3); format!("'{}'", r) }
            Place::Comment => { reach(4); format!("#{}", r) }
            Place::Args => {
                // keep what separates the first piece from the keyword
                reach(5);
                let keep = t.len() - t.trim_start_matches(|c| c == ' ' || c == '\t').len();
                format!("{}{}", if keep == 0 { " " } else { &t[..keep] }, r)
            }
            // indentation belongs to the piece
            _ => { reach(6); r.clone() }
        };
        **c = match place { Place::Element => r.clone(), Place::Quotable if quoted => r.clone(), _ => new.clone() };
        edits.push((**sp, new.len()));
        p.splice(sp, &new);
    }
    for i in &mut e.instructions { if let Instruction::From(f) = i { f.image_parsed = ImageRef::parse(&f.image.content) } }
    e.global_args = e.instructions.iter().take_while(|i| i.as_from().is_none()).filter_map(|i| i.as_arg()).cloned().collect();
    let got = match Dockerfile::parse(&p.content) { Ok(x) => x, Err(_) => fail(1) };
    check(got.content == p.content, 2);
    check(content(&got) == content(&e), 3);
    // positions: everything moves by the change in length of what precedes it
    let moved = |at: usize, end: bool| {
        let mut x = at;
        for (q, n) in &edits { if q.end < at || (q.end == at && (end || q.start < at)) { x = x + n - (q.end - q.start) } }
        x
    };
    let now = spans(&got);
    check(now.len() == all.len(), 4);
    for (a, b) in all.iter().zip(&now) {
        check(b.start == moved(a.start, false), 5);
        check(b.end == moved(a.end, true), 6);
    }
    out(p.content.as_bytes());
}
fn alpha(c: u8) -> bool { (c | 32).wrapping_sub(b'a') < 26 }

// C29 ------------------------------------------------------------------------

pub fn c29_alone() {
    let (s, d) = match doc() { Some(x) => x, None => return };
    for i in &d.instructions {
        let sp = i.span();
        let t = &s[sp.start..sp.end];
        let a = match Dockerfile::parse(t) { Ok(a) => a, Err(_) => fail(1) };
        check(a.instructions.len() == 1, 2);
        let mut x = Content::new();
        x.ins(i);
        let mut y = Content::new();
        y.ins(&a.instructions[0]);
        check(x.out == y.out, 3);
        let mut v = vec![];
        fn go(n: &Node, v: &mut Vec<Span>) { v.push(n.span); for k in &n.kids { go(k, v) } }
        go(&node(i), &mut v);
        let w = spans(&a);
        check(v.len() == w.len(), 4);
        for (p, q) in v.iter().zip(&w) { check(p.start == sp.start + q.start && p.end == sp.start + q.end, 5) }
        if t.contains('\n') { reach(2) }
        reach(8 + kind(i) as u32);
    }
    out_n(d.instructions.len());
}

// C30 ------------------------------------------------------------------------

/// parts 0..3: texts; part 3: numbers
pub fn c30_build() {
    let (x, y, z) = (part_str(0), part_str(1), part_str(2));
    let n: Vec<usize> = part(3).iter().map(|c| *c as usize).collect();
    let sp = |i: usize| Span::new(n[i], n[i + 1]);
    let ss = |i: usize, t: &str| SpannedString { span: sp(i), content: t.to_string() };
    check(sp(0).start == n[0] && sp(0).end == n[1] && sp(0) == Span::from((n[0], n[1])), 1);
    let b = BreakableString::new((n[0], n[1])).add_string((n[1], n[2]), x.as_str()).add_comment((n[2], n[3]), y.as_str())
        .add(((n[3], n[4]), z.as_str())).add(ss(2, &y)).add(SpannedComment { span: sp(0), content: x.clone() });
    check(b.span == sp(0), 2);
    let want: Vec<(bool, Span, &str)> = vec![(true, sp(1), &x), (false, sp(2), &y), (true, sp(3), &z), (true, sp(2), &y), (false, sp(0), &x)];
    check(b.components.len() == want.len() && b.iter_components().count() == want.len(), 3);
    for (c, (st, sp, t)) in b.iter_components().zip(&want) {
        match c {
            BreakableStringComponent::String(s) => check(*st && s.span == *sp && s.content == *t, 4),
            BreakableStringComponent::Comment(s) => check(!*st && s.span == *sp && s.content == *t, 5),
        }
    }
    check(b.to_string() == [x.as_str(), &z, &y].concat(), 6);
    check(BreakableString::new(sp(1)).to_string().is_empty(), 7);
    let f = BreakableString::from(((n[0], n[1]), x.as_str()));
    check(f == BreakableString::new(sp(0)).add_string(sp(0), x.clone()) && f.to_string() == x, 8);
    check((f == BreakableString::from(((n[0], n[1]), z.as_str()))) == (x == z), 9);
    let s = ss(0, &x);
    check(s.to_string() == x && s.as_ref() == x, 10);
    let a = StringArray { span: sp(0), elements: vec![ss(0, &x), ss(1, &y), ss(2, &z)] };
    check(a.as_str_vec() == vec![x.as_str(), &y, &z], 11);
    let l = Label::new(sp(0), ss(1, &x), ss(2, &y));
    check(l.span == sp(0) && l.name == ss(1, &x) && l.value == ss(2, &y), 12);
    let v = EnvVar::new(sp(0), ss(1, &x), ((n[2], n[3]), y.as_str()));
    check(v.span == sp(0) && v.key == ss(1, &x) && v.value == BreakableString::from(((n[2], n[3]), y.as_str())), 13);
    for m in 0..8 {
        let o = |bit: usize, t: &str| if m & bit != 0 { Some(t.to_string()) } else { None };
        let i = ImageRef { registry: o(1, &y), image: x.clone(), tag: o(2, &z), hash: if m & 2 == 0 { o(4, &z) } else { None } };
        let mut e = String::new();
        if m & 1 != 0 { e.push_str(&y); e.push('/') }
        e.push_str(&x);
        if m & 2 != 0 { e.push(':'); e.push_str(&z) } else if m & 4 != 0 { e.push('@'); e.push_str(&z) }
        check(i.to_string() == e, 14);
    }
    // any three additions, in any order
    for m in 0..27 {
        let t = [&x, &y, &z];
        let kinds = [m % 3, m / 3 % 3, m / 9];
        let mut b = BreakableString::new(sp(3));
        for j in 0..3 {
            b = match kinds[j] { 0 => b.add_string(sp(j), t[j].as_str()), 1 => b.add_comment(sp(j), t[j].as_str()), _ => b.add(((n[j], n[j + 1]), t[j].as_str())) };
        }
        check(b.span == sp(3) && b.components.len() == 3, 15);
        let mut text = String::new();
        for j in 0..3 {
            let c = &b.components[j];
            match c {
                BreakableStringComponent::String(s) => { check(kinds[j] != 1 && s.span == sp(j) && s.content == *t[j], 16); text.push_str(t[j]) }
                BreakableStringComponent::Comment(s) => check(kinds[j] == 1 && s.span == sp(j) && s.content == *t[j], 17),
            }
        }
        check(b.to_string() == text, 18);
    }
    reach(0);
    out(b.to_string().as_bytes());
}

// C31 ------------------------------------------------------------------------

/// part 0: text; 1, 3, 5: names; 2, 4, 6: their values (an empty part 1/3/5
/// means no such entry); 7: the depth limit; 8: a name already recorded
pub fn c31_limit() {
    let kv: Vec<(String, String)> = (0..3).map(|n| (part_str(1 + 2 * n), part_str(2 + 2 * n))).filter(|x| !x.0.is_empty()).collect();
    substituted(part_str(0), kv, part(7)[0], part_str(8))
}
/// part 0: text; 1: the map, one name=value per line; 2: limit; 3: a name recorded before
pub fn c31_map() {
    let m = part_str(1);
    let kv = m.lines().filter_map(|l| l.find('=').map(|p| (l[..p].to_string(), l[p + 1..].to_string()))).collect();
    substituted(part_str(0), kv, part(2)[0], part_str(3))
}
fn substituted(t: String, kv: Vec<(String, String)>, limit: u8, old: String) {
    let mut m = std::collections::HashMap::new();
    for (k, v) in &kv { m.insert(&k[..], &v[..]); }
    let mut used: HashSet<String> = HashSet::new();
    used.insert(old.clone());
    let act = substitute(&t, &m, &mut used, limit);
    let args: Vec<(&[u8], &[u8])> = kv.iter().map(|(k, v)| (k.as_bytes(), v.as_bytes())).collect();
    let mut u = vec![];
    let exp = resolve(t.as_bytes(), &args, limit as usize, &mut u);
    check(used.contains(&old), 5);
    match (act, exp) {
        (None, None) => reach(0),
        (Some(a), Some(e)) => {
            if u.is_empty() { reach(1) } else { reach(2) }
            check(a.as_bytes() == &e[..], 1);
            if !u.iter().any(|n| &n[..] == old.as_bytes()) { u.push(old.into_bytes()) }
            check(used.len() == u.len(), 2);
            for n in &u { check(used.contains(std::str::from_utf8(n).unwrap()), 3) }
            out(&e);
        }
        (a, _) => fail(if a.is_some() { 6 } else { 4 }),
    }
}

// C32 ------------------------------------------------------------------------

/// part 0: a document; 1: edits, two bytes each (what, where); 2: a document to
/// take instructions from; 3: a name to look up; 4..7: parts of an image reference
pub fn c32_edited() {
    let (_, mut d) = match doc() { Some(x) => x, None => return };
    let ops = part(1);
    let o = match Dockerfile::parse(&part_str(2)) { Ok(o) => o, Err(_) => { assume(false); return } };
    let k = part_str(3);
    // answers given before an edit must not show after it
    let _ = (d.stages().get(&k).is_some(), d.get_global_arg(&k).is_some(), d.iter_stages().count());
    for i in &d.instructions { if let Instruction::From(f) = i { let _ = f.image_parsed.resolve_vars(&d); } }
    for e in ops.chunks(2) {
        let (what, at) = (pick(e[0]), pick(e[1]));
        let n = d.instructions.len();
        match what {
            0 => { assume(at < n); d.instructions.remove(at); }
            1 => { assume(at + 1 < n); d.instructions.swap(at, at + 1) }
            2 => { assume(at < n); let i = d.instructions[at].clone(); d.instructions.push(i) }
            3 => { assume(at <= n && !o.instructions.is_empty()); d.instructions.insert(at, o.instructions[0].clone()) }
            4 => { assume(at < d.global_args.len()); d.global_args.remove(at); }
            5 => { assume(at < 1); d.global_args.extend(o.instructions.iter().filter_map(|i| i.as_arg()).cloned()) }
            6 => { assume(at < 1); d.instructions.reverse(); d.global_args.reverse() }
            7 => {
                assume(at < n);
                match &mut d.instructions[at] {
                    Instruction::From(f) => { f.image.content = k.clone(); f.image_parsed = ImageRef::parse(&k) }
                    Instruction::Arg(a) => a.name.content = k.clone(),
                    _ => assume(false),
                }
            }
            8 => {
                assume(at < n);
                match &mut d.instructions[at] {
                    Instruction::From(f) => f.alias = match &f.alias { None => Some(SpannedString { span: f.span, content: k.clone() }), Some(_) => None },
                    Instruction::Arg(a) => a.value = None,
                    _ => assume(false),
                }
            }
            _ => { assume(at < 1); d.instructions.extend(o.instructions.iter().cloned()); d.content = o.content.clone() }
        }
        reach(10 + what as u32);
    }
    partition(&d, false);
    parents(&d);
    lookup(&d, &k);
    // the first ARG of that name before the first FROM
    let exp = d.instructions.iter().take_while(|i| i.as_from().is_none()).filter_map(|i| i.as_arg()).find(|a| a.name.content == k);
    check(d.get_global_arg(&k) == exp, 20);
    let args: Vec<(&[u8], &[u8])> = d.global_args.iter().filter_map(|a| a.value.as_ref().map(|v| (a.name.content.as_bytes(), v.content.as_bytes()))).collect();
    for i in &d.instructions { if let Instruction::From(f) = i { resolved(&f.image_parsed, f.image.content.as_bytes(), &d, &args) } }
    // a reference that is not part of the document
    let img = ImageRef { registry: Some(part_str(4)), image: part_str(5), tag: Some(part_str(6)), hash: None };
    resolved(&img, format!("{}/{}:{}", part_str(4), part_str(5), part_str(6)).as_bytes(), &d, &args);
    check(d.splicer().content == d.content, 21);
}

// C33 ------------------------------------------------------------------------

fn prefix(e: &Error) -> &'static str {
    match e {
        Error::ParseError { .. } => "could not parse Dockerfile: ",
        Error::GenericParseError { .. } => "unable to parse Dockerfile: ",
        Error::UnescapeError { .. } => "error unescaping string: ",
        Error::UnknownParseError => "unable to parse Dockerfile",
        Error::ReadError { .. } => "could not read Dockerfile: ",
        Error::ConversionError { .. } => "could not convert instruction '",
    }
}
pub fn c33_errors() {
    let s = part_str(0);
    let e = match Dockerfile::parse(&s) {
        Ok(d) => {
            reach(1);
            // what had to be refused was not let through
            if let Read::Doc(m) = (R { b: s.as_bytes() }).read() {
                check(!m.must_reject, 15);
                check(d.instructions.len() == m.ins.len(), 16);
                for (p, q) in m.ins.iter().zip(&d.instructions) {
                    if p.malformed { check(matches!(q, Instruction::Misc(_)), 17) }
                }
            }
            return;
        }
        Err(e) => e,
    };
    reach(0);
    use std::error::Error as _;
    let shown = e.to_string();
    check(shown.starts_with(prefix(&e)), 1);
    let b = s.as_bytes();
    match &e {
        Error::ParseError { source } => {
            reach(2);
            check(e.source().is_some(), 2);
            let p = match source.location { pest::error::InputLocation::Pos(p) => p, _ => fail(3) };
            check(p <= b.len() && s.is_char_boundary(p), 4);
            let (mut line, mut start) = (1, 0);
            let mut i = 0;
            while i < p { if b[i] == b'\n' { line += 1; start = i + 1 } i += 1 }
            match source.line_col {
                pest::error::LineColLocation::Pos((l, c)) => {
                    check(l == line, 5);
                    if !s.contains('\r') { check(c == 1 + s[start..p].chars().count(), 6) }
                }
                _ => fail(7),
            }
            let cr = b.contains(&b'\r');
            if !cr {
                let end = b[start..].iter().position(|c| *c == b'\n').map_or(b.len(), |n| start + n);
                check(shown.contains(&s[start..end]), 8);
                check(shown.contains(&format!("{}:{}", line, 1 + s[start..p].chars().count())), 18);
            }
            out_n(p);
            // everything before the line is fine unless it runs into that line
            let cut = &s[..start];
            if !ends_continued(cut.as_bytes()) && !cut.contains('"') && !cut.contains('\'') && !cut.contains('`') {
                reach(3);
                check(!matches!(Dockerfile::parse(cut), Err(Error::ParseError { .. })), 9);
            }
            // and where lines stand alone, the line itself is not
            if !b.iter().any(|c| matches!(c, b'\\' | b'"' | b'\'' | b'`' | b'\r')) {
                reach(6);
                let end = b[start..].iter().position(|c| *c == b'\n').map_or(b.len(), |n| start + n);
                check(matches!(Dockerfile::parse(&s[start..end]), Err(Error::ParseError { .. })), 14);
            }
        }
        Error::UnescapeError { .. } => { reach(4); check(e.source().is_some() && b.contains(&b'"') | b.contains(&b'\'') | b.contains(&b'`'), 10) }
        Error::GenericParseError { message } => { reach(5); check(b.contains(&b'@') && shown.ends_with(&message[..]) && !message.is_empty(), 11); check(e.source().is_none(), 12) }
        _ => fail(13),
    }
}

// C34 ------------------------------------------------------------------------

fn all_spans(i: &Instruction) -> Vec<(usize, usize)> {
    fn go(n: &Node, v: &mut Vec<(usize, usize)>) { v.push((n.span.start, n.span.end)); for k in &n.kids { go(k, v) } }
    let mut v = vec![];
    go(&node(i), &mut v);
    match i {
        Instruction::From(f) => v.push((f.index, 0)),
        _ => (),
    }
    v
}
/// parts 0, 1: two texts
pub fn c34_equal() {
    let (a, b) = (part_str(0), part_str(1));
    let (x, y) = match (Dockerfile::parse(&a), Dockerfile::parse(&b)) { (Ok(x), Ok(y)) => (x, y), _ => { reach(1); return } };
    reach(0);
    check((x == y) == (a == b), 1);
    check((y == x) == (x == y) && x == x && x == x.clone() && !(x != x), 2);
    for i in &x.instructions {
        for j in &y.instructions {
            let (mut u, mut v) = (Content::new(), Content::new());
            u.ins(i);
            v.ins(j);
            let same = u.out == v.out && all_spans(i) == all_spans(j);
            if same { reach(2) } else { reach(3) }
            check((i == j) == same && (i != j) != same, 3);
        }
    }
    // positions order by start, then by end
    for p in spans(&x).iter().take(12) {
        for q in spans(&y).iter().take(12) {
            let o = if p.start != q.start { p.start.cmp(&q.start) } else { p.end.cmp(&q.end) };
            check(p.cmp(q) == o && p.partial_cmp(q) == Some(o) && (p == q) == (o == std::cmp::Ordering::Equal) && (p < q) == (o == std::cmp::Ordering::Less), 4);
        }
    }
    out_n(x.instructions.len());
}

/// two references and variations of the first by hand
pub fn c34_image() {
    let (a, b) = (part_str(0), part_str(1));
    let x = ImageRef::parse(&a);
    let mut all = vec![ImageRef::parse(&b), x.clone()];
    for v in [None, Some(String::new()), Some("latest".to_string()), Some(b.clone())] {
        for k in 0..3 {
            let mut i = x.clone();
            match k { 0 => i.registry = v.clone(), 1 => i.tag = v.clone(), _ => i.hash = v.clone() }
            all.push(i);
        }
    }
    all.push(ImageRef { image: b.clone(), ..x.clone() });
    all.push(ImageRef { image: x.image.to_ascii_uppercase(), ..x.clone() });
    for y in &all {
        let same = x.registry == y.registry && x.image == y.image && x.tag == y.tag && x.hash == y.hash;
        if same { reach(0) } else { reach(1) }
        check((x == *y) == same && (*y == x) == same && (x != *y) != same, 1);
    }
    check((x == all[0]) == (a == b), 2);
    out_n(all.iter().filter(|y| x == **y).count());
}

// C35 ------------------------------------------------------------------------

/// part 1: two bytes per splice, where it starts and ends; part 2..: replacements.
/// Also locates each of these spans.
pub fn c35_anywhere() {
    let (s, d) = match doc() { Some(x) => x, None => return };
    let at = part(1);
    let mut p = d.splicer();
    let mut done: Vec<(Span, String)> = vec![];
    for (n, e) in at.chunks(2).enumerate() {
        let (x, y) = (pick(e[0]), pick(e[1]));
        assume(x <= y && y <= s.len() && s.is_char_boundary(x) && s.is_char_boundary(y));
        let sp = Span::new(x, y);
        let b = s.as_bytes();
        let (mut line, mut start) = (0, 0);
        for i in 0..x { if b[i] == b'\n' { line += 1; start = i + 1 } }
        check(sp.relative_span(&d) == (line, Span::new(x - start, y - start)), 2);
        assume(x < y);
        for (q, _) in &done {
            assume(sp.end <= q.start || q.end <= sp.start || (sp.start <= q.start && q.end <= sp.end && *q != sp));
        }
        let r = part_str(2 + n as u32);
        p.splice(&sp, &r);
        done.retain(|(q, _)| q.end <= sp.start || sp.end <= q.start);
        done.push((sp, r));
        reach(2);
    }
    done.sort_by_key(|(q, _)| (q.start, q.end));
    let mut e = String::new();
    let mut k = 0;
    for (q, r) in &done { e.push_str(&s[k..q.start]); e.push_str(r); k = q.end }
    e.push_str(&s[k..]);
    check(p.content == e, 1);
    out(e.as_bytes());
}
