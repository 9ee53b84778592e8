//! Generated assembler sources of several files and segments, and what they mean.
use crate::asm::*;
use crate::engine::*;
use crate::isa::{self, K, Sem};
use crate::obj::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Plan {
    Local,
    Global,
    /// declared, not defined
    Undefined,
    /// neither declared nor defined: every use is an error
    Missing,
}

#[derive(Debug, Clone)]
pub struct Lab {
    pub name: String,
    plan: Plan,
    pub def: Option<(u8, usize)>,
    pub global: bool,
    pub mentioned: bool,
}

/// a source and its meaning
#[derive(Debug, Clone, Default)]
pub struct Src {
    /// path from the directory of the run, lines
    pub files: Vec<(String, Vec<Vec<u8>>)>,
    pub segs: BTreeMap<u8, Vec<u8>>,
    pub labels: Vec<Lab>,
    /// segment, offset of the word, label
    pub uses: Vec<(u8, usize, usize)>,
    pub entry: Option<(u8, usize)>,
    /// file name, line
    pub bad: BTreeSet<(String, u32)>,
    /// kinds of error planted
    pub bad_kinds: BTreeSet<&'static str>,
    /// labels that are defined, and said to be defined elsewhere
    pub conflicts: BTreeSet<String>,
    pub includes: usize,
    pub interleaved: usize,
    /// links, each with the file it leads to
    pub links: Vec<(String, String)>,
}

struct G<'a> {
    s: Src,
    faults: bool,
    tag: &'a str,
    budget: usize,
    /// files that may be included again: index, lines of it
    again: Vec<String>,
    stack: Vec<String>,
    /// labels to define first
    crowd: usize,
    /// a segment that goes beyond half of the address space
    far: bool,
}

const SEGS: [(&str, u8); 4] = [("text", TEXT), ("data", DATA), ("rodata", RODATA), ("heap", HEAP)];

pub fn dir_of(p: &str) -> &str {
    p.rfind('/').map_or("", |i| &p[..=i])
}
pub fn base_of(p: &str) -> &str {
    p.rfind('/').map_or(p, |i| &p[i + 1..])
}

impl G<'_> {
    fn emit(&mut self, f: usize, l: impl Into<Vec<u8>>) {
        self.s.files[f].1.push(l.into());
    }
    fn emit_bad(&mut self, f: usize, l: impl Into<Vec<u8>>, kind: &'static str) {
        self.emit(f, l);
        let at = (base_of(&self.s.files[f].0).to_string(), self.s.files[f].1.len() as u32);
        self.s.bad.insert(at);
        self.s.bad_kinds.insert(kind);
    }
    fn put(&mut self, seg: u8, b: &[u8]) {
        self.s.segs.entry(seg).or_default().extend(b);
    }
    fn size(&self, seg: u8) -> usize {
        self.s.segs.get(&seg).map_or(0, Vec::len)
    }
    /// a label to use
    fn a_label(&mut self, t: &mut Tape) -> usize {
        // the crowd is behind the others
        let few = self.s.labels.iter().take_while(|l| !l.name.starts_with("crowd")).count();
        let n = if t.chance(1, 8) { self.s.labels.len() } else { few };
        let i = t.below(n as u32) as usize;
        self.s.labels[i].mentioned = true;
        i
    }
    fn mark_use(&mut self, f: usize, l: usize) {
        if self.s.labels[l].plan == Plan::Missing {
            let at = (base_of(&self.s.files[f].0).to_string(), self.s.files[f].1.len() as u32);
            self.s.bad.insert(at);
            self.s.bad_kinds.insert("label that is nowhere");
        }
    }
    fn define(&mut self, t: &mut Tape, f: usize, seg: u8, i: usize) {
        let at = (seg, self.size(seg));
        self.s.labels[i].def = Some(at);
        self.s.labels[i].mentioned = true;
        let l = indent(t, &format!("{}:", self.s.labels[i].name));
        self.emit(f, l);
    }
    fn seg_line(&mut self, t: &mut Tape, f: usize) -> u8 {
        let (n, k) = *t.pick(&SEGS);
        let sp = *t.pick(&[" ", " ", " ", "  ", " \t"]);
        let l = indent(t, &format!(".seg{sp}{n}"));
        self.emit(f, l);
        k
    }
    fn file(&mut self, t: &mut Tape, path: String, depth: usize) {
        let f = self.s.files.len();
        self.s.files.push((path.clone(), vec![]));
        self.stack.push(path.clone());
        let mut seg: Option<u8> = None;
        if t.chance(1, 4) {
            self.emit(f, "#!/bin/env tc");
        }
        if self.crowd > 0 {
            // more labels than fit in a byte, before the others
            let (n, k) = *t.pick(&SEGS);
            self.emit(f, format!(".seg {n}"));
            for i in 0..std::mem::take(&mut self.crowd) {
                let at = (k, self.size(k));
                let name = format!("crowd{i}");
                self.s.labels.push(Lab { name: name.clone(), plan: Plan::Local, def: Some(at), global: false, mentioned: true });
                self.emit(f, format!("{name}:"));
                if i % 8 == 0 {
                    self.emit(f, format!(".byte {}", i & 255));
                    self.put(k, &[i as u8]);
                }
            }
            seg = Some(k);
        }
        if std::mem::take(&mut self.far) {
            let (n, k) = *t.pick(&SEGS);
            let len = t.size(0x7ff0, 0x8200);
            self.emit(f, format!(".seg {n}"));
            self.emit(f, [b".string ".as_slice(), &vec![b'f'; len]].concat());
            self.put(k, &vec![b'f'; len]);
            seg = Some(k);
        }
        let n = if self.stack.len() == 1 { t.size(1, 40) } else { t.size(0, 12) };
        for _ in 0..n {
            if self.budget == 0 || t.left() == 0 {
                break;
            }
            self.budget -= 1;
            self.item(t, f, &mut seg, depth);
        }
        self.stack.pop();
    }
    fn item(&mut self, t: &mut Tape, f: usize, seg: &mut Option<u8>, depth: usize) {
        if self.faults && t.chance(if seg.is_none() { 4 } else { 1 }, 14) {
            self.plant(t, f, seg);
            return;
        }
        match t.below(24) {
            0 | 1 => {
                let new = self.seg_line(t, f);
                if seg.is_some_and(|s| s != new) {
                    self.s.interleaved += 1;
                }
                *seg = Some(new);
            }
            2 => {
                let c = comment(t);
                self.emit(f, c);
            }
            3 => {
                // visibility, before or after the definition
                let i = t.below(self.s.labels.len() as u32) as usize;
                let name = self.s.labels[i].name.clone();
                let d = match self.s.labels[i].plan {
                    Plan::Global => *t.pick(&["global", "globl"]),
                    Plan::Undefined => *t.pick(&["ref", "reference", "global", "globl"]),
                    _ => return,
                };
                self.s.labels[i].global = true;
                self.s.labels[i].mentioned = true;
                let l = indent(t, &format!(".{d} {name}"));
                self.emit(f, l);
            }
            4 if depth > 0 => {
                let from = dir_of(&self.s.files[f].0).to_string();
                if !self.again.is_empty() && t.chance(1, 4) {
                    // a file without labels may come again
                    let p = t.pick(&self.again.clone()).clone();
                    let rel = relative(t, &from, &p);
                    self.emit(f, format!(".include {rel}"));
                    // its meaning is in its lines
                    let k = self.s.files.iter().position(|x| x.0 == p).unwrap();
                    let b = AGAIN.with(|a| a.borrow()[&(self.tag.to_string(), k)].clone());
                    for (s, bytes) in b {
                        self.put(s, &bytes);
                    }
                    self.s.includes += 1;
                    return;
                }
                let k = self.s.files.len();
                let sub = *t.pick(&["", "", "sub/", "sub/deep/", "other/"]);
                let ext = *t.pick(&["telda", "inc", "telda.inc", "s"]);
                let same = base_of(t.pick(&self.stack.clone())).to_string();
                let d = format!("{}d{k}/", self.tag);
                let (sub, p) = if !self.faults && t.chance(1, 12) && !same.contains('\u{f7ff}') {
                    // named like one that includes it, elsewhere
                    (d.as_str(), same)
                } else if t.chance(1, 10) {
                    (*t.pick(&["a b/", "\u{fe}\u{5b57}/", ".h/", "-d/", "x.y/", "inc.telda/", "0x10/"]), odd(t, &format!("{}i{k}.{ext}", self.tag)))
                } else {
                    (sub, format!("{}i{k}.{ext}", self.tag))
                };
                let p = format!("{sub}{p}");
                let rel = relative(t, &from, &p);
                let l = indent(t, &format!(".include {rel}"));
                self.emit(f, l);
                self.s.includes += 1;
                if t.chance(1, 4) {
                    self.plain_file(t, p);
                } else {
                    self.file(t, p, depth - 1);
                }
            }
            _ => {
                let Some(s) = *seg else {
                    *seg = Some(self.seg_line(t, f));
                    return;
                };
                self.content(t, f, s);
            }
        }
    }
    /// a file of data only
    fn plain_file(&mut self, t: &mut Tape, p: String) {
        let f = self.s.files.len();
        self.s.files.push((p.clone(), vec![]));
        let mut got = vec![];
        let mut seg = None;
        for _ in 0..t.size(1, 6) {
            if seg.is_none() || t.chance(1, 4) {
                seg = Some(self.seg_line(t, f));
            }
            let s = seg.unwrap();
            let b = gen_string(t, 10);
            let x = string_text(t, &b);
            self.emit(f, format!(".string {x}"));
            self.put(s, &b);
            got.push((s, b));
        }
        AGAIN.with(|a| a.borrow_mut().insert((self.tag.to_string(), f), got));
        self.again.push(p);
    }
    fn content(&mut self, t: &mut Tape, f: usize, s: u8) {
        match t.below(12) {
            0 | 1 => {
                let open: Vec<usize> = (0..self.s.labels.len()).filter(|i| matches!(self.s.labels[*i].plan, Plan::Local | Plan::Global) && self.s.labels[*i].def.is_none()).collect();
                if !open.is_empty() {
                    let i = *t.pick(&open);
                    self.define(t, f, s, i);
                }
            }
            2 => {
                let i = self.a_label(t);
                let d = *t.pick(&["wide", "word"]);
                let l = indent(t, &format!(".{d} {}", self.s.labels[i].name));
                self.emit(f, l);
                self.mark_use(f, i);
                let at = self.size(s);
                self.s.uses.push((s, at, i));
                self.put(s, &[0, 0]);
            }
            3 => {
                let v = t.u16();
                let x = wide_literal(t, v);
                let d = *t.pick(&["wide", "word"]);
                self.emit(f, format!(".{d} {x}"));
                self.put(s, &v.to_le_bytes());
            }
            4 => {
                let v = t.u8();
                let x = byte_literal(t, v, false);
                self.emit(f, format!(".byte {x}"));
                self.put(s, &[v]);
            }
            5 => {
                let b = if t.chance(1, 6) {
                    // now and then beyond half of the address space
                    let n = if t.chance(1, 16) { t.size(0x8000, 0x8200) } else { *t.pick(&[100usize, 127, 128, 129, 250, 256, 1000, 4096, 5000]) };
                    vec![b'a' + t.below(26) as u8; n]
                } else {
                    gen_string(t, 20)
                };
                if self.s.segs.values().map(Vec::len).sum::<usize>() + b.len() > 0xf000 {
                    return;
                }
                let x = string_text(t, &b);
                self.emit(f, format!(".string {x}"));
                self.put(s, &b);
            }
            6 if self.s.entry.is_none() && t.chance(1, 3) => {
                let at = self.size(s);
                self.s.entry = Some((s, at));
                let l = indent(t, ".entry");
                self.emit(f, l);
            }
            _ => {
                let form = if t.bool() {
                    let alone = t.chance(1, 3);
                    let v: Vec<_> = isa::FORMS.iter().filter(|f| f.imm() == Some(K::Iw) && (f.ops.len() == 1 || !alone)).collect();
                    *t.pick(&v)
                } else {
                    t.pick(isa::FORMS)
                };
                let mut ops = gen_ops(t, form, &[]);
                let mut used = None;
                if form.imm() == Some(K::Iw) && t.chance(2, 3) {
                    let i = self.a_label(t);
                    let k = form.ops.iter().position(|k| *k == K::Iw).unwrap();
                    ops[k] = Opnd { a: A::Label, v: 0, text: self.s.labels[i].name.clone() };
                    used = Some(i);
                }
                let name = *t.pick(form.names);
                let l = line(t, name, &ops);
                let l = indent(t, &l);
                self.emit(f, l);
                let v: Vec<u16> = ops.iter().map(|o| o.v).collect();
                debug_assert!(form.sem != Sem::JmpR || v[0] != 0);
                let b = form.encode(&v);
                if let Some(i) = used {
                    self.mark_use(f, i);
                    let at = self.size(s) + b.len() - 2;
                    self.s.uses.push((s, at, i));
                }
                self.put(s, &b);
            }
        }
    }
    /// a line that is wrong
    fn plant(&mut self, t: &mut Tape, f: usize, seg: &mut Option<u8>) {
        match t.below(14) {
            0 => self.emit_bad(f, *t.pick(&[".org 5", ".align 4", ".", ".Byte 1", ".text", ".segment text", ".globals x", ".strin g", ".entry2", ".bytes 1", ".\u{e9}"]), "unknown directive"),
            1 => self.emit_bad(f, *t.pick(&[".seg bss", ".seg", ".seg Text", ".seg text data", ".seg zero", ".seg .text", ".seg unknown"]), "unknown segment"),
            2 => self.emit_bad(f, *t.pick(&[".include nosuch.telda", ".include no such file", ".include sub/nothing", ".include /nosuch", ".include ../../../../../../../../nosuch/x"]), "missing include"),
            3 => {
                // a file that is being read
                let mut p = t.pick(&self.stack.clone()).clone();
                let from = dir_of(&self.s.files[f].0).to_string();
                if t.chance(1, 4) {
                    // by another name
                    let link = format!("link{}-{}.telda", self.s.links.len(), self.tag);
                    self.s.links.push((link.clone(), p));
                    self.s.bad_kinds.insert("circular include by another name");
                    p = link;
                }
                let rel = relative(t, &from, &p);
                self.emit_bad(f, format!(".include {rel}"), "circular include");
            }
            4 if seg.is_none() => {
                // no segment yet
                let l = *t.pick(&["halt", "ldi r1, 5", ".byte 1", ".wide 2", ".string x", ".entry", "add r1, r2, r3"]);
                self.emit_bad(f, l, "no segment");
            }
            5 if seg.is_none() => {
                let open: Vec<usize> = (0..self.s.labels.len()).filter(|i| self.s.labels[*i].plan == Plan::Local && self.s.labels[*i].def.is_none()).collect();
                if !open.is_empty() {
                    let i = *t.pick(&open);
                    self.s.labels[i].def = Some((TEXT, 0));
                    let l = format!("{}:", self.s.labels[i].name);
                    self.emit_bad(f, l, "label in no segment");
                }
            }
            6 => {
                let mut l = b".string ".to_vec();
                let bad: &[u8] = *t.pick(&[b"\xff".as_slice(), b"a\x80b", b"\xc3", b"\xc3(", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xc0\xaf"]);
                l.extend(bad);
                self.emit_bad(f, l, "not UTF-8");
            }
            7 if t.chance(1, 3) => self.emit_bad(f, *t.pick(&["a\0b:", ".global x\0", "\0:", ".ref \0\0x", "x\0:"]), "null character in a label"),
            7 => {
                let l = format!(".string abc{}", bad_escape(t));
                self.emit_bad(f, l, "bad escape");
            }
            8 => {
                let x = bad_literal(t);
                let l = format!(".{} {x}", *t.pick(&["byte", "wide"]));
                self.emit_bad(f, l, "bad literal");
            }
            n => {
                let Some(s) = *seg else { return };
                match n {
                    9 => {
                        let done: Vec<usize> = (0..self.s.labels.len()).filter(|i| self.s.labels[*i].def.is_some()).collect();
                        if !done.is_empty() {
                            let i = *t.pick(&done);
                            let l = format!("{}:", self.s.labels[i].name);
                            self.emit_bad(f, l, "label defined twice");
                        }
                    }
                    10 => {
                        if self.s.entry.is_some() {
                            self.emit_bad(f, ".entry", "second entry");
                        }
                    }
                    11 if t.chance(1, 3) => {
                        // more than a segment can hold
                        if self.size(s) < 0x3000 {
                            let l = [b".string ".to_vec(), vec![b'z'; 0xc000]].concat();
                            self.emit(f, l);
                            self.put(s, &[b'z'; 0xc000]);
                        } else {
                            let n = t.size(0xd000, 0x10100);
                            let l = [b".string ".to_vec(), vec![b'z'; n]].concat();
                            self.emit_bad(f, l, "segment too large");
                        }
                    }
                    12 => self.emit_bad(f, *t.pick(&["mov r1, r2", "LDI r1, 5", "jz x", "nop; comment", "halt 1x y", "x : y", "ldi", "push", "add r1,r2"]), "unknown instruction or operands"),
                    _ => {
                        let l = *t.pick(&["add r1, r2l, r3", "ldi r1l, 5w", "push 5", "call r1", "jmp r0", "ret r1", "store r1, r2", "div r1, r2, r3", "mul r1l, r2l, r3l, r4", "halt r1", "load 5, r1, r2", "ldi r1", "xor r1, r2, 3", "pstore r1, r1, r1l"]);
                        self.emit_bad(f, l, "wrong operands");
                    }
                }
            }
        }
    }
}

thread_local! {
    /// meaning of the data files that may be included again
    static AGAIN: std::cell::RefCell<std::collections::HashMap<(String, usize), Vec<(u8, Vec<u8>)>>> = Default::default();
}

/// a name that is not usual, with the same beginning or end
fn odd(t: &mut Tape, n: &str) -> String {
    match t.below(8) {
        0 => format!("a b  {n}"),
        1 => format!("\u{fe}\u{5b57}{n}"),
        2 => format!("{n}.v1.2"),
        3 => format!("{}{n}", "long".repeat(50)),
        4 => format!(".{n}"),
        5 => n.replace('.', "-"),
        6 => format!("-{n}"),
        _ => format!("'{n}'"),
    }
}

pub fn relative(t: &mut Tape, from: &str, to: &str) -> String {
    if t.chance(1, 8) {
        return format!("/{to}");
    }
    if !from.is_empty() && dir_of(to) == from && t.bool() {
        return base_of(to).to_string();
    }
    let deep = from.split('/').fold(0i32, |d, c| d + match c {
        "" | "." => 0,
        ".." => -1,
        _ => 1,
    });
    let up = "../".repeat(deep as usize);
    let dot = if t.chance(1, 8) { "./" } else { "" };
    format!("{dot}{up}{to}")
}

/// a source with its main file at `path`; its other files carry `tag` in their names
pub fn gen_source(t: &mut Tape, path: &str, tag: &str, faults: bool) -> Src {
    let mut g = G { s: Src::default(), faults, tag, budget: 90, again: vec![], stack: vec![], crowd: 0, far: false };
    for i in 0..t.size(1, 9) {
        let plan = match t.below(8) {
            0..=3 => Plan::Local,
            4 | 5 => Plan::Global,
            6 => Plan::Undefined,
            _ if faults => Plan::Missing,
            _ => Plan::Local,
        };
        let mut name = gen_label(t, i);
        if g.s.labels.iter().any(|l| l.name == name) {
            name = format!("again{i}");
        }
        g.s.labels.push(Lab { name, plan, def: None, global: false, mentioned: false });
    }
    let crowd = if t.chance(1, 50) { 250 + t.size(0, 60) } else { 0 };
    g.crowd = crowd;
    g.far = t.chance(1, 30);
    g.file(t, path.to_string(), 3);
    // what is left, at the end of the main file
    let mut seg = None;
    for i in 0..g.s.labels.len() {
        let l = g.s.labels[i].clone();
        match l.plan {
            Plan::Local | Plan::Global => {
                if l.def.is_none() && (l.mentioned || t.bool()) {
                    if seg.is_none() || t.chance(1, 3) {
                        seg = Some(g.seg_line(t, 0));
                    }
                    g.define(t, 0, seg.unwrap(), i);
                }
                if l.plan == Plan::Global && !l.global && g.s.labels[i].def.is_some() {
                    g.s.labels[i].global = true;
                    g.emit(0, format!(".global {}", l.name));
                }
            }
            Plan::Undefined if l.mentioned && !l.global => {
                g.s.labels[i].global = true;
                let d = *t.pick(&["ref", "global"]);
                g.emit(0, format!(".{d} {}", l.name));
            }
            _ => (),
        }
    }
    // segments with labels have bytes
    for (n, k) in SEGS {
        let named = g.s.labels.iter().any(|l| l.def.is_some_and(|d| d.0 == k)) || g.s.entry.is_some_and(|e| e.0 == k);
        if named && g.size(k) == 0 {
            g.emit(0, format!(".seg {n}"));
            g.emit(0, ".byte 0x55");
            g.put(k, &[0x55]);
        }
    }
    if faults && t.chance(1, 16) {
        // both defined here and said to be defined elsewhere
        for _ in 0..t.size(1, 3) {
            let i = t.below(g.s.labels.len() as u32) as usize;
            let l = g.s.labels[i].clone();
            let wrong = g.s.bad_kinds.iter().any(|k| k.contains("label"));
            if l.def.is_some() && matches!(l.plan, Plan::Local | Plan::Global) && !wrong {
                g.s.conflicts.insert(l.name.clone());
                let d = *t.pick(&["ref", "reference"]);
                g.emit(0, format!(".{d} {}", l.name));
            }
        }
    }
    if faults && g.s.bad.is_empty() && t.chance(1, 24) {
        // the last byte a segment can hold
        let (n, k) = *t.pick(&SEGS);
        let left = t.below(4) as usize;
        let have = g.size(k);
        if have + left < 0xffff {
            g.emit(0, format!(".seg {n}"));
            let fill = 0xffff - have - left;
            g.emit(0, [b".string ".to_vec(), vec![b'f'; fill]].concat());
            g.put(k, &vec![b'f'; fill]);
            for _ in 0..t.size(1, 3) {
                let (line, size) = *t.pick(&[(".byte 1", 1), (".wide 0x102", 2), ("ldi r1, 5", 4), ("nop", 1), ("jmp 0x102", 4), ("push r1", 2), (".string abc", 3), ("ret", 2), ("add r1, r2, r3", 3)]);
                let have = g.size(k);
                if have + size > 0xffff {
                    g.emit_bad(0, line, "segment too large");
                    break;
                } else {
                    g.emit(0, line);
                    g.put(k, &vec![0; size]);
                }
            }
        }
    }
    if faults && g.s.bad.is_empty() && t.chance(1, 24) {
        // the last byte of the address space
        let (n, k) = *t.pick(&SEGS);
        let others: usize = g.s.segs.iter().filter(|s| *s.0 != k).map(|s| s.1.len().next_multiple_of(128)).sum();
        let end = 0x10000 + t.below(5) as usize - 3;
        let want = end - 0x80 - others.min(end - 0x80);
        let have = g.size(k);
        if have < want {
            g.emit(0, format!(".seg {n}"));
            g.emit(0, [b".string ".to_vec(), vec![b'f'; want - have]].concat());
            g.put(k, &vec![b'f'; want - have]);
        }
    }
    if t.chance(1, 30) {
        g.s.stretch(t);
    }
    if t.chance(1, 30) {
        g.s.nest(t, tag);
    }
    g.s
}

impl Src {
    /// where the last segment ends at least and at most, in whatever order they are placed
    pub fn ends(&self) -> (usize, usize) {
        let all: usize = self.segs.values().map(|b| b.len().next_multiple_of(128)).sum();
        let free = |b: &Vec<u8>| b.len().next_multiple_of(128) - b.len();
        let some = || self.segs.values().filter(|b| !b.is_empty());
        (0x80 + all - some().map(free).max().unwrap_or(0), 0x80 + all - some().map(free).min().unwrap_or(0))
    }
    /// lines that mean nothing, so many that line numbers are large
    fn stretch(&mut self, t: &mut Tape) {
        let f = t.below(self.files.len() as u32) as usize;
        let at = if t.bool() { 0 } else { t.size(0, self.files[f].1.len()) };
        let n = *t.pick(&[200usize, 250, 255, 256, 1000, 9990, 32760, 65530, 65535, 70000]) + t.below(8) as usize;
        let mut filler = vec![comment(t).into_bytes(); n];
        if t.bool() {
            filler[n / 2] = [b"; ".to_vec(), vec![b'c'; n]].concat();
        }
        let name = base_of(&self.files[f].0).to_string();
        self.files[f].1.splice(at..at, filler);
        self.bad = self.bad.iter().map(|b| if b.0 == name && b.1 as usize > at { (name.clone(), b.1 + n as u32) } else { b.clone() }).collect();
    }
    /// the main file only includes a file that includes a file that ... is the main file
    fn nest(&mut self, t: &mut Tape, tag: &str) {
        let n = *t.pick(&[1usize, 7, 15, 16, 30, 32, 60, 64, 100]) + t.below(4) as usize;
        let main = self.files[0].0.clone();
        let dir = dir_of(&main).to_string();
        let name = |i: usize| format!("{tag}n{i}.telda");
        let lines = std::mem::take(&mut self.files[0].1);
        self.files.push((format!("{dir}{}", name(n)), lines));
        for i in (0..=n).rev() {
            let lines = vec![format!(".include {}", name(i)).into_bytes()];
            let lines = if t.chance(1, 4) { vec![b"; further in".to_vec(), lines[0].clone()] } else { lines };
            if i == 0 {
                self.files[0].1 = lines;
            } else {
                self.files.push((format!("{dir}{}", name(i - 1)), lines));
            }
        }
        self.bad = self.bad.iter().map(|b| if b.0 == base_of(&main) { (name(n), b.1) } else { b.clone() }).collect();
        self.includes += n;
    }
    pub fn write(&self, dir: &Path, t: &mut Tape) {
        let crlf = t.chance(1, 12);
        let last = t.chance(7, 8);
        for (p, lines) in &self.files {
            let p = crate::cli::file(dir, p);
            let mut b = lines.join(if crlf { b"\r\n".as_slice() } else { b"\n" });
            if last {
                b.push(b'\n');
            }
            std::fs::write(p, b).unwrap();
        }
        for (l, p) in &self.links {
            std::os::unix::fs::symlink(crate::cli::file(dir, p), crate::cli::file(dir, l)).unwrap();
        }
    }
    pub fn text(&self, f: usize) -> String {
        let mut s = String::new();
        for (i, l) in self.files[f].1.iter().enumerate() {
            s.push_str(&format!("{}: {}\n", i + 1, String::from_utf8_lossy(l).chars().take(80).collect::<String>()));
        }
        s
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for f in 0..self.files.len() {
            s.push_str(&format!("--- {}\n{}", self.files[f].0, self.text(f)));
        }
        s.chars().take(4000).collect()
    }
    /// the object must be what the source says
    pub fn check(&self, o: &Obj) -> R {
        ensure!(o.prefix.is_empty() && o.flags.is_none() && o.stack.is_none() && o.heap.is_none(), "the object has things that are not in the source: {}", o.brief());
        ensure_eq!(o.segs.keys().collect::<Vec<_>>(), self.segs.keys().collect::<Vec<_>>(), "segments");
        // placement
        let mut ext: Vec<(usize, usize, u8)> = vec![];
        for (k, (a, b)) in &o.segs {
            let a = *a as usize;
            ensure!(a % 128 == 0, "the {} segment starts at {a:04x}, not at a page", kind_name(*k));
            ensure!(a >= 0x80, "the {} segment starts at {a:04x}, below 80", kind_name(*k));
            ensure!(a + b.len() <= 0x10000, "the {} segment ends at {:x}", kind_name(*k), a + b.len());
            ext.push((a, a + b.len(), *k));
        }
        ext.sort();
        for w in ext.windows(2) {
            ensure!(w[0].1 <= w[1].0, "the {} and {} segments overlap", kind_name(w[0].2), kind_name(w[1].2));
        }
        let at = |k: u8, off: usize| o.segs[&k].0.wrapping_add(off as u16);
        // symbols
        let mut want = BTreeMap::new();
        for l in &self.labels {
            if !l.mentioned && l.def.is_none() {
                continue;
            }
            want.insert(l.name.as_str(), l);
        }
        let mut seen = BTreeSet::new();
        for y in &o.syms {
            let Some(l) = want.get(y.name.as_str()) else { return Err(format!("symbol {:?} is not in the source", y.name)) };
            ensure!(seen.insert(y.name.as_str()), "symbol {:?} is there twice", y.name);
            match l.def {
                Some((k, off)) => {
                    ensure!(y.seg == k && y.loc == at(k, off), "symbol {:?} is {}:{:04x}, expected {}:{:04x}", y.name, kind_name(y.seg), y.loc, kind_name(k), at(k, off));
                    ensure!(y.global == l.global, "symbol {:?}: global {}, expected {}", y.name, y.global, l.global);
                }
                None => ensure!(y.seg == UNKNOWN && y.global, "symbol {:?} is not defined, but is {} in {}", y.name, if y.global { "global" } else { "local" }, kind_name(y.seg)),
            }
        }
        for n in want.keys() {
            ensure!(seen.contains(n), "no symbol for {n:?}");
        }
        // bytes
        let mut bytes = self.segs.clone();
        let mut open = BTreeSet::new();
        for (k, off, l) in &self.uses {
            match self.labels[*l].def {
                Some((dk, doff)) => bytes.get_mut(k).unwrap()[*off..*off + 2].copy_from_slice(&at(dk, doff).to_le_bytes()),
                None => {
                    open.insert((*k, *off));
                    open.insert((*k, *off + 1));
                }
            }
        }
        for (k, b) in &bytes {
            let got = &o.segs[k].1;
            ensure_eq!(got.len(), b.len(), "length of the {} segment", kind_name(*k));
            for i in 0..b.len() {
                ensure!(got[i] == b[i] || open.contains(&(*k, i)), "byte {i:x} of the {} segment (at {:04x}) is {:02x}, expected {:02x}", kind_name(*k), at(*k, i), got[i], b[i]);
            }
        }
        // relocations
        let mut want: Vec<(u8, u16, &str)> = self.uses.iter().map(|(k, off, l)| (*k, at(*k, *off), self.labels[*l].name.as_str())).collect();
        let mut got = vec![];
        for r in &o.rels {
            let y = o.syms.get(r.sym as usize).ok_or_else(|| format!("relocation for symbol {}, which is not there", r.sym))?;
            got.push((r.seg, r.loc, y.name.as_str()));
        }
        want.sort();
        got.sort();
        if want != got {
            let f = |v: &[(u8, u16, &str)], o: &[(u8, u16, &str)]| v.iter().filter(|x| !o.contains(x)).take(4).map(|x| format!("{}:{:04x} {:?}", kind_name(x.0), x.1, x.2)).collect::<Vec<_>>().join(", ");
            return Err(format!("relocations missing [{}], not expected [{}] ({} instead of {})", f(&want, &got), f(&got, &want), got.len(), want.len()));
        }
        ensure_eq!(o.entry, self.entry.map(|(k, off)| (k, at(k, off))), "entry");
        Ok(())
    }
}
