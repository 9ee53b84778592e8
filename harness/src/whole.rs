//! Programs of several modules: what they mean, and their source texts.
use crate::asm;
use crate::engine::*;
use crate::isa::{Form, K};
use crate::obj::*;
use crate::user::fm;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use K::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum X {
    N(u16),
    /// label within the function
    L(usize),
    /// any item
    G(usize),
}
use X::*;

pub enum Part {
    I(&'static Form, Vec<X>),
    Raw(Vec<u8>),
    /// word
    W(X),
    Here(usize),
}

impl Part {
    fn len(&self) -> usize {
        match self {
            Part::I(f, _) => f.len(),
            Part::Raw(b) => b.len(),
            Part::W(_) => 2,
            Part::Here(_) => 0,
        }
    }
}

/// a function or a piece of data
pub struct Item {
    pub seg: u8,
    pub parts: Vec<Part>,
    labels: usize,
    pub module: usize,
    /// bytes that may be written or read
    room: usize,
    pub name: String,
    pub global: bool,
}

impl Item {
    fn i(&mut self, name: &str, ops: &[K], v: &[X]) {
        self.parts.push(Part::I(fm(name, ops), v.to_vec()));
    }
    fn ldi(&mut self, r: u16, x: X) {
        self.i("ldi", &[W, Iw], &[N(r), x]);
    }
    fn ldib(&mut self, r: u16, v: u8) {
        self.i("ldi", &[B, Ib], &[N(r), N(v as u16)]);
    }
    fn label(&mut self) -> usize {
        self.labels += 1;
        self.labels - 1
    }
    fn here(&mut self, l: usize) {
        self.parts.push(Part::Here(l));
    }
    pub fn len(&self) -> usize {
        self.parts.iter().map(|p| p.len()).sum()
    }
    fn refs(&self) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        for p in &self.parts {
            match p {
                Part::I(_, v) => s.extend(v.iter().filter_map(|x| if let G(g) = x { Some(*g) } else { None })),
                Part::W(G(g)) => {
                    s.insert(*g);
                }
                _ => (),
            }
        }
        s
    }
    fn bytes(&self, at: u16, places: &[u16]) -> Vec<u8> {
        let mut here = BTreeMap::new();
        let mut p = at;
        for x in &self.parts {
            if let Part::Here(l) = x {
                here.insert(*l, p);
            }
            p += x.len() as u16;
        }
        let val = |x: &X| match x {
            N(n) => *n,
            L(l) => here[l],
            G(g) => places[*g],
        };
        let mut b = vec![];
        for x in &self.parts {
            match x {
                Part::I(f, v) => b.extend(f.encode(&v.iter().map(val).collect::<Vec<_>>())),
                Part::Raw(r) => b.extend(r),
                Part::W(x) => b.extend(val(x).to_le_bytes()),
                Part::Here(_) => (),
            }
        }
        b
    }
}

pub struct Whole {
    pub items: Vec<Item>,
    pub modules: usize,
    /// the entry is declared in the source
    pub dot_entry: bool,
    /// relies on the permissions of its pages
    pub strict: bool,
}

const VALS: [u16; 6] = [3, 4, 5, 6, 7, 8];
const BVALS: [u16; 10] = [5, 6, 7, 8, 9, 10, 11, 12, 13, 4];

struct Gen {
    items: Vec<Item>,
    /// functions: the handler comes last; calls go to later ones only
    funs: Vec<usize>,
    handler: Option<usize>,
    data: Vec<usize>,
    strings: Vec<usize>,
    tables: Vec<(usize, Vec<usize>)>,
    budget: usize,
    faults: bool,
    strict: bool,
}

impl Gen {
    fn out(f: &mut Item) {
        f.ldi(1, N(4));
        f.i("syscall", &[], &[]);
    }
    fn block(&mut self, t: &mut Tape, me: usize, f: &mut Item, depth: usize) {
        for _ in 0..t.size(1, 6) {
            if self.budget == 0 {
                return;
            }
            self.budget -= 1;
            self.stmt(t, me, f, depth);
        }
    }
    /// position among the functions: later ones may be called
    fn call(&mut self, t: &mut Tape, me: usize, f: &mut Item) {
        let later: Vec<usize> = (me + 1..self.funs.len()).collect();
        if later.is_empty() {
            return;
        }
        let c = *t.pick(&later);
        f.i("push", &[W], &[N(12)]);
        if c % 2 == 1 {
            f.i("push", &[W], &[N(*t.pick(&VALS))]);
        }
        let target = self.funs[c];
        let tabs: Vec<(usize, u16)> = self.tables.iter().flat_map(|(d, fs)| fs.iter().enumerate().filter(|(_, x)| **x == target).map(|(i, _)| (*d, 2 * i as u16))).collect();
        match t.below(4) {
            0 | 1 => f.i("call", &[Iw], &[G(target)]),
            2 => {
                let back = f.label();
                f.ldi(9, G(target));
                f.ldi(12, L(back));
                f.i("jmp", &[W], &[N(9)]);
                f.here(back);
            }
            _ if !tabs.is_empty() => {
                // through a table
                let (d, off) = *t.pick(&tabs);
                let back = f.label();
                if t.bool() {
                    f.ldi(9, G(d));
                    f.i("load", &[W, W, Iw], &[N(9), N(9), N(off)]);
                } else {
                    f.ldi(9, N(off));
                    f.i("load", &[W, W, Iw], &[N(9), N(9), G(d)]);
                }
                f.ldi(12, L(back));
                f.i("jmp", &[W], &[N(9)]);
                f.here(back);
            }
            _ => f.i("call", &[Iw], &[G(target)]),
        }
        f.i("pop", &[W], &[N(12)]);
    }
    fn stmt(&mut self, t: &mut Tape, me: usize, f: &mut Item, depth: usize) {
        match t.below(22) {
            0 | 1 => {
                f.ldib(3, t.u8());
                Self::out(f);
            }
            2 | 3 => {
                let r = *t.pick(&BVALS);
                f.i("or", &[B, B, B], &[N(3), N(r), N(0)]);
                Self::out(f);
            }
            4 => {
                f.ldi(1, N(3));
                f.i("syscall", &[], &[]);
                let r = *t.pick(&VALS);
                f.i("or", &[W, W, W], &[N(r), N(1), N(0)]);
            }
            5..=7 => {
                let wide = t.bool();
                let name = *t.pick(&["add", "sub", "and", "or", "xor", "shl", "asr", "lsr", "mul", "div"]);
                let k = if wide { W } else { B };
                let regs: &[u16] = if wide { &VALS } else { &BVALS };
                let v: Vec<X> = (0..4).map(|_| N(*t.pick(regs))).collect();
                if name == "mul" || name == "div" {
                    if name == "div" {
                        // (several registers share their bytes: the last operand is set last)
                        if wide {
                            f.i("ldi", &[W, Iw], &[v[3], N(t.u16() | 1)]);
                        } else {
                            f.i("ldi", &[B, Ib], &[v[3], N(t.u8() as u16 | 1)]);
                        }
                    }
                    f.i(name, &[k, k, k, k], &v);
                } else {
                    f.i(name, &[k, k, k], &v[..3]);
                }
            }
            8 => f.ldi(*t.pick(&VALS), N(t.b16())),
            9..=11 => {
                let store = t.bool();
                let from: Vec<usize> = if store { self.data.clone() } else { self.data.iter().chain(&self.strings).copied().collect() };
                let wide = t.bool();
                let n = if wide { 2 } else { 1 };
                let fit: Vec<usize> = from.into_iter().filter(|d| self.items[*d].room >= n).collect();
                if fit.is_empty() {
                    return;
                }
                let d = *t.pick(&fit);
                let off = t.range(0, (self.items[d].room - n) as u32) as u16;
                let k = if wide { W } else { B };
                let r = N(if wide { *t.pick(&VALS) } else { *t.pick(&BVALS) });
                match t.below(4) {
                    0 => {
                        // the place as offset
                        f.ldi(9, N(off));
                        if store {
                            f.i("store", &[W, Iw, k], &[N(9), G(d), r]);
                        } else {
                            f.i("load", &[k, W, Iw], &[r, N(9), G(d)]);
                        }
                    }
                    1 => {
                        f.ldi(9, G(d));
                        if store {
                            f.i("store", &[W, Iw, k], &[N(9), N(off), r]);
                        } else {
                            f.i("load", &[k, W, Iw], &[r, N(9), N(off)]);
                        }
                    }
                    x => {
                        f.ldi(9, G(d));
                        f.ldi(10, N(off));
                        let (a, b) = if x == 2 { (9, 10) } else { (10, 9) };
                        if store {
                            f.i("store", &[W, W, k], &[N(a), N(b), r]);
                        } else {
                            f.i("load", &[k, W, W], &[r, N(a), N(b)]);
                        }
                    }
                }
            }
            12 => {
                let (r, r2) = (N(*t.pick(&VALS)), N(*t.pick(&VALS)));
                f.i("push", &[W], &[r]);
                if depth > 0 {
                    self.block(t, me, f, depth - 1);
                }
                f.i("pop", &[W], &[r2]);
            }
            13 | 14 if depth > 0 => {
                let j = *t.pick(&["jez", "jlt", "jle", "jgt", "jge", "jnz", "jne", "jo", "jno", "ja", "jae", "jnc", "jb", "jc", "jbe"]);
                let (k, a, b) = if t.bool() { (W, N(*t.pick(&VALS)), N(*t.pick(&VALS))) } else { (B, N(*t.pick(&BVALS)), N(*t.pick(&BVALS))) };
                f.i("sub", &[k, k, k], &[N(0), a, b]);
                let l = f.label();
                f.i(j, &[Iw], &[L(l)]);
                self.block(t, me, f, depth - 1);
                if t.bool() {
                    let e = f.label();
                    f.i("jmp", &[Iw], &[L(e)]);
                    f.here(l);
                    self.block(t, me, f, depth - 1);
                    f.here(e);
                } else {
                    f.here(l);
                }
            }
            15 if depth > 0 => {
                f.ldi(10, N(t.range(1, 4) as u16));
                let l = f.label();
                f.here(l);
                f.i("push", &[W], &[N(10)]);
                self.block(t, me, f, depth - 1);
                f.i("pop", &[W], &[N(10)]);
                f.ldi(9, N(1));
                f.i("sub", &[W, W, W], &[N(10), N(10), N(9)]);
                f.i("jnz", &[Iw], &[L(l)]);
            }
            16 | 17 => self.call(t, me, f),
            18 if !self.strings.is_empty() => {
                // write a string
                let s = *t.pick(&self.strings);
                let n = self.items[s].room;
                f.ldi(9, G(s));
                f.ldi(10, N(n as u16));
                let l = f.label();
                f.here(l);
                f.i("load", &[B, W, Iw], &[N(3), N(9), N(0)]);
                Self::out(f);
                f.ldi(1, N(1));
                f.i("add", &[W, W, W], &[N(9), N(9), N(1)]);
                f.i("sub", &[W, W, W], &[N(10), N(10), N(1)]);
                f.i("jnz", &[Iw], &[L(l)]);
            }
            19 => {
                if let Some(h) = self.handler {
                    f.ldi(1, N(15));
                    f.ldi(2, G(h));
                    f.i("syscall", &[], &[]);
                    // (addresses are not to be seen)
                    f.ldi(2, N(t.b16()));
                }
            }
            20 if self.faults && t.chance(1, 3) => self.fault(t, f),
            _ => f.i("nop", &[], &[]),
        }
    }
    fn fault(&mut self, t: &mut Tape, f: &mut Item) {
        let r = N(*t.pick(&VALS));
        match t.below(9) {
            0 => f.i("div", &[W, W, W, W], &[N(3), N(4), N(5), N(0)]),
            1 => f.i(*t.pick(&["null", "usr", "vmoff", "reth"]), &[], &[]),
            2 => f.parts.push(Part::Raw(vec![*t.pick(&[0xffu8, 1, 2, 0x3b, 0x55])])),
            3 => f.i("load", &[W, W, Iw], &[r, N(0), N(0xc000)]),
            4 => f.i("jmp", &[Iw], &[N(0xc123)]),
            5 => {
                f.ldi(1, N(*t.pick(&[1, 2, 5, 16, 0x104])));
                f.i("syscall", &[], &[]);
            }
            6 if !self.strings.is_empty() => {
                // constants cannot be written
                self.strict = true;
                let s = *t.pick(&self.strings);
                f.i("store", &[W, Iw, W], &[N(0), G(s), r]);
            }
            7 if !self.data.is_empty() => {
                // nor data executed
                self.strict = true;
                let d = *t.pick(&self.data);
                f.i("jmp", &[Iw], &[G(d)]);
            }
            _ => {
                // nor code read or written
                self.strict = true;
                let g = *t.pick(&self.funs);
                if t.bool() {
                    f.i("load", &[B, W, Iw], &[N(5), N(0), G(g)]);
                } else {
                    f.i("store", &[W, Iw, B], &[N(0), G(g), N(5)]);
                }
            }
        }
    }
}

fn item(seg: u8) -> Item {
    Item { seg, parts: vec![], labels: 0, module: 0, room: 0, name: String::new(), global: false }
}

pub fn gen_whole(t: &mut Tape) -> Whole {
    let mut g = Gen { items: vec![], funs: vec![], handler: None, data: vec![], strings: vec![], tables: vec![], budget: t.size(6, 60), faults: t.bool(), strict: false };
    let modules = t.size(1, 4);
    let nf = t.size(1, 6);
    for _ in 0..nf {
        g.funs.push(g.items.len());
        g.items.push(item(TEXT));
    }
    if t.bool() {
        g.handler = Some(g.items.len());
        g.items.push(item(TEXT));
    }
    for _ in 0..t.size(0, 6) {
        let k = g.items.len();
        let mut d;
        match t.below(4) {
            0 | 1 => {
                d = item(*t.pick(&[DATA, DATA, DATA, HEAP]));
                let mut b = vec![];
                while d.room < 1 || t.chance(2, 3) {
                    if t.bool() {
                        b.extend(asm::gen_string(t, 8));
                    } else {
                        b.extend(t.u16().to_le_bytes());
                    }
                    d.room = b.len();
                    d.parts.push(Part::Raw(std::mem::take(&mut b)));
                    d.room = d.len();
                    if d.room > 60 {
                        break;
                    }
                }
                g.data.push(k);
            }
            2 => {
                d = item(RODATA);
                d.parts.push(Part::Raw(asm::gen_string(t, 14)));
                d.room = d.len();
                g.strings.push(k);
            }
            _ => {
                d = item(*t.pick(&[DATA, RODATA]));
                let fs: Vec<usize> = (0..t.size(1, 4)).map(|_| *t.pick(&g.funs)).collect();
                d.parts.extend(fs.iter().map(|f| Part::W(G(*f))));
                g.tables.push((k, fs));
            }
        }
        g.items.push(d);
    }
    for me in 0..nf {
        let mut f = std::mem::replace(&mut g.items[g.funs[me]], item(TEXT));
        if me == 0 {
            for r in 1..=10 {
                f.ldi(r, N(t.b16()));
            }
            while g.budget > 4 && t.left() > 60 {
                g.block(t, me, &mut f, 3);
                if g.funs.len() > 1 && t.bool() {
                    g.call(t, me, &mut f);
                }
                if t.chance(1, 3) {
                    break;
                }
            }
            f.i("halt", &[], &[]);
        } else {
            g.budget = g.budget.max(4);
            g.block(t, me, &mut f, 2);
            f.i("ret", &[Ib], &[N(if me % 2 == 1 { 2 } else { 0 })]);
        }
        let k = g.funs[me];
        g.items[k] = f;
    }
    if let Some(h) = g.handler {
        let mut f = item(TEXT);
        f.i("or", &[B, B, B], &[N(3), N(1), N(0)]);
        Gen::out(&mut f);
        g.budget = g.budget.max(3);
        let me = g.funs.len();
        g.block(t, me, &mut f, 1);
        f.i("halt", &[], &[]);
        g.items[h] = f;
    }
    // where everything is
    for i in &mut g.items {
        i.module = t.below(modules as u32) as usize;
    }
    g.items[0].module = 0;
    let dot_entry = t.chance(2, 3);
    let refs: Vec<BTreeSet<usize>> = g.items.iter().map(|i| i.refs()).collect();
    for k in 0..g.items.len() {
        let outside = (0..g.items.len()).any(|j| g.items[j].module != g.items[k].module && refs[j].contains(&k));
        g.items[k].global = outside || t.chance(1, 5) || k == 0 && !dot_entry;
    }
    // globals have names of their own; names of locals are free in their module
    let mut taken: Vec<BTreeSet<String>> = vec![BTreeSet::new(); modules];
    for k in 0..g.items.len() {
        if g.items[k].global {
            let mut n = asm::gen_label(t, k);
            if taken[0].contains(&n) || n.starts_with('-') || n.starts_with("0") {
                n = format!("glob{k}");
            }
            for m in &mut taken {
                m.insert(n.clone());
            }
            g.items[k].name = n;
        }
    }
    for k in 0..g.items.len() {
        if !g.items[k].global {
            let m = g.items[k].module;
            let mut n = t.pick(&["helper", "tmp", "data", "buf", "x", "text", "f"]).to_string();
            while !taken[m].insert(n.clone()) {
                n.push('2');
            }
            g.items[k].name = n;
        }
    }
    let strict = g.strict;
    Whole { items: g.items, modules, dot_entry, strict }
}

impl Whole {
    /// the program, put together in one of many ways
    pub fn image(&self) -> Obj {
        let mut start: BTreeMap<u8, u16> = [(TEXT, 0x400), (RODATA, 0x3000), (DATA, 0x4080), (HEAP, 0x5000)].into();
        let begin = start.clone();
        let mut places = vec![0; self.items.len()];
        for (k, i) in self.items.iter().enumerate() {
            let p = start.get_mut(&i.seg).unwrap();
            places[k] = *p;
            *p += i.len() as u16;
        }
        let mut o = Obj::default();
        for (k, i) in self.items.iter().enumerate() {
            o.segs.entry(i.seg).or_insert((begin[&i.seg], vec![])).1.extend(i.bytes(places[k], &places));
        }
        o.entry = Some((TEXT, places[0]));
        o
    }
    /// modules that refer to each other's items
    pub fn crossing(&self) -> usize {
        self.items.iter().flat_map(|i| i.refs().into_iter().map(move |r| (i.module, r))).filter(|(m, r)| self.items[*r].module != *m).count()
    }
    /// source files of a module; the first is the main one
    pub fn source(&self, t: &mut Tape, m: usize, path: &str) -> Vec<(String, Vec<String>)> {
        let mut files: Vec<(String, Vec<String>)> = vec![(path.to_string(), vec![])];
        let mut mine: Vec<usize> = (0..self.items.len()).filter(|k| self.items[*k].module == m).collect();
        t.shuffle(&mut mine);
        let mut decls: Vec<String> = vec![];
        for k in &mine {
            if self.items[*k].global {
                decls.push(format!(".{} {}", t.pick(&["global", "globl"]), self.items[*k].name));
            }
        }
        let refs: BTreeSet<usize> = mine.iter().flat_map(|k| self.items[*k].refs()).filter(|r| self.items[*r].module != m).collect();
        for r in refs {
            decls.push(format!(".{} {}", t.pick(&["ref", "reference", "global"]), self.items[r].name));
        }
        t.shuffle(&mut decls);
        let late = t.size(0, decls.len());
        let mut seg: Option<u8> = None;
        for d in &decls[late..] {
            files[0].1.push(asm::indent(t, d));
        }
        let mut next = 0;
        let mut todo = mine;
        todo.reverse();
        while let Some(k) = todo.pop() {
            if t.chance(1, 4) {
                // in a file of its own
                let f = files.len();
                let sub = *t.pick(&["", "inc/", "inc/deep/"]);
                let p = format!("{sub}m{m}_{f}.{}", t.pick(&["inc", "telda", "s"]));
                let from = crate::source::dir_of(path).to_string();
                let rel = crate::source::relative(t, &from, &p);
                files[0].1.push(format!(".include {rel}"));
                files.push((p, vec![]));
                let mut own = None;
                self.text(t, &mut files, f, k, &mut own, &mut next, &mut vec![]);
            } else {
                self.text(t, &mut files, 0, k, &mut seg, &mut next, &mut todo);
            }
            if t.chance(1, 6) {
                files[0].1.push(asm::comment(t));
            }
        }
        for d in &decls[..late] {
            files[0].1.push(asm::indent(t, d));
        }
        files
    }
    fn text(&self, t: &mut Tape, files: &mut Vec<(String, Vec<String>)>, f: usize, k: usize, seg: &mut Option<u8>, next: &mut usize, todo: &mut Vec<usize>) {
        let i = &self.items[k];
        let switch = |t: &mut Tape, out: &mut Vec<String>, seg: &mut Option<u8>, to: u8| {
            if *seg != Some(to) || t.chance(1, 10) {
                let l = format!(".seg {}", kind_name(to));
                out.push(asm::indent(t, &l));
                *seg = Some(to);
            }
        };
        // (labels are unique in their module)
        let base = *next;
        *next += i.labels;
        let lab = |l: usize| format!("L__{}", base + l);
        switch(t, &mut files[f].1, seg, i.seg);
        if k == 0 && self.dot_entry {
            files[f].1.push(".entry".into());
        }
        let l = format!("{}:", i.name);
        files[f].1.push(asm::indent(t, &l));
        let name = |x: &X| match x {
            N(n) => n.to_string(),
            L(l) => lab(*l),
            G(g) => self.items[*g].name.clone(),
        };
        for p in &i.parts {
            if i.seg == TEXT && t.chance(1, 20) && todo.last().is_some_and(|n| self.items[*n].seg != TEXT) {
                // data in between
                let d = todo.pop().unwrap();
                self.text(t, files, f, d, seg, next, &mut vec![]);
            }
            switch(t, &mut files[f].1, seg, i.seg);
            let line = match p {
                Part::Here(l) => format!("{}:", lab(*l)),
                Part::W(x) => format!(".{} {}", t.pick(&["wide", "word"]), name(x)),
                Part::Raw(b) => {
                    if b.len() == 2 && t.bool() {
                        let x = asm::wide_literal(t, u16::from_le_bytes([b[0], b[1]]));
                        format!(".wide {x}")
                    } else if b.len() < 4 && t.bool() {
                        for b in b {
                            let x = asm::byte_literal(t, *b, false);
                            files[f].1.push(format!(".byte {x}"));
                        }
                        continue;
                    } else {
                        let x = asm::string_text(t, b);
                        format!(".string {x}")
                    }
                }
                Part::I(form, v) => {
                    let ops: Vec<asm::Opnd> = form
                        .ops
                        .iter()
                        .zip(v)
                        .map(|(k, x)| {
                            let text = match (k, x) {
                                (B, N(n)) => crate::isa::BREGS[*n as usize].to_string(),
                                (W, N(n)) => crate::isa::WREGS[*n as usize].to_string(),
                                (Ib, N(n)) => asm::byte_literal(t, *n as u8, true),
                                (Iw, N(n)) => asm::wide_literal(t, *n),
                                (_, x) => name(x),
                            };
                            asm::Opnd { a: asm::A::Label, v: 0, text }
                        })
                        .collect();
                    let n = *t.pick(form.names);
                    asm::line(t, n, &ops)
                }
            };
            files[f].1.push(asm::indent(t, &line));
        }
    }
}

pub fn write(files: &[(String, Vec<String>)], dir: &Path, end: &str) {
    for (p, l) in files {
        let p = crate::cli::file(dir, p);
        let mut b = l.join(end);
        b.push_str(end);
        std::fs::write(p, b).unwrap();
    }
}
