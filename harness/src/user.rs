//! Generated user programs, and a reference of the loader and the emulated kernel.
use crate::engine::*;
use crate::interp::{self, *};
use crate::isa::{self, Form, Sem, K};
use crate::obj::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug)]
pub enum V {
    N(u16),
    L(usize),
}
use V::*;

#[derive(Default)]
pub struct Code {
    pub ins: Vec<(&'static Form, Vec<V>)>,
    raw: BTreeMap<usize, Vec<u8>>,
    /// label -> index of the instruction it precedes
    pub labels: Vec<Option<usize>>,
}

pub fn fm(name: &str, ops: &[K]) -> &'static Form {
    isa::FORMS.iter().find(|f| f.names.contains(&name) && f.ops == ops).unwrap_or_else(|| panic!("no form {name} {ops:?}"))
}
use K::*;

impl Code {
    pub fn i(&mut self, name: &str, ops: &[K], v: &[V]) {
        self.ins.push((fm(name, ops), v.to_vec()));
    }
    pub fn ldi(&mut self, r: u16, v: V) {
        self.i("ldi", &[W, Iw], &[N(r), v]);
    }
    pub fn ldib(&mut self, r: u16, v: u8) {
        self.i("ldi", &[B, Ib], &[N(r), N(v as u16)]);
    }
    pub fn label(&mut self) -> usize {
        self.labels.push(None);
        self.labels.len() - 1
    }
    pub fn here(&mut self, l: usize) {
        self.labels[l] = Some(self.ins.len());
    }
    pub fn new_here(&mut self) -> usize {
        let l = self.label();
        self.here(l);
        l
    }
    pub fn op(&mut self, name: &str) {
        self.i(name, &[], &[]);
    }
    /// bytes that are no instruction, before the next instruction
    pub fn bytes(&mut self, b: &[u8]) {
        self.raw.entry(self.ins.len()).or_default().extend(b);
    }
    /// address of every instruction (and of the end)
    pub fn places(&self, base: u16) -> Vec<u16> {
        let mut at = vec![];
        let mut p = base;
        for k in 0..=self.ins.len() {
            if let Some(r) = self.raw.get(&k) {
                p = p.wrapping_add(r.len() as u16);
            }
            at.push(p);
            if k < self.ins.len() {
                p = p.wrapping_add(self.ins[k].0.len() as u16);
            }
        }
        at
    }
    pub fn addr(&self, l: usize, at: &[u16]) -> u16 {
        at[self.labels[l].expect("every label is placed")]
    }
    pub fn encode(&self, base: u16) -> Vec<u8> {
        let at = self.places(base);
        let mut out = vec![];
        for (k, (f, v)) in self.ins.iter().enumerate() {
            if let Some(r) = self.raw.get(&k) {
                out.extend(r);
            }
            let v: Vec<u16> = v
                .iter()
                .map(|v| match v {
                    N(n) => *n,
                    L(l) => self.addr(*l, &at),
                })
                .collect();
            out.extend(f.encode(&v));
        }
        if let Some(r) = self.raw.get(&self.ins.len()) {
            out.extend(r);
        }
        out
    }
}

pub struct Spec {
    /// raw images use the ports directly
    pub raw: bool,
    /// memory that can be read and written: address, length
    pub data: Vec<(u16, u16)>,
    /// memory that can be read only
    pub rodata: Vec<(u16, u16)>,
    /// addresses that are not mapped, or not as code or data
    pub bad: Vec<u16>,
    /// statements
    pub size: usize,
    pub faults: bool,
    /// makes the call that shows the memory map
    pub maps: bool,
}

pub struct Prog<'s> {
    pub c: Code,
    spec: &'s Spec,
    budget: usize,
    funs: Vec<usize>,
    /// functions that may still be called (calls only go forward)
    next_fun: usize,
    handler: usize,
}

/// general registers used for values
const VALS: [u16; 6] = [3, 4, 5, 6, 7, 8];
const BVALS: [u16; 10] = [5, 6, 7, 8, 9, 10, 11, 12, 13, 4];

impl<'s> Prog<'s> {
    fn val(&self, t: &mut Tape) -> V {
        N(*t.pick(&VALS))
    }
    fn bval(&self, t: &mut Tape) -> V {
        N(*t.pick(&BVALS))
    }
    fn out(&mut self) {
        if self.spec.raw {
            self.c.i("store", &[W, Iw, B], &[N(0), N(1), N(3)]);
        } else {
            self.c.ldi(1, N(4));
            self.c.op("syscall");
        }
    }
    fn area(&self, t: &mut Tape, ro: bool) -> Option<(u16, u16)> {
        let v: Vec<(u16, u16)> = self.spec.data.iter().chain(self.spec.rodata.iter().filter(|_| ro)).copied().filter(|a| a.1 >= 2).collect();
        if v.is_empty() {
            None
        } else {
            Some(*t.pick(&v))
        }
    }
    pub fn block(&mut self, t: &mut Tape, depth: usize) {
        let n = t.size(1, 6);
        for _ in 0..n {
            if self.budget == 0 {
                return;
            }
            self.budget -= 1;
            self.stmt(t, depth);
        }
    }
    fn stmt(&mut self, t: &mut Tape, depth: usize) {
        if self.spec.maps && t.chance(1, 4) {
            self.c.ldi(1, N(0));
            self.c.op("syscall");
            return;
        }
        match t.below(20) {
            0 | 1 => {
                self.c.ldib(3, t.u8());
                self.out();
            }
            2 | 3 => {
                let r = self.bval(t);
                self.c.i("or", &[B, B, B], &[N(3), r, N(0)]);
                self.out();
            }
            4 => {
                let r = self.val(t);
                if self.spec.raw {
                    self.c.i("load", &[B, W, Iw], &[N(1), N(0), N(1)]);
                } else {
                    self.c.ldi(1, N(3));
                    self.c.op("syscall");
                }
                self.c.i("or", &[W, W, W], &[r, N(1), N(0)]);
            }
            5..=7 => {
                let wide = t.bool();
                let names: &[&str] = &["add", "sub", "and", "or", "xor", "shl", "asr", "lsr", "mul", "div"];
                let name = *t.pick(names);
                let k = if wide { W } else { B };
                let reg = |s: &Self, t: &mut Tape| if wide { s.val(t) } else { s.bval(t) };
                let (a, b, c) = (reg(self, t), reg(self, t), reg(self, t));
                if name == "mul" || name == "div" {
                    let d = reg(self, t);
                    if name == "div" && !(self.spec.faults && t.chance(1, 6)) {
                        if wide {
                            let v = t.u16() | 1;
                            self.c.i("ldi", &[W, Iw], &[d, N(v)]);
                        } else {
                            let v = t.u8() | 1;
                            self.c.i("ldi", &[B, Ib], &[d, N(v as u16)]);
                        }
                    }
                    self.c.i(name, &[k, k, k, k], &[a, b, c, d]);
                } else {
                    self.c.i(name, &[k, k, k], &[a, b, c]);
                }
            }
            8 => {
                let r = self.val(t);
                self.c.i("ldi", &[W, Iw], &[r, N(t.b16())]);
            }
            9 | 10 => {
                let store = t.bool();
                let Some((a, n)) = self.area(t, !store) else { return };
                let wide = t.bool();
                let room = n - if wide { 2 } else { 1 };
                let at = a.wrapping_add(t.range(0, room as u32) as u16);
                let r = if wide { self.val(t) } else { self.bval(t) };
                let k = if wide { W } else { B };
                let name = if store { "store" } else { "load" };
                match t.below(3) {
                    0 if store => self.c.i(name, &[W, Iw, k], &[N(0), N(at), r]),
                    0 => self.c.i(name, &[k, W, Iw], &[r, N(0), N(at)]),
                    x => {
                        // base and offset of any size
                        let off = t.b16();
                        self.c.ldi(9, N(at.wrapping_sub(off)));
                        if x == 1 {
                            if store {
                                self.c.i(name, &[W, Iw, k], &[N(9), N(off), r]);
                            } else {
                                self.c.i(name, &[k, W, Iw], &[r, N(9), N(off)]);
                            }
                        } else {
                            self.c.ldi(10, N(off));
                            if store {
                                self.c.i(name, &[W, W, k], &[N(9), N(10), r]);
                            } else {
                                self.c.i(name, &[k, W, W], &[r, N(9), N(10)]);
                            }
                        }
                    }
                }
            }
            11 => {
                let r = self.val(t);
                let r2 = self.val(t);
                if t.bool() {
                    self.c.i("push", &[W], &[r]);
                    if depth > 0 {
                        self.block(t, depth - 1);
                    }
                    self.c.i("pop", &[W], &[r2]);
                } else {
                    let (a, b) = (self.bval(t), self.bval(t));
                    self.c.i("push", &[B], &[a]);
                    self.c.i("push", &[W], &[r]);
                    self.c.i("pop", &[B], &[b]);
                    self.c.i("pop", &[W], &[r2]);
                }
            }
            12 | 13 if depth > 0 => {
                let j = *t.pick(&["jez", "jlt", "jle", "jgt", "jge", "jnz", "jo", "jno", "ja", "jae", "jb", "jbe"]);
                if t.bool() {
                    let (a, b) = (self.val(t), self.val(t));
                    self.c.i("sub", &[W, W, W], &[N(0), a, b]);
                } else {
                    let (a, b) = (self.bval(t), self.bval(t));
                    self.c.i("sub", &[B, B, B], &[N(0), a, b]);
                }
                let l = self.c.label();
                self.c.i(j, &[Iw], &[L(l)]);
                self.block(t, depth - 1);
                if t.bool() {
                    let e = self.c.label();
                    self.c.i("jmp", &[Iw], &[L(e)]);
                    self.c.here(l);
                    self.block(t, depth - 1);
                    self.c.here(e);
                } else {
                    self.c.here(l);
                }
            }
            14 if depth > 0 => {
                // sometimes often
                let n = if t.chance(1, 16) { t.size(5, 300) as u16 } else { t.range(1, 4) as u16 };
                self.c.ldi(10, N(n));
                let l = self.c.new_here();
                self.c.i("push", &[W], &[N(10)]);
                self.block(t, depth - 1);
                self.c.i("pop", &[W], &[N(10)]);
                self.c.ldi(9, N(1));
                self.c.i("sub", &[W, W, W], &[N(10), N(10), N(9)]);
                self.c.i("jnz", &[Iw], &[L(l)]);
            }
            15 if self.next_fun < self.funs.len() => {
                let f = t.size(self.next_fun, self.funs.len() - 1);
                self.c.i("push", &[W], &[N(12)]);
                let r = self.val(t);
                if f % 2 == 1 {
                    // odd functions take an argument and remove it
                    self.c.i("push", &[W], &[r]);
                }
                if t.chance(1, 3) {
                    // through a register
                    let (back, f) = (self.c.label(), self.funs[f]);
                    self.c.ldi(9, L(f));
                    self.c.ldi(12, L(back));
                    self.c.i("jmp", &[W], &[N(9)]);
                    self.c.here(back);
                } else {
                    let f = self.funs[f];
                    self.c.i("call", &[Iw], &[L(f)]);
                }
                self.c.i("pop", &[W], &[N(12)]);
            }
            16 if !self.spec.raw => {
                self.c.ldi(1, N(15));
                let h = match t.below(12) {
                    // none any more, or a function
                    0 | 1 => N(0),
                    2 if !self.funs.is_empty() => L(*t.pick(&self.funs)),
                    _ => L(self.handler),
                };
                self.c.ldi(2, h);
                self.c.op("syscall");
            }
            17 if self.spec.faults && t.chance(1, 4) => self.fault(t),
            18 if t.chance(1, 12) => self.c.op("halt"),
            _ => self.c.op("nop"),
        }
    }
    fn fault(&mut self, t: &mut Tape) {
        let bad = *t.pick(&self.spec.bad);
        let r = self.val(t);
        match t.below(12) {
            0 => self.c.i("div", &[W, W, W, W], &[N(3), N(4), N(5), N(0)]),
            1 => self.c.op("null"),
            2 => {
                let b = *t.pick(&[0xffu8, 1, 2, 0x3b, 0x55, 0x80]);
                self.c.bytes(&[b])
            }
            3 => self.c.i("load", &[W, W, Iw], &[r, N(0), N(bad)]),
            4 => self.c.i("store", &[W, Iw, W], &[N(0), N(bad), r]),
            5 => self.c.i("jmp", &[Iw], &[N(bad)]),
            6 if self.spec.raw => self.c.op(*t.pick(&["usr", "vmoff", "ctf", "reth"])),
            6 => self.c.op(*t.pick(&["usr", "vmoff", "vmon", "reth"])),
            7 if !self.spec.raw => {
                let (rp, x) = (t.range(14, 15) as u16, self.val(t));
                if t.bool() {
                    self.c.i("ldi", &[W, Iw], &[N(rp), N(t.u16())]);
                } else {
                    self.c.i("add", &[W, W, W], &[x, N(rp), N(0)]);
                }
            }
            8 => {
                // code cannot be written
                let h = self.handler;
                self.c.ldi(9, L(h));
                self.c.i("store", &[W, Iw, B], &[N(9), N(0), N(3)]);
            }
            9 => self.c.i("pload", &[B, B, W], &[N(3), N(0), N(4)]),
            10 if !self.spec.raw => {
                self.c.ldi(1, N(*t.pick(&[1, 2, 5, 16, 14, 0xff, 0x104, 0xffff, 0x403])));
                self.c.op("syscall");
            }
            _ => {
                self.c.i("ldi", &[W, Iw], &[N(11), N(bad)]);
                self.c.i("push", &[W], &[r]);
            }
        }
    }
}

/// a program that usually ends by itself; every register is set before it is used
pub fn gen_code(t: &mut Tape, spec: &Spec) -> Code {
    let mut p = Prog { c: Code::default(), spec, budget: spec.size, funs: vec![], next_fun: 0, handler: 0 };
    let c = &mut p.c;
    p.handler = c.label();
    for r in 1..=10 {
        let v = t.b16();
        c.ldi(r, N(v));
    }
    if spec.raw {
        let v = *t.pick(&[0x9000u16, 0xffff, 0x8100]);
        c.ldi(11, N(v));
    }
    let nf = t.size(0, 3);
    for _ in 0..nf {
        let l = p.c.label();
        p.funs.push(l);
    }
    p.block(t, 3);
    while p.budget > spec.size / 3 && t.left() > 20 {
        p.block(t, 2);
    }
    if spec.faults && t.chance(1, 8) {
        p.fault(t);
    }
    // (a fault may turn out not to be one)
    p.c.op("halt");
    for i in 0..nf {
        p.next_fun = i + 1;
        p.budget = p.budget.max(4);
        let l = p.funs[i];
        p.c.here(l);
        p.block(t, 1);
        p.c.i("ret", &[Ib], &[N(if i % 2 == 1 { 2 } else { 0 })]);
    }
    let h = p.handler;
    p.c.here(h);
    // what the trap was
    p.c.i("or", &[B, B, B], &[N(3), N(1), N(0)]);
    p.next_fun = p.funs.len();
    p.out();
    p.budget = p.budget.max(3);
    p.block(t, 1);
    p.c.op("halt");
    p.c
}

/// calls that do not return, or returns without a call, in a row; then another program
pub fn gen_chain(t: &mut Tape, n: usize, call: bool) -> Code {
    let mut c = Code::default();
    for r in 1..=10 {
        let v = t.b16();
        c.ldi(r, N(v));
    }
    for _ in 0..n {
        let l = c.label();
        if call {
            c.i("call", &[Iw], &[L(l)]);
        } else {
            c.ldi(12, L(l));
            c.i("ret", &[Ib], &[N(0)]);
        }
        c.here(l);
    }
    let f = c.label();
    for _ in 0..t.size(1, 4) {
        c.ldib(3, t.b8());
        c.ldi(1, N(4));
        c.op("syscall");
        if t.bool() {
            c.i("call", &[Iw], &[L(f)]);
        }
    }
    c.op("halt");
    c.here(f);
    c.ldib(3, t.b8());
    c.ldi(1, N(4));
    c.op("syscall");
    c.i("ret", &[Ib], &[N(0)]);
    c
}

/// a program that prints a lot, of its own or what it reads
pub fn gen_chatter(t: &mut Tape, raw: bool) -> Code {
    let mut c = Code::default();
    let n = *t.pick(&[100u16, 255, 256, 257, 1000, 1024, 4096, 5000, 9000]);
    let n = n + t.below(3) as u16;
    c.ldi(10, N(n));
    let l = c.new_here();
    match t.below(3) {
        0 => c.i("or", &[B, B, B], &[N(3), N(15), N(0)]),
        1 => c.ldib(3, t.b8()),
        _ => {
            if raw {
                c.i("load", &[B, W, Iw], &[N(1), N(0), N(1)]);
            } else {
                c.ldi(1, N(3));
                c.op("syscall");
            }
            c.i("or", &[B, B, B], &[N(3), N(1), N(0)]);
        }
    }
    if raw {
        c.i("store", &[W, Iw, B], &[N(0), N(1), N(3)]);
    } else {
        c.ldi(1, N(4));
        c.op("syscall");
    }
    c.ldi(9, N(1));
    c.i("sub", &[W, W, W], &[N(10), N(10), N(9)]);
    c.i("jnz", &[Iw], &[L(l)]);
    c.op(*t.pick(&["halt", "halt", "null"]));
    c
}

/// a program that does a few things very often; their results are printed
pub fn gen_spin(t: &mut Tape, raw: bool) -> Code {
    let mut c = Code::default();
    for r in 1..=10 {
        let v = t.b16();
        c.ldi(r, N(v));
    }
    let (f, h) = (c.label(), c.label());
    if raw {
        c.ldi(11, N(0x9000));
    } else {
        c.ldi(1, N(15));
        c.ldi(2, L(h));
        c.op("syscall");
    }
    let n = match t.below(5) {
        0 => 0x4000,
        1 => 0x8000,
        2 => 0xfff0,
        _ => 0x3000,
    } + t.below(16) as u16;
    c.ldi(10, N(n));
    let head = c.new_here();
    for _ in 0..t.size(1, 5) {
        let v = *t.pick(&VALS);
        match t.below(7) {
            0 | 1 => {
                let (x, y, name) = (*t.pick(&VALS), *t.pick(&VALS), *t.pick(&["add", "sub", "xor", "or", "lsr"]));
                c.i(name, &[W, W, W], &[N(v), N(x), N(y)]);
            }
            2 => {
                c.i("push", &[W], &[N(v)]);
                let v = *t.pick(&VALS);
                c.i("pop", &[W], &[N(v)]);
            }
            3 => c.i("call", &[Iw], &[L(f)]),
            4 => {
                c.i("add", &[W, W, W], &[N(v), N(v), N(10)]);
                c.i("store", &[W, Iw, W], &[N(11), N(0u16.wrapping_sub(2)), N(v)]);
            }
            5 if !raw => {
                c.ldi(1, N(15));
                c.op("syscall");
            }
            _ => c.i("mul", &[W, W, W, W], &[N(0), N(v), N(v), N(10)]),
        }
    }
    let on = c.label();
    if !raw && t.chance(1, 3) {
        match t.below(4) {
            0 => c.op("null"),
            1 => c.i("div", &[W, W, W, W], &[N(4), N(4), N(5), N(0)]),
            2 => c.bytes(&[0xff]),
            _ => c.i("load", &[W, W, Iw], &[N(4), N(0), N(0x7000)]),
        }
    }
    c.here(on);
    c.ldi(9, N(1));
    c.i("sub", &[W, W, W], &[N(10), N(10), N(9)]);
    c.i("jnz", &[Iw], &[L(head)]);
    if !raw {
        c.ldi(1, N(15));
        c.ldi(2, N(0));
        c.op("syscall");
    }
    c.ldi(9, N(8));
    for r in VALS {
        for upper in [false, true] {
            if upper {
                c.i("lsr", &[W, W, W], &[N(2), N(r), N(9)]);
            } else {
                c.i("or", &[W, W, W], &[N(2), N(r), N(0)]);
            }
            if raw {
                c.i("store", &[W, Iw, B], &[N(0), N(1), N(3)]);
            } else {
                c.ldi(1, N(4));
                c.op("syscall");
            }
        }
    }
    c.op(*t.pick(&["halt", "halt", "null"]));
    c.here(f);
    c.i("add", &[W, W, W], &[N(5), N(5), N(10)]);
    c.i("ret", &[Ib], &[N(0)]);
    c.here(h);
    c.i("add", &[W, W, W], &[N(6), N(6), N(1)]);
    c.i("jmp", &[Iw], &[L(on)]);
    c
}

/// places pieces of the given lengths without overlap; may share pages
pub fn place(t: &mut Tape, lens: &[usize], lo: usize, hi: usize) -> Vec<u16> {
    let total: usize = lens.iter().sum();
    let mut slack = (hi - lo).saturating_sub(total);
    let mut order: Vec<usize> = (0..lens.len()).collect();
    t.shuffle(&mut order);
    let mut at = vec![0u16; lens.len()];
    let mut p = lo;
    for i in order {
        let gap = match t.below(6) {
            0 => 0x80 - p % 0x80,
            1 => 0,
            2 => t.size(1, 0x7f),
            3 => t.size(1, 0x2000),
            4 => t.size(0, slack),
            _ => (0x1000 - p % 0x1000) % 0x1000,
        }
        .min(slack);
        slack -= gap;
        p += gap;
        // an empty piece cannot be at the very end
        at[i] = p.min(0xffff) as u16;
        p += lens[i];
    }
    at
}

/// an object with one program in it
pub struct User {
    pub obj: Obj,
    pub code: Code,
    pub base: u16,
}

pub fn gen_user(t: &mut Tape, faults: bool, size: usize) -> User {
    gen_user_with(t, faults, size, false)
}

pub fn gen_user_with(t: &mut Tape, faults: bool, size: usize, maps: bool) -> User {
    let mut o = Obj::default();
    let kind = if t.chance(1, 8) { ZERO } else { TEXT };
    if t.chance(1, 4) {
        o.flags = Some(t.bool());
    }
    if t.chance(1, 3) {
        o.stack = Some(*t.pick(&[0x180u16, 0x80, 0x100, 0x81, 0x1000, 0x200]));
    }
    let mut kinds = vec![kind];
    let mut lens = vec![0x600 + size * 24];
    for k in [DATA, RODATA, HEAP] {
        if t.bool() {
            kinds.push(k);
            let n = if k == HEAP && t.bool() { 0 } else { t.size(1, 0x120) };
            lens.push(n);
        }
    }
    let stack = o.stack.unwrap_or(0x180) as usize;
    let heap_extra = if kinds.contains(&HEAP) { 0x600 } else { 0 };
    if let Some(i) = kinds.iter().position(|k| *k == HEAP) {
        if t.bool() {
            o.heap = Some(*t.pick(&[0x80u16, 1, 0x400, 0x200]));
        }
        lens[i] += heap_extra;
    }
    let lo = if kind == ZERO { 0 } else { 0x80 };
    let at = place(t, &lens, lo, 0xff00 - (stack + 0x80));
    let mut spec = Spec { raw: false, data: vec![((0x10000 - stack.max(0x80)) as u16, (stack / 2) as u16)], rodata: vec![], bad: vec![], size, faults, maps };
    for (i, k) in kinds.iter().enumerate() {
        let n = lens[i] as u16;
        match *k {
            DATA => spec.data.push((at[i], n)),
            RODATA => spec.rodata.push((at[i], n)),
            HEAP => spec.data.push((at[i], o.heap.unwrap_or(0x400))),
            _ => (),
        }
    }
    spec.bad.push(0xfe00u16.wrapping_sub(0x2000));
    spec.bad.push(*t.pick(&[0, 1, 0x7f, 0x7fff]));
    for (a, n) in spec.data.iter().chain(&spec.rodata) {
        spec.bad.push(*a);
        spec.bad.push(a.wrapping_add(*n));
    }
    let code = gen_code(t, &spec);
    let base = at[0];
    let bytes = code.encode(base);
    o.entry = Some((kind, base));
    o.segs.insert(kind, (base, bytes));
    for (i, k) in kinds.iter().enumerate().skip(1) {
        let n = if *k == HEAP { lens[i] - heap_extra } else { lens[i] };
        let s = t.u8();
        o.segs.insert(*k, (at[i], (0..n).map(|j| s.wrapping_mul(j as u8 | 1).wrapping_add(j as u8)).collect()));
    }
    User { obj: o, code, base }
}

/// expected permissions (R 2, W 4, X 8) of mapped pages
pub fn expected_pages(o: &Obj) -> BTreeMap<u16, u8> {
    let mut m: BTreeMap<u16, u8> = BTreeMap::new();
    let mut add = |lo: usize, n: usize, p: u8| {
        if n > 0 {
            for pg in lo / 128..=(lo + n - 1).min(0xffff) / 128 {
                *m.entry(pg as u16).or_insert(0) |= p;
            }
        }
    };
    for (&k, (off, b)) in &o.segs {
        let p = match k {
            TEXT => 8 | if o.flags == Some(true) { 2 } else { 0 },
            RODATA => 2,
            DATA | HEAP => 6,
            _ => 14,
        };
        add(*off as usize, b.len(), p);
        if k == HEAP {
            add(*off as usize, o.heap.unwrap_or(0x400) as usize, 6);
        }
    }
    let s = o.stack.unwrap_or(0x180) as usize;
    add(0x10000 - s, s, 6);
    m
}

/// the reference loader: own choice of physical pages
pub fn load(o: &Obj, cpu: &mut Cpu, m: &mut Mem) {
    let pages = expected_pages(o);
    m.machine = true;
    let l1 = 0x8000u32;
    let mut free = l1 + 0x80;
    let mut phys = BTreeMap::new();
    for (&pg, &p) in &pages {
        let e1 = l1 + (pg as u32 >> 5) * 4;
        if m.peek(e1) & 1 == 0 {
            m.poke32(e1, free << 8);
            free += 0x80;
        }
        m.poke32(e1, m.peek32(e1) | 0x21 | p as u32);
        let t2 = m.peek32(e1) >> 8;
        m.poke32(t2 + (pg as u32 & 31) * 4, free << 8 | 0x21 | p as u32);
        phys.insert(pg, free);
        free += 0x80;
    }
    for (off, b) in o.segs.values() {
        for (i, x) in b.iter().enumerate() {
            let a = *off as usize + i;
            m.poke(phys[&(a as u16 / 128)] + (a as u32 & 127), *x);
        }
    }
    cpu.rp = l1 as u16;
    cpu.rh = 0;
    cpu.rs = 0xffff;
    cpu.rf = 0xffff;
    cpu.f = Fl { vm: true, user: true, ..Fl::default() };
    if let Some((_, e)) = o.entry {
        cpu.pc = e;
    }
}

#[derive(Debug, Clone)]
pub struct End {
    /// admissible trap modes
    pub modes: Vec<u8>,
    /// admissible final program counters
    pub pcs: Vec<u16>,
}

/// the reference machine with its kernel
#[derive(Clone)]
pub struct Ref {
    pub cpu: Cpu,
    pub mem: Mem,
    pub kernel: bool,
    pub handler: u16,
    /// the outcome of some instruction is not determined
    pub vague: bool,
    pub steps: u32,
    /// the call that shows the memory map is part of the domain: lengths of the output when it was made
    pub maps: Option<Vec<usize>>,
}

impl Ref {
    pub fn user(o: &Obj) -> Ref {
        let mut cpu = Cpu { pc: 0x80, rl: 0x80, ..Cpu::default() };
        let mut mem = Mem::new(0);
        load(o, &mut cpu, &mut mem);
        Ref { cpu, mem, kernel: true, handler: 0, vague: false, steps: 0, maps: None }
    }
    pub fn raw(image: &[u8]) -> Ref {
        let mut mem = Mem::new(0);
        mem.machine = true;
        mem.poke_n(0x80, image);
        Ref { cpu: Cpu { pc: 0x80, rl: 0x80, ..Cpu::default() }, mem, kernel: false, handler: 0, vague: false, steps: 0, maps: None }
    }
    pub fn out(&self) -> Vec<u8> {
        self.mem.io.iter().filter(|i| i.0).map(|i| i.2).collect()
    }
    pub fn step(&mut self) -> Option<End> {
        self.steps += 1;
        self.mem.writes.clear();
        match interp::step(&self.cpu, &mut self.mem) {
            Exp::Done(c) => {
                self.cpu = c;
                None
            }
            Exp::Reth => {
                self.vague = true;
                Some(End { modes: vec![], pcs: vec![] })
            }
            Exp::Trap { modes, pc, loose } => {
                if !self.kernel {
                    if self.cpu.rh != 0 {
                        self.vague = true;
                    }
                    return Some(End { modes, pcs: pc });
                }
                if modes == [SYSCALL] {
                    let next = pc[0];
                    match self.cpu.w(1) {
                        3 => {
                            use telda2::mem::MainMemory as _;
                            let b = self.mem.read(1);
                            self.cpu.set_b(1, b);
                        }
                        4 => {
                            let b = self.cpu.b(3);
                            self.mem.io.push((true, 1, b));
                        }
                        15 => self.handler = self.cpu.w(2),
                        0 => {
                            let n = self.out().len();
                            match &mut self.maps {
                                Some(m) => m.push(n),
                                None => self.vague = true,
                            }
                        }
                        _ => return Some(End { modes, pcs: pc }),
                    }
                    self.cpu.pc = next;
                    return None;
                }
                if modes == [HALT] || self.handler == 0 {
                    return Some(End { modes, pcs: pc });
                }
                if modes.len() > 1 && modes.iter().any(|m| *m != modes[0]) || loose != Loose::default() {
                    self.vague = true;
                }
                self.cpu.set_w(1, modes[0] as u16);
                self.cpu.pc = self.handler;
                None
            }
        }
    }
    /// until the end, unless that is too far away
    pub fn run(&mut self, limit: u32) -> Option<End> {
        for _ in 0..limit {
            if let Some(e) = self.step() {
                return Some(e);
            }
            if self.vague || self.mem.port_tables.get() {
                self.vague = true;
                return None;
            }
        }
        None
    }
}

pub fn sem_is(f: &Form, s: Sem) -> bool {
    f.sem == s
}
