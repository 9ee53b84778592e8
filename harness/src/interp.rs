//! Reference interpreter: what one instruction does, computed independently of the code under test.
use std::collections::HashMap;

use telda2::blf4::{Blf4, Blf4Flags, ByteRegister, TrapMode, WideRegister};
use telda2::mem::MainMemory;
use telda2::U4;

use crate::isa::{self, Op, Sem, K};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Fl {
    pub zero: bool,
    pub overflow: bool,
    pub sign: bool,
    pub carry: bool,
    pub vm: bool,
    pub reserved: bool,
    pub trap: bool,
    pub user: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Cpu {
    /// r1..r10
    pub r: [u16; 10],
    pub rs: u16,
    pub rl: u16,
    pub rf: u16,
    pub rp: u16,
    pub rh: u16,
    pub pc: u16,
    pub f: Fl,
}

pub const INVALID: u8 = 0;
pub const SYSCALL: u8 = 5;
pub const ZERODIV: u8 = 8;
pub const HALT: u8 = 0xa;
pub const L1FAULT: u8 = 0xe;
pub const L2FAULT: u8 = 0xf;
pub const ILLOP: u8 = 0x10;
pub const ILLREAD: u8 = 0x11;
pub const ILLWRITE: u8 = 0x12;
pub const ILLEXEC: u8 = 0x13;
pub const ILLRETH: u8 = 0x1f;

pub fn tm(t: TrapMode) -> u8 {
    match t {
        TrapMode::Invalid => INVALID,
        TrapMode::SysCall => SYSCALL,
        TrapMode::ZeroDiv => ZERODIV,
        TrapMode::Halt => HALT,
        TrapMode::Level1PageFault => L1FAULT,
        TrapMode::Level2PageFault => L2FAULT,
        TrapMode::IllegalOperation => ILLOP,
        TrapMode::IllegalRead => ILLREAD,
        TrapMode::IllegalWrite => ILLWRITE,
        TrapMode::IllegalExecute => ILLEXEC,
        TrapMode::IllegalHandlerReturn => ILLRETH,
    }
}
pub fn tm_name(m: u8) -> &'static str {
    match m {
        INVALID => "Invalid",
        SYSCALL => "SysCall",
        ZERODIV => "ZeroDiv",
        HALT => "Halt",
        L1FAULT => "Level1PageFault",
        L2FAULT => "Level2PageFault",
        ILLOP => "IllegalOperation",
        ILLREAD => "IllegalRead",
        ILLWRITE => "IllegalWrite",
        ILLEXEC => "IllegalExecute",
        ILLRETH => "IllegalHandlerReturn",
        _ => "?",
    }
}

pub fn breg(n: u8) -> ByteRegister {
    ByteRegister(U4::new(n))
}
pub fn wreg(n: u8) -> WideRegister {
    WideRegister(U4::new(n))
}

impl Cpu {
    pub fn of(c: &Blf4) -> Cpu {
        let mut r = [0; 10];
        for (i, x) in r.iter_mut().enumerate() {
            *x = c.read_wr(wreg(i as u8 + 1)).expect("general registers are readable");
        }
        let f = c.flags;
        Cpu {
            r,
            rs: c.stack,
            rl: c.link,
            rf: c.frame,
            rp: c.page,
            rh: c.trap_handler,
            pc: c.program_counter,
            f: Fl { zero: f.zero, overflow: f.overflow, sign: f.sign, carry: f.carry, vm: f.virtual_mode, reserved: f.reserved, trap: f.trap, user: f.user_mode },
        }
    }
    pub fn to_impl(&self) -> Blf4 {
        let mut c = Blf4::new();
        self.set(&mut c);
        c
    }
    /// what else it has stays
    pub fn set(&self, c: &mut Blf4) {
        c.flags.user_mode = false;
        for (i, x) in self.r.iter().enumerate() {
            c.write_wr(wreg(i as u8 + 1), *x).expect("general registers are writable");
        }
        c.stack = self.rs;
        c.link = self.rl;
        c.frame = self.rf;
        c.page = self.rp;
        c.trap_handler = self.rh;
        c.program_counter = self.pc;
        c.flags = Blf4Flags {
            user_mode: self.f.user,
            trap: self.f.trap,
            reserved: self.f.reserved,
            virtual_mode: self.f.vm,
            carry: self.f.carry,
            sign: self.f.sign,
            overflow: self.f.overflow,
            zero: self.f.zero,
        };
    }
    pub fn to_impl_flags(&self) -> Blf4Flags {
        Blf4Flags {
            user_mode: self.f.user,
            trap: self.f.trap,
            reserved: self.f.reserved,
            virtual_mode: self.f.vm,
            carry: self.f.carry,
            sign: self.f.sign,
            overflow: self.f.overflow,
            zero: self.f.zero,
        }
    }
    pub fn w(&self, n: u16) -> u16 {
        match n {
            0 => 0,
            1..=10 => self.r[n as usize - 1],
            11 => self.rs,
            12 => self.rl,
            13 => self.rf,
            14 => self.rp,
            _ => self.rh,
        }
    }
    pub fn set_w(&mut self, n: u16, v: u16) {
        match n {
            0 => (),
            1..=10 => self.r[n as usize - 1] = v,
            11 => self.rs = v,
            12 => self.rl = v,
            13 => self.rf = v,
            14 => self.rp = v,
            _ => self.rh = v,
        }
    }
    pub fn b(&self, n: u16) -> u8 {
        match n {
            0 => 0,
            1..=10 => {
                let w = self.r[(n as usize - 1) / 2];
                if n % 2 == 1 {
                    w as u8
                } else {
                    (w >> 8) as u8
                }
            }
            _ => self.r[n as usize - 11 + 5] as u8,
        }
    }
    pub fn set_b(&mut self, n: u16, v: u8) {
        match n {
            0 => (),
            1..=10 => {
                let w = &mut self.r[(n as usize - 1) / 2];
                *w = if n % 2 == 1 { *w & 0xff00 | v as u16 } else { *w & 0xff | (v as u16) << 8 };
            }
            _ => self.r[n as usize - 11 + 5] = v as u16,
        }
    }
    pub fn diff(&self, o: &Cpu) -> String {
        let mut s = String::new();
        for i in 1..=15 {
            if self.w(i) != o.w(i) {
                s += &format!(" {}={:04x}/{:04x}", isa::WREGS[i as usize], self.w(i), o.w(i));
            }
        }
        if self.pc != o.pc {
            s += &format!(" pc={:04x}/{:04x}", self.pc, o.pc);
        }
        if self.f != o.f {
            s += &format!(" flags={:?}/{:?}", self.f, o.f);
        }
        s
    }
}

/// Memory of test cases: pseudo-random background, overridden bytes, and a log of writes.  With `machine` set it is
/// laid out like the real one: ports below 80, ROM up to 7fff.
#[derive(Clone, Default)]
pub struct Mem {
    pub seed: u32,
    pub bytes: HashMap<u32, u8>,
    /// address, old, new
    pub writes: Vec<(u32, u8, u8)>,
    pub machine: bool,
    /// (write, port, value)
    pub io: Vec<(bool, u8, u8)>,
    pub inputs: u32,
    /// what the ports deliver instead of the usual
    pub feed: Option<std::rc::Rc<Vec<u8>>>,
    /// a page table was looked up in the ports
    pub port_tables: std::cell::Cell<bool>,
}

/// the n-th byte the ports deliver
pub fn input_byte(n: u32) -> u8 {
    (n.wrapping_mul(0x9e37_79b1) >> 21) as u8
}

impl Mem {
    pub fn new(seed: u32) -> Self {
        Mem { seed, ..Default::default() }
    }
    pub fn peek(&self, a: u32) -> u8 {
        if let Some(b) = self.bytes.get(&a) {
            return *b;
        }
        if self.seed == 0 {
            return 0;
        }
        let mut x = a.wrapping_mul(0x9e37_79b1) ^ self.seed;
        x ^= x >> 15;
        x = x.wrapping_mul(0x85eb_ca6b);
        (x >> 13) as u8
    }
    pub fn poke(&mut self, a: u32, b: u8) {
        self.bytes.insert(a, b);
    }
    pub fn poke_n(&mut self, a: u32, b: &[u8]) {
        for (i, x) in b.iter().enumerate() {
            self.poke(a + i as u32, *x);
        }
    }
    pub fn peek32(&self, a: u32) -> u32 {
        u32::from_le_bytes([0, 1, 2, 3].map(|i| self.peek(a + i)))
    }
    pub fn poke32(&mut self, a: u32, v: u32) {
        self.poke_n(a, &v.to_le_bytes());
    }
    /// addresses whose content differs
    pub fn diff(&self, o: &Mem) -> Vec<(u32, u8, u8)> {
        let mut v: Vec<_> = self
            .bytes
            .keys()
            .chain(o.bytes.keys())
            .filter(|a| self.peek(**a) != o.peek(**a))
            .map(|a| (*a, self.peek(*a), o.peek(*a)))
            .collect();
        v.sort();
        v.dedup();
        v
    }
    /// changeable memory
    pub fn is_ram(&self, a: u32) -> bool {
        !self.machine || a >= 0x8000
    }
}

impl MainMemory for Mem {
    fn read(&mut self, a: u32) -> u8 {
        if self.machine && a < 0x80 {
            let b = match &self.feed {
                Some(f) => f.get(self.inputs as usize).copied().unwrap_or(0),
                None => input_byte(self.inputs),
            };
            self.inputs += 1;
            self.io.push((false, a as u8, b));
            return b;
        }
        self.peek(a)
    }
    fn write(&mut self, a: u32, b: u8) {
        if self.machine && a < 0x80 {
            self.io.push((true, a as u8, b));
        } else if self.is_ram(a) {
            let old = self.peek(a);
            self.writes.push((a, old, b));
            self.poke(a, b);
        }
    }
}

/// what a step may do
#[derive(Debug, Clone)]
pub enum Exp {
    Done(Cpu),
    Trap {
        /// admissible modes
        modes: Vec<u8>,
        /// admissible program counters the trap is reported with
        pc: Vec<u16>,
        /// registers that may have changed although the instruction did not complete
        loose: Loose,
    },
    /// return from handler: depends on the frame, see callers
    Reth,
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Loose {
    pub rs: bool,
    pub dest: Vec<u16>,
    pub flags: bool,
}

pub trait RefMem {
    fn rd(&mut self, a: u32) -> u8;
    fn wr(&mut self, a: u32, b: u8);
    fn note_table(&mut self, _a: u32) {}
}
impl RefMem for Mem {
    fn rd(&mut self, a: u32) -> u8 {
        self.read(a)
    }
    fn wr(&mut self, a: u32, b: u8) {
        self.write(a, b)
    }
    fn note_table(&mut self, a: u32) {
        if self.machine && a < 0x80 {
            self.port_tables.set(true);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    R,
    W,
    X,
}

const P: u32 = 1;
const RD: u32 = 2;
const WR: u32 = 4;
const EX: u32 = 8;
const DI: u32 = 0x10;
const US: u32 = 0x20;

fn rd32<M: RefMem + ?Sized>(m: &mut M, a: u32) -> u32 {
    u32::from_le_bytes([0, 1, 2, 3].map(|i| m.rd(a + i)))
}

pub struct Tr {
    pub phys: u32,
    pub e1: u32,
    pub e2: u32,
}

/// translation without side effects; Err: the conditions that are violated
pub fn translate<M: RefMem + ?Sized>(c: &Cpu, m: &mut M, addr: u16, acc: Acc) -> Result<Tr, Vec<u8>> {
    if !c.f.vm {
        return Ok(Tr { phys: addr as u32, e1: u32::MAX, e2: u32::MAX });
    }
    let viol = |e: u32| {
        let mut v = vec![];
        if c.f.user && e & US == 0 {
            v.push(ILLOP);
        }
        match acc {
            Acc::R if e & RD == 0 => v.push(ILLREAD),
            Acc::W if e & WR == 0 => v.push(ILLWRITE),
            Acc::X if e & EX == 0 => v.push(ILLEXEC),
            _ => (),
        }
        v
    };
    let a1 = c.rp as u32 + 4 * (addr as u32 >> 12);
    m.note_table(a1);
    let e1 = rd32(m, a1);
    if e1 & P == 0 {
        return Err(vec![L1FAULT]);
    }
    let mut v = viol(e1);
    let a2 = (e1 >> 15 << 7) + 4 * (addr as u32 >> 7 & 31);
    m.note_table(a2);
    let e2 = rd32(m, a2);
    if e2 & P == 0 {
        v.push(L2FAULT);
    } else {
        v.extend(viol(e2));
    }
    if v.is_empty() {
        Ok(Tr { phys: (e2 >> 15 << 7) + (addr as u32 & 127), e1: a1, e2: a2 })
    } else {
        Err(v)
    }
}

pub fn read<M: RefMem + ?Sized>(c: &Cpu, m: &mut M, addr: u16, acc: Acc) -> Result<u8, Vec<u8>> {
    let t = translate(c, m, addr, acc)?;
    Ok(m.rd(t.phys))
}
pub fn write<M: RefMem + ?Sized>(c: &Cpu, m: &mut M, addr: u16, b: u8) -> Result<(), Vec<u8>> {
    let t = translate(c, m, addr, Acc::W)?;
    if c.f.vm {
        for e in [t.e1, t.e2] {
            let old = m.rd(e);
            if old & DI as u8 == 0 {
                m.wr(e, old | DI as u8);
            }
        }
    }
    m.wr(t.phys, b);
    Ok(())
}
fn read_n<M: RefMem + ?Sized>(c: &Cpu, m: &mut M, addr: u16, wide: bool) -> Result<u16, Vec<u8>> {
    let l = read(c, m, addr, Acc::R)?;
    let h = if wide { read(c, m, addr.wrapping_add(1), Acc::R)? } else { 0 };
    Ok(u16::from_le_bytes([l, h]))
}
fn write_n<M: RefMem + ?Sized>(c: &Cpu, m: &mut M, addr: u16, v: u16, wide: bool) -> Result<(), Vec<u8>> {
    write(c, m, addr, v as u8)?;
    if wide {
        write(c, m, addr.wrapping_add(1), (v >> 8) as u8)?;
    }
    Ok(())
}

pub fn cond(k: u8, f: &Fl) -> bool {
    let lt = f.sign != f.overflow;
    match k {
        0 => f.zero,
        1 => lt,
        2 => lt || f.zero,
        3 => !(lt || f.zero),
        4 => !lt,
        5 => !f.zero,
        6 => f.overflow,
        7 => !f.overflow,
        8 => !f.carry && !f.zero,
        9 => !f.carry,
        10 => f.carry,
        _ => f.carry || f.zero,
    }
}

/// result and (zero, overflow, sign, carry)
pub fn alu(op: Op, wide: bool, x: u16, y: u16) -> (u16, bool, bool, bool, bool) {
    let bits: u32 = if wide { 16 } else { 8 };
    let mask: i64 = (1 << bits) - 1;
    let sx = |v: u16| -> i64 {
        let v = v as i64 & mask;
        if v >> (bits - 1) & 1 == 1 {
            v - (1 << bits)
        } else {
            v
        }
    };
    let (ux, uy) = (x as i64 & mask, y as i64 & mask);
    let sh = (uy % bits as i64) as u32;
    let (mut carry, mut over) = (false, false);
    let res = match op {
        Op::Add => {
            carry = ux + uy > mask;
            let s = sx(x) + sx(y);
            over = s < -(1 << (bits - 1)) || s >= 1 << (bits - 1);
            ux + uy
        }
        Op::Sub => {
            carry = uy > ux;
            let s = sx(x) - sx(y);
            over = s < -(1 << (bits - 1)) || s >= 1 << (bits - 1);
            ux - uy
        }
        Op::And => ux & uy,
        Op::Or => ux | uy,
        Op::Xor => ux ^ uy,
        Op::Shl => ux << sh,
        Op::Asr => sx(x).div_euclid(1 << sh),
        Op::Lsr => ux / (1 << sh),
    } & mask;
    (res as u16, res == 0, over, res >> (bits - 1) & 1 == 1, carry)
}

/// Executes one instruction on `c` and `m`.  On a trap, `m` contains the effects on memory that are admissible
/// (a wide store whose second byte faults may have written the first).
pub fn step<M: RefMem + ?Sized>(c0: &Cpu, m: &mut M) -> Exp {
    let at = c0.pc;
    let trap = |modes: Vec<u8>, lo: u16, hi: u16, loose: Loose| Exp::Trap { modes, pc: (lo..=hi).map(|k| at.wrapping_add(k)).collect(), loose };
    let strict = Loose::default;

    let op = match read(c0, m, at, Acc::X) {
        Ok(b) => b,
        Err(v) => return trap(v, 0, 1, strict()),
    };
    let Some(len) = isa::op_len(op) else {
        return trap(vec![INVALID], 1, 4, strict());
    };
    let privileged = (0x10..=0x14).contains(&op);
    let mut modes = vec![];
    if privileged && c0.f.user {
        modes.push(ILLOP);
    }
    // rest of the instruction
    let mut bytes = vec![op];
    let mut fault = false;
    for k in 1..len {
        match read(c0, m, at.wrapping_add(k as u16), Acc::X) {
            Ok(b) => bytes.push(b),
            Err(v) => {
                modes.extend(v);
                fault = true;
                break;
            }
        }
    }
    if fault {
        // a bad padding nibble or a forbidden register may be noticed before the fault
        let form = isa::FORMS.iter().find(|f| f.op == op).unwrap();
        if op != 0x40 && form.has_padding() {
            let k = 1 + form.regs() / 2;
            if bytes.get(k).is_some_and(|b| b & 15 != 0) {
                modes.push(INVALID);
            }
        }
        if c0.f.user && bytes.len() > 1 && form.regs() > 0 {
            modes.push(ILLOP);
        }
        return trap(modes, 1, len as u16, strict());
    }
    let dec = isa::decode(&bytes);
    let Some((form, v)) = dec else {
        modes.push(INVALID);
        if c0.f.user {
            // an operand might name a register that is not accessible
            let ill = bytes[1..].iter().any(|b| b >> 4 >= 14 || b & 15 >= 14);
            if ill {
                modes.push(ILLOP);
            }
        }
        return trap(modes, 1, len as u16, strict());
    };
    if !modes.is_empty() {
        return trap(modes, 1, len as u16, strict());
    }
    // registers that user mode must not touch
    let ill = c0.f.user && form.ops.iter().zip(&v).any(|(k, &n)| *k == K::W && n >= 14);

    let mut c = *c0;
    c.pc = at.wrapping_add(len as u16);
    let l = len as u16;
    let setf = |c: &mut Cpu, r: (u16, bool, bool, bool, bool)| {
        c.f.zero = r.1;
        c.f.overflow = r.2;
        c.f.sign = r.3;
        c.f.carry = r.4;
    };
    let get = |c: &Cpu, wide: bool, n: u16| if wide { c.w(n) } else { c.b(n) as u16 };
    let put = |c: &mut Cpu, wide: bool, n: u16, x: u16| if wide { c.set_w(n, x) } else { c.set_b(n, x as u8) };
    if ill {
        // nothing but the privileged registers' protection is exact here
        let mut modes = vec![ILLOP];
        let mut loose = Loose { rs: false, dest: vec![], flags: false };
        match form.sem {
            Sem::Div => {
                if get(&c, form.wide, v[3]) == 0 || v[3] >= 14 {
                    modes.push(ZERODIV);
                }
                loose.dest = vec![v[0], v[1]];
            }
            Sem::Mul => {
                loose.dest = vec![v[0], v[1]];
                loose.flags = true;
            }
            Sem::Alu(_) => loose.flags = true,
            Sem::Pop => {
                loose.rs = true;
                if let Err(e) = read_n(&c, m, c.rs, form.wide) {
                    modes.extend(e);
                }
            }
            Sem::Push => loose.rs = true,
            Sem::Load => {
                // the address may be computable, and its access may fault first
                if !(v[1] >= 14 || form.ops[2] == K::W && v[2] >= 14) {
                    let off = if form.ops[2] == K::W { c.w(v[2]) } else { v[2] };
                    if let Err(e) = read_n(&c, m, c.w(v[1]).wrapping_add(off), form.wide) {
                        modes.extend(e);
                    }
                }
            }
            Sem::Store => {
                if !(v[0] >= 14 || form.ops[1] == K::W && v[1] >= 14) {
                    let off = if form.ops[1] == K::W { c.w(v[1]) } else { v[1] };
                    let a = c.w(v[0]).wrapping_add(off);
                    for a in [a, a.wrapping_add(1)] {
                        if let Err(e) = translate(&c, m, a, Acc::W) {
                            modes.extend(e);
                        }
                    }
                }
            }
            _ => (),
        }
        loose.dest.retain(|&d| (1..14).contains(&d));
        return trap(modes, l, l, loose);
    }

    match form.sem {
        Sem::Null => return trap(vec![INVALID], 1, 1, strict()),
        Sem::Halt => return trap(vec![HALT], 1, 1, strict()),
        Sem::Syscall => return trap(vec![SYSCALL], 1, 1, strict()),
        Sem::Ctf => c.f.trap = false,
        Sem::Reth => {
            if !c0.f.trap {
                return trap(vec![ILLRETH], 1, 1, strict());
            }
            return Exp::Reth;
        }
        Sem::Usr => c.f.user = true,
        Sem::Vmon => c.f.vm = true,
        Sem::Vmoff => c.f.vm = false,
        Sem::Pstore => {
            let a = c.w(v[1]) as u32 | (c.b(v[0]) as u32) << 16;
            m.wr(a, c.b(v[2]));
        }
        Sem::Pload => {
            let a = c.w(v[2]) as u32 | (c.b(v[1]) as u32) << 16;
            let b = m.rd(a);
            c.set_b(v[0], b);
        }
        Sem::Nop => (),
        Sem::Push => {
            let x = get(&c, form.wide, v[0]);
            let n = if form.wide { 2 } else { 1 };
            c.rs = c.rs.wrapping_sub(n);
            if let Err(e) = write_n(&c, m, c.rs, x, form.wide) {
                return trap(e, l, l, Loose { rs: true, ..strict() });
            }
        }
        Sem::Pop => {
            let n = if form.wide { 2 } else { 1 };
            match read_n(&c, m, c.rs, form.wide) {
                Ok(x) => {
                    c.rs = c.rs.wrapping_add(n);
                    put(&mut c, form.wide, v[0], x);
                }
                Err(e) => return trap(e, l, l, Loose { rs: true, ..strict() }),
            }
        }
        Sem::Call => {
            c.rl = c.pc;
            c.pc = v[0];
        }
        Sem::Ret => {
            c.rs = c.rs.wrapping_add(v[0]);
            c.pc = c.rl;
        }
        Sem::Store => {
            let off = if form.ops[1] == K::W { c.w(v[1]) } else { v[1] };
            let a = c.w(v[0]).wrapping_add(off);
            let x = get(&c, form.wide, v[2]);
            if let Err(e) = write_n(&c, m, a, x, form.wide) {
                return trap(e, l, l, strict());
            }
        }
        Sem::Load => {
            let off = if form.ops[2] == K::W { c.w(v[2]) } else { v[2] };
            let a = c.w(v[1]).wrapping_add(off);
            match read_n(&c, m, a, form.wide) {
                Ok(x) => put(&mut c, form.wide, v[0], x),
                Err(e) => return trap(e, l, l, strict()),
            }
        }
        Sem::J(k) => {
            if cond(k, &c.f) {
                c.pc = v[0];
            }
        }
        Sem::Ldi => put(&mut c, form.wide, v[0], v[1]),
        Sem::Jmp => c.pc = v[0],
        Sem::JmpR => c.pc = c.w(v[0]),
        Sem::Alu(o) => {
            let r = alu(o, form.wide, get(&c, form.wide, v[1]), get(&c, form.wide, v[2]));
            setf(&mut c, r);
            put(&mut c, form.wide, v[0], r.0);
        }
        Sem::Div => {
            let (x, y) = (get(&c, form.wide, v[2]), get(&c, form.wide, v[3]));
            if y == 0 {
                return trap(vec![ZERODIV], l, l, strict());
            }
            put(&mut c, form.wide, v[0], x / y);
            put(&mut c, form.wide, v[1], x % y);
        }
        Sem::Mul => {
            let p = get(&c, form.wide, v[2]) as u32 * get(&c, form.wide, v[3]) as u32;
            let bits = if form.wide { 16 } else { 8 };
            let (lo, hi) = ((p & ((1 << bits) - 1)) as u16, (p >> bits) as u16);
            setf(&mut c, (lo, lo == 0, hi != 0, lo >> (bits - 1) & 1 == 1, hi != 0));
            put(&mut c, form.wide, v[0], hi);
            put(&mut c, form.wide, v[1], lo);
        }
    }
    Exp::Done(c)
}
