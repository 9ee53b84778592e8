//! The instruction set, written down independently of the code under test.
use crate::engine::Tape;

/// operand kinds, in assembly order
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum K {
    B,
    W,
    Ib,
    Iw,
}
use K::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Sem {
    Null,
    Halt,
    Ctf,
    Syscall,
    Reth,
    Usr,
    Vmon,
    Vmoff,
    Pstore,
    Pload,
    Nop,
    Push,
    Pop,
    Call,
    Ret,
    Store,
    Load,
    J(u8),
    Ldi,
    Jmp,
    JmpR,
    Alu(Op),
    Div,
    Mul,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op {
    Add,
    Sub,
    And,
    Or,
    Xor,
    Shl,
    Asr,
    Lsr,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Form {
    pub op: u8,
    pub names: &'static [&'static str],
    pub ops: &'static [K],
    pub sem: Sem,
    /// operates on wides
    pub wide: bool,
}

const fn f(op: u8, names: &'static [&'static str], ops: &'static [K], sem: Sem, wide: bool) -> Form {
    Form { op, names, ops, sem, wide }
}

/// jmp forms come before ldi so that `form_of` can tell them apart by option
pub const FORMS: &[Form] = &[
    f(0x00, &["null"], &[], Sem::Null, false),
    f(0x0a, &["halt"], &[], Sem::Halt, false),
    f(0x0b, &["ctf"], &[], Sem::Ctf, false),
    f(0x0c, &["syscall"], &[], Sem::Syscall, false),
    f(0x0d, &["reth"], &[], Sem::Reth, false),
    f(0x10, &["usr"], &[], Sem::Usr, false),
    f(0x11, &["vmon"], &[], Sem::Vmon, false),
    f(0x12, &["vmoff"], &[], Sem::Vmoff, false),
    f(0x13, &["pstore"], &[B, W, B], Sem::Pstore, false),
    f(0x14, &["pload"], &[B, B, W], Sem::Pload, false),
    f(0x20, &["nop"], &[], Sem::Nop, false),
    f(0x21, &["push"], &[B], Sem::Push, false),
    f(0x22, &["push"], &[W], Sem::Push, true),
    f(0x23, &["pop"], &[B], Sem::Pop, false),
    f(0x24, &["pop"], &[W], Sem::Pop, true),
    f(0x25, &["call"], &[Iw], Sem::Call, true),
    f(0x26, &["ret"], &[Ib], Sem::Ret, false),
    f(0x27, &["store", "str"], &[W, Iw, B], Sem::Store, false),
    f(0x28, &["store", "str"], &[W, Iw, W], Sem::Store, true),
    f(0x29, &["store", "str"], &[W, W, B], Sem::Store, false),
    f(0x2a, &["store", "str"], &[W, W, W], Sem::Store, true),
    f(0x2b, &["load"], &[B, W, Iw], Sem::Load, false),
    f(0x2c, &["load"], &[W, W, Iw], Sem::Load, true),
    f(0x2d, &["load"], &[B, W, W], Sem::Load, false),
    f(0x2e, &["load"], &[W, W, W], Sem::Load, true),
    f(0x2f, &["jez"], &[Iw], Sem::J(0), true),
    f(0x30, &["jlt"], &[Iw], Sem::J(1), true),
    f(0x31, &["jle"], &[Iw], Sem::J(2), true),
    f(0x32, &["jgt"], &[Iw], Sem::J(3), true),
    f(0x33, &["jge"], &[Iw], Sem::J(4), true),
    f(0x34, &["jnz", "jne"], &[Iw], Sem::J(5), true),
    f(0x35, &["jo"], &[Iw], Sem::J(6), true),
    f(0x36, &["jno"], &[Iw], Sem::J(7), true),
    f(0x37, &["ja"], &[Iw], Sem::J(8), true),
    f(0x38, &["jae", "jnc"], &[Iw], Sem::J(9), true),
    f(0x39, &["jb", "jc"], &[Iw], Sem::J(10), true),
    f(0x3a, &["jbe"], &[Iw], Sem::J(11), true),
    f(0x3f, &["ldi"], &[B, Ib], Sem::Ldi, false),
    f(0x40, &["jmp", "jump"], &[Iw], Sem::Jmp, true),
    f(0x40, &["jmp", "jump"], &[W], Sem::JmpR, true),
    f(0x40, &["ldi"], &[W, Iw], Sem::Ldi, true),
    f(0x41, &["add"], &[B, B, B], Sem::Alu(Op::Add), false),
    f(0x42, &["add"], &[W, W, W], Sem::Alu(Op::Add), true),
    f(0x43, &["sub"], &[B, B, B], Sem::Alu(Op::Sub), false),
    f(0x44, &["sub"], &[W, W, W], Sem::Alu(Op::Sub), true),
    f(0x45, &["and"], &[B, B, B], Sem::Alu(Op::And), false),
    f(0x46, &["and"], &[W, W, W], Sem::Alu(Op::And), true),
    f(0x47, &["or"], &[B, B, B], Sem::Alu(Op::Or), false),
    f(0x48, &["or"], &[W, W, W], Sem::Alu(Op::Or), true),
    f(0x49, &["xor"], &[B, B, B], Sem::Alu(Op::Xor), false),
    f(0x4a, &["xor"], &[W, W, W], Sem::Alu(Op::Xor), true),
    f(0x4b, &["shl"], &[B, B, B], Sem::Alu(Op::Shl), false),
    f(0x4c, &["shl"], &[W, W, W], Sem::Alu(Op::Shl), true),
    f(0x4d, &["asr"], &[B, B, B], Sem::Alu(Op::Asr), false),
    f(0x4e, &["asr"], &[W, W, W], Sem::Alu(Op::Asr), true),
    f(0x4f, &["lsr"], &[B, B, B], Sem::Alu(Op::Lsr), false),
    f(0x50, &["lsr"], &[W, W, W], Sem::Alu(Op::Lsr), true),
    f(0x51, &["div"], &[B, B, B, B], Sem::Div, false),
    f(0x52, &["div"], &[W, W, W, W], Sem::Div, true),
    f(0x53, &["mul"], &[B, B, B, B], Sem::Mul, false),
    f(0x54, &["mul"], &[W, W, W, W], Sem::Mul, true),
];

pub const BREGS: [&str; 16] = ["r0b", "r1l", "r1h", "r2l", "r2h", "r3l", "r3h", "r4l", "r4h", "r5l", "r5h", "r6b", "r7b", "r8b", "r9b", "r10b"];
pub const WREGS: [&str; 16] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "rs", "rl", "rf", "rp", "rh"];

impl Form {
    pub fn regs(&self) -> usize {
        self.ops.iter().filter(|k| matches!(k, B | W)).count()
    }
    pub fn imm(&self) -> Option<K> {
        self.ops.iter().copied().find(|k| matches!(k, Ib | Iw))
    }
    /// encoded length
    pub fn len(&self) -> usize {
        if self.op == 0x40 {
            return 4;
        }
        1 + self.regs().div_ceil(2) + match self.imm() {
            Some(Ib) => 1,
            Some(Iw) => 2,
            _ => 0,
        }
    }
    /// nibble index of the padding, if there is one
    pub fn has_padding(&self) -> bool {
        self.regs() % 2 == 1
    }
    /// operands in assembly order
    pub fn encode(&self, vals: &[u16]) -> Vec<u8> {
        let mut nib = vec![];
        let mut imm = vec![];
        for (k, &v) in self.ops.iter().zip(vals) {
            match k {
                B | W => nib.push(v as u8 & 15),
                Ib => imm.push(v as u8),
                Iw => imm.extend_from_slice(&v.to_le_bytes()),
            }
        }
        match self.sem {
            Sem::Jmp => nib.extend([0, 1]),
            Sem::JmpR => {
                nib.push(1);
                imm.extend([0, 0]);
            }
            _ => (),
        }
        if nib.len() % 2 == 1 {
            nib.push(0);
        }
        let mut out = vec![self.op];
        out.extend(nib.chunks(2).map(|c| c[0] << 4 | c[1]));
        out.extend(imm);
        out
    }
    /// whether these operand values are a form of their own (jmp r0 is the immediate jump)
    pub fn canonical(&self, vals: &[u16]) -> bool {
        !(self.sem == Sem::JmpR && vals[0] == 0)
    }
    pub fn text(&self, name: &str, vals: &[u16], imm: impl Fn(K, u16) -> String) -> String {
        let mut s = name.to_string();
        for (i, (k, &v)) in self.ops.iter().zip(vals).enumerate() {
            s.push_str(if i == 0 { " " } else { ", " });
            match k {
                B => s.push_str(BREGS[v as usize & 15]),
                W => s.push_str(WREGS[v as usize & 15]),
                _ => s.push_str(&imm(*k, v)),
            }
        }
        s
    }
    pub fn ends_block(&self) -> bool {
        matches!(self.sem, Sem::Null | Sem::Halt | Sem::Reth | Sem::Ret | Sem::Jmp | Sem::JmpR)
    }
}

/// number of bytes the opcode takes, if it is an instruction
pub fn op_len(op: u8) -> Option<usize> {
    FORMS.iter().find(|f| f.op == op).map(|f| f.len())
}

/// form and operands (assembly order) of a valid encoding
pub fn decode(b: &[u8]) -> Option<(&'static Form, Vec<u16>)> {
    let op = *b.first()?;
    let len = op_len(op)?;
    if b.len() < len {
        return None;
    }
    'f: for f in FORMS.iter().filter(|f| f.op == op) {
        let mut nib = vec![];
        let regbytes = if op == 0x40 { 1 } else { f.regs().div_ceil(2) };
        for x in &b[1..1 + regbytes] {
            nib.extend([x >> 4, x & 15]);
        }
        let imm = &b[1 + regbytes..len];
        match f.sem {
            Sem::Jmp if nib != [0, 1] => continue 'f,
            Sem::JmpR if nib[1] != 1 || nib[0] == 0 => continue 'f,
            _ => (),
        }
        if op == 0x40 && f.sem == Sem::Ldi && nib[1] != 0 {
            continue;
        }
        if op != 0x40 && f.has_padding() && nib[f.regs()] != 0 {
            continue;
        }
        let mut nibs = nib.into_iter();
        let vals = f
            .ops
            .iter()
            .map(|k| match k {
                B | W => nibs.next().unwrap() as u16,
                Ib => imm[0] as u16,
                Iw => u16::from_le_bytes([imm[0], imm[1]]),
            })
            .collect();
        return Some((f, vals));
    }
    None
}

pub fn gen_vals(f: &Form, t: &mut Tape) -> Vec<u16> {
    f.ops
        .iter()
        .map(|k| match k {
            B | W => t.below(16) as u16,
            Ib => t.b8() as u16,
            Iw => t.b16(),
        })
        .collect()
}
