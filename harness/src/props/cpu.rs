//! Properties of the processor (C01 - C10) and of physical memory (M01).
use std::collections::{HashMap, HashSet};

use telda2::blf4::Blf4;
use telda2::machine::{Cpu as _, Machine};
use telda2::mem::{LazyMain, MainMemory, ROM_SIZE};

use crate::engine::*;
use crate::interp::{self, *};
use crate::isa::{self, Form, Sem, FORMS, K};
use crate::rig::*;

pub const PROPS: &[&Prop] = &[&C01, &C02, &C03, &C04, &C05, &C06, &C07, &C08, &C09, &C10, &M01];

// ---------------------------------------------------------------- generators

fn flags(t: &mut Tape) -> Fl {
    let v = t.raw();
    Fl { zero: v & 1 != 0, overflow: v & 2 != 0, sign: v & 4 != 0, carry: v & 8 != 0, ..Fl::default() }
}

fn regs(t: &mut Tape) -> Cpu {
    let mut c = Cpu::default();
    for r in c.r.iter_mut() {
        *r = t.b16();
    }
    c.rs = t.b16();
    c.rl = t.b16();
    c.rf = t.b16();
    c.rp = t.b16();
    c.f = flags(t);
    c
}

/// a program counter, sometimes at the end of the address space
fn some_pc(t: &mut Tape) -> u16 {
    if t.chance(1, 8) {
        0xffff - t.below(6) as u16
    } else {
        t.u16()
    }
}

fn pick_form(t: &mut Tape, p: fn(&Form) -> bool) -> &'static Form {
    let fs: Vec<&'static Form> = FORMS.iter().filter(|f| p(f)).collect();
    *t.pick(&fs)
}

fn is_alu(f: &Form) -> bool {
    matches!(f.sem, Sem::Alu(_) | Sem::Mul | Sem::Div)
}

fn instr_str(b: &[u8]) -> String {
    match isa::decode(b) {
        Some((f, v)) => f.text(f.names[0], &v, |_, x| format!("0x{x:x}")),
        None => format!("({})", hex(b)),
    }
}

/// places bytes at consecutive (wrapping) direct-mode addresses
fn place(m: &mut Mem, at: u16, b: &[u8]) {
    for (i, x) in b.iter().enumerate() {
        m.poke(at.wrapping_add(i as u16) as u32, *x);
    }
}

/// one instruction from `c`, direct mode, flat memory
fn single(c: Cpu, code: &[u8], seed: u32) -> R<(Rig<Mem>, Info)> {
    let mut m = Mem::new(seed);
    place(&mut m, c.pc, code);
    let mut rig = Rig::new(c, m.clone(), m);
    let i = rig.step().map_err(|e| format!("{}: {e}", instr_str(code)))?;
    Ok((rig, i))
}

// ---------------------------------------------------------------- C01

/// exhaustive over byte operands: every operation, every pair of values
fn c01_enum(ctx: &mut Ctx, shard: usize, shards: usize) -> R {
    let mut n = 0;
    let fs: Vec<&Form> = FORMS.iter().filter(|f| is_alu(f) && !f.wide).collect();
    for (fi, f) in fs.iter().enumerate() {
        let four = f.ops.len() == 4;
        let code = f.encode(if four { &[1, 2, 5, 6] } else { &[1, 5, 6] });
        let mut mem = Mem::new(0);
        place(&mut mem, 0x1000, &code);
        let mut c = Cpu { r: [0x1234, 0x5678, 0, 0xaaaa, 0x5555, 1, 2, 3, 4, 0xffff], rs: 0x100, rl: 0x200, rf: 0x300, rp: 0x400, rh: 0, pc: 0x1000, f: Fl::default() };
        let mut cpu = c.to_impl();
        for x in (shard as u16..256).step_by(shards) {
            for y in 0..256u16 {
                c.r[2] = y << 8 | x;
                c.r[0] = 0x1234;
                let k = x.wrapping_mul(7).wrapping_add(y).wrapping_add(fi as u16);
                c.f = Fl { zero: k & 1 != 0, overflow: k & 2 != 0, sign: k & 4 != 0, carry: k & 8 != 0, ..Fl::default() };
                cpu.program_counter = 0x1000;
                cpu.write_wr(wreg(1), c.r[0]).ok();
                cpu.write_wr(wreg(3), c.r[2]).ok();
                cpu.flags = c.to_impl_flags();
                let res = guarded(|| cpu.execute_instruction(&mut mem)).map_err(|e| format!("{} {x:02x}, {y:02x}: {e}", f.names[0]))?;
                n += 1;
                let mut want = c;
                want.pc = 0x1000 + code.len() as u16;
                let trap = match f.sem {
                    Sem::Alu(o) => {
                        let r = alu(o, false, x, y);
                        want.set_b(1, r.0 as u8);
                        (want.f.zero, want.f.overflow, want.f.sign, want.f.carry) = (r.1, r.2, r.3, r.4);
                        false
                    }
                    Sem::Mul => {
                        let p = x * y;
                        want.r[0] = p.swap_bytes();
                        want.f.carry = p > 255;
                        want.f.overflow = p > 255;
                        want.f.zero = p & 255 == 0;
                        want.f.sign = p & 128 != 0;
                        false
                    }
                    _ => {
                        if y != 0 {
                            want.r[0] = x / y | (x % y) << 8;
                        }
                        y == 0
                    }
                };
                if trap {
                    ensure!(res.map_err(tm) == Err(ZERODIV), "{} {x:02x}, {y:02x} did not trap with ZeroDiv", f.names[0]);
                    cpu = c.to_impl();
                    continue;
                }
                ensure!(res.is_ok(), "{} {x:02x}, {y:02x} trapped: {res:?}", f.names[0]);
                let got = Cpu::of(&cpu);
                ensure!(got == want, "{} of {x:02x} and {y:02x} with flags {:?} (got/expected):{}", f.names[0], c.f, got.diff(&want));
                ensure!(mem.writes.is_empty(), "{} wrote memory", f.names[0]);
            }
        }
    }
    ctx.enumerated(n, n);
    Ok(())
}

fn c01(t: &mut Tape, ctx: &mut Ctx) -> R {
    let n = t.size(1, 24);
    for _ in 0..n {
        let f = pick_form(t, is_alu);
        let mut v = isa::gen_vals(f, t);
        let mut c = regs(t);
        c.pc = some_pc(t);
        c.f.user = t.chance(1, 6);
        if f.wide && c.f.user {
            // protected registers are C07's business
            for x in v.iter_mut().filter(|x| **x >= 14) {
                *x -= 8;
            }
        }
        // shift counts and related operands
        match t.below(4) {
            0 if v.len() == 3 => {
                let k = t.below(20) as u16;
                if f.wide {
                    c.set_w(v[2], k)
                } else {
                    c.set_b(v[2], k as u8)
                }
            }
            1 => {
                let k = v.len();
                let d = [0, 1, 0xffff, 0x8000][t.below(4) as usize];
                let x = c.w(v[k - 2]).wrapping_add(d);
                if f.wide {
                    c.set_w(v[k - 1], x);
                }
            }
            _ => (),
        }
        if c.w(15) != 0 && t.bool() {
            c.rh = 0;
        }
        c.rh = if v.contains(&15) && f.wide { c.rh } else { 0 };
        let code = f.encode(&v);
        let zero = matches!(f.sem, Sem::Div) && (if f.wide { c.w(v[3]) } else { c.b(v[3]) as u16 }) == 0;
        let (rig, info) = single(c, &code, t.raw())?;
        if zero {
            ensure_eq!(info, if c.rh == 0 { Info::Stopped(ZERODIV) } else { Info::Entered(ZERODIV) }, "division by zero ({})", instr_str(&code));
        } else {
            ensure_eq!(info, Info::Done, "{}", instr_str(&code));
        }
        ctx.label(f.names[0]);
        ctx.nontrivial();
        ctx.sample(|| format!("{} from {:x?} gives {:x?}", instr_str(&code), c, rig.state()));
    }
    Ok(())
}

pub static C01: Prop = Prop {
    id: "C01",
    rule: "all pairs of byte operands for all ten byte operations, plus random instructions of both widths over random registers, aliases, boundary-biased operands and prior flags; a case is non-trivial if it executed at least one arithmetic instruction against the reference",
    assumptions: &["single instructions from an arbitrary machine state are representative of instructions inside programs (C10 checks the composition)"],
    tape: 600,
    quick: 2_000_000,
    thorough: 16_000_000,
    case: c01,
    enumerate: Some(c01_enum),
};

// ---------------------------------------------------------------- C02

fn c02_views(cpu: &Blf4, c: &Cpu) -> R {
    for n in 0..16u16 {
        let b = cpu.read_br(breg(n as u8));
        ensure!(b == c.b(n), "{} reads {b:02x}, expected {:02x}", isa::BREGS[n as usize], c.b(n));
        match cpu.read_wr(wreg(n as u8)) {
            Ok(w) => ensure!(w == c.w(n) && !(c.f.user && n >= 14), "{} reads {w:04x}, expected {:04x}", isa::WREGS[n as usize], c.w(n)),
            Err(m) => ensure!(c.f.user && n >= 14 && tm(m) == ILLOP, "{} cannot be read: {m:?}", isa::WREGS[n as usize]),
        }
    }
    ensure_eq!((cpu.stack, cpu.link, cpu.frame), (c.rs, c.rl, c.rf), "special registers");
    Ok(())
}

fn c02(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut c = regs(t);
    c.f.user = t.chance(1, 4);
    c.pc = 0x1000;
    let mut mem = Mem::new(0);
    let mut cpu = c.to_impl();
    let n = t.size(1, 60);
    let mut hist = vec![];
    let mut kinds = HashSet::new();
    for _ in 0..n {
        let how = t.below(5);
        let r = t.below(16) as u16;
        let by = t.bool();
        let val = t.b16();
        let legal = by || !(c.f.user && r >= 14);
        let res = match how {
            // debugger-style access
            0 => {
                if by {
                    cpu.write_br(breg(r as u8), val as u8);
                    Ok(())
                } else {
                    cpu.write_wr(wreg(r as u8), val).map_err(tm)
                }
            }
            // load immediate
            1 | 2 => {
                let f = FORMS.iter().find(|f| f.sem == Sem::Ldi && f.wide != by).unwrap();
                place(&mut mem, c.pc, &f.encode(&[r, val]));
                cpu.program_counter = c.pc;
                cpu.execute_instruction(&mut mem).map_err(tm)
            }
            // through memory
            3 => {
                mem.poke_n(0x2000, &val.to_le_bytes());
                let f = FORMS.iter().find(|f| f.sem == Sem::Load && f.wide != by && f.imm().is_some()).unwrap();
                place(&mut mem, c.pc, &f.encode(&[r, 0, 0x2000]));
                cpu.program_counter = c.pc;
                cpu.execute_instruction(&mut mem).map_err(tm)
            }
            // register to register
            _ => {
                let s = t.below(14) as u16;
                let f = FORMS.iter().find(|f| f.sem == Sem::Alu(isa::Op::Or) && f.wide != by).unwrap();
                place(&mut mem, c.pc, &f.encode(&[r, s, 0]));
                cpu.program_counter = c.pc;
                let res = cpu.execute_instruction(&mut mem).map_err(tm);
                let v = if by { c.b(s) as u16 } else { c.w(s) };
                hist.push(format!("{} <- {}", if by { isa::BREGS[r as usize] } else { isa::WREGS[r as usize] }, if by { isa::BREGS[s as usize] } else { isa::WREGS[s as usize] }));
                if res.is_ok() {
                    if by {
                        c.set_b(r, v as u8)
                    } else {
                        c.set_w(r, v)
                    }
                }
                if c.rh != 0 && !legal {
                    break;
                }
                ensure!(res.is_ok() == legal, "write to {}: {res:?} ({})", isa::WREGS[r as usize], hist.join("; "));
                cpu.flags.user_mode = c.f.user;
                cpu.flags.trap = false;
                c02_views(&cpu, &c).map_err(|e| format!("{e} after {}", hist.join("; ")))?;
                continue;
            }
        };
        hist.push(format!("{} <- {val:x}", if by { isa::BREGS[r as usize] } else { isa::WREGS[r as usize] }));
        if c.rh != 0 && !legal && how != 0 {
            // a trap handler has taken over
            break;
        }
        ensure!(res.is_ok() == legal, "write to {}: {res:?} ({})", isa::WREGS[r as usize], hist.join("; "));
        if legal {
            if by {
                c.set_b(r, val as u8);
            } else {
                c.set_w(r, val);
            }
            kinds.insert((by, r));
        }
        cpu.flags.user_mode = c.f.user;
        cpu.flags.trap = false;
        c02_views(&cpu, &c).map_err(|e| format!("{e} after {}", hist.join("; ")))?;
    }
    if kinds.len() >= 4 {
        ctx.nontrivial();
    }
    ctx.sample(|| hist.join("; "));
    Ok(())
}

pub static C02: Prop = Prop {
    id: "C02",
    rule: "random histories of register writes (accessors, load immediate, loads, register moves), all 32 views compared with a model after every write; non-trivial: at least four different registers written",
    assumptions: &[],
    tape: 320,
    quick: 3_000_000,
    thorough: 24_000_000,
    case: c02,
    enumerate: None,
};

// ---------------------------------------------------------------- C03

const JUMPS: [(u8, &str); 12] = [(0, "jez"), (1, "jlt"), (2, "jle"), (3, "jgt"), (4, "jge"), (5, "jnz"), (6, "jo"), (7, "jno"), (8, "ja"), (9, "jae"), (10, "jb"), (11, "jbe")];

/// the relation a mnemonic names, on the operands
fn relation(k: u8, wide: bool, x: u16, y: u16) -> bool {
    let (sx, sy) = if wide { (x as i16 as i32, y as i16 as i32) } else { (x as i8 as i32, y as i8 as i32) };
    let (ux, uy) = if wide { (x, y) } else { (x & 255, y & 255) };
    let d = sx - sy;
    let over = if wide { d != d as i16 as i32 } else { d != d as i8 as i32 };
    match k {
        0 => ux == uy,
        1 => sx < sy,
        2 => sx <= sy,
        3 => sx > sy,
        4 => sx >= sy,
        5 => ux != uy,
        6 => over,
        7 => !over,
        8 => ux > uy,
        9 => ux >= uy,
        10 => ux < uy,
        _ => ux <= uy,
    }
}

fn jump_form(k: u8) -> &'static Form {
    FORMS.iter().find(|f| f.sem == Sem::J(k)).unwrap()
}

fn after_sub(wide: bool, x: u16, y: u16, mem: &mut Mem, cpu: &mut Blf4, target: u16) -> R {
    // sub r0, r1, r2 / sub r0b, r1l, r2l at 1000; jumps at 2000, 2010, ...
    cpu.program_counter = if wide { 0x1000 } else { 0x1010 };
    cpu.write_wr(wreg(1), x).ok();
    cpu.write_wr(wreg(2), y).ok();
    cpu.execute_instruction(mem).map_err(|e| format!("sub trapped with {e:?}"))?;
    let fl = Cpu::of(cpu);
    for (k, name) in JUMPS {
        let at = 0x2000 + k as u16 * 16;
        cpu.program_counter = at;
        cpu.execute_instruction(mem).map_err(|e| format!("{name} trapped with {e:?}"))?;
        let want = relation(k, wide, x, y);
        let got = cpu.program_counter;
        ensure!(
            got == if want { target } else { at + 3 },
            "{name} after comparing {x:x} and {y:x} ({}) goes to {got:04x}: it should {}be taken (target {target:04x}, next {:04x})",
            if wide { "wide" } else { "byte" },
            if want { "" } else { "not " },
            at + 3
        );
    }
    let mut now = Cpu::of(cpu);
    now.pc = fl.pc;
    ensure!(now == fl, "a jump changed{}", now.diff(&fl));
    Ok(())
}

fn c03_setup(target: u16) -> Mem {
    let mut mem = Mem::new(0);
    let sub = |w: bool| FORMS.iter().find(|f| f.sem == Sem::Alu(isa::Op::Sub) && f.wide == w).unwrap();
    place(&mut mem, 0x1000, &sub(true).encode(&[0, 1, 2]));
    place(&mut mem, 0x1010, &sub(false).encode(&[0, 1, 3]));
    for (k, _) in JUMPS {
        place(&mut mem, 0x2000 + k as u16 * 16, &jump_form(k).encode(&[target]));
    }
    mem
}

fn c03_enum(ctx: &mut Ctx, shard: usize, shards: usize) -> R {
    let mut n = 0;
    let mut mem = c03_setup(0x3456);
    let mut cpu = Cpu::default().to_impl();
    for x in (shard as u16..256).step_by(shards) {
        for y in 0..256 {
            after_sub(false, x, y, &mut mem, &mut cpu, 0x3456)?;
            n += 12;
        }
    }
    // every flag combination, every jump
    if shard == 0 {
        for fl in 0..64u32 {
            for (k, name) in JUMPS {
                for target in [0u16, 0xffff, 0x2003, 0x1234] {
                    let mut c = Cpu { pc: 0x2000, ..Cpu::default() };
                    c.f = Fl { zero: fl & 1 != 0, overflow: fl & 2 != 0, sign: fl & 4 != 0, carry: fl & 8 != 0, user: fl & 16 != 0, trap: fl & 32 != 0, ..Fl::default() };
                    let (_, i) = single(c, &jump_form(k).encode(&[target]), 7)?;
                    ensure_eq!(i, Info::Done, "{name}");
                    n += 1;
                }
            }
        }
    }
    ctx.enumerated(n, n);
    Ok(())
}

fn c03(t: &mut Tape, ctx: &mut Ctx) -> R {
    let target = t.b16();
    let mut mem = c03_setup(target);
    let mut cpu = Cpu::default().to_impl();
    for _ in 0..t.size(1, 40) {
        let x = t.b16();
        let y = match t.below(4) {
            0 => x,
            1 => x.wrapping_add([1, 0xffff, 0x8000, 0x7fff, 0x100, 0xff][t.below(6) as usize]),
            _ => t.b16(),
        };
        after_sub(true, x, y, &mut mem, &mut cpu, target)?;
        ctx.sample(|| format!("compared {x:04x} with {y:04x}, all twelve jumps to {target:04x} right"));
    }
    ctx.nontrivial();
    Ok(())
}

pub static C03: Prop = Prop {
    id: "C03",
    rule: "all 65536 byte pairs and random wide pairs (equal and boundary pairs favoured): sub, then each of the 12 jumps, against the relation computed on the operands; all flag combinations against the flag formula; every case is non-trivial",
    assumptions: &[],
    tape: 130,
    quick: 2_000_000,
    thorough: 16_000_000,
    case: c03,
    enumerate: Some(c03_enum),
};

// ---------------------------------------------------------------- C04

fn c04_one(t: &mut Tape, code: &[u8], ctx: &mut Ctx) -> R {
    let mut c = regs(t);
    c.pc = some_pc(t);
    c.f.user = t.chance(1, 4);
    c.f.trap = t.chance(1, 4);
    c.rh = if t.chance(1, 5) { t.b16() } else { 0 };
    // memory accesses away from the instruction
    let (_, info) = single(c, code, t.raw() | 1)?;
    ctx.label(match info {
        Info::Done => "completed",
        Info::Stopped(INVALID) => "invalid",
        Info::Stopped(_) => "other trap",
        _ => "handler",
    });
    Ok(())
}

fn c04_enum(ctx: &mut Ctx, shard: usize, shards: usize) -> R {
    // every opcode with every second byte; third byte from a few classes
    let mut n = 0;
    let mut nt = 0;
    let thirds: &[u8] = if ctx.tier_thorough { &[0, 1, 2, 0x0f, 0x10, 0x11, 0x5f, 0x80, 0xa0, 0xff, 0xe0, 0xf0] } else { &[0, 1, 0x10, 0xff] };
    for op in (shard..256).step_by(shards) {
        for b1 in 0..=255u8 {
            for &b2 in thirds {
                let mut c = Cpu { r: [0x8101, 0x9202, 0xa303, 0xb404, 0xc505, 0x6607, 0x7708, 0x8809, 0x990a, 0xaa0b], rs: 0x6000, rl: 0x6100, rf: 0x6200, rp: 0x6300, rh: 0, pc: 0x1000, f: Fl::default() };
                c.f.zero = b1 & 1 != 0;
                c.f.user = b2 == 0x10;
                let code = [op as u8, b1, b2, 0x12, 0x34];
                single(c, &code, 3)?;
                n += 1;
                nt += 1;
            }
        }
    }
    ctx.enumerated(n, nt);
    Ok(())
}

fn c04(t: &mut Tape, ctx: &mut Ctx) -> R {
    for _ in 0..t.size(1, 24) {
        let mut code: Vec<u8> = match t.below(3) {
            0 => (0..5).map(|_| t.u8()).collect(),
            1 => {
                let f = pick_form(t, |_| true);
                f.encode(&isa::gen_vals(f, t))
            }
            _ => {
                // nearly right
                let f = pick_form(t, |_| true);
                let mut b = f.encode(&isa::gen_vals(f, t));
                let i = t.below(b.len() as u32) as usize;
                b[i] ^= 1 << t.below(8);
                b
            }
        };
        code.push(t.u8());
        c04_one(t, &code, ctx)?;
        ctx.nontrivial();
        ctx.sample(|| format!("{}: {}", hex(&code), instr_str(&code)));
    }
    Ok(())
}

pub static C04: Prop = Prop {
    id: "C04",
    rule: "every opcode with every second byte and several third bytes, plus random bytes, valid encodings and one-bit corruptions of them at random addresses (wrap included), registers, modes and handlers, each executed once against a decoder written from the instruction table; every case executes at least one encoding",
    assumptions: &[],
    tape: 700,
    quick: 2_000_000,
    thorough: 16_000_000,
    case: c04,
    enumerate: Some(c04_enum),
};

// ---------------------------------------------------------------- C05

fn c05(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut c = regs(t);
    c.rh = 0;
    c.pc = some_pc(t);
    c.rs = if t.chance(1, 4) { [0, 1, 2, 0xffff, 0xfffe][t.below(5) as usize] } else { t.u16() };
    let m = Mem::new(t.raw());
    let mut rig = Rig::new(c, m.clone(), m);
    let n = t.size(1, 50);
    let mut hist = vec![];
    // the byte stack, as long as nothing else touches it
    let mut stack: Vec<u8> = vec![];
    let mut pops = 0;
    let mut mem_ops = 0;
    for _ in 0..n {
        let st = rig.state();
        let f = match t.below(4) {
            0 | 1 => pick_form(t, |f| matches!(f.sem, Sem::Push | Sem::Pop)),
            2 => pick_form(t, |f| matches!(f.sem, Sem::Load | Sem::Store)),
            _ => pick_form(t, |f| matches!(f.sem, Sem::Call | Sem::Ret | Sem::Ldi | Sem::Load | Sem::Store | Sem::Push | Sem::Pop)),
        };
        let mut v = isa::gen_vals(f, t);
        if t.chance(3, 4) {
            // leave the stack pointer to the stack instructions
            let wr = |v: &mut Vec<u16>, i: usize| {
                if f.ops[i] == K::W && v[i] == 11 {
                    v[i] = 9;
                }
            };
            if matches!(f.sem, Sem::Load | Sem::Ldi | Sem::Pop) {
                wr(&mut v, 0);
            }
        }
        // aim at interesting addresses: next to the stack, around zero
        if matches!(f.sem, Sem::Load | Sem::Store) && f.imm().is_some() && t.bool() {
            let base = if f.sem == Sem::Load { 1 } else { 0 };
            let want = match t.below(3) {
                0 => st.rs.wrapping_add(t.below(8) as u16).wrapping_sub(4),
                1 => t.below(4) as u16,
                _ => 0xfffc + t.below(4) as u16,
            };
            let i = f.ops.iter().position(|k| *k == K::Iw).unwrap();
            v[i] = want.wrapping_sub(st.w(v[base]));
        }
        if f.sem == Sem::JmpR && v[0] == 0 {
            continue;
        }
        let code = f.encode(&v);
        // code must not overwrite the live stack
        for k in 0..code.len() as u16 {
            let a = st.pc.wrapping_add(k);
            if a.wrapping_sub(st.rs) < stack.len() as u16 {
                stack.clear();
            }
        }
        place(&mut rig.mem, st.pc, &code);
        place(&mut rig.model, st.pc, &code);
        hist.push(instr_str(&code));
        let mut expect_pop = None;
        match (f.sem, f.wide) {
            (Sem::Pop, true) if v[0] == 11 => stack.clear(),
            (Sem::Pop, true) if stack.len() >= 2 => {
                let (l, h) = (stack.pop().unwrap(), stack.pop().unwrap());
                expect_pop = Some(u16::from_le_bytes([l, h]));
            }
            (Sem::Pop, false) if !stack.is_empty() => expect_pop = Some(stack.pop().unwrap() as u16),
            (Sem::Pop, _) => stack.clear(),
            _ => (),
        }
        if f.sem == Sem::Push {
            let x = if f.wide { st.w(v[0]) } else { st.b(v[0]) as u16 };
            if f.wide {
                stack.push((x >> 8) as u8);
            }
            stack.push(x as u8);
        }
        let before = rig.state();
        let info = rig.step().map_err(|e| format!("{e}; history: {}", hist.join("; ")))?;
        ensure_eq!(info, Info::Done, "{}", hist.join("; "));
        let now = rig.state();
        if let Some(x) = expect_pop {
            pops += 1;
            let got = if f.wide { now.w(v[0]) } else { now.b(v[0]) as u16 };
            if v[0] != 0 && !(f.wide && v[0] == 11) {
                ensure!(got == x, "popped {got:x}, pushed {x:x} before: {}", hist.join("; "));
            }
        }
        match f.sem {
            Sem::Push | Sem::Pop if !(f.wide && f.sem == Sem::Pop && v[0] == 11) => (),
            Sem::Store => {
                mem_ops += 1;
                let off = if f.ops[1] == K::W { before.w(v[1]) } else { v[1] };
                let a = before.w(v[0]).wrapping_add(off);
                for k in 0..2u16 {
                    let d = a.wrapping_add(k).wrapping_sub(now.rs);
                    if d < stack.len() as u16 {
                        stack.clear();
                    }
                }
            }
            Sem::Load => {
                mem_ops += 1;
                if now.rs != before.rs {
                    stack.clear();
                }
            }
            _ if now.rs != before.rs => stack.clear(),
            _ => (),
        }
    }
    if pops > 0 && mem_ops > 0 {
        ctx.nontrivial();
    }
    ctx.sample(|| hist.join("; "));
    Ok(())
}

pub static C05: Prop = Prop {
    id: "C05",
    rule: "random histories of up to 50 load/store/push/pop/call/ret/ldi instructions from random states; whole register file and every written byte compared with the reference after each, pops also with an explicit byte stack; non-trivial: at least one pop of a pushed value and one load or store",
    assumptions: &["direct mode (C06 covers translation)"],
    tape: 420,
    quick: 2_000_000,
    thorough: 16_000_000,
    case: c05,
    enumerate: None,
};

// ---------------------------------------------------------------- virtual memory worlds

pub const ALL: u32 = 0x2f;

pub struct Space {
    /// virtual page numbers (0..512) with an entry, and their physical page address
    pub pages: Vec<(u16, u32, u32)>,
    pub tables: Vec<u32>,
}

/// page tables at `c.rp`; physical pages from a small pool
pub fn gen_space(t: &mut Tape, c: &mut Cpu, m: &mut Mem, generous: u32) -> Space {
    c.rp = match t.below(4) {
        0 => 0x8000,
        1 => 0xffc0,
        2 => t.u16() & !0x7f,
        // the table may be anywhere, also at odd addresses
        _ if t.chance(1, 3) => t.u16(),
        _ => t.u16() & !3,
    };
    let rp = c.rp as u32;
    let avoid = |p: u32| p + 0x80 <= rp || p >= rp + 64;
    let mut pool = vec![];
    let ntab = t.size(1, 3);
    let mut next_page = |t: &mut Tape| loop {
        let p = match if pool.len() > 200 || t.left() == 0 { 4 } else { t.below(4) } {
            0 => 0x01_0000 + t.below(64) * 0x80,
            1 => t.below(0x200) * 0x80,
            2 => 0xff_ff80 - t.below(32) * 0x80,
            3 => t.below(0x2_0000) * 0x80,
            _ => 0x02_0000 + pool.len() as u32 * 0x80,
        };
        if avoid(p) && !pool.contains(&p) && (p != 0 || !pool.is_empty() && pool.len() >= ntab) {
            pool.push(p);
            break p;
        }
        // taken: somewhere fresh
        let p = 0x03_0000 + pool.len() as u32 * 0x80;
        pool.push(p);
        break p;
    };
    // level one
    let tables: Vec<u32> = (0..ntab).map(|_| next_page(t)).collect();
    let mut l1 = vec![];
    for i in 0..16 {
        let mut e = 0;
        let tab = tables[t.below(ntab as u32) as usize];
        if t.chance(generous, generous + 1) {
            e = ALL;
        } else {
            let r = t.raw();
            if r & 3 != 0 {
                e = r >> 2 & 0x3f | 1;
            } else {
                e |= r >> 2 & 0x3e;
            }
        }
        let junk = t.raw() & 0x7f00;
        let bit6 = t.raw() & 0xc0;
        let e = e | junk | bit6 | if t.chance(1, 3) { 0x10 } else { 0 };
        m.poke32(rp + 4 * i, tab << 8 | e);
        l1.push(tab);
    }
    // level two
    let npages = t.size(4, 12);
    let phys: Vec<u32> = (0..npages).map(|_| next_page(t)).collect();
    let mut pages = vec![];
    for (ti, &tab) in tables.iter().enumerate() {
        let mut fill = t.raw();
        for i in 0..32 {
            fill = fill.wrapping_mul(0x9e37_79b1).rotate_left(9) ^ 0x5bd1;
            let p = phys[(fill >> 8) as usize % phys.len()];
            let bits = if fill & 7 < generous.min(7) { ALL } else { fill >> 16 & 0x3f };
            let bits = bits & !0x10 | if fill & 0x4000_0000 != 0 { 0x10 } else { 0 };
            m.poke32(tab + 4 * i, p << 8 | bits | (fill >> 3 & 0x7fc0));
            if bits & 1 != 0 {
                for (v1, l) in l1.iter().enumerate() {
                    if *l == tab {
                        pages.push(((v1 as u16) << 5 | i as u16, p, bits));
                    }
                }
            }
        }
        let _ = ti;
    }
    c.f.vm = true;
    Space { pages, tables }
}

/// physical address behind a virtual one, permissions aside
pub fn phys_of(c: &Cpu, m: &Mem, va: u16) -> Option<u32> {
    if !c.f.vm {
        return Some(va as u32);
    }
    let e1 = m.peek32(c.rp as u32 + 4 * (va as u32 >> 12));
    if e1 & 1 == 0 {
        return None;
    }
    let e2 = m.peek32((e1 >> 15 << 7) + 4 * (va as u32 >> 7 & 31));
    (e2 & 1 != 0).then_some((e2 >> 15 << 7) + (va as u32 & 127))
}

/// entry addresses and values
pub fn entries(c: &Cpu, m: &Mem, va: u16) -> Option<(u32, u32, u32, u32)> {
    let a1 = c.rp as u32 + 4 * (va as u32 >> 12);
    let e1 = m.peek32(a1);
    if e1 & 1 == 0 {
        return None;
    }
    let a2 = (e1 >> 15 << 7) + 4 * (va as u32 >> 7 & 31);
    Some((a1, e1, a2, m.peek32(a2)))
}

/// bytes that are part of page tables
fn table_bytes(c: &Cpu, sp: &Space) -> HashSet<u32> {
    let mut s = HashSet::new();
    s.extend(c.rp as u32..c.rp as u32 + 64);
    for t in &sp.tables {
        s.extend(*t..*t + 128);
    }
    s
}

fn some_va(t: &mut Tape, sp: &Space) -> u16 {
    let off = match t.below(4) {
        0 => 127,
        1 => 0,
        2 => 126,
        _ => t.below(128) as u16,
    };
    if sp.pages.is_empty() || t.chance(1, 6) {
        return match t.below(3) {
            0 => 0xffff,
            1 => 0,
            _ => t.u16(),
        };
    }
    t.pick(&sp.pages).0 << 7 | off
}

/// writes code to virtual addresses as far as they are mapped; false if some byte is not
fn place_virtual(c: &Cpu, mems: &mut [&mut Mem], va: u16, code: &[u8], forbidden: &HashSet<u32>) -> bool {
    let mut all = true;
    for (i, b) in code.iter().enumerate() {
        match phys_of(c, mems[0], va.wrapping_add(i as u16)) {
            Some(p) if !forbidden.contains(&p) => {
                for m in mems.iter_mut() {
                    m.poke(p, *b);
                }
            }
            _ => all = false,
        }
    }
    all
}

// ---------------------------------------------------------------- C06

fn c06(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut c = regs(t);
    c.rh = 0;
    let mut m = Mem::new(t.raw() | 1);
    let generous = [1, 3, 6][t.below(3) as usize];
    let sp = gen_space(t, &mut c, &mut m, generous);
    let mut tb = table_bytes(&c, &sp);
    // a second first-level table, with some of the second-level tables
    let rp2 = c.rp ^ *t.pick(&[0x4000, 0x80, 0x2000]);
    let taken = |a: u32| tb.contains(&a) || sp.pages.iter().any(|p| p.1 <= a && a < p.1 + 128);
    let second = t.chance(1, 3) && !(rp2 as u32..rp2 as u32 + 64).any(taken);
    if second {
        let by = t.below(16);
        for i in 0..16 {
            let e = m.peek32(c.rp as u32 + 4 * ((i + by) & 15));
            m.poke32(rp2 as u32 + 4 * i, if t.chance(1, 4) { e ^ 1 << t.below(6) } else { e });
        }
        tb.extend(rp2 as u32..rp2 as u32 + 64);
        ctx.label("two spaces");
    }
    // tables that can be reached through themselves
    let mut mapped = false;
    if !sp.pages.is_empty() && t.chance(1, 5) {
        for _ in 0..t.size(1, 3) {
            let va = t.pick(&sp.pages).0 << 7;
            if let Some((_, _, a, e)) = entries(&c, &m, va) {
                let to = if t.bool() { *t.pick(&sp.tables) } else { c.rp as u32 & !127 };
                m.poke32(a, to << 8 | e & 0x7fff);
                mapped = true;
            }
        }
        ctx.label("tables that are mapped");
    }
    c.f.user = t.bool();
    let mut rig = Rig::new(c, m.clone(), m);
    let (mut ok, mut faults) = (0, HashSet::new());
    let mut hist = vec![];
    for _ in 0..t.size(1, 24) {
        let st = rig.state();
        if second && t.chance(1, 8) {
            // to another address space and back
            let mut s2 = st;
            s2.rp ^= c.rp ^ rp2;
            s2.set(&mut rig.cpu);
            hist.push(format!("rp {:04x}", s2.rp));
            continue;
        }
        if t.chance(1, 12) {
            // another entry
            let va = some_va(t, &sp);
            if let Some((a1, e1, a2, e2)) = entries(&st, &rig.model, va) {
                let (a, e) = if t.chance(1, 3) { (a1, e1) } else { (a2, e2) };
                let new = match t.below(4) {
                    0 if !sp.pages.is_empty() && a == a2 => t.pick(&sp.pages).1 << 8 | e & 0x7fff,
                    1 if a == a1 => *t.pick(&sp.tables) << 8 | e & 0x7fff,
                    _ => e ^ 1 << t.below(6),
                };
                for (i, (b, old)) in new.to_le_bytes().into_iter().zip(e.to_le_bytes()).enumerate() {
                    if b != old {
                        let r = guarded(|| rig.cpu.context(&mut rig.mem).physical_write(a + i as u32, b))?;
                        ensure!(r.is_ok(), "writing to physical memory at {a:06x} failed");
                        rig.model.poke(a + i as u32, b);
                    }
                }
                rig.model.writes.clear();
                rig.mem.writes.clear();
                hist.push(format!("entry at {a:06x} becomes {new:08x}"));
                continue;
            }
        }
        if t.bool() {
            // the accessors themselves
            let va = some_va(t, &sp);
            let kind = t.below(4);
            let user = t.bool();
            rig.cpu.flags.user_mode = user;
            let st = rig.state();
            rig.model.writes.clear();
            rig.mem.writes.clear();
            let pre_bytes: Vec<(u32, u8)> = entries(&st, &rig.model, va).map(|(a, _, b, _)| [a, a + 1, a + 2, a + 3, b, b + 1, b + 2, b + 3].iter().map(|x| (*x, rig.model.peek(*x))).collect()).unwrap_or_default();
            let val = t.u16();
            // a write to its own entries
            let goes = phys_of(&st, &rig.model, va);
            if kind == 1 && goes.is_some_and(|p| pre_bytes.iter().any(|b| b.0 == p)) {
                continue;
            }
            let (exp, got): (Result<u16, Vec<u8>>, Result<u16, u8>) = match kind {
                0 => (interp::read(&st, &mut rig.model, va, Acc::R).map(u16::from), guarded(|| rig.cpu.context(&mut rig.mem).read(va))?.map(u16::from).map_err(tm)),
                1 => (interp::write(&st, &mut rig.model, va, val as u8).map(|_| 0), guarded(|| rig.cpu.context(&mut rig.mem).write(va, val as u8))?.map(|_| 0).map_err(tm)),
                2 => {
                    rig.cpu.program_counter = va;
                    let e = interp::read(&st, &mut rig.model, va, Acc::X).map(u16::from);
                    let g = guarded(|| rig.cpu.context(&mut rig.mem).fetch())?.map(u16::from).map_err(tm);
                    rig.cpu.program_counter = st.pc;
                    (e, g)
                }
                _ => {
                    let l = interp::read(&st, &mut rig.model, va, Acc::R);
                    let h = interp::read(&st, &mut rig.model, va.wrapping_add(1), Acc::R);
                    let e = match (l, h) {
                        (Ok(l), Ok(h)) => Ok(u16::from_le_bytes([l, h])),
                        (Err(a), Ok(_)) => Err(a),
                        (Ok(_), Err(b)) => Err(b),
                        (Err(a), Err(b)) => Err([a, b].concat()),
                    };
                    (e, guarded(|| rig.cpu.context(&mut rig.mem).read_wide(va))?.map_err(tm))
                }
            };
            let what = format!("{} of {va:04x} in {} mode, entries {:x?}", ["read", "write", "fetch", "wide read"][kind as usize], if user { "user" } else { "supervisor" }, entries(&st, &rig.model, va));
            hist.push(what.clone());
            match (&exp, &got) {
                (Ok(a), Ok(b)) => {
                    ensure!(a == b, "{what}: got {b:x}, expected {a:x}");
                    ok += 1;
                }
                (Err(v), Err(m)) => {
                    ensure!(v.contains(m), "{what}: trapped with {}, expected {}", tm_name(*m), names(v));
                    faults.insert(*m);
                }
                (Ok(_), Err(m)) => return Err(format!("{what}: trapped with {}, should be allowed", tm_name(*m))),
                (Err(v), Ok(_)) => return Err(format!("{what}: allowed, should trap with {}", names(v))),
            }
            let ws: Vec<u32> = rig.mem.take_writes();
            if kind != 1 {
                for a in &ws {
                    ensure!(rig.mem.peek(*a) == rig.model.peek(*a), "{what} changed physical memory at {a:06x}");
                }
            }
            rig.model.writes.clear();
            for a in ws.into_iter().chain(goes).chain(pre_bytes.iter().map(|p| p.0)) {
                ensure!(rig.mem.peek(a) == rig.model.peek(a), "{what}: physical memory at {a:06x} is {:02x}, expected {:02x}", rig.mem.peek(a), rig.model.peek(a));
            }
            for (a, b) in pre_bytes {
                let x = rig.mem.peek(a);
                ensure!(x == b || x == b | 0x10, "{what} changed a table entry at {a:06x} from {b:02x} to {x:02x}");
            }
            continue;
        }
        // an instruction somewhere
        let f = pick_form(t, |f| matches!(f.sem, Sem::Load | Sem::Store | Sem::Push | Sem::Pop | Sem::Jmp | Sem::Ldi | Sem::Nop));
        let mut v = isa::gen_vals(f, t);
        let pc = some_va(t, &sp);
        let mut s2 = st;
        s2.pc = pc;
        s2.f.user = t.bool();
        if t.bool() {
            s2.rs = some_va(t, &sp);
        }
        for (k, x) in f.ops.iter().zip(v.iter_mut()) {
            if *k == K::W && *x >= 14 {
                *x -= 4;
            }
        }
        let target = some_va(t, &sp);
        match f.sem {
            Sem::Load => {
                let off = if f.imm().is_some() { v[2] } else { s2.w(v[2]) };
                if v[1] != 0 && v[1] < 11 && (f.imm().is_some() || v[2] != v[1]) {
                    s2.set_w(v[1], target.wrapping_sub(off));
                }
            }
            Sem::Store => {
                let off = if f.imm().is_some() { v[1] } else { s2.w(v[1]) };
                if v[0] != 0 && v[0] < 11 && (f.imm().is_some() || v[1] != v[0]) {
                    s2.set_w(v[0], target.wrapping_sub(off));
                }
            }
            _ => (),
        }
        let code = f.encode(&v);
        if mapped && (0..code.len() as u16).any(|i| phys_of(&s2, &rig.model, pc.wrapping_add(i)).is_some_and(|p| tb.contains(&p))) {
            continue;
        }
        place_virtual(&s2, &mut [&mut rig.model, &mut rig.mem], pc, &code, &tb);
        // keep the tables in mind
        let snapshot: Vec<(u32, u8)> = tb.iter().map(|a| (*a, rig.model.peek(*a))).collect();
        s2.set(&mut rig.cpu);
        hist.push(format!("{} at {pc:04x}", instr_str(&code)));
        // stores that hit the tables themselves are the program's doing
        let hits_tables = |s: &Cpu, m: &Mem, a: u16| [a, a.wrapping_add(1)].iter().any(|x| phys_of(s, m, *x).is_some_and(|p| tb.contains(&p)));
        let own = match f.sem {
            Sem::Store => {
                let off = if f.imm().is_some() { v[1] } else { s2.w(v[1]) };
                hits_tables(&s2, &rig.model, s2.w(v[0]).wrapping_add(off))
            }
            Sem::Push => hits_tables(&s2, &rig.model, s2.rs.wrapping_sub(2)) || hits_tables(&s2, &rig.model, s2.rs.wrapping_sub(1)),
            _ => false,
        };
        if own {
            // (in which order their two bytes and the marks are written is not settled)
            continue;
        }
        match rig.step().map_err(|e| format!("{e}; {}", hist.last().unwrap()))? {
            Info::Done => ok += 1,
            Info::Stopped(m) => {
                faults.insert(m);
            }
            i => return Err(format!("unexpected {i:?}")),
        }
        for (a, b) in snapshot {
            let x = rig.mem.peek(a);
            ensure!(x == b || x == b | 0x10, "{} changed a table entry at {a:06x} from {b:02x} to {x:02x}", hist.last().unwrap());
        }
    }
    if ok > 0 && !faults.is_empty() {
        ctx.nontrivial();
    }
    for f in faults {
        ctx.label(tm_name(f));
    }
    ctx.sample(|| hist.join("; "));
    Ok(())
}

pub static C06: Prop = Prop {
    id: "C06",
    rule: "random two-level tables (shared tables and pages, random permissions, junk in reserved bits, tables at unaligned addresses) and histories of accesses of every kind in both modes, through the accessors and through instructions placed at page ends, with entries and table pointers changing in between and tables that are themselves mapped; non-trivial: at least one successful access and one fault",
    assumptions: &["no access writes to its own table entries, and no wide one to any", "where an access violates several conditions any one of them may be reported"],
    tape: 800,
    quick: 300_000,
    thorough: 6_000_000,
    case: c06,
    enumerate: None,
};

// ---------------------------------------------------------------- C07

fn gen_user_code(t: &mut Tape, sp: &Space, n: usize) -> Vec<Vec<u8>> {
    (0..n)
        .map(|_| match t.below(20) {
            19 => (0..4).map(|_| t.u8()).collect(),
            18 => {
                let f = pick_form(t, |f| matches!(f.sem, Sem::Usr | Sem::Vmon | Sem::Vmoff | Sem::Pstore | Sem::Pload | Sem::Ctf | Sem::Reth | Sem::Syscall));
                f.encode(&isa::gen_vals(f, t))
            }
            2 | 4..=7 => {
                // aimed access
                let f = pick_form(t, |f| matches!(f.sem, Sem::Load | Sem::Store) && f.imm().is_some());
                let mut v = isa::gen_vals(f, t);
                let (b, o) = if f.sem == Sem::Load { (1, 2) } else { (0, 1) };
                v[b] = 0;
                v[o] = some_va(t, sp);
                f.encode(&v)
            }
            3 => {
                // registers of the supervisor
                let f = pick_form(t, |f| f.ops.contains(&K::W));
                let mut v = isa::gen_vals(f, t);
                let i = f.ops.iter().position(|k| *k == K::W).unwrap();
                let j = f.ops.iter().rposition(|k| *k == K::W).unwrap();
                v[*t.pick(&[i, j])] = 14 + t.below(2) as u16;
                f.encode(&v)
            }
            9 => {
                let f = pick_form(t, |f| matches!(f.sem, Sem::J(_) | Sem::Call | Sem::Jmp));
                f.encode(&[some_va(t, sp)])
            }
            _ => {
                let f = pick_form(t, |f| matches!(f.sem, Sem::Alu(_) | Sem::Mul | Sem::Ldi | Sem::Push | Sem::Pop | Sem::Nop | Sem::Ctf));
                let mut v = isa::gen_vals(f, t);
                for (k, x) in f.ops.iter().zip(v.iter_mut()) {
                    if *k == K::W && *x >= 14 {
                        *x -= 6;
                    }
                }
                f.encode(&v)
            }
        })
        .collect()
}

fn c07(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut c = regs(t);
    let mut m = Mem::new(t.raw() | 1);
    let sp = gen_space(t, &mut c, &mut m, 4);
    let tb = table_bytes(&c, &sp);
    c.f.user = true;
    c.f.trap = t.chance(1, 3);
    c.rh = if t.bool() { t.b16() } else { 0 };
    c.pc = some_va(t, &sp) & !0x7f | t.below(40) as u16;
    // some pages nobody in user mode can look into
    let mut phys: Vec<u32> = sp.pages.iter().map(|p| p.1).collect();
    phys.sort();
    phys.dedup();
    for _ in 0..t.size(0, 4) {
        if phys.is_empty() {
            break;
        }
        let p = *t.pick(&phys);
        let how = t.below(3);
        for tab in &sp.tables {
            for i in 0..32 {
                let a = tab + 4 * i;
                let e = m.peek32(a);
                if e >> 15 << 7 == p {
                    m.poke(a, match how {
                        0 => e & !0x20,
                        1 => e & !0x0a,
                        _ => e & !1,
                    } as u8);
                }
            }
        }
    }
    // where the code is, it can run
    if let Some((a1, _, a2, _)) = entries(&c, &m, c.pc) {
        for a in [a1, a2] {
            m.poke(a, m.peek(a) | 0x29);
        }
    }
    c.rs = some_va(t, &sp);
    let n = t.size(1, 20);
    let mut va = c.pc;
    for code in gen_user_code(t, &sp, n) {
        place_virtual(&c, &mut [&mut m], va, &code, &tb);
        va = va.wrapping_add(code.len() as u16);
    }
    // round again
    place_virtual(&c, &mut [&mut m], va, &FORMS.iter().find(|f| f.sem == Sem::Jmp).unwrap().encode(&[c.pc]), &tb);
    // what user mode has access to
    let ok = |c: &Cpu, m: &Mem, va: u16, bit: u32| match entries(c, m, va) {
        Some((_, e1, _, e2)) => e2 & 1 != 0 && e1 & e2 & (0x20 | bit) == 0x20 | bit,
        None => false,
    };
    let mut readable = HashSet::new();
    let mut writable = HashSet::new();
    for vp in 0..512u16 {
        let va = vp << 7;
        let Some(p) = phys_of(&c, &m, va) else { continue };
        if ok(&c, &m, va, 2) || ok(&c, &m, va, 8) {
            readable.insert(p >> 7);
        }
        if ok(&c, &m, va, 4) {
            writable.insert(p >> 7);
        }
    }
    // user code that can write its own tables is not confined by them
    let self_mapped = tb.iter().any(|a| writable.contains(&(a >> 7)));
    // a second world, different where user mode cannot look
    let mut m2 = m.clone();
    let mut hidden = vec![];
    for (_, p, _) in &sp.pages {
        if !readable.contains(&(p >> 7)) && !hidden.contains(p) {
            hidden.push(*p);
        }
    }
    for p in &hidden {
        for a in *p..*p + 128 {
            if !tb.contains(&a) {
                m2.poke(a, m.peek(a) ^ 0x5a);
            }
        }
    }
    let start = m.clone();
    let mut a = Rig::new(c, m.clone(), m);
    let mut cpu2 = c.to_impl();
    let mut steps = 0;
    let mut end = None;
    let mut hist = vec![];
    for _ in 0..60 {
        let pre = a.state();
        let mut mine = vec![];
        let b = guarded(|| a.cpu.execute_instruction(&mut a.mem))?.map_err(tm);
        let b2 = guarded(|| cpu2.execute_instruction(&mut m2))?.map_err(tm);
        let post = a.state();
        let post2 = Cpu::of(&cpu2);
        steps += 1;
        let left = b.is_err() || !post.f.user;
        for w in std::mem::take(&mut a.mem.writes) {
            mine.push((w.0, w.1, w.2));
        }
        hist.push(format!("{:04x}", pre.pc));
        let at = || format!("step {steps} at {:04x} ({} pages hidden, path {})", pre.pc, hidden.len(), hist.join(" "));
        ensure!(post.rp == pre.rp && post.rh == pre.rh && post.f.vm == pre.f.vm, "{}: user mode changed rp {:04x}->{:04x} rh {:04x}->{:04x} vm {}->{}", at(), pre.rp, post.rp, pre.rh, post.rh, pre.f.vm, post.f.vm);
        if !left {
            ensure!(post.f.user, "{}: left user mode", at());
        } else if b.is_ok() {
            // only by trapping into the handler
            ensure!(pre.rh != 0 && post.pc == pre.rh && post.f.trap, "{}: left user mode without trapping", at());
        }
        // the same execution whatever the hidden memory holds
        ensure!(b == b2, "{}: {b:?} or {b2:?} depending on inaccessible memory", at());
        if b.is_err() && pre.rh != 0 {
            // saving the state faulted
            break;
        }
        if left && b.is_ok() {
            // the state was pushed with supervisor rights; the rest of the story is the handler's
            end = Some(post.r[0] as u8);
            break;
        }
        ensure!(post == post2, "{}: execution depends on inaccessible memory:{}", at(), post.diff(&post2));
        if self_mapped && mine.iter().any(|w| tb.contains(&w.0) && w.2 != w.1 | 0x10) {
            break;
        }
        for (ad, old, new) in &mine {
            if old == new {
                continue;
            }
            let dirty = tb.contains(ad) && *new == old | 0x10;
            ensure!(writable.contains(&(ad >> 7)) || dirty, "{}: user mode changed physical memory at {ad:06x} from {old:02x} to {new:02x}, not mapped user-writable", at());
        }
        if let Err(m) = b {
            end = Some(m);
            break;
        }
        m2.writes.clear();
    }
    // the instruction that ended it
    if let Some(mode) = end {
        ctx.label(tm_name(mode));
    }
    let _ = start;
    ctx.label(format!("steps {}", ["<2", "2-9", "10+"][(steps >= 2) as usize + (steps >= 10) as usize]));
    if steps >= 2 && !hidden.is_empty() {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("{} steps from {:04x}, {} hidden pages, ended with {:?}; path {}", steps, c.pc, hidden.len(), end.map(tm_name), hist.join(" ")));
    Ok(())
}

/// every privileged instruction and register operand traps in user mode
fn c07_enum(ctx: &mut Ctx, shard: usize, shards: usize) -> R {
    let mut n = 0;
    for (fi, f) in FORMS.iter().enumerate() {
        if fi % shards != shard {
            continue;
        }
        let privileged = matches!(f.sem, Sem::Usr | Sem::Vmon | Sem::Vmoff | Sem::Pstore | Sem::Pload);
        let mut combos: Vec<Vec<u16>> = vec![];
        if privileged {
            combos.push(vec![1, 2, 3][..f.ops.len()].to_vec());
            combos.push(vec![0, 0, 0][..f.ops.len()].to_vec());
        }
        for (i, k) in f.ops.iter().enumerate() {
            if *k == K::W {
                for p in [14, 15] {
                    for other in [0u16, 1, 5, 11, 14, 15] {
                        let mut v = vec![other; f.ops.len()];
                        v[i] = p;
                        combos.push(v);
                    }
                }
            }
        }
        for v in combos {
            for fl in 0..4u8 {
                let mut c = Cpu { r: [0x1111, 0x2222, 0x3333, 0x4444, 0x5555, 0x6666, 0x7777, 0x8888, 0x9999, 0xaaaa], rs: 0x6000, rl: 0x6100, rf: 0x6200, rp: 0x6300, rh: 0, pc: 0x1000, f: Fl::default() };
                c.f.user = true;
                c.f.trap = fl & 1 != 0;
                c.f.carry = fl & 2 != 0;
                let code = f.encode(&v);
                if isa::decode(&code).is_none() {
                    continue;
                }
                let (_, i) = single(c, &code, 9)?;
                n += 1;
                ensure!(matches!(i, Info::Stopped(_)), "{} in user mode: {i:?}", instr_str(&code));
            }
        }
    }
    ctx.enumerated(n, n);
    Ok(())
}

pub static C07: Prop = Prop {
    id: "C07",
    rule: "random user-mode programs (aimed at privileged instructions, protected registers, inaccessible pages and page ends) over random page tables, run in two worlds that differ only in memory user mode cannot read or execute, with privileged state, mode and every physical write checked at each step; plus every privileged form and every operand position naming rp or rh; non-trivial: at least two steps with hidden pages",
    assumptions: &["the page tables are not writable by the user program (otherwise it confines itself)"],
    tape: 900,
    quick: 150_000,
    thorough: 3_000_000,
    case: c07,
    enumerate: Some(c07_enum),
};

// ---------------------------------------------------------------- C08

/// instructions a handler may contain that leave the frame alone
fn gen_body(t: &mut Tape, n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut depth = vec![];
    for _ in 0..n {
        match t.below(6) {
            0 => {
                let w = t.bool();
                let f = FORMS.iter().find(|f| f.sem == Sem::Push && f.wide == w).unwrap();
                out.extend(f.encode(&[t.below(16) as u16]));
                depth.push(w);
            }
            1 if !depth.is_empty() => {
                let w = depth.pop().unwrap();
                let f = FORMS.iter().find(|f| f.sem == Sem::Pop && f.wide == w).unwrap();
                let r = t.below(11) as u16;
                out.extend(f.encode(&[r]));
            }
            2 => {
                let f = pick_form(t, |f| f.sem == Sem::Ldi);
                let mut v = isa::gen_vals(f, t);
                if f.wide && matches!(v[0], 11 | 14 | 15) {
                    v[0] = 12;
                }
                out.extend(f.encode(&v));
            }
            3 => out.extend([0x20]),
            _ => {
                let f = pick_form(t, |f| is_alu(f) && f.sem != Sem::Div);
                let mut v = isa::gen_vals(f, t);
                if f.wide {
                    let dests = if f.sem == Sem::Mul { 2 } else { 1 };
                    for x in v.iter_mut().take(dests) {
                        if matches!(*x, 11 | 14 | 15) {
                            *x = 12;
                        }
                    }
                }
                out.extend(f.encode(&v));
            }
        }
    }
    while let Some(w) = depth.pop() {
        let f = FORMS.iter().find(|f| f.sem == Sem::Pop && f.wide == w).unwrap();
        out.extend(f.encode(&[0]));
    }
    out
}

fn trapping(t: &mut Tape) -> Vec<u8> {
    match t.below(8) {
        0 => vec![0x0c],
        1 => vec![0x0a],
        2 => vec![*t.pick(&[0u8, 1, 0x55, 0xff, 0x3b, 0x15])],
        3 => FORMS.iter().find(|f| f.sem == Sem::Div && f.wide).unwrap().encode(&[1, 2, 3, 0]),
        4 => {
            let f = pick_form(t, |f| f.has_padding() && f.op != 0x40);
            let mut b = f.encode(&isa::gen_vals(f, t));
            let k = 1 + f.regs() / 2;
            b[k] |= 1 + t.below(15) as u8;
            b
        }
        5 => vec![0x0d],
        6 => {
            let f = pick_form(t, |f| matches!(f.sem, Sem::Usr | Sem::Vmon | Sem::Vmoff));
            f.encode(&[])
        }
        _ => {
            // access to somewhere
            let f = pick_form(t, |f| matches!(f.sem, Sem::Load | Sem::Store | Sem::Push | Sem::Pop | Sem::Jmp));
            f.encode(&isa::gen_vals(f, t))
        }
    }
}

fn c08(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut c = regs(t);
    let mut m = Mem::new(t.raw() | 1);
    let vm = t.bool();
    let mut tb = HashSet::new();
    let (code_at, hand_at, sp_at);
    if vm {
        let sp = gen_space(t, &mut c, &mut m, 12);
        tb = table_bytes(&c, &sp);
        code_at = some_va(t, &sp);
        hand_at = some_va(t, &sp);
        sp_at = some_va(t, &sp);
    } else {
        code_at = some_pc(t);
        hand_at = t.u16();
        sp_at = if t.chance(1, 4) { t.below(40) as u16 } else { t.u16() };
    }
    c.pc = code_at;
    c.rh = if t.chance(1, 12) { 0 } else { hand_at };
    c.rs = sp_at;
    c.f.user = t.bool();
    c.f.trap = t.chance(1, 5);
    c.f.reserved = t.chance(1, 8);
    // handler: body, perhaps a nested trap with the same handler being replaced first, then reth
    let mut hand = vec![];
    let n = t.size(0, 6);
    hand.extend(gen_body(t, n));
    let nested = t.chance(1, 4);
    let hand2_at = hand_at.wrapping_add(0x300);
    if nested {
        hand.extend(FORMS.iter().find(|f| f.sem == Sem::Ldi && f.wide).unwrap().encode(&[15, hand2_at]));
        hand.push(0x0c);
        let n = t.size(0, 3);
        hand.extend(gen_body(t, n));
        if t.bool() {
            hand.push(0x0b);
            // the trap flag is clear now: reth traps
        }
        if t.chance(1, 3) {
            hand.extend(trapping(t));
        }
    }
    hand.push(0x0d);
    let hand2: Vec<u8> = {
        let n = t.size(0, 3);
        let mut b = gen_body(t, n);
        b.push(0x0d);
        b
    };
    let mut code = vec![];
    for _ in 0..t.size(1, 5) {
        if t.bool() {
            code.extend(trapping(t));
        } else {
            code.extend(gen_body(t, 2));
        }
    }
    let put = |m: &mut Mem, va: u16, b: &[u8]| {
        place_virtual(&c, &mut [m], va, b, &tb);
    };
    put(&mut m, hand2_at, &hand2);
    put(&mut m, hand_at, &hand);
    put(&mut m, code_at, &code);
    let mut rig = Rig::new(c, m.clone(), m);
    let (mut entered, mut returned) = (0, 0);
    let mut story = vec![];
    for _ in 0..60 {
        let pc = rig.cpu.program_counter;
        match rig.step().map_err(|e| format!("{e}; {}", story.join(" ")))? {
            Info::Entered(m) => {
                entered += 1;
                ctx.label(format!("handler entered: {}", tm_name(m)));
                story.push(format!("{pc:04x}:{}", tm_name(m)));
                if entered > 6 {
                    break;
                }
            }
            Info::Returned => {
                returned += 1;
                story.push(format!("{pc:04x}:returned"));
            }
            Info::Stopped(m) => {
                ctx.label("stopped without handler");
                story.push(format!("{pc:04x}:stopped {}", tm_name(m)));
                break;
            }
            Info::PushFault(_) => {
                ctx.label("saving faulted");
                story.push(format!("{pc:04x}:saving faulted"));
                break;
            }
            Info::Free => story.push(format!("{pc:04x}:foreign frame")),
            Info::Done => (),
        }
    }
    if returned > 0 {
        ctx.nontrivial();
        ctx.label(if vm { "returned in virtual mode" } else { "returned in direct mode" });
    }
    ctx.sample(|| format!("code {} at {code_at:04x}, handler {} at {hand_at:04x}: {}", hex(&code), hex(&hand), story.join(" ")));
    Ok(())
}

pub static C08: Prop = Prop {
    id: "C08",
    rule: "random states (direct and virtual, user and supervisor), programs of trapping instructions and handlers of frame-preserving instructions with nested traps, checked at entry (mode, registers, writes confined to the saved frame) and at return (complete state restored) without assuming a frame layout; non-trivial: at least one return from a handler with an intact frame",
    assumptions: &["the layout and size (up to 256 bytes) of the saved frame are the implementation's choice; the reserved flag is not preserved state"],
    tape: 700,
    quick: 300_000,
    thorough: 6_000_000,
    case: c08,
    enumerate: None,
};

// ---------------------------------------------------------------- C09

fn c09_run(c: Cpu, rom: &[u8], ram: &[(u32, u8)], steps: u32) -> R<(Vec<Option<u8>>, Cpu, Vec<(bool, u8, u8)>)> {
    let mut spy = Spy::new(Some(rom));
    for (a, b) in ram {
        spy.inner.write(*a, *b);
    }
    spy.io.0.borrow_mut().log.clear();
    let io = spy.io.clone();
    let mut mach = Machine::new(spy, c.to_impl());
    let mut log = vec![];
    for k in 0..steps {
        let r = guarded(|| mach.execute_once()).map_err(|e| format!("{e} in step {k}, pc {:04x} before", mach.cpu.program_counter))?;
        log.push(r.err().map(tm));
        if r.is_err() {
            // traps without a handler: carry on behind it
            mach.cpu.flags.user_mode = c.f.user;
            if log.iter().flatten().count() > 20 {
                break;
            }
        }
    }
    let end = Cpu::of(&mach.cpu);
    let l = io.0.borrow().log.clone();
    Ok((log, end, l))
}

fn c09(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut c = regs(t);
    c.pc = if t.chance(1, 3) { some_pc(t) } else { 0x80 + t.below(0x40) as u16 };
    c.rh = match t.below(4) {
        0 => t.b16(),
        1 => 0x90,
        _ => 0,
    };
    c.f.vm = t.chance(1, 3);
    c.f.user = t.chance(1, 3);
    c.f.trap = t.bool();
    c.f.reserved = t.bool();
    let extreme = [0u16, 1, 2, 3, 0xffff, 0xfffe, 0xfffd, 0x7fff, 0x8000];
    if t.bool() {
        c.rs = *t.pick(&extreme);
    }
    let mut rom = vec![];
    let style = t.below(3);
    while rom.len() < 220 && t.left() > 30 {
        match style {
            0 => rom.push(t.u8()),
            _ => {
                let f = pick_form(t, |_| true);
                let mut v = isa::gen_vals(f, t);
                if style == 2 {
                    for (k, x) in f.ops.iter().zip(v.iter_mut()) {
                        if *k == K::Iw && t.chance(1, 3) {
                            *x = *t.pick(&extreme);
                        }
                    }
                }
                rom.extend(f.encode(&v));
            }
        }
    }
    let mut ram: Vec<(u32, u8)> = vec![];
    if t.bool() {
        // code at the very end of the address space as well
        for a in 0xffe0u32..0x1_0000 {
            let b = rom.get((a as usize * 7) % rom.len().max(1)).copied().unwrap_or(0x20);
            ram.push((a, b));
        }
    }
    if c.f.vm {
        let mut m = Mem::new(0);
        // tables anywhere, onto themselves too
        let sp = gen_space(t, &mut c, &mut m, 6);
        if t.chance(1, 4) {
            // identity of the table pages
            let tab = sp.tables[0];
            m.poke32(tab, tab << 8 | 0x2f);
        }
        c.pc = some_va(t, &sp);
        let mut va = c.pc;
        for b in &rom {
            if let Some(p) = phys_of(&c, &m, va) {
                ram.push((p, *b));
            }
            va = va.wrapping_add(1);
        }
        ram.extend(m.bytes.iter().map(|(a, b)| (*a, *b)));
        ram.sort_by_key(|x| x.0);
    }
    let steps = 200;
    let a = c09_run(c, &rom, &ram, steps).map_err(|e| format!("{e}; start {c:x?}, code {}", hex(&rom[..rom.len().min(60)])))?;
    let b = c09_run(c, &rom, &ram, steps)?;
    ensure!(a == b, "the same start state led to different executions");
    if a.0.len() >= 3 {
        ctx.nontrivial();
    }
    ctx.label(format!("{} steps", if a.0.len() < 3 { "<3" } else if a.0.len() < 20 { "3-19" } else { "20+" }));
    ctx.sample(|| format!("{} steps from {:x?} with code {}: end {:x?}", a.0.len(), c, hex(&rom[..rom.len().min(40)]), a.1));
    Ok(())
}

pub static C09: Prop = Prop {
    id: "C09",
    rule: "random bytes and random instructions executed for up to 200 steps from extreme states on the real memory with ports, with arithmetic-overflow checks compiled in, twice each; non-trivial: at least three steps",
    assumptions: &["ports always deliver a byte", "arithmetic overflow counts as a crash (debug builds abort there)"],
    tape: 700,
    quick: 200_000,
    thorough: 4_000_000,
    case: c09,
    enumerate: None,
};

// ---------------------------------------------------------------- C10

fn c10_program(t: &mut Tape, base: u16, n: usize, data: &[u16], far: &[u16]) -> Vec<u8> {
    // two passes: choose, then resolve jump targets to instruction starts
    enum I {
        Plain(Vec<u8>),
        Jump(&'static Form, usize),
        Far(&'static Form, u16),
    }
    let mut is = vec![];
    for _ in 0..n {
        let i = match t.below(16) {
            0 | 1 => {
                let f = pick_form(t, |f| matches!(f.sem, Sem::J(_)));
                I::Jump(f, t.below(n as u32) as usize)
            }
            2 => {
                let f = pick_form(t, |f| matches!(f.sem, Sem::Jmp | Sem::Call));
                I::Jump(f, t.below(n as u32) as usize)
            }
            3 => {
                let f = pick_form(t, |f| matches!(f.sem, Sem::Ret));
                I::Plain(f.encode(&[t.below(5) as u16]))
            }
            4 if !far.is_empty() => {
                let f = pick_form(t, |f| matches!(f.sem, Sem::Jmp | Sem::Call | Sem::J(0)));
                I::Far(f, *t.pick(far))
            }
            5 | 6 => {
                let f = pick_form(t, |f| matches!(f.sem, Sem::Load | Sem::Store) && f.imm().is_some());
                let mut v = isa::gen_vals(f, t);
                let (b, o) = if f.sem == Sem::Load { (1, 2) } else { (0, 1) };
                v[b] = 0;
                v[o] = t.pick(data).wrapping_add(t.below(6) as u16);
                if f.sem == Sem::Load && f.wide && v[0] >= 11 {
                    v[0] -= 10;
                }
                I::Plain(f.encode(&v))
            }
            7 => {
                let f = pick_form(t, |f| matches!(f.sem, Sem::Pstore | Sem::Pload | Sem::Ctf | Sem::Syscall | Sem::Reth | Sem::Usr | Sem::Vmon | Sem::Vmoff));
                let v = isa::gen_vals(f, t);
                if matches!(f.sem, Sem::Vmon | Sem::Vmoff | Sem::Usr) && !t.chance(1, 4) {
                    I::Plain(vec![0x20])
                } else {
                    I::Plain(f.encode(&v))
                }
            }
            _ => {
                let f = pick_form(t, |f| matches!(f.sem, Sem::Alu(_) | Sem::Mul | Sem::Div | Sem::Push | Sem::Pop | Sem::Ldi | Sem::Nop | Sem::Load | Sem::Store));
                let mut v = isa::gen_vals(f, t);
                // mostly leave the special registers alone
                if !t.chance(1, 10) {
                    for (k, x) in f.ops.iter().zip(v.iter_mut()) {
                        if *k == K::W && *x >= 11 {
                            *x -= 10;
                        }
                    }
                }
                I::Plain(f.encode(&v))
            }
        };
        is.push(i);
    }
    let mut at = vec![];
    let mut pos = base;
    for i in &is {
        at.push(pos);
        pos = pos.wrapping_add(match i {
            I::Plain(b) => b.len(),
            I::Jump(f, _) | I::Far(f, _) => f.len(),
        } as u16);
    }
    let mut out = vec![];
    for i in is {
        match i {
            I::Plain(b) => out.extend(b),
            I::Jump(f, k) => out.extend(f.encode(&[at[k]])),
            I::Far(f, a) => out.extend(f.encode(&[a])),
        }
    }
    out
}

fn c10(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut c = regs(t);
    let mut m = Mem::new(0);
    m.machine = true;
    let rom_len = t.size(0, 200);
    let mode = t.below(3);
    let rom;
    let mut other: Vec<(u32, u8)> = vec![];
    if mode == 0 {
        // from ROM, as a raw image
        let n = t.size(1, 40);
        c.pc = 0x80;
        rom = c10_program(t, 0x80, n, &[0x9000, 0xfffe, 0x7ffe, 0x80, 0, 0x60, 0x8100], &[0x8800]);
        let far = c10_program(t, 0x8800, 8, &[0x9000, 0x8800], &[0x80]);
        other.extend(far.iter().enumerate().map(|(i, b)| (0x8800 + i as u32, *b)));
        c.rs = 0xa000;
    } else {
        rom = (0..rom_len).map(|i| (i * 37) as u8).collect();
        if mode == 1 {
            // code in RAM, which may modify itself
            let at = 0x9000 + t.below(0x100) as u16;
            let n = t.size(1, 40);
            c.pc = at;
            let code = c10_program(t, at, n, &[at, at + 20, 0xb000, 0, 0x40, 0x7fff], &[0x9800]);
            other.extend(code.iter().enumerate().map(|(i, b)| (at as u32 + i as u32, *b)));
            let far = c10_program(t, 0x9800, 8, &[0x9800, 0xb000], &[at]);
            other.extend(far.iter().enumerate().map(|(i, b)| (0x9800 + i as u32, *b)));
            c.rs = 0xc000;
        } else {
            let mut pm = Mem::new(0);
            let sp = gen_space(t, &mut c, &mut pm, 20);
            let tb = table_bytes(&c, &sp);
            c.pc = some_va(t, &sp) & !0x7f;
            c.rs = some_va(t, &sp);
            let data: Vec<u16> = (0..4).map(|_| some_va(t, &sp)).collect();
            let n = t.size(1, 40);
            let code = c10_program(t, c.pc, n, &data, &data);
            place_virtual(&c, &mut [&mut pm], c.pc, &code, &tb);
            if t.bool() {
                let h = some_va(t, &sp) & !0x7f;
                c.rh = h;
                let n = t.size(1, 8);
                let mut hc = c10_program(t, h, n, &data, &[]);
                hc.push(0x0d);
                place_virtual(&c, &mut [&mut pm], h, &hc, &tb);
            }
            other = pm.bytes.into_iter().collect();
            other.sort();
            c.f.user = t.bool();
        }
    }
    if mode != 2 && t.bool() {
        c.rh = 0xd000;
        let n = t.size(1, 10);
        let mut h = c10_program(t, 0xd000, n, &[0xb000, 0], &[]);
        h.push(0x0d);
        other.extend(h.iter().enumerate().map(|(i, b)| (0xd000 + i as u32, *b)));
    }
    let mut spy = Spy::new(Some(&rom));
    for (i, b) in rom.iter().enumerate() {
        m.poke(0x80 + i as u32, *b);
    }
    for (a, b) in other {
        if m.is_ram(a) {
            m.poke(a, b);
            spy.inner.write(a, b);
        }
    }
    let mut rig = Rig::new(c, spy, m);
    let mut traps = 0;
    let mut info = HashMap::new();
    let mut io = 0;
    let limit = if t.chance(1, 100) { 5000 } else if ctx.tier_thorough { 600 } else { 250 };
    for _ in 0..limit {
        let before = rig.model.inputs;
        let i = rig.step()?;
        // the model and the ports see the same number of inputs even across traps
        let real = rig.mem.io.0.borrow().inputs;
        io += (real != before) as u32;
        rig.model.inputs = real;
        *info.entry(std::mem::discriminant(&i)).or_insert(0) += 1;
        match i {
            Info::Stopped(_) => {
                traps += 1;
                // as the emulated kernel would: on in the same mode, behind the instruction
                rig.cpu.flags.trap = false;
                if traps > 20 {
                    break;
                }
            }
            Info::Free | Info::PushFault(_) => break,
            _ => (),
        }
    }
    if rig.steps >= 20 {
        ctx.nontrivial();
    }
    ctx.label(["rom", "ram", "virtual"][mode as usize]);
    ctx.label(format!("steps {}", match rig.steps { 0..=19 => "<20", 20..=99 => "20-99", 100..=999 => "100+", _ => "1000+" }));
    if io > 0 {
        ctx.label("port input");
    }
    ctx.sample(|| format!("{} steps from {:x?}, ended at {:x?}", rig.steps, c, rig.state()));
    Ok(())
}

pub static C10: Prop = Prop {
    id: "C10",
    rule: "generated programs (loops, calls, self-modification, physical and port accesses, traps and handlers) in ROM, in RAM and behind page tables, run on the real memory in lock-step with the reference interpreter: registers, flags, every written byte and the port history after every step; non-trivial: at least 20 steps",
    assumptions: &["after a trap without handler the run continues behind the trapping instruction"],
    tape: 1200,
    quick: 150_000,
    thorough: 3_000_000,
    case: c10,
    enumerate: None,
};

// ---------------------------------------------------------------- M01

fn m01(t: &mut Tape, ctx: &mut Ctx) -> R {
    let rom: Option<Vec<u8>> = if t.chance(3, 4) {
        let n = match t.below(6) {
            0 => 0,
            1 => ROM_SIZE,
            2 => ROM_SIZE - 1,
            _ => t.size(1, 400),
        };
        let s = t.raw();
        Some((0..n).map(|i| (i as u32).wrapping_mul(s | 1).rotate_left(7) as u8).collect())
    } else {
        None
    };
    let io = TestIo::default();
    let mut mem = LazyMain::new(io.clone());
    if let Some(r) = &rom {
        mem = guarded(|| mem.with_rom(r))?;
    }
    let mut model: HashMap<u32, u8> = HashMap::new();
    let mut want_io: Vec<(bool, u8, u8)> = vec![];
    let mut copies = vec![];
    let anchors = [0u32, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_ffff, 0xff_ffff, 0xff_0000, 0xfe_ffff, 0x80_0000, 0x80_8000, 0x01_8000, 0x01_0080];
    let mut known: Vec<u32> = vec![];
    let n = t.size(1, 120);
    let mut hist = vec![];
    let mut reads_back = 0;
    for _ in 0..n {
        let a = match t.below(5) {
            0 => t.below(0x80),
            1 => (*t.pick(&anchors) + t.below(5)).saturating_sub(2) & 0xff_ffff,
            2 if !known.is_empty() => *t.pick(&known),
            // same offset in another cell
            3 if !known.is_empty() => (*t.pick(&known) ^ t.below(256) << 16) & 0xff_ffff,
            _ => t.raw() & 0xff_ffff,
        };
        if t.chance(1, 40) && copies.len() < 2 {
            copies.push((mem.clone(), model.clone()));
        }
        if t.bool() {
            let b = t.u8();
            mem.write(a, b);
            hist.push(format!("w {a:06x} {b:02x}"));
            if a < 0x80 {
                want_io.push((true, a as u8, b));
            } else if a >= 0x8000 {
                model.insert(a, b);
                known.push(a);
            }
        } else {
            let got = guarded(|| mem.read(a))?;
            hist.push(format!("r {a:06x}"));
            let want = if a < 0x80 {
                let b = input_byte(want_io.iter().filter(|x| !x.0).count() as u32);
                want_io.push((false, a as u8, b));
                b
            } else if a < 0x8000 {
                rom.as_ref().and_then(|r| r.get(a as usize - 0x80)).copied().unwrap_or(0)
            } else {
                reads_back += model.contains_key(&a) as u32;
                model.get(&a).copied().unwrap_or(0)
            };
            ensure!(got == want, "reading {a:06x} gives {got:02x}, expected {want:02x}, after {}", hist.join(", "));
        }
        ensure!(io.0.borrow().log == want_io, "port history {:x?}, expected {:x?}, after {}", io.0.borrow().log, want_io, hist.join(", "));
    }
    // everything once more, in the original and in the copies
    copies.push((mem, model.clone()));
    let touched: Vec<u32> = model.keys().copied().collect();
    for (mut cm, mm) in copies {
        for a in &touched {
            let got = cm.read(*a);
            let want = mm.get(a).copied().unwrap_or(0);
            ensure!(got == want, "at the end {a:06x} is {got:02x}, expected {want:02x}, after {}", hist.join(", "));
        }
    }
    if reads_back > 0 && touched.len() > 3 {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("rom {:?}: {}", rom.as_ref().map(|r| r.len()), hist.join(", ")));
    Ok(())
}

pub static M01: Prop = Prop {
    id: "M01",
    rule: "random histories of up to 120 physical reads and writes (region boundaries, equal offsets in different 64 KiB cells, ports) with random ROM images and copies taken on the way, against a map; non-trivial: a byte written earlier was read back and more than three addresses were written",
    assumptions: &["reading a port delivers what the I/O object returns"],
    tape: 420,
    quick: 300_000,
    thorough: 6_000_000,
    case: m01,
    enumerate: None,
};
