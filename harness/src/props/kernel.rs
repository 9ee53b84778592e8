//! Loader, emulated kernel and runner: M02-M04.
use crate::cli;
use crate::engine::*;
use crate::interp::{self, *};
use crate::obj::*;
use crate::rig::*;
use crate::user::*;
use telda2::blf4::Blf4;
use telda2::machine::Machine;
use telda2::mem::MainMemory as _;

// ------------------------------------------------------------------ M02

fn gen_loadable(t: &mut Tape) -> Obj {
    let mut o = Obj::default();
    if t.bool() {
        o.flags = Some(t.bool());
    }
    let sizes = [0u16, 1, 0x7f, 0x80, 0x81, 0x100, 0x180, 0x400, 0xfff, 0x1000, 0x1001, 0x7fff, 0xff80, 0xffff];
    if t.bool() {
        o.stack = Some(if t.bool() { *t.pick(&sizes) } else { t.u16() >> t.below(12) });
    }
    if t.bool() {
        o.heap = Some(if t.bool() { *t.pick(&sizes) } else { t.u16() >> t.below(12) });
    }
    let mut kinds: Vec<u8> = KINDS.into_iter().filter(|_| t.chance(2, 3)).collect();
    t.shuffle(&mut kinds);
    let lens: Vec<usize> = kinds
        .iter()
        .map(|_| match t.below(10) {
            0 => 0,
            1 => 1,
            2 => *t.pick(&[0x7f, 0x80, 0x81, 0xff, 0x100, 0x101]),
            3 => t.size(0, 0x2800),
            4 => *t.pick(&[0x1000, 0x1001, 0xfff]),
            _ => t.size(1, 0x200),
        })
        .collect();
    let at = place(t, &lens, 0, 0x10000);
    for (i, k) in kinds.iter().enumerate() {
        let mut off = at[i];
        if lens[i] == 0 && !(*k == HEAP && o.heap != Some(0)) {
            // which page an empty segment within a page belongs to is not settled
            off &= !0x7f;
        }
        let s = t.u8();
        let step = t.u8() | 1;
        let b = (0..lens[i]).map(|j| s.wrapping_add((j as u8).wrapping_mul(step)).wrapping_add((j >> 7) as u8)).collect();
        o.segs.insert(*k, (off, b));
    }
    if t.chance(7, 8) {
        o.entry = Some((TEXT, t.b16()));
    }
    for _ in 0..t.size(0, 2) {
        o.syms.push(Sym { name: "s".into(), global: t.bool(), seg: TEXT, loc: t.u16() });
    }
    o
}

struct View<'a>(&'a mut telda2::mem::LazyMain<TestIo>);
impl RefMem for View<'_> {
    fn rd(&mut self, a: u32) -> u8 {
        if a < 0x80 {
            return 0;
        }
        self.0.read(a)
    }
    fn wr(&mut self, _: u32, _: u8) {}
}

/// what pages begin and end with
fn m02_align(ctx: &mut Ctx, shard: usize, shards: usize) -> R {
    let mut evals = 0;
    for k in (0..16).filter(|k| k % shards == shard) {
        let n = 1u32 << k;
        for a in 0..0x10000u32 {
            let up = a.next_multiple_of(n);
            let (start, end) = guarded(|| (telda2::align_start(a as u16, n as u16), if up < 0x10000 { telda2::align_end(a as u16, n as u16) } else { 0 }))
                .map_err(|e| format!("aligning {a:04x} to {n}: {e}"))?;
            ensure_eq!(start as u32, a & !(n - 1), "start of {a:04x} aligned to {n}");
            ensure_eq!(end as u32, if up < 0x10000 { up } else { 0 }, "end of {a:04x} aligned to {n}");
            evals += 1;
        }
    }
    ctx.enumerated(evals, 0);
    Ok(())
}

fn m02(t: &mut Tape, ctx: &mut Ctx) -> R {
    let o = gen_loadable(t);
    let mut spy = Spy::new(None);
    let io = spy.io.clone();
    spy.writes.clear();
    let mut mach = Machine::new(spy, Blf4::new());
    let pc0 = mach.cpu.program_counter;
    guarded(|| mach.load_user_binary(&o.to_real())).map_err(|e| format!("{e}; loading {}", o.brief()))?;
    check_image(&o, &mut mach, pc0).map_err(|e| format!("{e}; loading {}", o.brief()))?;
    ensure!(io.0.borrow().log.is_empty(), "loading used the ports");
    if o.segs.len() >= 2 {
        ctx.nontrivial();
    }
    let mut pages: Vec<u16> = vec![];
    for (off, b) in o.segs.values().filter(|s| !s.1.is_empty()) {
        pages.extend(*off / 128..=((*off as usize + b.len() - 1) / 128) as u16);
    }
    let n = pages.len();
    pages.sort();
    pages.dedup();
    if pages.len() < n {
        ctx.label("segments share a page");
    }
    if o.segs.contains_key(&HEAP) {
        ctx.label("heap");
    }
    if o.segs.values().any(|(o, b)| *o as usize + b.len() == 0x10000) {
        ctx.label("segment reaches the end");
    }
    ctx.sample(|| o.brief());
    Ok(())
}

fn check_image(o: &Obj, mach: &mut Machine<Spy, Blf4>, pc0: u16) -> R {
    let mut cpu = Cpu::of(&mach.cpu);
    ensure!(cpu.f.vm && cpu.f.user, "does not start in user mode with virtual memory: {:?}", cpu.f);
    ensure_eq!(cpu.pc, o.entry.map_or(pc0, |e| e.1), "start address");
    ensure_eq!(cpu.rs, 0xffff, "stack pointer");
    ensure_eq!(cpu.rf, 0xffff, "frame pointer");
    cpu.f.user = true;
    let want = expected_pages(o);
    // content of every address
    let mut bytes = vec![0u8; 0x10000];
    for (off, b) in o.segs.values() {
        bytes[*off as usize..*off as usize + b.len()].copy_from_slice(b);
    }
    let mem = &mut mach.memory.inner;
    let mut used: std::collections::HashMap<u32, u16> = Default::default();
    let mut tables = vec![cpu.rp as u32 & !0x7f];
    ensure!(cpu.rp >= 0x8000, "the page table is not in memory: {:04x}", cpu.rp);
    for pg in 0..512u16 {
        let perm = want.get(&pg).copied();
        for va in [pg * 128, pg * 128 + 127] {
            for (acc, bit, what) in [(Acc::R, 2, "readable"), (Acc::W, 4, "writable"), (Acc::X, 8, "executable")] {
                let r = interp::translate(&cpu, &mut View(mem), va, acc);
                let ok = perm.is_some_and(|p| p & bit != 0);
                match (&r, ok) {
                    (Ok(_), true) => (),
                    (Ok(_), false) if perm.is_none() => return Err(format!("page {va:04x} is mapped, but nothing in the object is there")),
                    (Ok(_), false) => return Err(format!("page {va:04x} is {what}, should not be")),
                    (Err(m), true) => return Err(format!("page {va:04x} is not {what} ({})", names(m))),
                    (Err(m), false) => {
                        ensure!(perm.is_some() || m.contains(&L1FAULT) || m.contains(&L2FAULT), "page {va:04x} is mapped, but nothing in the object is there ({})", names(m))
                    }
                }
            }
        }
        if perm.is_some() {
            let acc = if perm.unwrap() & 2 != 0 { Acc::R } else { Acc::X };
            let tr = interp::translate(&cpu, &mut View(mem), pg * 128, acc).map_err(|e| names(&e))?;
            ensure!(tr.phys >= 0x8000, "page {:04x} is at {:06x}, which is not memory", pg * 128, tr.phys);
            if let Some(other) = used.insert(tr.phys, pg) {
                return Err(format!("pages {:04x} and {:04x} share physical memory at {:06x}", other * 128, pg * 128, tr.phys));
            }
            tables.push(tr.e2 & !0x7f);
            for k in 0..128u32 {
                let va = pg as usize * 128 + k as usize;
                let b = mem.read(tr.phys + k);
                ensure!(b == bytes[va], "byte at {va:04x} is {b:02x}, expected {:02x}", bytes[va]);
            }
        }
    }
    for tb in tables {
        if let Some(pg) = used.get(&tb) {
            return Err(format!("page {:04x} overlaps the page tables at {tb:06x}", pg * 128));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M03

/// the real machine and kernel beside the reference
pub struct Kernel {
    pub mach: Machine<Spy, Blf4>,
    pub model: Mem,
    pub handler: u16,
}

pub enum Kst {
    On,
    /// ended with this trap
    End(u8),
    /// outside the domain
    Stop,
}

impl Kernel {
    pub fn new(o: &Obj, start: Option<&Cpu>) -> R<Kernel> {
        let mut mach = Machine::new(Spy::new(None), start.map_or_else(Blf4::new, |c| c.to_impl()));
        guarded(|| mach.load_user_binary(&o.to_real()))?;
        let mut model = Mem::new(0);
        model.machine = true;
        for a in mach.memory.take_writes() {
            let b = mach.memory.look(a);
            model.poke(a, b);
        }
        Ok(Kernel { mach, model, handler: 0 })
    }
    pub fn step(&mut self, ctx: &mut Ctx) -> R<Kst> {
        let pre = Cpu::of(&self.mach.cpu);
        let in0 = self.model.inputs;
        let exp = interp::step(&pre, &mut self.model);
        let mach = &mut self.mach;
        let res = guarded(|| mach.execute_once())?.map_err(tm);
        let post = Cpu::of(&self.mach.cpu);
        let real_io: Vec<(bool, u8, u8)> = self.mach.memory.take_io();
        let mut want_io: Vec<(bool, u8, u8)> = self.model.io.drain(..).collect();
        let mut partial = false;
        let st = match exp {
            Exp::Done(c) => {
                ensure!(res.is_ok(), "ended with {}, should have gone on", tm_name(res.unwrap_err()));
                ensure!(post == c, "wrong state (got/expected):{}", post.diff(&c));
                Kst::On
            }
            Exp::Reth => Kst::Stop,
            Exp::Trap { modes, pc, loose } => {
                let mut want = pre;
                if modes == [SYSCALL] && [0, 3, 4, 15].contains(&pre.w(1)) {
                    want.pc = pc[0];
                    match pre.w(1) {
                        3 => {
                            let b = input_byte(in0);
                            self.model.inputs += 1;
                            want_io.push((false, 1, b));
                            want.set_b(1, b);
                            ctx.label("read");
                        }
                        4 => {
                            want_io.push((true, 1, pre.b(3)));
                            ctx.label("write");
                        }
                        // (its text is M05's)
                        0 => ctx.label("memory map"),
                        _ => {
                            self.handler = pre.w(2);
                            ctx.label("set handler");
                        }
                    }
                    ensure!(res.is_ok(), "system call {} ended the program with {}", pre.w(1), tm_name(res.unwrap_err()));
                    ensure!(post == want, "after system call {} (got/expected):{}", pre.w(1), post.diff(&want));
                    Kst::On
                } else if modes == [SYSCALL] || modes == [HALT] || self.handler == 0 {
                    let Err(m) = res else { return Err(format!("went on, should have ended with {}", names(&modes))) };
                    ensure!(modes.contains(&m), "ended with {}, expected {}", tm_name(m), names(&modes));
                    ctx.label(format!("ended with {}", tm_name(m)));
                    ensure!(pc.contains(&post.pc), "ended at {:04x}, expected {pc:x?}", post.pc);
                    partial = true;
                    Kst::End(m)
                } else {
                    ensure!(res.is_ok(), "ended with {} although a handler is registered", tm_name(res.unwrap_err()));
                    ensure!(modes.iter().any(|m| *m as u16 == post.w(1)), "the handler got mode {:x}, expected {}", post.w(1), names(&modes));
                    want.set_w(1, post.w(1));
                    want.pc = self.handler;
                    for d in &loose.dest {
                        want.set_w(*d, post.w(*d));
                    }
                    if loose.rs {
                        want.rs = post.rs;
                    }
                    if loose.flags {
                        (want.f.zero, want.f.sign, want.f.carry, want.f.overflow) = (post.f.zero, post.f.sign, post.f.carry, post.f.overflow);
                    }
                    ensure!(post == want, "in the error handler (got/expected):{}", post.diff(&want));
                    partial = true;
                    ctx.label("error handler");
                    Kst::On
                }
            }
        };
        ensure!(real_io == want_io, "port accesses {real_io:x?}, expected {want_io:x?}");
        // memory
        let ws = std::mem::take(&mut self.model.writes);
        let mut addrs = self.mach.memory.take_writes();
        addrs.extend(ws.iter().map(|w| w.0));
        for a in addrs {
            let (b, m) = (self.mach.memory.look(a), self.model.peek(a));
            if b != m && partial && ws.iter().any(|w| w.0 == a && w.1 == b) {
                self.model.poke(a, b);
                continue;
            }
            ensure!(b == m, "physical memory at {a:06x} is {b:02x}, expected {m:02x}");
        }
        Ok(st)
    }
}

fn m03(t: &mut Tape, ctx: &mut Ctx) -> R {
    let size = t.size(4, 60);
    let maps = t.chance(1, 64);
    let u = gen_user_with(t, true, size, maps);
    let mut start = Cpu { pc: 0x80, rl: 0x80, ..Cpu::default() };
    for r in start.r.iter_mut() {
        *r = t.u16();
    }
    (start.f.zero, start.f.carry) = (t.bool(), t.bool());
    let mut k = Kernel::new(&u.obj, Some(&start))?;
    let limit = 1500;
    let mut calls = 0;
    for n in 0..limit {
        let pre = Cpu::of(&k.mach.cpu);
        match k.step(ctx).map_err(|e| format!("{e}; step {n} at {:04x} of {}", pre.pc, u.obj.brief()))? {
            Kst::On => (),
            Kst::End(_) | Kst::Stop => break,
        }
        let post = Cpu::of(&k.mach.cpu);
        if post.pc == pre.pc.wrapping_add(1) && (post.r == pre.r) {
            calls += 1;
        }
    }
    if calls > 0 || k.handler != 0 {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("{} bytes of code, handler {:04x}, ended at {:x?}", u.obj.segs.values().next().unwrap().1.len(), k.handler, Cpu::of(&k.mach.cpu)));
    Ok(())
}

// ------------------------------------------------------------------ M04

fn gen_raw(t: &mut Tape, size: usize) -> Code {
    let spec = Spec { raw: true, data: vec![(0xa000, 0x200), (0x8000, 0x40)], rodata: vec![(0x80, 0x100), (0x7f00, 0x100)], bad: vec![0x7ff0, 0xb000, 0x6000], size, faults: true, maps: false };
    gen_code(t, &spec)
}

fn m04(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let name = cli::naming(t, true)("p.to");
    let path = cli::file(&dir, &name);
    let what = t.below(12);
    if what == 11 {
        return m04_refused(t, ctx, &dir);
    }
    let raw = what >= 8;
    let size = t.size(4, 60);
    let mut args = vec![];
    let mut syms = vec![];
    // a lot of input and output
    let chatter = t.chance(1, 100);
    if chatter {
        ctx.label("a lot of output");
    }
    // or a lot of steps
    let spin = !chatter && t.chance(1, 40);
    if spin {
        ctx.label("a lot of steps");
    }
    let mut r = if raw {
        ctx.label("raw image");
        // bytes like those at the start of other files mean nothing here
        let like: &[u8] = if t.chance(1, 8) { *t.pick(&[b"#!/bin/env t\n".as_slice(), b"#!", b"#!\n", "álvur2\n".as_bytes(), "álvasavn\n".as_bytes(), b"\x7fELF"]) } else { b"" };
        let mut b = like.to_vec();
        let code = if chatter { gen_chatter(t, true) } else if spin { gen_spin(t, true) } else { gen_raw(t, size) };
        b.extend(code.encode(0x80 + like.len() as u16));
        match t.below(4) {
            0 => b.resize(0x7f80, 0xff),
            1 => {
                let n = b.len() + t.size(0, 300);
                b.resize(n, 0)
            }
            _ => (),
        }
        if b.len() > 0x7f80 {
            return Ok(());
        }
        std::fs::write(&path, &b).unwrap();
        args.push(*t.pick(&["-r", "--raw-binary"]));
        Ref::raw(&b)
    } else {
        let mut u = gen_user(t, true, size);
        if chatter || spin {
            let c = if spin { gen_spin(t, false) } else { gen_chatter(t, false) };
            let (kind, base) = u.obj.entry.unwrap();
            u.obj.segs.insert(kind, (base, c.encode(base)));
            u.code = c;
        }
        let at = u.code.places(u.base);
        // symbols for the termination point
        for i in 0..t.size(0, 8) {
            let loc = match t.below(4) {
                0 => t.u16(),
                1 => at[0],
                _ if t.chance(1, 8) => 0,
                _ => *t.pick(&at),
            };
            let name = if t.chance(1, 5) { String::new() } else { format!("sym{}", i % 6) };
            let y = Sym { name, global: t.bool(), seg: *t.pick(&[TEXT, DATA, TEXT, RODATA, HEAP, ZERO]), loc };
            // an undefined one is nowhere
            let y = if t.chance(1, 6) { Sym { seg: UNKNOWN, loc: if t.bool() { 0xfaff } else { loc }, ..y } } else { y };
            u.obj.syms.push(y);
        }
        syms = u.obj.syms.clone();
        u.obj.prefix = if t.bool() { vec![] } else { b"#!/bin/env t\n".to_vec() };
        std::fs::write(&path, u.obj.bytes()).unwrap();
        Ref::user(&u.obj)
    };
    let Some(end) = r.run(if spin { 2_500_000 } else if chatter { 120_000 } else { 20_000 }) else {
        ctx.label("too long or not determined");
        return Ok(());
    };
    if r.vague {
        return Ok(());
    }
    for n in [0x10000, 0x40000, 1_000_000] {
        if r.steps > n {
            ctx.label(format!("more than {n} steps"));
        }
    }
    let tp = t.chance(1, 3);
    if tp {
        args.push(*t.pick(&["-t", "--termination-point"]));
        ctx.label("termination point");
    }
    args.push(name.as_str());
    let mut input: Vec<u8> = (0..r.mem.inputs).map(input_byte).collect();
    if !input.is_empty() && t.chance(1, 5) {
        // the input ends before the program
        let k = t.size(0, input.len() - 1);
        input.truncate(k);
        let out = cli::run_in(&ctx.bin, "t", &dir, &args, &input)?;
        let mut reads = 0;
        let want: Vec<u8> = r.mem.io.iter().take_while(|i| { reads += !i.0 as usize; reads <= k }).filter(|i| i.0).map(|i| i.2).collect();
        ctx.label("input ends early");
        if !want.is_empty() {
            ctx.nontrivial();
        }
        ensure!(out.stdout == want && out.clean_failure() && !out.stderr.is_empty(), "t {} with {k} bytes of input: {}, expected {want:x?} and to fail for want of input", args.join(" "), out.brief());
        return Ok(());
    }
    if t.bool() {
        input.extend(b"unread input\n");
    }
    let out = cli::run_in(&ctx.bin, "t", &dir, &args, &input)?;
    let want = r.out();
    let names: Vec<&str> = end.modes.iter().map(|m| tm_name(*m)).collect();
    let line = format!("t {} after {} steps", args.join(" "), r.steps);
    ensure!(!out.crashed(), "{line}: crashed: {}", out.brief());
    if tp {
        ensure!(out.stdout.starts_with(&want), "{line}: output {:x?}, expected {:x?} first", out.stdout, want);
        let rest = String::from_utf8_lossy(&out.stdout[want.len()..]).into_owned();
        ensure!(names.iter().any(|n| rest.contains(&format!("{n} "))), "{line}: printed {rest:?}, expected {}", names.join(" or "));
        // the closest symbols
        let mut ok = vec![];
        let mut settled = true;
        for pc in &end.pcs {
            match syms.iter().filter(|s| !s.name.is_empty() && s.seg != UNKNOWN && s.loc <= *pc).map(|s| s.loc).max() {
                None => settled = false,
                Some(l) => ok.extend(syms.iter().filter(|s| s.loc == l && s.seg != UNKNOWN && !s.name.is_empty()).map(|s| format!("<{}+{:02X}>", s.name, pc - l))),
            }
        }
        if settled {
            ctx.label("termination point with a symbol");
            ensure!(ok.iter().any(|o| rest.contains(o.as_str())), "{line}: printed {rest:?}, expected {ok:?} (ended at {:x?})", end.pcs);
        }
    } else {
        ensure!(out.stdout == want, "{line}: output {:x?}, expected {:x?}", out.stdout, want);
        let halted = end.modes == [HALT];
        ensure!(out.ok() == halted, "{line}: {}, expected {}", out.brief(), names.join(" or "));
        if !halted {
            ensure!(names.iter().any(|n| out.stderr.contains(n)), "{line}: {}, expected {}", out.brief(), names.join(" or "));
        }
    }
    ctx.label(format!("ended with {}", names.join("/")));
    if !want.is_empty() {
        ctx.nontrivial();
    }
    if r.mem.inputs > 0 {
        ctx.label("with input");
    }
    ctx.sample(|| format!("{line}: output {want:x?}, {} bytes read, {}", r.mem.inputs, names.join(" or ")));
    Ok(())
}

fn m04_refused(t: &mut Tape, ctx: &mut Ctx, dir: &std::path::Path) -> R {
    let u = gen_user(t, false, 10);
    let mut o = u.obj;
    let mut b;
    let path = dir.join("p.to");
    let what = t.below(5);
    let mut args = vec!["p.to"];
    match what {
        4 => {
            // an image with no place in the ROM
            b = gen_chatter(t, true).encode(0x80);
            let most = if t.bool() { 2 } else { 0x9000 };
            b.resize(0x7f80 + t.size(1, most), 0);
            args.insert(0, *t.pick(&["-r", "--raw-binary"]));
        }
        0 => {
            o.entry = None;
            b = o.bytes();
        }
        1 => {
            b = o.bytes();
            let n = t.size(0, b.len() - 1);
            b.truncate(n);
        }
        2 => b = (0..t.size(0, 100)).map(|_| t.u8()).collect(),
        _ => b = vec![],
    }
    if what != 3 {
        std::fs::write(&path, &b).unwrap();
    }
    if t.bool() {
        args.insert(0, "-t");
    }
    let r = cli::run_in(&ctx.bin, "t", dir, &args, b"input")?;
    ctx.label("refused");
    ctx.nontrivial();
    ensure!(r.clean_failure() && r.stdout.is_empty() && !r.stderr.is_empty(), "a file without a program ({what}) was not refused: {}", r.brief());
    Ok(())
}

// ------------------------------------------------------------------ M05

/// letters of one entry of the map
fn letters(e1: u32, e2: u32) -> String {
    let mut s = String::new();
    for (bit, up, low) in [(0x20, "U ", "u "), (8, "X", "x"), (4, "W", "w"), (2, "R", "r")] {
        match (e2 & bit != 0, e1 & bit != 0) {
            (true, true) => s += up,
            (true, false) => {
                s += up;
                s += "!";
            }
            (false, true) => s += low,
            _ => (),
        }
    }
    s
}

/// the memory map as it should be shown
fn map_text(c: &Cpu, m: &Mem) -> String {
    if !c.f.vm {
        return "PPP_ => 00PPP_ (U XWR)\n".into();
    }
    let mut s = String::new();
    for pg in 0..512u32 {
        let e1 = m.peek32(c.rp as u32 + 4 * (pg >> 5));
        let e2 = if e1 & 1 != 0 { m.peek32((e1 >> 15 << 7) + 4 * (pg & 31)) } else { 0 };
        if e1 & e2 & 1 != 0 {
            s += &format!("{:03x}_ => {:05x}_ ({})\n", pg << 3, e2 >> 15 << 3, letters(e1, e2));
        }
    }
    s
}

/// a machine written down, for another process
fn write_world(c: &Cpu, m: &Mem) -> Vec<u8> {
    let mut v = vec![];
    let f = [c.f.zero, c.f.overflow, c.f.sign, c.f.carry, c.f.vm, c.f.reserved, c.f.trap, c.f.user].iter().enumerate().fold(0u16, |a, (i, b)| a | (*b as u16) << i);
    for w in c.r.iter().chain(&[c.rs, c.rl, c.rf, c.rp, c.rh, c.pc, f]) {
        v.extend(w.to_le_bytes());
    }
    for (a, b) in &m.bytes {
        v.extend(a.to_le_bytes());
        v.push(*b);
    }
    v
}

/// `vp mmap`: shows the memory map of the machine on standard input (in a process of its own, for its output is wanted)
pub fn mmap_helper() -> i32 {
    use std::io::Read as _;
    let mut v = vec![];
    std::io::stdin().read_to_end(&mut v).expect("stdin");
    let (head, bytes) = v.split_at(34);
    let w: Vec<u16> = head.chunks(2).map(|b| u16::from_le_bytes([b[0], b[1]])).collect();
    let mut c = Cpu::default();
    c.r.copy_from_slice(&w[..10]);
    (c.rs, c.rl, c.rf, c.rp, c.rh, c.pc) = (w[10], w[11], w[12], w[13], w[14], w[15]);
    let f = |i: u16| w[16] >> i & 1 != 0;
    c.f = Fl { zero: f(0), overflow: f(1), sign: f(2), carry: f(3), vm: f(4), reserved: f(5), trap: f(6), user: f(7) };
    let mut m = Mem::new(0);
    m.machine = true;
    for b in bytes.chunks(5) {
        m.poke(u32::from_le_bytes([b[0], b[1], b[2], b[3]]), b[4]);
    }
    let mut cpu = c.to_impl();
    cpu.context(&mut m).print_mmap();
    let after = Cpu::of(&cpu);
    if after != c {
        eprintln!("changed the processor:{}", after.diff(&c));
        return 3;
    }
    if let Some((a, x, y)) = m.writes.first() {
        eprintln!("wrote to memory at {a:06x}: {x:02x} to {y:02x}");
        return 3;
    }
    if !m.io.is_empty() {
        eprintln!("used the ports");
        return 3;
    }
    0
}

fn m05(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    if t.bool() {
        // any tables
        let mut c = Cpu { pc: t.u16(), rh: t.u16(), rs: t.u16(), rl: t.u16(), rf: t.u16(), ..Cpu::default() };
        for r in c.r.iter_mut() {
            *r = t.u16();
        }
        (c.f.user, c.f.trap, c.f.zero) = (t.bool(), t.bool(), t.bool());
        let mut m = Mem::new(0);
        m.machine = true;
        let generous = t.below(3);
        let sp = super::cpu::gen_space(t, &mut c, &mut m, generous);
        if c.rp < 0x80 {
            // tables in the ports
            return Ok(());
        }
        if t.bool() {
            // what lies behind the table is no part of it
            for i in 16..16 + t.size(1, 16) as u32 {
                let tab = *t.pick(&sp.tables);
                m.poke32(c.rp as u32 + 4 * i, tab << 8 | t.raw() & 0xff | 1);
            }
        }
        c.f.vm = !t.chance(1, 16);
        let exe = std::env::current_exe().expect("the harness knows where it is");
        let world = write_world(&c, &m);
        let out = cli::run_in(exe.parent().unwrap(), exe.file_name().unwrap().to_str().unwrap(), &dir, &["mmap"], &world)?;
        ensure!(out.ok(), "showing the memory map: {}", out.brief());
        let want = map_text(&c, &m);
        let got = String::from_utf8_lossy(&out.stdout).into_owned();
        if got != want {
            let (g, w): (Vec<_>, Vec<_>) = (got.lines().collect(), want.lines().collect());
            let i = (0..).find(|i| g.get(*i) != w.get(*i)).unwrap();
            return Err(format!("line {} of the memory map is {:?}, expected {:?} (tables at {:04x})", i + 1, g.get(i), w.get(i), c.rp));
        }
        let n = want.lines().count();
        if n > 1 && want.contains('!') {
            ctx.nontrivial();
        }
        ctx.label(if c.f.vm { "any tables" } else { "direct mode" });
        ctx.sample(|| format!("{n} pages, tables at {:04x}", c.rp));
        return Ok(());
    }
    // as a program sees it
    let size = t.size(4, 30);
    let u = gen_user_with(t, true, size, true);
    // what the call does to the machine
    let mut k = Kernel::new(&u.obj, None)?;
    for n in 0..400 {
        let pc = k.mach.cpu.program_counter;
        match k.step(ctx).map_err(|e| format!("{e}; step {n} at {pc:04x} of {}", u.obj.brief()))? {
            Kst::On => (),
            Kst::End(_) | Kst::Stop => break,
        }
    }
    // what it shows
    std::fs::write(dir.join("p.to"), u.obj.bytes()).unwrap();
    let mut r = Ref::user(&u.obj);
    r.maps = Some(vec![]);
    let Some(end) = r.run(20_000) else {
        ctx.label("too long or not determined");
        return Ok(());
    };
    let maps = r.maps.clone().unwrap();
    if r.vague || maps.len() > 40 {
        return Ok(());
    }
    let input: Vec<u8> = (0..r.mem.inputs).map(input_byte).collect();
    let out = cli::run_in(&ctx.bin, "t", &dir, &["p.to"], &input)?;
    ensure!(!out.crashed(), "t crashed: {}", out.brief());
    ensure_eq!(out.ok(), end.modes == [HALT], "t succeeded, {}", out.brief());
    let bytes = r.out();
    let want = expected_pages(&u.obj);
    let mut rest: &[u8] = &out.stdout;
    let mut done = 0;
    let mut seen: Option<Vec<u8>> = None;
    for (k, at) in maps.iter().copied().chain([bytes.len()]).enumerate() {
        let piece = &bytes[done..at];
        ensure!(rest.starts_with(piece), "before map {k} the program wrote {piece:x?}, found {:x?}", &rest[..rest.len().min(piece.len())]);
        rest = &rest[piece.len()..];
        done = at;
        if k == maps.len() {
            break;
        }
        // one map
        let begin = rest;
        let mut phys = std::collections::BTreeSet::new();
        for (pg, p) in &want {
            let n = rest.iter().position(|b| *b == b'\n').map_or(rest.len(), |n| n + 1);
            let line = String::from_utf8_lossy(&rest[..n]).into_owned();
            rest = &rest[n..];
            let parsed = (|| {
                let l = line.strip_prefix(&format!("{:03x}_ => ", pg << 3))?;
                let (ph, l) = l.split_at_checked(5)?;
                let l = l.strip_prefix("_ (")?.strip_suffix(")\n")?;
                let ph = u32::from_str_radix(ph, 16).ok()? << 4;
                Some((ph, l.to_string()))
            })();
            let Some((ph, l)) = parsed else { return Err(format!("map {k}: line {line:?}, expected page {:03x}_", pg << 3)) };
            // what the program may do
            let may: String = l.chars().filter(|c| c.is_ascii_uppercase()).collect();
            let mut exp = String::from("U");
            for (bit, c) in [(8, 'X'), (4, 'W'), (2, 'R')] {
                if p & bit != 0 {
                    exp.push(c);
                }
            }
            ensure!(may == exp && !l.contains('!'), "map {k}: line {line:?}, expected {exp}");
            ensure!(ph & 0x7f == 0 && ph >= 0x8000, "map {k}: line {line:?}: not a page of memory");
            ensure!(phys.insert(ph), "map {k}: line {line:?}: another page is there too");
        }
        let text = begin[..begin.len() - rest.len()].to_vec();
        match &seen {
            Some(s) => ensure!(*s == text, "the map changed from {:?} to {:?}", String::from_utf8_lossy(s), String::from_utf8_lossy(&text)),
            None => seen = Some(text),
        }
    }
    ensure!(rest.is_empty(), "output after the end: {:x?}", rest);
    ctx.label("a program");
    if !maps.is_empty() && !bytes.is_empty() {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("{} maps of {} pages", maps.len(), want.len()));
    Ok(())
}

pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "M02",
        rule: "objects with random segments (kinds, places sharing pages or ends, lengths, stack and heap sizes, flags) loaded by the real loader; each of the 512 virtual pages checked for its three permissions and all 128 bytes through an independent walk; non-trivial: at least two segments",
        assumptions: &["segments do not overlap", "segments without bytes start on a page (except heaps)"],
        tape: 120,
        quick: 200_000,
        thorough: 4_000_000,
        case: m02,
        enumerate: Some(m02_align),
    },
    &Prop {
        id: "M03",
        rule: "generated user programs (system calls, error handlers, faults, branches, loops, calls, memory accesses) run by the real machine and kernel in lock-step with a reference of CPU and kernel; state, written memory and port accesses compared after every step; non-trivial: a system call or handler was used",
        assumptions: &["an error handler at address 0 means none"],
        tape: 700,
        quick: 250_000,
        thorough: 5_000_000,
        case: m03,
        enumerate: None,
    },
    &Prop {
        id: "M04",
        rule: "generated user programs and raw images run by the t command with generated input and options, files without a program among them; standard output, exit status and named trap compared with a reference of loader, kernel and CPU; non-trivial: the program printed something (or was refused)",
        assumptions: &["programs end within 20000 steps (some within 120000, a few within 2500000) and do not read past the end of the input", "with -t some named symbol is at or before the end (otherwise only the trap is compared)"],
        tape: 700,
        quick: 12_000,
        thorough: 250_000,
        case: m04,
        enumerate: None,
    },
    &Prop {
        id: "M05",
        rule: "random page tables shown by the memory map (in a process of its own) and compared line by line with an independent walk, processor and memory unchanged; generated user programs that ask for the map between other output, run by the t command: each map complete, with the permissions of the object, the same every time and in its place in the output; non-trivial: a page whose levels disagree, or a map and other output",
        assumptions: &["the tables are not in the ports"],
        tape: 420,
        quick: 12_000,
        thorough: 240_000,
        case: m05,
        enumerate: None,
    },
];
