//! Lock-step execution of the implementation and the reference interpreter.
use std::cell::RefCell;
use std::rc::Rc;

use telda2::blf4::Blf4;
use telda2::machine::Cpu as _;
use telda2::mem::{Io, LazyMain, MainMemory};

use crate::engine::*;
use crate::interp::{self, *};

/// memory of the implementation, as seen by the checks
pub trait Sys: MainMemory {
    /// (address, byte) of every write since the last call
    fn take_writes(&mut self) -> Vec<u32>;
    /// content (not for ports)
    fn look(&mut self, a: u32) -> u8;
    fn take_io(&mut self) -> Vec<(bool, u8, u8)>;
}

impl Sys for Mem {
    fn take_writes(&mut self) -> Vec<u32> {
        std::mem::take(&mut self.writes).into_iter().map(|w| w.0).collect()
    }
    fn look(&mut self, a: u32) -> u8 {
        self.peek(a)
    }
    fn take_io(&mut self) -> Vec<(bool, u8, u8)> {
        std::mem::take(&mut self.io)
    }
}

#[derive(Clone, Default)]
pub struct IoState {
    pub log: Vec<(bool, u8, u8)>,
    pub inputs: u32,
}
#[derive(Clone, Default)]
pub struct TestIo(pub Rc<RefCell<IoState>>);
impl Io for TestIo {
    fn read(&mut self, addr: u8) -> u8 {
        let mut s = self.0.borrow_mut();
        let b = input_byte(s.inputs);
        s.inputs += 1;
        s.log.push((false, addr, b));
        b
    }
    fn write(&mut self, addr: u8, val: u8) {
        self.0.borrow_mut().log.push((true, addr, val));
    }
}

/// the real memory, spied upon
pub struct Spy {
    pub inner: Box<LazyMain<TestIo>>,
    pub io: TestIo,
    pub writes: Vec<u32>,
}
impl Spy {
    pub fn new(rom: Option<&[u8]>) -> Self {
        let io = TestIo::default();
        let mut inner = LazyMain::new(io.clone());
        if let Some(r) = rom {
            inner = inner.with_rom(r);
        }
        Spy { inner: Box::new(inner), io, writes: vec![] }
    }
}
impl MainMemory for Spy {
    fn read(&mut self, addr: u32) -> u8 {
        self.inner.read(addr)
    }
    fn write(&mut self, addr: u32, byte: u8) {
        if addr >= 0x80 {
            self.writes.push(addr);
        }
        self.inner.write(addr, byte)
    }
}
impl Sys for Spy {
    fn take_writes(&mut self) -> Vec<u32> {
        std::mem::take(&mut self.writes)
    }
    fn look(&mut self, a: u32) -> u8 {
        if a < 0x80 {
            return 0;
        }
        self.inner.read(a)
    }
    fn take_io(&mut self) -> Vec<(bool, u8, u8)> {
        std::mem::take(&mut self.io.0.borrow_mut().log)
    }
}

struct Frame {
    /// state when the trap occurred; pc: admissible values
    pre: Cpu,
    pcs: Vec<u16>,
    loose: Loose,
    sp: u16,
    /// virtual address, physical address, byte
    bytes: Vec<(u16, u32, u8)>,
}

pub struct Rig<M: Sys> {
    pub cpu: Blf4,
    pub mem: M,
    pub model: Mem,
    frames: Vec<Frame>,
    /// instructions since the start
    pub steps: u32,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Info {
    /// completed normally
    Done,
    /// no handler: stopped
    Stopped(u8),
    /// the handler was entered
    Entered(u8),
    /// reth with an intact frame
    Returned,
    /// reth from a frame that is not ours
    Free,
    /// saving the state faulted
    PushFault(u8),
}

impl<M: Sys> Rig<M> {
    pub fn new(cpu: Cpu, mem: M, model: Mem) -> Self {
        Rig { cpu: cpu.to_impl(), mem, model, frames: vec![], steps: 0 }
    }
    fn describe(&self, pre: &Cpu) -> String {
        let m = &self.model;
        let mut code = vec![];
        for k in 0..4 {
            match interp::translate(pre, &mut Peek(m), pre.pc.wrapping_add(k), Acc::X) {
                Ok(t) => code.push(format!("{:02x}", m.peek(t.phys))),
                Err(_) => code.push("--".into()),
            }
        }
        format!("step {} at {:04x} [{}] from {:x?}", self.steps, pre.pc, code.join(" "), pre)
    }
    /// takes what the implementation did to memory over into the model
    fn adopt(&mut self) {
        for a in self.mem.take_writes() {
            let b = self.mem.look(a);
            if self.model.is_ram(a) {
                self.model.poke(a, b);
            }
        }
        self.mem.take_io();
        self.model.writes.clear();
        self.model.io.clear();
    }
    fn same_memory(&mut self, what: &str) -> R {
        let mut addrs: Vec<u32> = self.model.writes.drain(..).map(|w| w.0).collect();
        addrs.extend(self.mem.take_writes());
        addrs.sort();
        addrs.dedup();
        for a in addrs {
            let (i, m) = (self.mem.look(a), self.model.peek(a));
            ensure!(i == m, "{what}: physical memory at {a:06x} is {i:02x}, expected {m:02x}");
        }
        Ok(())
    }
    pub fn state(&self) -> Cpu {
        Cpu::of(&self.cpu)
    }
    /// one instruction on both sides
    pub fn step(&mut self) -> R<Info> {
        let pre = self.state();
        let exp = interp::step(&pre, &mut self.model);
        // describe before the implementation moves on
        let cpu = &mut self.cpu;
        let mem = &mut self.mem;
        let res = guarded(|| cpu.execute_instruction(mem));
        let res = match res {
            Ok(r) => r,
            Err(e) => {
                self.undo_model();
                return Err(format!("{e}; {}", self.describe(&pre)));
            }
        };
        self.steps += 1;
        let r = self.judge(&pre, exp, res.map_err(tm));
        if self.model.port_tables.take() {
            // page tables made of port input are beyond the model
            self.adopt();
            return Ok(Info::Free);
        }
        r.map_err(|e| {
            self.undo_model();
            format!("{e}; {}", self.describe(&pre))
        })
    }
    fn undo_model(&mut self) {
        let ws = std::mem::take(&mut self.model.writes);
        for (a, old, _) in ws.into_iter().rev() {
            self.model.poke(a, old);
        }
    }
    fn judge(&mut self, pre: &Cpu, exp: Exp, res: Result<(), u8>) -> R<Info> {
        let post = self.state();
        match exp {
            Exp::Done(c) => {
                ensure!(res.is_ok(), "trapped with {}, should have completed", tm_name(res.unwrap_err()));
                ensure!(post == c, "wrong state (got/expected):{}", post.diff(&c));
                self.same_memory("after the instruction")?;
                let (i, m) = (self.mem.take_io(), std::mem::take(&mut self.model.io));
                ensure!(i == m, "port accesses {i:x?}, expected {m:x?}");
                Ok(Info::Done)
            }
            Exp::Trap { modes, pc, loose } => {
                if pre.rh == 0 {
                    let Err(mode) = res else { return Err(format!("completed, should have trapped with {}", names(&modes))) };
                    ensure!(modes.contains(&mode), "trapped with {}, expected {}", tm_name(mode), names(&modes));
                    self.kept(pre, &post, &loose, &[])?;
                    ensure!(pc.contains(&post.pc), "pc is {:04x} after the trap, expected {:x?}", post.pc, pc);
                    self.partial()?;
                    return Ok(Info::Stopped(mode));
                }
                self.entered(pre, &post, res, modes, pc, loose)
            }
            Exp::Reth => self.returned(pre, &post, res),
        }
    }
    /// registers of an instruction that did not complete
    fn kept(&mut self, pre: &Cpu, post: &Cpu, loose: &Loose, except: &[u16]) -> R {
        for n in 1..16 {
            if loose.dest.contains(&n) || n == 11 && loose.rs || except.contains(&n) {
                continue;
            }
            ensure!(pre.w(n) == post.w(n), "{} changed from {:04x} to {:04x} although the instruction trapped", crate::isa::WREGS[n as usize], pre.w(n), post.w(n));
        }
        ensure!(pre.f.vm == post.f.vm, "the trap changed the addressing mode");
        Ok(())
    }
    /// memory after an instruction that did not complete: old or model value
    fn partial(&mut self) -> R {
        let ws = std::mem::take(&mut self.model.writes);
        for a in self.mem.take_writes() {
            let b = self.mem.look(a);
            let ok: Vec<u8> = ws.iter().filter(|w| w.0 == a).flat_map(|w| [w.1, w.2]).collect();
            let m = self.model.peek(a);
            ensure!(b == m || ok.contains(&b), "an instruction that trapped changed physical memory at {a:06x} to {b:02x} (was {m:02x})");
        }
        for w in &ws {
            let b = self.mem.look(w.0);
            ensure!(ws.iter().any(|v| v.0 == w.0 && (v.1 == b || v.2 == b)), "physical memory at {:06x} is {b:02x}", w.0);
            self.model.poke(w.0, b);
        }
        self.mem.take_io();
        self.model.io.clear();
        Ok(())
    }
    fn entered(&mut self, pre: &Cpu, post: &Cpu, res: Result<(), u8>, modes: Vec<u8>, pcs: Vec<u16>, loose: Loose) -> R<Info> {
        // the handler runs in supervisor mode, and so does saving
        let mut sup = *pre;
        sup.f.user = false;
        if let Err(m) = res {
            let mut ok = vec![];
            let lo = if loose.rs { -2i32 } else { 1 };
            for k in lo..=64 {
                if let Err(v) = translate(&sup, &mut Peek(&self.model), pre.rs.wrapping_sub(k as u16), Acc::W) {
                    ok.extend(v);
                }
            }
            ensure!(ok.contains(&m) || loose.dest.contains(&11), "stopped with {} instead of entering the handler at {:04x}", tm_name(m), pre.rh);
            self.adopt();
            return Ok(Info::PushFault(m));
        }
        let mode = post.r[0];
        ensure!(modes.iter().any(|m| *m as u16 == mode), "handler entered with r1={mode:x}, expected {}", names(&modes));
        let mode = mode as u8;
        ensure!(post.pc == pre.rh, "pc is {:04x} after the trap, the handler is at {:04x}", post.pc, pre.rh);
        ensure!(!post.f.user, "the handler runs in user mode");
        ensure!(post.f.trap, "the trap flag is not set in the handler");
        self.kept(pre, post, &loose, &[1, 11])?;
        if loose.dest.contains(&11) {
            // where the frame begins is up to the instruction that did not complete
            self.adopt();
            self.frames.clear();
            return Ok(Info::Entered(mode));
        }
        // where the frame begins
        let size = pre.rs.wrapping_sub(post.rs);
        ensure!((1..=0x100).contains(&size) || loose.rs && size.wrapping_add(2) <= 0x104, "stack pointer is {:04x} in the handler, was {:04x}", post.rs, pre.rs);
        let base = if loose.rs { pre.rs.wrapping_add(2) } else { pre.rs };
        let n = base.wrapping_sub(post.rs);
        let mut frame = vec![];
        let mut tables = vec![];
        let mut ok_addr = std::collections::HashMap::new();
        let mut messy = false;
        for k in 0..n {
            let va = post.rs.wrapping_add(k);
            match translate(&sup, &mut Peek(&self.model), va, Acc::W) {
                Ok(t) => {
                    frame.push((va, t.phys));
                    ok_addr.insert(t.phys, ());
                    if sup.f.vm {
                        tables.extend([t.e1, t.e2]);
                    }
                }
                Err(v) => {
                    ensure!(loose.rs && k + 4 >= n || v.is_empty(), "the state was saved at {va:04x}, which cannot be written ({})", names(&v));
                }
            }
        }
        for (_, p) in &frame {
            messy |= tables.iter().any(|e| p.wrapping_sub(*e) < 4);
        }
        // several frame bytes at one physical address: the frame cannot be kept
        let mut phys: Vec<u32> = frame.iter().map(|f| f.1).collect();
        phys.sort();
        phys.dedup();
        messy |= phys.len() != frame.len() || frame.iter().any(|f| !self.model.is_ram(f.1));
        if messy {
            self.adopt();
            self.frames.clear();
            return Ok(Info::Entered(mode));
        }
        let ws = std::mem::take(&mut self.model.writes);
        for a in self.mem.take_writes() {
            let b = self.mem.look(a);
            if ok_addr.contains_key(&a) {
                self.model.poke(a, b);
                continue;
            }
            let m = self.model.peek(a);
            let dirty = tables.contains(&a) && b == m | 0x10;
            let part = ws.iter().any(|w| w.0 == a && (w.1 == b || w.2 == b));
            ensure!(b == m || dirty || part, "entering the handler changed physical memory at {a:06x} from {m:02x} to {b:02x}");
            self.model.poke(a, b);
        }
        for w in &ws {
            let b = self.mem.look(w.0);
            self.model.poke(w.0, b);
        }
        self.mem.take_io();
        self.model.io.clear();
        let bytes = frame.into_iter().map(|(v, p)| (v, p, self.model.peek(p))).collect();
        self.frames.push(Frame { pre: *pre, pcs, loose, sp: post.rs, bytes });
        if self.frames.len() > 64 {
            self.frames.remove(0);
        }
        Ok(Info::Entered(mode))
    }
    fn returned(&mut self, pre: &Cpu, post: &Cpu, res: Result<(), u8>) -> R<Info> {
        let found = self.frames.iter().rposition(|f| f.sp == pre.rs);
        let intact = found.filter(|i| {
            let f = &self.frames[*i];
            !pre.f.user
                && pre.f.vm == f.pre.f.vm
                && f.bytes.iter().all(|(va, p, b)| {
                    self.model.peek(*p) == *b && translate(pre, &mut Peek(&self.model), *va, Acc::R).is_ok_and(|t| t.phys == *p)
                })
        });
        let Some(i) = intact else {
            self.frames.clear();
            self.adopt();
            return Ok(Info::Free);
        };
        ensure!(res.is_ok(), "return from handler trapped with {}", tm_name(res.unwrap_err()));
        self.frames.truncate(i + 1);
        let f = self.frames.pop().unwrap();
        for n in 1..16 {
            if f.loose.dest.contains(&n) || n == 11 && f.loose.rs {
                continue;
            }
            ensure!(post.w(n) == f.pre.w(n), "{} is {:04x} after returning from the handler, was {:04x} when the trap occurred", crate::isa::WREGS[n as usize], post.w(n), f.pre.w(n));
        }
        ensure!(f.pcs.contains(&post.pc), "returned from the handler to {:04x}, interrupted at {:x?}", post.pc, f.pcs);
        let mut want = f.pre.f;
        want.trap = false;
        let mut got = post.f;
        if f.loose.flags {
            (got.zero, got.sign, got.carry, got.overflow) = (want.zero, want.sign, want.carry, want.overflow);
        }
        // the reserved flag has no meaning
        got.reserved = want.reserved;
        ensure!(got == want, "flags after returning from the handler are {:?}, expected {:?}", post.f, want);
        self.same_memory("after returning from the handler")?;
        self.mem.take_io();
        self.model.io.clear();
        Ok(Info::Returned)
    }
}

/// side-effect free view of a memory
pub struct Peek<'a>(pub &'a Mem);
impl RefMem for Peek<'_> {
    fn rd(&mut self, a: u32) -> u8 {
        self.0.peek(a)
    }
    fn wr(&mut self, _: u32, _: u8) {
        unreachable!("peeking does not write")
    }
    fn note_table(&mut self, a: u32) {
        if self.0.machine && a < 0x80 {
            self.0.port_tables.set(true);
        }
    }
}

pub fn names(m: &[u8]) -> String {
    let mut v: Vec<&str> = m.iter().map(|m| tm_name(*m)).collect();
    v.dedup();
    v.join(" or ")
}
