//! Disassembly, object dumps, the debugger and the whole tool chain: T01-T04.
use crate::asm;
use crate::cli;
use crate::engine::*;
use crate::interp::{self, *};
use crate::isa::{self, Form, Sem, K};
use crate::obj::*;
use crate::user::*;
use crate::whole::gen_whole;
use std::collections::BTreeMap;
use telda2::disassemble::disassemble_instruction;
use telda2::machine::Machine;

// ------------------------------------------------------------------ T01

/// a number as the disassembler may write it
fn number_of(s: &str) -> Option<u32> {
    match s.strip_prefix("0x") {
        Some(h) if !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()) => u32::from_str_radix(h, 16).ok(),
        Some(_) => None,
        None if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) => s.parse().ok(),
        None => None,
    }
}

/// the parts of a disassembled line of `n` bytes
pub fn parts(line: &str, n: usize) -> R<(u16, Vec<u8>, String)> {
    let bad = || format!("strange disassembly {line:?}");
    let (a, rest) = line.split_once(':').ok_or_else(bad)?;
    let a = a.trim();
    let a = u16::from_str_radix(a.strip_prefix("0x").unwrap_or(a), 16).map_err(|_| bad())?;
    let mut rest = rest.trim_start();
    let mut b = vec![];
    for _ in 0..n {
        let (x, r) = rest.split_once(' ').ok_or_else(bad)?;
        ensure!(x.len() == 2, "{}", bad());
        b.push(u8::from_str_radix(x, 16).map_err(|_| bad())?);
        rest = r.trim_start();
    }
    Ok((a, b, rest.trim_end().to_string()))
}

/// the text of an instruction names exactly this form and these operands; labels where there are some
pub fn check_text(text: &str, f: &Form, v: &[u16], label: impl Fn(u16) -> Option<String>) -> R {
    let (m, rest) = text.split_once(' ').unwrap_or((text, ""));
    ensure!(f.names.contains(&m), "{text:?}: mnemonic {m:?}, expected {:?}", f.names);
    let ops: Vec<&str> = if rest.trim().is_empty() { vec![] } else { rest.split(',').map(|o| o.trim()).collect() };
    ensure!(ops.len() == f.ops.len(), "{text:?}: {} operands, expected {}", ops.len(), f.ops.len());
    for ((o, k), v) in ops.iter().zip(f.ops).zip(v) {
        match k {
            K::B => ensure!(*o == isa::BREGS[*v as usize], "{text:?}: operand {o}, expected {}", isa::BREGS[*v as usize]),
            K::W => ensure!(*o == isa::WREGS[*v as usize], "{text:?}: operand {o}, expected {}", isa::WREGS[*v as usize]),
            K::Iw if label(*v).is_some() => ensure!(*o == label(*v).unwrap(), "{text:?}: operand {o}, expected label {:?}", label(*v).unwrap()),
            _ => ensure!(number_of(o) == Some(*v as u32), "{text:?}: operand {o}, expected {v:#x}"),
        }
    }
    Ok(())
}

/// text that the assembler reads differently (known finding of A02)
fn hex_b(text: &str) -> bool {
    text.split([' ', ',']).any(|w| w.starts_with("0x") && w.ends_with('b'))
}

/// disassembles at the program counter and checks everything about it; returns instruction text and bytes of valid ones
fn dis(cpu: &Cpu, mem: &mut Mem, labels: &BTreeMap<u16, String>) -> R<Option<(String, Vec<u8>, &'static Form)>> {
    // what the CPU would fetch
    let mut bytes = vec![];
    let mut fault = None;
    let mut want = 1;
    while bytes.len() < want && fault.is_none() {
        let a = cpu.pc.wrapping_add(bytes.len() as u16);
        match interp::read(cpu, mem, a, Acc::X) {
            Ok(b) => bytes.push(b),
            Err(m) => fault = Some(m),
        }
        if bytes.len() == 1 {
            want = isa::op_len(bytes[0]).unwrap_or(1);
        }
    }
    let real = cpu.to_impl();
    let before = Cpu::of(&real);
    let mem2 = std::mem::take(mem);
    let mut machine = Machine::new(mem2, real);
    machine.memory.writes.clear();
    let res = guarded(|| disassemble_instruction(&mut machine, |p| labels.get(&p).map(|s| s.as_str())));
    let after = Cpu::of(&machine.cpu);
    *mem = std::mem::take(&mut machine.memory);
    let at = |e: String| format!("at {:04x}, bytes {}: {e}", cpu.pc, hex(&bytes));
    let res = res.map_err(|e| at(format!("disassembling: {e}")))?;
    ensure!(before.diff(&after).is_empty(), "{}", at(format!("disassembling changed the machine: {}", before.diff(&after))));
    ensure!(mem.writes.is_empty(), "{}", at("disassembling wrote to memory".into()));
    if let Some(m) = fault {
        match res {
            Ok(d) => return Err(at(format!("fetching faults ({}), but it was disassembled: {:?}", crate::rig::names(&m), d.annotated_source))),
            Err(e) => ensure!(m.contains(&tm(e)), "{}", at(format!("fetching reports {}, expected {}", tm_name(tm(e)), crate::rig::names(&m)))),
        }
        return Ok(None);
    }
    let d = match res {
        Ok(d) => d,
        Err(e) => return Err(at(format!("disassembling reports {}, but nothing is wrong", tm_name(tm(e))))),
    };
    let n = bytes.len();
    ensure!(d.next_instruction_location == cpu.pc.wrapping_add(n as u16), "{}", at(format!("next instruction at {:04x}", d.next_instruction_location)));
    let (a, b, text) = parts(&d.annotated_source, n).map_err(at)?;
    ensure!(a == cpu.pc, "{}", at(format!("address {a:04x} in {:?}", d.annotated_source)));
    ensure!(b == bytes, "{}", at(format!("bytes {} in {:?}", hex(&b), d.annotated_source)));
    match isa::decode(&bytes) {
        Some((f, v)) => {
            check_text(&text, f, &v, |l| labels.get(&l).cloned()).map_err(at)?;
            ensure!(d.ends_block == f.ends_block(), "{}", at(format!("{text:?}: ends block: {}", d.ends_block)));
            let canon = f.encode(&v) == bytes;
            Ok(canon.then_some((text, bytes, f)))
        }
        None => {
            if isa::op_len(bytes[0]).is_none() {
                ensure!(d.ends_block, "{}", at("does not end the block although it is no instruction".into()));
                let named = isa::FORMS.iter().any(|f| f.names.contains(&text.split(' ').next().unwrap()));
                ensure!(!named, "{}", at(format!("is no instruction, but disassembled to {text:?}")));
                ensure!(number_of(text.trim()) == Some(bytes[0] as u32), "{}", at(format!("is no instruction, but shown as {text:?}, not as its byte")));
            }
            Ok(None)
        }
    }
}

/// assembles the lines and compares; labels are references to somewhere else
fn again(ctx: &mut Ctx, lines: &[(String, Vec<u8>, &'static Form)], labels: &BTreeMap<u16, String>) -> R {
    let dir = ctx.fresh_dir();
    let mut src = String::new();
    for l in labels.values() {
        src.push_str(&format!(".ref {l}\n"));
    }
    src.push_str(".seg text\n");
    let off = src.lines().count();
    let mut want = vec![];
    let mut uses: Vec<(usize, String)> = vec![];
    for (l, b, f) in lines {
        src.push_str(l);
        src.push('\n');
        let mut b = b.clone();
        if f.imm() == Some(K::Iw) {
            let n = b.len();
            let v = u16::from_le_bytes([b[n - 2], b[n - 1]]);
            if let Some(l) = labels.get(&v) {
                uses.push((want.len() + n - 2, l.clone()));
                b[n - 2..].copy_from_slice(&0xfaffu16.to_le_bytes());
            }
        }
        want.extend(b);
    }
    let shown = |at: usize| {
        let mut p = 0;
        for (l, b, _) in lines {
            p += b.len();
            if at < p {
                return format!("{l:?} from {}", hex(b));
            }
        }
        String::new()
    };
    match asm::assemble(&ctx.bin, &dir, src.as_bytes())? {
        Err((at, brief)) => {
            let l = at.iter().find_map(|n| lines.get((*n as usize).wrapping_sub(off + 1)));
            Err(format!("the assembler refuses disassembled text: {:?} {brief}", l.map(|l| &l.0)))
        }
        Ok(o) => {
            let (a, got) = o.segs.get(&crate::obj::TEXT).ok_or("no text segment")?;
            if let Some(i) = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)) {
                return Err(format!("assembling disassembled text {} gives other bytes: {}", shown(i), hex(&got[i.min(got.len())..(i + 4).min(got.len())])));
            }
            let mut rels: Vec<(usize, String)> = o.rels.iter().map(|r| (r.loc.wrapping_sub(*a) as usize, o.syms.get(r.sym as usize).map_or("?".into(), |s| s.name.clone()))).collect();
            rels.sort();
            ensure!(rels == uses, "assembling disassembled text with labels gives relocations {rels:?}, expected {uses:?}");
            Ok(())
        }
    }
}

/// a state with code to look at: the places, and labels
fn t01(t: &mut Tape, ctx: &mut Ctx) -> R {
    let n = 100;
    let mut cpu;
    let mut mem;
    let mut at: Vec<u16> = vec![];
    let kind = t.below(4);
    if kind == 0 {
        // a user program
        let u = gen_user(t, true, 10);
        let mut r = Ref::user(&u.obj);
        r.cpu.f.user = t.chance(5, 6);
        let places = u.code.places(u.base);
        let ends: Vec<u16> = u.obj.segs.values().map(|(a, b)| a.wrapping_add(b.len() as u16)).collect();
        for _ in 0..n {
            at.push(match t.below(8) {
                0 => t.u16(),
                1 => t.pick(&ends).wrapping_sub(t.below(5) as u16),
                2 => (t.pick(&ends) | 127).wrapping_sub(t.below(5) as u16),
                _ => *t.pick(&places),
            });
        }
        cpu = r.cpu.clone();
        mem = std::mem::take(&mut r.mem);
        mem.machine = false;
        ctx.label("user program");
    } else {
        mem = Mem::new(t.raw() | 1);
        cpu = Cpu { pc: 0, ..Cpu::default() };
        if kind == 1 {
            // pages anywhere, some of them missing
            cpu.f.vm = true;
            cpu.f.user = t.bool();
            cpu.rp = 0x80 * t.range(2, 0x1f0) as u16;
            let mut second = vec![];
            for i in 0..16 {
                let e = match t.below(8) {
                    0 => t.raw() & !1,
                    1 => t.raw() | 1,
                    _ => 0x29,
                };
                // second level tables somewhere above
                let e = e & 0x7fff | (0x10_0000 + t.below(0x100) * 0x80) << 8;
                second.push(e >> 15 << 7);
                mem.poke32(cpu.rp as u32 + 4 * i, e);
            }
            for s in second {
                for j in 0..32 {
                    let e = match t.below(8) {
                        0 => t.raw() & !1,
                        1 => t.raw() | 1,
                        _ => 0x29,
                    };
                    mem.poke32(s + 4 * j, e & 0x7fff | (0x20_0000 + t.below(0x1000) * 0x80) << 8);
                }
            }
            ctx.label("page tables");
        } else {
            ctx.label("direct mode");
        }
        // code all over the place
        for i in 0..n {
            let lo = if cpu.f.vm { 0 } else { 0x80 };
            let hi = if cpu.f.vm { 0xffff } else { 0xfff0 };
            let mut a = t.range(lo, hi) as u16;
            if cpu.f.vm && t.chance(1, 5) {
                a = (a | 127).wrapping_sub(t.below(4) as u16);
            }
            at.push(a);
            if kind == 3 || i % 8 == 0 {
                continue;
            }
            let f = t.pick(isa::FORMS);
            let mut v = isa::gen_vals(f, t);
            if f.sem == Sem::JmpR && v[0] == 0 {
                v[0] = 1;
            }
            for (k, b) in f.encode(&v).into_iter().enumerate() {
                let a = a.wrapping_add(k as u16);
                let tr = interp::translate(&Cpu { f: Fl { user: false, ..cpu.f }, ..cpu.clone() }, &mut mem, a, Acc::X);
                if let Ok(tr) = tr {
                    mem.poke(tr.phys, b);
                }
            }
        }
    }
    // names of some of the immediates
    let mut labels = BTreeMap::new();
    if t.chance(3, 4) {
        for a in at.iter().copied().collect::<Vec<_>>() {
            if t.chance(1, 4) {
                let l = asm::gen_label(t, labels.len());
                if !labels.values().any(|x| *x == l) {
                    labels.insert(a, l);
                }
            }
        }
        for a in at.iter().copied().collect::<Vec<_>>() {
            let c = Cpu { pc: a, ..cpu.clone() };
            let b: Vec<u8> = (0..4).map_while(|i| interp::read(&c, &mut mem, a.wrapping_add(i), Acc::X).ok()).collect();
            if let Some((f, v)) = isa::decode(&b) {
                if f.imm() == Some(K::Iw) && t.bool() {
                    let l = format!("at{:x}", labels.len());
                    labels.entry(*v.last().unwrap_or(&0)).or_insert(l.clone());
                    labels.entry(v[f.ops.iter().position(|k| *k == K::Iw).unwrap()]).or_insert(l + "_");
                }
            }
        }
    }
    mem.writes.clear();
    let mut lines = vec![];
    let (mut ok, mut no) = (0, 0);
    for a in at {
        cpu.pc = a;
        match dis(&cpu, &mut mem, &labels)? {
            Some(l) => {
                ok += 1;
                if !hex_b(&l.0) {
                    lines.push(l);
                }
            }
            None => no += 1,
        }
    }
    if !lines.is_empty() && t.chance(1, 3) {
        // (labels that are read as something else by the assembler are not used here)
        again(ctx, &lines, &labels)?;
        ctx.label("assembled again");
    }
    ctx.key(&(kind, lines.iter().map(|l| l.1.clone()).collect::<Vec<_>>()));
    if ok >= 10 {
        ctx.nontrivial();
    }
    if no > 0 {
        ctx.label("with invalid or unreadable places");
    }
    ctx.sample(|| format!("{ok} instructions, {no} others, {} labels: {}", labels.len(), lines.iter().take(4).map(|l| format!("{} = {}", hex(&l.1), l.0)).collect::<Vec<_>>().join("; ")));
    Ok(())
}

/// every opcode with every second byte, and every register combination of the valid forms; all of it assembled again
fn t01_all(ctx: &mut Ctx, shard: usize, shards: usize) -> R {
    let none = BTreeMap::new();
    let mut lines: Vec<(String, Vec<u8>, &'static Form)> = vec![];
    let mut size = 0;
    let mut known: Vec<(String, Vec<u8>, &'static Form)> = vec![];
    let mut count = 0;
    let flush = |ctx: &mut Ctx, lines: &mut Vec<(String, Vec<u8>, &'static Form)>| {
        let r = again(ctx, lines, &none);
        lines.clear();
        r
    };
    let mut mem = Mem::new(0);
    let mut cpu = Cpu { pc: 0x9000, ..Cpu::default() };
    let mut one = |ctx: &mut Ctx, bytes: &[u8], lines: &mut Vec<_>, size: &mut usize| -> R {
        cpu.pc = cpu.pc.wrapping_add(0x0101) | 0x8000;
        cpu.pc = cpu.pc.min(0xfff0);
        mem.bytes.clear();
        mem.poke_n(cpu.pc as u32, bytes);
        if let Some(l) = dis(&cpu, &mut mem, &BTreeMap::new())? {
            if hex_b(&l.0) {
                if known.last().is_none_or(|k| k.2 != l.2) {
                    known.push(l);
                }
            } else {
                *size += l.1.len();
                lines.push(l);
            }
        }
        count += 1;
        ctx.enumerated(1, 1);
        Ok(())
    };
    for op in (0..=255u8).filter(|o| *o as usize % shards == shard) {
        for b in 0..=255u8 {
            for c in [0, 0x10, 0x21, 0xff] {
                one(ctx, &[op, b, c, b ^ c], &mut lines, &mut size)?;
            }
        }
        for f in isa::FORMS.iter().filter(|f| f.op == op) {
            let k = f.regs() as u32;
            let all = if k == 4 && !ctx.tier_thorough { 4096 } else { 1 << (4 * k) };
            for i in 0..all {
                // (a quarter-way through the combinations of four registers)
                let x = if all == 1 << (4 * k) { i } else { i * 16 + (i * 7 + 3) % 16 };
                let mut n = 0;
                let v: Vec<u16> = f
                    .ops
                    .iter()
                    .map(|k| match k {
                        K::B | K::W => {
                            n += 1;
                            (x >> (4 * (n - 1)) & 15) as u16
                        }
                        K::Ib => (i as u16).wrapping_mul(7) & 0xff,
                        K::Iw => (i as u16).wrapping_mul(4099),
                    })
                    .collect();
                if f.canonical(&v) {
                    one(ctx, &f.encode(&v), &mut lines, &mut size)?;
                }
                if size > 0xf000 {
                    flush(ctx, &mut lines)?;
                    size = 0;
                }
            }
            // every value of the immediate
            if let Some(k) = f.imm() {
                let step = if k == K::Ib || ctx.tier_thorough { 1 } else { 13 };
                for i in (0..if k == K::Ib { 0x100u32 } else { 0x10000 }).step_by(step) {
                    let v: Vec<u16> = f.ops.iter().map(|k| if matches!(k, K::Ib | K::Iw) { i as u16 } else { 3 + (i as u16 & 7) }).collect();
                    one(ctx, &f.encode(&v), &mut lines, &mut size)?;
                    if size > 0xf000 {
                        flush(ctx, &mut lines)?;
                        size = 0;
                    }
                }
            }
        }
    }
    if !lines.is_empty() {
        flush(ctx, &mut lines)?;
    }
    for (text, bytes, f) in known {
        // these are refused, or read in this one other way
        let dir = ctx.fresh_dir();
        let src = format!(".seg text\n{text}\n");
        let (digits, wide) = (text.rsplit("0x").next().unwrap().trim_end_matches('b'), f.imm() == Some(K::Iw));
        let other = match asm::assemble(&ctx.bin, &dir, src.as_bytes())? {
            Err(_) => wide,
            Ok(o) => {
                let got = o.segs.get(&crate::obj::TEXT).map(|s| s.1.clone()).unwrap_or_default();
                if got == bytes {
                    continue;
                }
                let mut sfx = bytes.clone();
                *sfx.last_mut().unwrap() = u8::from_str_radix(digits, 16).unwrap_or(0);
                !wide && got == sfx
            }
        };
        let m = format!("assembling the disassembly {text:?} does not give the bytes {} it came from", hex(&bytes));
        ensure!(other, "{m}");
        ctx.known("hex-b-suffix", m)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ T02

/// an object that may be looked at
/// a few instructions and a symbol
fn tiny_obj(t: &mut Tape) -> Obj {
    let mut o = Obj::default();
    let f = t.pick(isa::FORMS);
    let v = isa::gen_vals(f, t);
    let a = 0x80 * t.range(1, 30) as u16;
    o.segs.insert(TEXT, (a, f.encode(&v)));
    o.syms.push(Sym { name: format!("m{}", t.below(20)), global: t.bool(), seg: TEXT, loc: a });
    o
}

fn dump_obj(t: &mut Tape) -> Obj {
    let mut o;
    match t.below(8) {
        0 => o = gen_any(t),
        1..=4 => {
            // instructions and other bytes, anywhere
            o = Obj::default();
            if t.chance(1, 4) {
                o.flags = Some(t.bool());
            }
            if t.chance(1, 2) {
                o.stack = Some(*t.pick(&[0u16, 1, 0x80, 0x180, 0x400]));
            }
            let kinds: &[u8] = if t.bool() { &[TEXT] } else { &[TEXT, ZERO] };
            let mut kinds = kinds.to_vec();
            if t.chance(1, 3) {
                kinds.push(*t.pick(&[DATA, RODATA, HEAP, UNKNOWN]));
            }
            let stack = o.stack.unwrap_or(0x180) as usize;
            let mut bodies = vec![];
            let mut all: Vec<Vec<usize>> = vec![];
            let mut words = vec![];
            for (k, _) in kinds.iter().enumerate() {
                let mut b: Vec<u8> = vec![];
                let mut at = vec![];
                for _ in 0..t.size(0, 24) {
                    at.push(b.len());
                    if t.chance(1, 16) {
                        b.extend((0..t.size(1, 5)).map(|_| t.b8()));
                        continue;
                    }
                    let f = t.pick(isa::FORMS);
                    let v = isa::gen_vals(f, t);
                    b.extend(f.encode(&v));
                    if f.imm() == Some(K::Iw) {
                        words.push((k, b.len() - 2));
                    }
                }
                if t.chance(1, 8) {
                    // up to the end of a page, or with a long gap
                    let n = t.size(0x70, 0x200);
                    b.resize(n.max(b.len()), 0x20);
                }
                all.push(at);
                bodies.push(b);
            }
            let lens: Vec<usize> = bodies.iter().map(|b| b.len()).collect();
            let hi = if t.chance(1, 4) { 0x10000 } else { 0x10000 - stack };
            let mut places = place(t, &lens, 0, hi);
            if t.chance(1, 3) && kinds.len() == 1 {
                // end to end with the address space or a page
                let n = lens[0];
                places[0] = if t.bool() { (0x10000 - n).min(0xffff) as u16 } else { (0x1000 - n) as u16 };
            }
            // symbols
            let name = |t: &mut Tape, i: usize| if t.chance(1, 10) { String::new() } else { format!("{}{i}", t.pick(&["f", "loop", "þú", "a.b", "L", "x y"])) };
            let mut targets = vec![];
            for i in 0..t.size(0, 8) {
                let k = t.below(kinds.len() as u32) as usize;
                let off = if all[k].is_empty() || t.chance(1, 10) { t.size(0, lens[k]) } else { *t.pick(&all[k]) };
                let loc = places[k].wrapping_add(off as u16);
                let n = name(t, i);
                let global = t.bool();
                if t.chance(1, 10) {
                    o.syms.push(Sym { name: format!("u{i}"), global: true, seg: UNKNOWN, loc: 0xfaff });
                } else if t.chance(1, 8) || !targets.contains(&loc) {
                    o.syms.push(Sym { name: n, global, seg: kinds[k], loc });
                    targets.push(loc);
                }
            }
            if t.chance(2, 3) {
                let at = if all[0].is_empty() { 0 } else { *t.pick(&all[0]) };
                o.entry = Some((TEXT, places[0].wrapping_add(at as u16)));
            }
            // references
            for (k, w) in words {
                let loc = places[k].wrapping_add(w as u16);
                if !o.syms.is_empty() && t.chance(2, 3) {
                    let s = t.below(o.syms.len() as u32) as usize;
                    let v = o.syms[s].loc;
                    bodies[k][w..w + 2].copy_from_slice(&v.to_le_bytes());
                    o.rels.push(Rel { seg: kinds[k], loc, sym: s as u16 });
                }
            }
            for (k, b) in bodies.into_iter().enumerate() {
                o.segs.insert(kinds[k], (places[k], b));
            }
            if t.chance(1, 10) {
                o.rels.push(Rel { seg: TEXT, loc: t.u16(), sym: t.b16() });
            }
            if t.chance(1, 20) {
                // many others before them
                let n = t.range(250, 300);
                let old = std::mem::take(&mut o.syms);
                o.syms = (0..n).map(|i| Sym { name: format!("x{i}"), global: i % 3 == 0, seg: UNKNOWN, loc: 0xfaff }).collect();
                o.syms.extend(old);
                for r in &mut o.rels {
                    r.sym = r.sym.saturating_add(n as u16);
                }
            }
        }
        _ => {
            let u = gen_user(t, true, 12);
            o = u.obj.clone();
            let at = u.code.places(u.base);
            for (i, l) in u.code.labels.iter().enumerate() {
                let loc = l.map(|k| at[k]).filter(|l| t.chance(3, 4) && !o.syms.iter().any(|s| s.loc == *l));
                if let Some(loc) = loc {
                    o.syms.push(Sym { name: format!("l{i}"), global: t.chance(1, 3), seg: TEXT, loc });
                }
            }
            let mut p = u.base;
            for (k, (f, v)) in u.code.ins.iter().enumerate() {
                p = p.max(at[k]);
                for x in v {
                    if let V::L(l) = x {
                        let loc = at[k] + f.len() as u16 - 2;
                        if let Some(s) = o.syms.iter().position(|s| s.name == format!("l{l}")) {
                            o.rels.push(Rel { seg: TEXT, loc, sym: s as u16 });
                        }
                    }
                }
            }
        }
    }
    // names that can be told from the rest of the dump
    for s in &mut o.syms {
        s.name.retain(|c| !c.is_control());
        s.name = s.name.trim().to_string();
    }
    o.syms.truncate(60);
    // (which page an empty segment within a page belongs to is not settled)
    for s in o.segs.values_mut().filter(|s| s.1.is_empty()) {
        s.0 &= !127;
    }
    // one relocation for each place
    let mut seen = std::collections::BTreeSet::new();
    o.rels.truncate(60);
    o.rels.retain(|r| seen.insert(r.loc));
    o
}

#[derive(Debug)]
enum Item {
    Ins(u16, usize),
    Data,
    Unmapped,
    Dots(String),
}

struct Block {
    head: String,
    items: Vec<Item>,
    /// ended by an empty line, not by the next label
    closed: bool,
}

struct Look<'o> {
    o: &'o Obj,
    cpu: Cpu,
    mem: std::cell::RefCell<Mem>,
}

impl Look<'_> {
    /// bytes of the instruction, or what fetching it reports
    fn fetch(&self, a: u16) -> Result<Vec<u8>, Vec<u8>> {
        let mut b = vec![];
        let mut n = 1;
        while b.len() < n {
            b.push(interp::read(&self.cpu, &mut *self.mem.borrow_mut(), a.wrapping_add(b.len() as u16), Acc::X)?);
            n = isa::op_len(b[0]).unwrap_or(1);
        }
        Ok(b)
    }
    fn name(&self, id: usize) -> String {
        match self.o.syms.get(id) {
            _ if id == self.o.syms.len() => ".entry".into(),
            Some(s) if !s.name.is_empty() => s.name.clone(),
            _ => format!("@L{id}"),
        }
    }
    fn loc(&self, id: usize) -> u16 {
        self.o.syms.get(id).map_or_else(|| self.o.entry.unwrap().1, |s| s.loc)
    }
    /// symbols, and the entry after them
    fn ids(&self) -> std::ops::Range<usize> {
        0..self.o.syms.len() + self.o.entry.is_some() as usize
    }
    fn named(&self, a: u16) -> Vec<String> {
        self.ids().filter(|i| self.loc(*i) == a).map(|i| self.name(i)).collect()
    }
    fn undefined(&self, id: usize) -> bool {
        self.o.syms.get(id).is_some_and(|s| s.seg == UNKNOWN && s.global)
    }
    /// instructions reachable from there in line, and what is referred to by name
    fn reach(&self, start: impl Iterator<Item = usize>, loose: bool) -> (std::collections::BTreeSet<u16>, std::collections::BTreeSet<u16>) {
        let mut ins = std::collections::BTreeSet::new();
        let mut todo: Vec<u16> = start.map(|i| self.loc(i)).collect();
        let mut heads: std::collections::BTreeSet<u16> = todo.iter().copied().collect();
        while let Some(mut a) = todo.pop() {
            loop {
                let Ok(b) = self.fetch(a) else { break };
                if !ins.insert(a) {
                    break;
                }
                // (the register jump has an immediate without a meaning)
                let unused = (loose && b[0] == 0x40).then(|| u16::from_le_bytes([b[2], b[3]]));
                let imm = isa::decode(&b).and_then(|(f, v)| (f.imm() == Some(K::Iw)).then(|| v[f.ops.iter().position(|k| *k == K::Iw).unwrap()])).or(unused);
                if let Some(w) = imm {
                    if !self.named(w).is_empty() && heads.insert(w) {
                        todo.push(w);
                    }
                }
                if isa::op_len(b[0]).is_none() || isa::decode(&b).is_some_and(|d| d.0.ends_block()) {
                    break;
                }
                a = a.wrapping_add(b.len() as u16);
                if !self.named(a).is_empty() {
                    heads.insert(a);
                }
            }
        }
        (ins, heads)
    }
}

/// the disassembly part of the dump of one object
fn check_disassembly(lines: &[&str], o: &Obj, from: Option<&[usize]>, relocs: bool) -> R {
    let mut cpu = Cpu { pc: 0, ..Cpu::default() };
    let mut mem = Mem::new(0);
    load(o, &mut cpu, &mut mem);
    let look = Look { o, cpu, mem: mem.into() };
    // invalid encodings make it unclear what belongs to what
    let mut blocks: Vec<Block> = vec![];
    let mut pending: Vec<(String, u16)> = vec![];
    let mut open = false;
    for l in lines {
        if l.is_empty() {
            if let Some(b) = blocks.last_mut() {
                b.closed = true;
            }
            open = false;
        } else if let Some(h) = l.strip_prefix('<').and_then(|l| l.strip_suffix(">:")) {
            blocks.push(Block { head: h.into(), items: vec![], closed: false });
            open = true;
        } else {
            ensure!(open, "line {l:?} belongs to no label");
            let b = blocks.last_mut().unwrap();
            if let Some(d) = l.strip_prefix('<').and_then(|l| l.strip_suffix("> ...")) {
                b.items.push(Item::Dots(d.into()));
            } else if let Some(r) = l.trim_start().strip_prefix("RELOC: ") {
                let (n, a) = r.rsplit_once(" @ 0x").ok_or_else(|| format!("strange line {l:?}"))?;
                pending.push((n.to_string(), u16::from_str_radix(a, 16).map_err(|_| format!("strange line {l:?}"))?));
            } else if l.trim() == "data" {
                b.items.push(Item::Data);
            } else if l.trim() == "unmapped data" {
                b.items.push(Item::Unmapped);
            } else {
                let a = l.split(':').next().unwrap().trim();
                let a = u16::from_str_radix(a, 16).map_err(|_| format!("strange line {l:?}"))?;
                let bytes = look.fetch(a).map_err(|m| format!("line {l:?}, but fetching there reports {}", crate::rig::names(&m)))?;
                let (_, got, text) = parts(l, bytes.len())?;
                ensure!(got == bytes, "line {l:?}, but the bytes are {}", hex(&bytes));
                if let Some((f, v)) = isa::decode(&bytes) {
                    // any of the names will do
                    let imm = f.ops.iter().position(|k| *k == K::Iw).map(|i| v[i]);
                    let names = imm.map(|w| look.named(w)).unwrap_or_default();
                    if names.is_empty() {
                        check_text(&text, f, &v, |_| None)?;
                    } else {
                        let mut r = vec![];
                        for n in &names {
                            r.push(check_text(&text, f, &v, |_| Some(n.clone())));
                        }
                        if imm.is_some_and(|w| look.ids().filter(|i| look.loc(*i) == w).all(|i| look.undefined(i))) {
                            r.push(check_text(&text, f, &v, |_| None));
                        }
                        if r.iter().all(|r| r.is_err()) {
                            return r.swap_remove(0);
                        }
                    }
                }
                if relocs {
                    let mut want: Vec<(String, u16)> = o.rels.iter().filter(|r| r.loc.wrapping_sub(a) < bytes.len() as u16).map(|r| (look.name(r.sym as usize), r.loc)).collect();
                    want.sort();
                    pending.sort();
                    ensure!(pending == want, "relocations {pending:x?} at {l:?}, expected {want:x?}");
                } else {
                    ensure!(pending.is_empty(), "relocations were not asked for");
                }
                pending.clear();
                b.items.push(Item::Ins(a, bytes.len()));
            }
        }
    }
    ensure!(pending.is_empty(), "relocations {pending:x?} outside instructions");
    // the structure
    let mut printed = std::collections::BTreeSet::new();
    let mut heads: Vec<u16> = vec![];
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    let mut next: Option<u16> = None;
    for (i, b) in blocks.iter().enumerate() {
        let locs: Vec<u16> = look.ids().filter(|id| look.name(*id) == b.head).map(|id| look.loc(id)).collect();
        ensure!(!locs.is_empty(), "label {:?} is no symbol", b.head);
        *names.entry(b.head.clone()).or_default() += 1;
        ensure!(names[&b.head] <= locs.len(), "the block of {:?} is repeated", b.head);
        let mut at = match b.items.first() {
            Some(Item::Ins(a, _)) => *a,
            _ => match next {
                Some(n) => n,
                // (several of the same name: any that suits)
                None => *locs.iter().find(|l| look.fetch(**l).is_err_and(|m| m.iter().any(|m| [L1FAULT, L2FAULT].contains(m) == matches!(b.items.first(), Some(Item::Unmapped))))).ok_or_else(|| format!("nothing after label {:?}, but there are instructions", b.head))?,
            },
        };
        ensure!(locs.contains(&at), "{at:04x} follows label {:?}, which is at {locs:x?}", b.head);
        if let Some(n) = next {
            ensure!(at == n, "{at:04x} follows label {:?}, which {n:04x} ran into", b.head);
        }
        heads.push(at);
        if !matches!(b.items.first(), Some(Item::Ins(..))) {
            // several of the same name
            heads.extend(locs.iter().filter(|l| look.fetch(**l).is_err()));
        }
        let mut ended = false;
        for it in &b.items {
            ensure!(!ended, "label {:?}: {it:?} after the end of the block", b.head);
            match it {
                Item::Ins(a, n) => {
                    ensure!(*a == at, "label {:?}: {a:04x} where {at:04x} was expected", b.head);
                    ensure!(*a == locs_start(b) || look.named(*a).is_empty(), "the label before {a:04x} is missing");
                    printed.insert(*a);
                    let bytes = look.fetch(*a).unwrap();
                    match isa::decode(&bytes) {
                        Some((f, _)) => ended = f.ends_block(),
                        None if isa::op_len(bytes[0]).is_none() => ended = true,
                        None => (),
                    }
                    at = at.wrapping_add(*n as u16);
                }
                Item::Data | Item::Unmapped => {
                    let Err(m) = look.fetch(at) else { return Err(format!("label {:?}: {it:?} at {at:04x}, where there is an instruction", b.head)) };
                    // several things may be wrong
                    let right = m.iter().any(|m| [L1FAULT, L2FAULT].contains(m) == matches!(it, Item::Unmapped));
                    ensure!(right, "label {:?}: {it:?} at {at:04x}, where fetching reports {}", b.head, crate::rig::names(&m));
                    ended = true;
                }
                Item::Dots(d) => {
                    ensure!(look.named(at).contains(d), "block {:?} ends at {at:04x} with {d:?}, which is somewhere else", b.head);
                    ensure!(blocks[..i + 1].iter().any(|x| x.head == *d), "block {:?} refers to {d:?}, which was not printed before", b.head);
                    ended = true;
                }
            }
        }
        if ended {
            ensure!(b.closed, "label {:?}: the block does not end", b.head);
            next = None;
        } else {
            ensure!(!b.closed, "block {:?} ends before {at:04x} for no reason", b.head);
            next = Some(at);
        }
    }
    ensure!(next.is_none(), "the dump ends in the middle of a block");
    // the extent
    let globals: Vec<usize> = match from {
        Some(f) => f.to_vec(),
        None => look.ids().filter(|i| o.syms.get(*i).is_none_or(|s| s.global)).collect(),
    };
    let (most, _) = look.reach(globals.iter().copied(), true);
    let (least, need) = look.reach(globals.iter().copied().filter(|i| from.is_some() || !look.undefined(*i)), false);
    if let Some(a) = least.difference(&printed).next() {
        return Err(format!("the instruction at {a:04x} is reachable, but missing"));
    }
    if let Some(a) = printed.difference(&most).next() {
        return Err(format!("the instruction at {a:04x} was not asked for"));
    }
    for a in need {
        if !look.ids().filter(|i| look.loc(*i) == a).all(|i| look.undefined(i)) {
            ensure!(heads.contains(&a), "the label {:?} at {a:04x} is missing", look.named(a));
        }
    }
    for g in globals {
        ensure!(look.undefined(g) || names.contains_key(&look.name(g)), "no block for {:?}", look.name(g));
    }
    Ok(())
}

fn locs_start(b: &Block) -> u16 {
    match b.items.first() {
        Some(Item::Ins(a, _)) => *a,
        _ => 0,
    }
}

fn check_symbols(lines: &[&str], o: &Obj) -> R {
    let mut got = vec![];
    for l in lines {
        let bad = || format!("strange line {l:?}");
        let (vis, rest) = l.trim_start().split_once(' ').ok_or_else(bad)?;
        let global = match vis {
            "GLOBAL" => true,
            "local" => false,
            _ => return Err(bad()),
        };
        let (name, what) = rest.rsplit_once(" = ").ok_or_else(bad)?;
        let hexa = |s: &str| u16::from_str_radix(s.strip_prefix("0x").unwrap_or("?"), 16).map_err(|_| bad());
        let (seg, loc) = match what.strip_prefix("UNDEFINED (") {
            Some(w) => ("undefined".to_string(), hexa(w.trim_end_matches(')'))?),
            None => {
                let (a, s) = what.split_once(" in ").ok_or_else(bad)?;
                (s.to_string(), hexa(a)?)
            }
        };
        got.push((name.trim().to_string(), global, seg.trim_start_matches('.').to_string(), loc));
    }
    let mut want: Vec<_> = o.syms.iter().map(|s| (s.name.clone(), s.global, if s.seg == UNKNOWN { "undefined" } else { kind_name(s.seg) }.to_string(), s.loc)).collect();
    got.sort();
    want.sort();
    if got != want {
        let miss: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
        let more: Vec<_> = got.iter().filter(|w| !want.contains(w)).collect();
        return Err(format!("symbols {more:x?} are listed, expected {miss:x?} ({} of {})", got.len(), want.len()));
    }
    Ok(())
}

fn t02(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let mut files: Vec<(String, Vec<Obj>)> = vec![];
    let mut bad = 0;
    let mut objs = 0;
    let nf = if t.chance(1, 60) { t.size(6, 24) } else { t.size(1, 3) };
    let naming = cli::naming(t, false);
    for i in 0..nf {
        let p = naming(&format!("{}{i}.{}", t.pick(&["o", "lib", "prog"]), t.pick(&["to", "savn", "x"])));
        let path = cli::file(&dir, &p);
        match t.below(8) {
            0 => {
                // no object
                bad += 1;
                match t.below(4) {
                    0 => (),
                    1 => std::fs::write(&path, b"not an object\n").unwrap(),
                    2 => {
                        let b = dump_obj(t).bytes();
                        let n = t.size(0, b.len() - 1);
                        std::fs::write(&path, &b[..n]).unwrap();
                    }
                    _ => {
                        let b = archive(&[dump_obj(t).bytes(), dump_obj(t).bytes()]);
                        std::fs::write(&path, &b[..b.len() - 1 - t.size(0, 20)]).unwrap();
                    }
                }
                files.push((p, vec![]));
            }
            1 | 2 => {
                let ms: Vec<Obj> = if t.chance(1, 12) {
                    // many, mostly small ones
                    let n = t.size(4, 40);
                    (0..n).map(|_| if t.chance(1, 8) { dump_obj(t) } else { tiny_obj(t) }).collect()
                } else {
                    (0..t.size(1, 3)).map(|_| dump_obj(t)).collect()
                };
                objs += ms.len();
                std::fs::write(&path, archive(&ms.iter().map(|m| m.bytes()).collect::<Vec<_>>())).unwrap();
                files.push((p, ms));
            }
            _ => {
                let mut o = if nf > 3 && t.chance(3, 4) { tiny_obj(t) } else { dump_obj(t) };
                if t.chance(1, 6) {
                    o.prefix = b"#!/usr/bin/env t\n".to_vec();
                }
                objs += 1;
                std::fs::write(&path, o.bytes()).unwrap();
                files.push((p, vec![o]));
            }
        }
    }
    let mut args: Vec<String> = vec![];
    let syms = t.bool();
    let dis = !syms || t.chance(3, 4);
    let relocs = dis && t.bool();
    let mut from: Option<Vec<String>> = None;
    if syms {
        args.push(t.pick(&["-t", "--syms"]).to_string());
    }
    if dis {
        args.push(t.pick(&["-d", "--disassemble"]).to_string());
        if t.chance(1, 4) {
            let all: Vec<String> = files.iter().flat_map(|f| &f.1).flat_map(|o| &o.syms).map(|s| s.name.clone()).filter(|n| !n.is_empty() && !n.contains(',') && !n.starts_with('-')).collect();
            let mut l: Vec<String> = vec![];
            let n = if t.chance(1, 10) { t.size(4, 24) } else { t.size(1, 3) };
            for _ in 0..n {
                l.push(if all.is_empty() || t.chance(1, 5) { "missing".into() } else { t.pick(&all).clone() });
            }
            args.extend(["-D".to_string(), l.join(t.pick(&[",", ", "]))]);
            from = Some(l);
        }
    }
    if relocs {
        args.push(t.pick(&["-R", "--show-relocations"]).to_string());
    }
    args.extend(files.iter().map(|f| f.0.clone()));
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let out = cli::run(&ctx.bin, "tobjdump", &dir, &a)?;
    let what = |e: String| format!("tobjdump {}: {e}; {}", args.join(" "), files.iter().flat_map(|f| f.1.iter().map(move |o| format!("\n  {}: {}", f.0, o.brief()))).collect::<String>());
    if out.crashed() {
        return Err(what(format!("crashed: {}", out.brief())));
    }
    let text = String::from_utf8(out.stdout.clone()).map_err(|_| what("the output is not UTF-8".into()))?;
    let mut heads: Vec<(String, &Obj)> = vec![];
    for (p, os) in &files {
        for (i, o) in os.iter().enumerate() {
            let magic = std::fs::read(dir.join(p)).unwrap();
            heads.push((if magic.starts_with(SAVN) { format!("{p}.{}:", i + 1) } else { format!("{p}:") }, o));
        }
    }
    let lines: Vec<&str> = text.lines().collect();
    let mut at = 0;
    let mut missing = false;
    for (i, (h, o)) in heads.iter().enumerate() {
        let err = |e: String| what(format!("{h} {e}\n{text}"));
        if lines.get(at) != Some(&h.as_str()) {
            return Err(err(format!("is not where it should be, but {:?}", lines.get(at))));
        }
        at += 1;
        let end = match heads.get(i + 1) {
            Some((n, _)) => at + lines[at..].iter().position(|l| *l == n.as_str()).ok_or_else(|| err(format!("is not followed by {n}")))?,
            None => lines.len(),
        };
        let mut part = &lines[at..end];
        at = end;
        let cut = part.iter().position(|l| *l == "disassembly:");
        if let Some(c) = cut {
            if !dis {
                return Err(err("was disassembled, but that was not asked for".into()));
            }
            let mut starts = vec![];
            for n in from.iter().flatten() {
                match o.syms.iter().position(|s| s.name == *n) {
                    Some(i) => starts.push(i),
                    None => missing = true,
                }
            }
            check_disassembly(&part[c + 1..], o, from.as_ref().map(|_| &starts[..]), relocs).map_err(err)?;
            part = &part[..c];
        } else if dis {
            return Err(err("was not disassembled".into()));
        }
        let listed: Vec<&str> = part.iter().copied().filter(|l| l.starts_with(' ')).collect();
        if syms {
            check_symbols(&listed, o).map_err(err)?;
        } else if !listed.is_empty() {
            return Err(err("lists symbols that were not asked for".into()));
        }
    }
    if at != lines.len() {
        return Err(what(format!("more output than expected: {:?}", lines[at])));
    }
    if out.ok() == (bad > 0 || missing) {
        return Err(what(format!("{bad} files cannot be read, {}all symbols exist, but the exit status is {:?}", if missing { "not " } else { "" }, out.code)));
    }
    if bad > 0 && out.stderr.trim().is_empty() {
        return Err(what("an unreadable file was not reported".into()));
    }
    let ins = text.lines().filter(|l| l.starts_with("  ") && l.contains(":  ")).count();
    if objs > 0 && (!dis || ins >= 3) && (!syms || heads.iter().any(|h| !h.1.syms.is_empty())) {
        ctx.nontrivial();
    }
    if relocs && text.contains("RELOC") {
        ctx.label("relocations shown");
    }
    if text.contains("> ...") {
        ctx.label("joins an earlier block");
    }
    if bad > 0 {
        ctx.label("unreadable files");
    }
    if from.is_some() {
        ctx.label("from given symbols");
    }
    if text.contains("unmapped data") {
        ctx.label("unmapped data");
    } else if text.contains("  data\n") {
        ctx.label("data");
    }
    ctx.label(if syms && dis { "both" } else if syms { "symbols" } else { "disassembly" });
    ctx.sample(|| format!("tobjdump {}: {} lines", args.join(" "), lines.len()));
    Ok(())
}

// ------------------------------------------------------------------ T03

#[derive(Clone)]
struct Session {
    r: Ref,
    /// calls less returns
    depth: i64,
    /// what the program wrote: complete lines, and the last one
    lines: Vec<Vec<u8>>,
    line: Vec<u8>,
    /// input lines that were delivered
    fed: usize,
    fed_bytes: usize,
}

enum Stop {
    Prompt,
    End(End),
    /// wants input when there is no more
    Starved,
    /// cannot be predicted, or takes too long
    Lost,
}

/// what is expected after a command
enum Ans {
    /// nothing on standard output
    Nothing,
    Reg(&'static str, Option<u16>),
    Flags(Fl),
    Mem(Vec<Result<u8, Vec<u8>>>),
    /// stepping: output lines, then where it stands, or how it ended
    Step { lines: Vec<Vec<u8>>, at: Option<Box<(u16, Ref)>>, end: Option<Vec<u8>>, rest: Vec<u8> },
}

fn code_at(r: &Ref, a: u16) -> Result<Vec<u8>, Vec<u8>> {
    let mut mem = r.mem.clone();
    let mut b = vec![];
    let mut n = 1;
    while b.len() < n {
        b.push(interp::read(&r.cpu, &mut mem, a.wrapping_add(b.len() as u16), Acc::X)?);
        n = isa::op_len(b[0]).unwrap_or(1);
    }
    Ok(b)
}

impl Session {
    /// until the depth is the one asked for
    fn go(&mut self, target: impl Fn(i64, i64) -> i64, input: &[Vec<u8>], script: &mut Vec<Vec<u8>>, budget: &mut i32) -> Stop {
        let mut goal = None;
        loop {
            *budget -= 1;
            if *budget < 0 {
                return Stop::Lost;
            }
            let diff = match code_at(&self.r, self.r.cpu.pc).ok().and_then(|b| isa::decode(&b)).map(|d| d.0.sem) {
                Some(Sem::Call) => 1,
                Some(Sem::Ret) => -1,
                _ => 0,
            };
            let goal = *goal.get_or_insert(target(self.depth, self.depth + diff));
            let n = self.r.mem.io.len();
            let end = self.r.step();
            if self.r.vague || self.r.mem.port_tables.get() {
                return Stop::Lost;
            }
            if self.r.mem.inputs as usize > self.fed_bytes {
                let Some(l) = input.get(self.fed) else { return Stop::Starved };
                self.fed += 1;
                self.fed_bytes += l.len();
                script.push(l.clone());
            }
            for (w, _, b) in &self.r.mem.io[n..] {
                if *w && *b == b'\n' {
                    self.lines.push(std::mem::take(&mut self.line));
                } else if *w {
                    self.line.push(*b);
                }
            }
            if let Some(e) = end {
                return Stop::End(e);
            }
            self.depth += diff;
            if self.depth == goal {
                return Stop::Prompt;
            }
        }
    }
}

fn addr_text(t: &mut Tape, a: u16) -> String {
    match if t.chance(1, 12) { 6 + t.below(3) } else { t.below(6) } {
        6 => format!("0x{a:024x}"),
        7 => format!("{a:09}"),
        8 => format!("0b{a:040b}"),
        0 => format!("{a}"),
        1 => format!("0o{a:o}"),
        2 => format!("0b{a:b}"),
        3 => format!("0x{a:X}"),
        4 => format!("0x{a:04x}"),
        _ => format!("0x{a:x}"),
    }
}

/// what cannot be debugged
fn flag_names(x: &str, flags: &[(bool, &str)]) -> R {
    let got: Vec<&str> = x.split('|').map(|s| s.trim()).collect();
    let mut want: Vec<&str> = flags.iter().filter(|f| f.0).map(|f| f.1).collect();
    if want.is_empty() {
        want.push("0");
    }
    let (mut a, mut b) = (got.clone(), want.clone());
    a.sort();
    b.sort();
    ensure!(a == b, "flags {got:?}, expected {want:?}");
    Ok(())
}

/// every set of flags as it is shown
fn t03_enum(ctx: &mut Ctx, shard: usize, shards: usize) -> R {
    for n in (0..256u32).filter(|n| *n as usize % shards == shard) {
        let b = |i: u32| n >> i & 1 == 1;
        let f = telda2::blf4::Blf4Flags { user_mode: b(0), trap: b(1), reserved: b(2), virtual_mode: b(3), carry: b(4), sign: b(5), overflow: b(6), zero: b(7) };
        let text = guarded(|| f.to_string())?;
        flag_names(&text, &[(b(7), "zero"), (b(6), "overflow"), (b(5), "sign"), (b(4), "carry"), (b(3), "vm"), (b(0), "user")]).map_err(|e| format!("{f:?} is shown as {text:?}: {e}"))?;
        ctx.enumerated(1, 1);
    }
    Ok(())
}

fn t03_refused(t: &mut Tape, ctx: &mut Ctx, dir: &std::path::Path) -> R {
    let mut o = gen_user(t, false, 4).obj;
    let mut args = vec!["p.to"];
    let mut b = vec![];
    let what = t.below(5);
    match what {
        3 => {
            // no such symbol, or one that is somewhere else
            if t.bool() {
                o.syms.push(Sym { name: "far".into(), global: true, seg: UNKNOWN, loc: *t.pick(&[0xfaff, 0x80]) });
            }
            args.extend(["-E", *t.pick(&["far", "nowhere", "80", "", "far ", "FAR"])]);
            if t.bool() {
                o.entry = None;
            }
            b = o.bytes();
        }
        0 => {
            args.extend(["-E", *t.pick(&["0x", "0xg", "0x10000", "0x-1", "0x 1", "0x12345678", "0x80h"])]);
            if t.bool() {
                o.entry = None;
            }
            b = o.bytes();
        }
        1 => {
            b = o.bytes();
            let n = t.size(0, b.len() - 1);
            b.truncate(n);
        }
        2 => b = (0..t.size(0, 60)).map(|_| t.u8()).collect(),
        _ => (),
    }
    if what < 4 {
        std::fs::write(dir.join("p.to"), &b).unwrap();
    }
    let out = cli::run_in(&ctx.bin, "tdbg", dir, &args, b"n\nn\nq\n")?;
    ensure!(out.clean_failure() && !out.stderr.is_empty() && out.stdout.is_empty(), "tdbg {args:?} ({what}) was not refused: {}", out.brief());
    ctx.label("refused");
    ctx.nontrivial();
    Ok(())
}

fn t03(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    if t.chance(1, 32) {
        return t03_refused(t, ctx, &dir);
    }
    let mut u = gen_user(t, true, 16);
    // deep: that many steps into calls or out of them first
    let mut deep = 0;
    if t.chance(1, 50) {
        let n = *t.pick(&[20usize, 120, 126, 130, 250, 258, 300]) + t.below(5) as usize;
        let call = t.bool();
        u = User { obj: Obj::default(), code: gen_chain(t, n, call), base: 0x80 };
        u.obj.segs.insert(TEXT, (0x80, u.code.encode(0x80)));
        u.obj.entry = Some((TEXT, 0x80));
        deep = 10 + if call { n } else { 2 * n } - t.below(4) as usize;
        ctx.label("deep");
    }
    // or in one step through a long program
    let spin = deep == 0 && t.chance(1, 100);
    if spin {
        let base = 0x80 * t.range(0, 300) as u16 + t.below(3) as u16;
        u = User { obj: Obj::default(), code: gen_spin(t, false), base };
        u.obj.segs.insert(TEXT, (base, u.code.encode(base)));
        u.obj.entry = Some((TEXT, base));
        ctx.label("long");
    }
    let mut o = u.obj.clone();
    let at = u.code.places(u.base);
    for (i, l) in u.code.labels.iter().enumerate() {
        if let Some(k) = l.filter(|_| t.chance(3, 4)) {
            o.syms.push(Sym { name: format!("l{i}"), global: t.chance(1, 3), seg: TEXT, loc: at[k] });
        }
    }
    let name = cli::naming(t, true)("p.to");
    let mut args: Vec<String> = vec![name.clone()];
    if t.chance(1, 6) {
        // the entry given on the command line
        let e = o.entry.take().unwrap();
        if t.bool() {
            args.extend(["-E".to_string(), format!("0x{:x}", e.1)]);
        } else {
            let global = t.bool();
            o.syms.push(Sym { name: "begin".into(), global, seg: e.0, loc: e.1 });
            // others of that name that are not meant: local ones, if there is a global one or an earlier one
            for _ in 0..t.size(0, 2) {
                let other = Sym { name: t.pick(&["begin", "begin", "Begin", "begin2"]).to_string(), global: false, seg: e.0, loc: e.1.wrapping_add(t.range(1, 9) as u16) };
                let at = if global && t.bool() { 0 } else { o.syms.len() };
                o.syms.insert(at, other);
            }
            args.extend(["--entry".to_string(), "begin".into()]);
        }
        if t.bool() {
            o.entry = Some((e.0, e.1 + 4));
        }
    }
    if t.chance(1, 4) {
        o.prefix = b"#!/usr/bin/env t\n".to_vec();
    }
    std::fs::write(cli::file(&dir, &name), o.bytes()).unwrap();
    let input: Vec<Vec<u8>> = (0..t.size(0, 8))
        .map(|_| {
            let mut l: Vec<u8> = (0..t.size(0, 6)).map(|_| t.b8()).filter(|b| *b != b'\n').collect();
            l.push(b'\n');
            l
        })
        .collect();
    let mut r = Ref::user(&o);
    r.cpu.pc = u.base;
    r.mem.feed = Some(input.concat().into());
    let mut s = Session { r, depth: 0, lines: vec![], line: vec![], fed: 0, fed_bytes: 0 };
    let mut script: Vec<Vec<u8>> = vec![];
    let mut answers: Vec<(String, Ans)> = vec![];
    let mut budget = if spin { 2_000_000 } else { 1500 };
    let start = s.r.clone();
    let mut starved = false;
    let mut open = true;
    let (mut steps, mut looks) = (0, 0);
    let areas: Vec<u16> = o.segs.values().flat_map(|(a, b)| [*a, a.wrapping_add(b.len() as u16).wrapping_sub(1)]).chain([0xffff, 0xff00, s.r.cpu.rs]).collect();
    for k in 0..deep + t.size(3, 40) {
        let mut cmd;
        match if k < deep || spin && k < 4 { 0 } else { t.below(16) } {
            0..=6 => {
                let saved = (s.clone(), script.clone(), budget);
                let (words, target): (&[&str], fn(i64, i64) -> i64) = match if k < deep { 0 } else if spin && k < 4 { 7 } else { t.below(8) } {
                    0..=3 => (&["si", "in", "stepin"], |_, n| n),
                    4..=6 => (&["n", "next"], |c, _| c),
                    _ => (&["so", "out", "stepout"], |c, _| c - 1),
                };
                cmd = t.pick(words).to_string();
                if k >= deep && t.chance(1, 6) {
                    cmd = format!("  {cmd} \t");
                }
                script.push(format!("{cmd}\n").into_bytes());
                let before = s.lines.len();
                let stop = s.go(target, &input, &mut script, &mut budget);
                let new = s.lines[before..].to_vec();
                match stop {
                    Stop::Lost => {
                        (s, script, _) = saved;
                        // (nothing more can be said)
                        script.push(b"q\n".to_vec());
                        answers.push(("q".into(), Ans::Step { lines: vec![], at: None, end: None, rest: s.line.clone() }));
                        open = false;
                        break;
                    }
                    Stop::Prompt => answers.push((cmd, Ans::Step { lines: new, at: Some(Box::new((s.r.cpu.pc, s.r.clone()))), end: None, rest: vec![] })),
                    Stop::End(e) => {
                        answers.push((cmd, Ans::Step { lines: new, at: None, end: Some(e.modes), rest: s.line.clone() }));
                        open = false;
                    }
                    Stop::Starved => {
                        answers.push((cmd, Ans::Step { lines: new, at: None, end: None, rest: s.line.clone() }));
                        starved = true;
                        open = false;
                    }
                }
                steps += 1;
                if !open {
                    break;
                }
                continue;
            }
            7 | 8 => {
                let n = t.below(16) as u16;
                cmd = isa::BREGS[n as usize].to_string();
                let general = (n as u32 + 1) / 2;
                let known = if n < 11 { general <= s.r.steps } else { (n as u32 - 5) <= s.r.steps };
                answers.push((cmd.clone(), Ans::Reg(isa::BREGS[n as usize], known.then(|| s.r.cpu.b(n) as u16))));
            }
            9 | 10 => {
                let n = t.below(16) as u16;
                let name = isa::WREGS[n as usize];
                cmd = name.to_string();
                // (the page table is placed by the loader)
                let known = name != "rp" && (n > 10 || n as u32 <= s.r.steps);
                answers.push((cmd.clone(), Ans::Reg(name, known.then(|| s.r.cpu.w(n)))));
            }
            11 => {
                if t.bool() {
                    cmd = "rpc".into();
                    answers.push((cmd.clone(), Ans::Reg("pc", Some(s.r.cpu.pc))));
                } else {
                    cmd = "flags".into();
                    answers.push((cmd.clone(), Ans::Flags(s.r.cpu.f)));
                }
            }
            12 | 13 => {
                let a = if t.chance(1, 4) { t.u16() } else { t.pick(&areas).wrapping_add(t.below(4) as u16).wrapping_sub(1) };
                cmd = format!("r {}", addr_text(t, a));
                let mut mem = s.r.mem.clone();
                let bytes = [a, a.wrapping_add(1)].map(|a| interp::read(&s.r.cpu, &mut mem, a, Acc::R)).to_vec();
                answers.push((cmd.clone(), Ans::Mem(bytes)));
            }
            14 => {
                cmd = t.pick(&["", "x", "help", "r", "r zz", "r 0x10000", "r 65536", "r -1", "g", "g 0x", "g nowhere", "g 99999", "r11", "R1", "r 0o9", "g 0o8", "r 0b2", "g 0b12", "r 0o", "g 0b", "r 0o200000", "r 0b10000000000000000", "g 0x10000", "si 3", "n n", "\u{e9}", "r 0xg", "quit now", "+tdgb", "r 0x80 0x81"]).to_string();
                if t.chance(1, 12) {
                    // long ones
                    let n = *t.pick(&[30usize, 63, 64, 255, 256, 1023, 1024, 4096, 9000, 70000]) + t.below(3) as usize;
                    cmd = t.pick(&["s", "0", "z", "si ", "\u{e9}"]).repeat(n);
                    if t.bool() {
                        cmd.insert_str(0, *t.pick(&["r 0x1", "g 0x1", "x"]));
                    }
                }
                if t.chance(1, 8) {
                    script.push(vec![0xff, 0xfe, b' ', 0x80, b'\n']);
                    answers.push(("not UTF-8".into(), Ans::Nothing));
                    continue;
                }
                answers.push((cmd.clone(), Ans::Nothing));
            }
            _ => {
                // registers have values by then
                if s.r.steps < 10 {
                    continue;
                }
                let a = if t.chance(1, 3) { t.b16() } else { *t.pick(&at) };
                cmd = format!("g {}", addr_text(t, a));
                s.r.cpu.pc = a;
                answers.push((cmd.clone(), Ans::Step { lines: vec![], at: Some(Box::new((a, s.r.clone()))), end: None, rest: vec![] }));
            }
        }
        looks += 1;
        script.push(format!("{cmd}\n").into_bytes());
    }
    if open && !starved && t.bool() {
        let q = *t.pick(&["q", "quit", " q "]);
        script.push(format!("{q}\n").into_bytes());
        answers.push((q.into(), Ans::Step { lines: vec![], at: None, end: None, rest: s.line.clone() }));
    } else if open {
        // the end of the commands
        if t.bool() {
            if let Some(l) = script.last_mut().filter(|l| l.len() > 1) {
                l.pop();
            }
        }
        answers.push(("(end)".into(), Ans::Step { lines: vec![], at: None, end: None, rest: s.line.clone() }));
    }
    let stdin = script.concat();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let out = cli::run_in(&ctx.bin, "tdbg", &dir, &a, &stdin)?;
    let what = |e: String| format!("tdbg {} with commands {:?}: {e}; {}", args.join(" "), String::from_utf8_lossy(&stdin), o.brief());
    if out.crashed() {
        return Err(what(format!("crashed: {}", out.brief())));
    }
    if starved && out.ok() {
        return Err(what("the program wants input and there is none, but the exit status is a success".into()));
    }
    let chunks = split(&out.stdout, b"+tdgb> ");
    let err = |e: String| what(format!("{e}\n{}", out.out()));
    if chunks.len() != answers.len() + 1 {
        return Err(err(format!("{} prompts for {} commands", chunks.len() - 1, answers.len())));
    }
    check_stand(&chunks[0], &o, u.base, &start).map_err(err)?;
    for (c, (cmd, ans)) in chunks[1..].iter().zip(&answers) {
        check_answer(c, ans, &o).map_err(|e| err(format!("after {cmd:?}: {e}")))?;
    }
    if steps >= 2 && looks >= 1 {
        ctx.nontrivial();
    }
    if starved {
        ctx.label("starved of input");
    }
    if answers.iter().any(|a| matches!(a.1, Ans::Step { end: Some(_), .. })) {
        ctx.label("to the end");
    }
    if !s.lines.is_empty() || !s.line.is_empty() {
        ctx.label("with output");
    }
    if s.fed > 0 {
        ctx.label("with input");
    }
    ctx.sample(|| format!("{} steps, {} instructions: {}", steps, s.r.steps, answers.iter().take(12).map(|a| a.0.as_str()).collect::<Vec<_>>().join(", ")));
    Ok(())
}

fn split(b: &[u8], at: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut rest = b;
    while let Some(i) = find(rest, at) {
        v.push(rest[..i].to_vec());
        rest = &rest[i + at.len()..];
    }
    v.push(rest.to_vec());
    v
}

/// the place, as shown
fn check_stand(chunk: &[u8], o: &Obj, pc: u16, r: &Ref) -> R {
    let text = String::from_utf8_lossy(chunk);
    let start = format!("{pc:04x}:");
    let i = text.lines().position(|l| l.trim_start().starts_with(&start)).ok_or_else(|| format!("the instruction at {pc:04x} is not shown: {text:?}"))?;
    let l = text.lines().nth(i).unwrap();
    let named: Vec<&str> = o.syms.iter().filter(|s| s.loc == pc).map(|s| s.name.as_str()).collect();
    if !named.is_empty() {
        let ok = i > 0 && named.iter().any(|n| text.lines().nth(i - 1) == Some(&format!("<{n}>:")));
        ensure!(ok, "no label {named:?} before {l:?}");
    }
    match code_at(r, pc) {
        Err(m) => ensure!(m.iter().any(|m| l.contains(tm_name(*m))), "shown as {l:?}, but fetching reports {}", crate::rig::names(&m)),
        Ok(b) => {
            let (_, got, text) = parts(l, b.len())?;
            ensure!(got == b, "shown as {l:?}, but the bytes are {}", hex(&b));
            if let Some((f, v)) = isa::decode(&b) {
                let imm = f.ops.iter().position(|k| *k == K::Iw).map(|i| v[i]);
                let names: Vec<&str> = o.syms.iter().filter(|s| Some(s.loc) == imm).map(|s| s.name.as_str()).collect();
                if names.is_empty() {
                    check_text(&text, f, &v, |_| None)?;
                } else if let Some(e) = names.iter().map(|n| check_text(&text, f, &v, |_| Some(n.to_string()))).reduce(|a, b| a.or(b)) {
                    e?;
                }
            }
        }
    }
    Ok(())
}

fn check_answer(chunk: &[u8], ans: &Ans, o: &Obj) -> R {
    const OUT: &[u8] = b"STDOUT line: ";
    let shown = String::from_utf8_lossy(chunk).into_owned();
    let line = || -> R<(String, String)> {
        let l = shown.trim();
        ensure!(!l.contains('\n'), "{shown:?} instead of one line");
        let (a, b) = l.split_once('=').ok_or_else(|| format!("{shown:?} instead of a value"))?;
        Ok((a.trim().to_string(), b.trim().to_string()))
    };
    match ans {
        Ans::Nothing => ensure!(shown.trim().is_empty(), "{shown:?} on standard output"),
        Ans::Reg(name, v) => {
            let (n, x) = line()?;
            ensure!(n == *name, "{n:?} is shown");
            let mut w = x.split(' ');
            let (d, h) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
            let (d, h) = (number_of(d), number_of(h).filter(|_| h.starts_with("0x")));
            ensure!(d.is_some() && d == h, "strange value {x:?}");
            if let Some(v) = v {
                ensure!(d == Some(*v as u32), "{shown:?}, but the value is {v:#x}");
            }
        }
        Ans::Flags(f) => {
            let (_, x) = line()?;
            flag_names(&x, &[(f.zero, "zero"), (f.overflow, "overflow"), (f.sign, "sign"), (f.carry, "carry"), (f.vm, "vm"), (f.user, "user")])?;
        }
        Ans::Mem(m) => {
            let l = shown.trim();
            let x = l.strip_prefix('=').ok_or_else(|| format!("{shown:?} instead of memory"))?;
            let w: Vec<&str> = x.split_whitespace().collect();
            ensure!(w.len() >= 2, "{shown:?} instead of memory");
            for (w, m) in w.iter().zip(m) {
                match m {
                    Ok(b) => ensure!(number_of(w) == Some(*b as u32), "{shown:?}, but the byte is {b:#x}"),
                    Err(m) => ensure!(m.iter().any(|m| tm_name(*m) == *w), "{shown:?}, but reading reports {}", crate::rig::names(m)),
                }
            }
        }
        Ans::Step { lines, at, end, rest } => {
            // (requests have no line of their own)
            let c: Vec<u8> = split(chunk, b"STDIN requested: ").concat();
            let all: Vec<&[u8]> = c.split(|b| *b == b'\n').collect();
            let got: Vec<&[u8]> = all.iter().filter_map(|l| l.strip_prefix(OUT)).collect();
            let mut want: Vec<&[u8]> = lines.iter().map(|l| &l[..]).collect();
            if !rest.is_empty() {
                want.push(rest);
            }
            ensure!(got == want, "output {:?}, expected {:?}", got.iter().map(|l| hex(l)).collect::<Vec<_>>(), want.iter().map(|l| hex(l)).collect::<Vec<_>>());
            let other: Vec<u8> = all.iter().filter(|l| !l.starts_with(OUT)).flat_map(|l| [l, &b"\n"[..]].concat()).collect();
            let text = String::from_utf8_lossy(&other);
            if let Some((pc, r)) = at.as_deref() {
                check_stand(&other, o, *pc, r)?;
                ensure!(!text.contains("ended with"), "it ended");
            } else if let Some(m) = end {
                let how = text.lines().find_map(|l| l.strip_prefix("ended with ")).ok_or_else(|| format!("{text:?}, but it ends with {}", crate::rig::names(m)))?;
                ensure!(m.iter().any(|m| tm_name(*m) == how.trim()), "it ended with {how}, expected {}", crate::rig::names(m));
            } else {
                ensure!(text.trim().is_empty(), "{text:?} at the end");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ T04

fn t04(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let w = gen_whole(t);
    // what it means
    let mut r = Ref::user(&w.image());
    let Some(end) = r.run(6000) else {
        ctx.label("too long or not determined");
        return Ok(());
    };
    if r.vague {
        return Ok(());
    }
    let crlf = t.chance(1, 16);
    let mut log: Vec<String> = vec![];
    let mut shown = String::new();
    let mut srcs = vec![];
    let name = cli::naming(t, true);
    for m in 0..w.modules {
        let p = format!("{}{}", t.pick(&["", "", "src/"]), name(&format!("m{m}.telda")));
        let files = w.source(t, m, &p);
        crate::whole::write(&files, &dir, if crlf { "\r\n" } else { "\n" });
        for (p, l) in &files {
            shown.push_str(&format!("\n--- {p}\n{}", l.join("\n")));
        }
        srcs.push(p);
    }
    let run = |log: &mut Vec<String>, tool: &str, args: &[String]| -> R<cli::Out> {
        log.push(format!("{tool} {}", args.join(" ")));
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let o = cli::run(&ctx.bin, tool, &dir, &a)?;
        ensure!(o.ok(), "{}: {}{shown}", log.join("; "), o.brief());
        Ok(o)
    };
    // assemble
    let mut order: Vec<String> = srcs.clone();
    t.shuffle(&mut order);
    if t.bool() {
        run(&mut log, "tc", &order)?;
    } else {
        for s in &order {
            run(&mut log, "tc", &[s.clone()])?;
        }
    }
    let objs: Vec<String> = srcs.iter().map(|s| cli::object_of(s)).collect();
    for o in &objs {
        if t.chance(1, 4) {
            run(&mut log, "tstrip", &[o.clone()])?;
        }
    }
    let mut prog = name("prog");
    cli::file(&dir, &prog);
    let mut how = "linked";
    if w.modules == 1 && w.dot_entry && t.bool() {
        // an object with nothing open runs as it is
        prog = objs[0].clone();
        how = "not linked";
    } else {
        // some in archives; the entry comes first
        let mut inputs = vec![objs[0].clone()];
        let mut libs: Vec<Vec<String>> = vec![vec![], vec![]];
        for o in &objs[1..] {
            match t.below(4) {
                0 => libs[0].push(o.clone()),
                1 => libs[1].push(o.clone()),
                _ => inputs.push(o.clone()),
            }
        }
        t.shuffle(&mut inputs);
        let mut args = vec![];
        for (i, l) in libs.iter().enumerate().filter(|l| !l.1.is_empty()) {
            let p = name(&format!("lib{i}.savn"));
            run(&mut log, "tar", &[l.clone(), vec!["-o".into(), p.clone()]].concat())?;
            args.extend(["-l".to_string(), p]);
            how = "with archives";
        }
        // (staged linking settles nothing that archives could add to)
        if inputs.len() > 1 && t.chance(1, 3) {
            let i = t.size(0, inputs.len() - 2);
            let j = t.size(i + 1, inputs.len() - 1);
            let part: Vec<String> = inputs.drain(i..=j).collect();
            let mid = name("mid.to");
            let mut a = [part, vec!["-o".to_string(), mid.clone()]].concat();
            if t.chance(1, 3) {
                a.push("-S".into());
            }
            run(&mut log, "tl", &a)?;
            if t.chance(1, 4) {
                run(&mut log, "tstrip", &[mid.clone()])?;
            }
            inputs.insert(i, mid);
            how = "in stages";
        }
        if t.chance(1, 3) {
            args.push("-S".into());
        }
        if t.chance(1, 3) {
            // pages are shared otherwise
            let low = if w.strict { 7 } else { 0 };
            args.extend(["-A".to_string(), (1u32 << t.range(low, 10)).to_string()]);
        }
        if !w.dot_entry || t.chance(1, 3) {
            args.push("-e".into());
            if !w.dot_entry || w.items[0].global && t.bool() {
                args.extend(["-E".to_string(), w.items[0].name.clone()]);
            }
        }
        args.extend(["-o".to_string(), prog.clone()]);
        let a = if t.bool() { [args, inputs].concat() } else { [inputs, args].concat() };
        run(&mut log, "tl", &a)?;
    }
    if t.chance(1, 3) {
        let mut a = vec![prog.clone()];
        if t.bool() {
            a.insert(0, "-a".into());
        }
        run(&mut log, "tstrip", &a)?;
    }
    let heap = w.items.iter().any(|i| i.seg == HEAP);
    if heap && w.strict {
        // (the heap may overlap what its permissions change)
        return Ok(());
    }
    let mut input: Vec<u8> = (0..r.mem.inputs).map(input_byte).collect();
    input.extend(b"more");
    log.push(format!("t {prog}"));
    let out = cli::run_in(&ctx.bin, "t", &dir, &[&prog], &input)?;
    let names: Vec<&str> = end.modes.iter().map(|m| tm_name(*m)).collect();
    let what = |e: String| format!("{}: {e}{shown}", log.join("; "));
    let want = r.out();
    if out.crashed() {
        return Err(what(format!("crashed: {}", out.brief())));
    }
    if out.stdout != want {
        return Err(what(format!("output {}, expected {}; {}", hex(&out.stdout), hex(&want), out.brief())));
    }
    let halted = end.modes == [HALT];
    if out.ok() != halted || !halted && !names.iter().any(|n| out.stderr.contains(n)) {
        return Err(what(format!("{}, expected {}", out.brief(), names.join(" or "))));
    }
    ctx.label(how);
    ctx.label(format!("{} modules", w.modules));
    if !halted {
        ctx.label("trapped");
    }
    if w.strict {
        ctx.label("relies on permissions");
    }
    if want.len() >= 2 && (w.modules == 1 || w.crossing() > 0) {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("{}; output {}, {}", log.join("; "), hex(&want), names.join(" or ")));
    Ok(())
}

// ------------------------------------------------------------------ T05

/// everything in a directory: what is at each path
fn tree(dir: &std::path::Path) -> BTreeMap<std::path::PathBuf, (char, Vec<u8>, u32)> {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::PermissionsExt;
    let mut all = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let p = e.unwrap().path();
            let m = p.symlink_metadata().unwrap();
            let rel = p.strip_prefix(dir).unwrap().to_path_buf();
            if m.is_symlink() {
                let to = std::fs::read_link(&p).unwrap();
                all.insert(rel, ('l', to.strip_prefix(dir).unwrap_or(&to).as_os_str().as_bytes().to_vec(), 0));
            } else if m.is_dir() {
                todo.push(p.clone());
                all.insert(rel, ('d', vec![], 0));
            } else {
                all.insert(rel, ('f', std::fs::read(&p).unwrap(), m.permissions().mode()));
            }
        }
    }
    all
}

/// what a run of commands did
struct Done {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

/// runs the commands; those that take several files also one file at a time
fn carry_out(ctx: &Ctx, dir: &std::path::Path, steps: &[(&str, Vec<String>, Vec<String>, Vec<u8>)], apart: bool, env: &[(&str, &str)]) -> R<Vec<Done>> {
    let mut v = vec![];
    for (tool, opts, files, stdin) in steps {
        let each: Vec<Vec<String>> = if apart && matches!(*tool, "tc" | "tstrip" | "tobjdump") { files.iter().map(|f| vec![f.clone()]).collect() } else { vec![files.clone()] };
        let mut d = Done { code: Some(0), out: vec![], err: String::new() };
        for f in each {
            let a: Vec<&str> = opts.iter().chain(&f).map(|s| s.as_str()).collect();
            let o = cli::run_with(&ctx.bin.join(tool), &a, cli::Run { cwd: dir, stdin, fsize: None, env })?;
            ensure!(!o.crashed(), "{tool} {}: {}", a.join(" "), o.brief());
            if o.code != Some(0) {
                d.code = o.code;
            }
            d.out.extend(&o.stdout);
            d.err.push_str(&o.stderr);
        }
        v.push(d);
    }
    Ok(v)
}

fn t05(t: &mut Tape, ctx: &mut Ctx) -> R {
    let top = ctx.fresh_dir();
    let (one, two) = (top.join("a"), top.join("another name"));
    for d in [&one, &two] {
        std::fs::create_dir(d).unwrap();
    }
    type Step = (&'static str, Vec<String>, Vec<String>, Vec<u8>);
    let mut steps: Vec<Step> = vec![];
    let s = |x: &str| x.to_string();
    let name = cli::naming(t, true);
    let mut objs: Vec<String> = vec![];
    let mut srcs: Vec<String> = vec![];
    let mut runs = false;
    let mut input = vec![];
    let mut entry = None;
    match t.below(4) {
        0 => {
            let w = gen_whole(t);
            let mut r = Ref::user(&w.image());
            let heap = w.items.iter().any(|i| i.seg == HEAP);
            runs = r.run(6000).is_some() && !r.vague && !(heap && w.strict);
            input = (0..r.mem.inputs).map(input_byte).chain(*b"more").collect();
            for m in 0..w.modules {
                let p = name(&format!("m{m}.telda"));
                crate::whole::write(&w.source(t, m, &p), &one, "\n");
                srcs.push(p);
            }
            if !w.dot_entry {
                entry = Some(w.items[0].name.clone());
            }
        }
        1 => {
            for i in 0..t.size(1, 4) {
                let p = name(&format!("m{i}.telda"));
                if t.chance(1, 12) {
                    srcs.push(p);
                    continue;
                }
                let faults = t.bool();
                crate::source::gen_source(t, &p, &format!("s{i}"), faults).write(&one, t);
                srcs.push(p);
            }
        }
        _ => {
            let undefined = t.chance(1, 4);
            let entries = t.chance(3, 4);
            let tag = t.below(5) as usize;
            for (i, o) in crate::link::gen_set(t, crate::link::Want { max: 5, undefined, entries, tag }).iter().enumerate() {
                let p = name(&format!("o{i}.to"));
                let f = cli::file(&one, &p);
                std::fs::write(f, o.bytes()).unwrap();
                if t.chance(1, 3) {
                    entry = o.syms.iter().find(|y| y.global && y.seg != UNKNOWN).map(|y| y.name.clone());
                }
                objs.push(p);
            }
        }
    }
    if !srcs.is_empty() {
        if t.chance(1, 12) {
            // the same file once more
            let again = t.pick(&srcs).clone();
            srcs.push(again);
        }
        steps.push(("tc", vec![], srcs.clone(), vec![]));
        srcs.dedup();
        objs = srcs.iter().map(|s| cli::object_of(s)).collect();
    }
    for _ in 0..t.below(3) {
        if t.bool() {
            let n = t.size(1, objs.len());
            let at = t.size(0, objs.len() - n);
            let opts = match t.below(6) {
                0 => vec![s("-a")],
                1 if !runs => vec![s("-a"), s("-f")],
                _ => vec![],
            };
            // (a fully stripped object cannot be linked)
            if opts.is_empty() || !runs {
                steps.push(("tstrip", opts, objs[at..at + n].to_vec(), vec![]));
            }
        }
        if t.bool() {
            steps.push(("tobjdump", vec![s(*t.pick(&["-t", "-d", "-dt", "-dR", "-dtR"]))], objs.clone(), vec![]));
        }
    }
    let prog = name("prog");
    let lib = name("lib.savn");
    let mut inputs = objs.clone();
    let mut opts = vec![s("-o"), prog.clone()];
    if objs.len() > 1 && t.chance(2, 3) {
        let members = inputs.split_off(t.size(1, objs.len() - 1));
        steps.push(("tar", vec![s("-o"), lib.clone()], members, vec![]));
        opts.extend([s("-l"), lib.clone()]);
        if t.chance(1, 3) {
            steps.push(("tobjdump", vec![s("-dtR")], vec![lib], vec![]));
        }
    }
    if t.chance(1, 3) {
        opts.push(s("-S"));
    }
    if t.chance(1, 3) {
        opts.push(s("-v"));
    }
    if runs || t.chance(1, 3) {
        opts.push(s("-e"));
    }
    if let Some(e) = entry {
        opts.extend([s("-E"), e]);
    }
    if t.chance(1, 4) {
        let low = if runs { 7 } else { 0 };
        opts.extend([s("-A"), (1u32 << t.range(low, 10)).to_string()]);
    }
    steps.push(("tl", opts, inputs, vec![]));
    if t.bool() {
        steps.push(("tobjdump", vec![s(*t.pick(&["-d", "-dtR"]))], vec![prog.clone()], vec![]));
    }
    if runs {
        ctx.label("program run");
        let opts = if t.bool() { vec![s("-t")] } else { vec![] };
        steps.push(("t", opts, vec![prog.clone()], input.clone()));
        if t.chance(1, 3) {
            let mut script = vec![];
            for _ in 0..t.size(1, 12) {
                script.extend(t.pick(&["si", "rs", "rl", "si", "f", "nonsense", "si"]).bytes());
                script.push(b'\n');
            }
            steps.push(("tdbg", vec![], vec![prog.clone()], script));
            ctx.label("debugged");
        }
    }
    // the same files elsewhere
    for (p, (kind, b, _)) in tree(&one) {
        use std::os::unix::ffi::OsStrExt;
        let to = two.join(&p);
        match kind {
            'd' => std::fs::create_dir_all(&to).unwrap(),
            'l' => {
                std::fs::create_dir_all(to.parent().unwrap()).unwrap();
                std::os::unix::fs::symlink(two.join(std::ffi::OsStr::from_bytes(&b)), &to).unwrap();
            }
            _ => {
                std::fs::create_dir_all(to.parent().unwrap()).unwrap();
                std::fs::write(&to, b).unwrap();
            }
        }
    }
    let before: Vec<_> = tree(&one).into_keys().collect();
    let log = || steps.iter().map(|x| format!("{} {}", x.0, [x.1.clone(), x.2.clone()].concat().join(" "))).collect::<Vec<_>>().join("; ");
    let a = carry_out(ctx, &one, &steps, false, &[]).map_err(|e| format!("{}: {e}", log()))?;
    let result = tree(&one);
    if a.iter().all(|d| d.code == Some(0)) && t.bool() {
        ctx.label("over older results");
        for (p, (kind, b, mode)) in &result {
            if *kind == 'f' && !before.contains(p) && mode & 0o111 == 0 {
                let mut old: Vec<u8> = b.iter().rev().copied().collect();
                let more = t.size(0, 300);
                old.resize(old.len() + more, 0x5a);
                std::fs::write(two.join(p), old).unwrap();
            }
        }
    }
    let apart = t.bool();
    let env = [("TZ", "Asia/Tokyo"), ("LANG", "da_DK.UTF-8"), ("LC_ALL", "da_DK.UTF-8"), ("HOME", "/nonexistent"), ("USER", "somebody"), ("TERM", "xterm"), ("COLUMNS", "40"), ("RUST_BACKTRACE", "1")];
    let n = t.below(env.len() as u32 + 1) as usize;
    let b = carry_out(ctx, &two, &steps, apart, &env[..n]).map_err(|e| format!("{} in another place: {e}", log()))?;
    for ((x, y), st) in a.iter().zip(&b).zip(&steps) {
        let what = format!("{}: {} {}{}", log(), st.0, [st.1.clone(), st.2.clone()].concat().join(" "), if apart { " (with one file at a time)" } else { "" });
        ensure!(x.code == y.code, "{what}: exit status {:?}, then {:?}; {}; {}", x.code, y.code, x.err, y.err);
        // any of several reasons may be given
        let facts = |o: &[u8]| match st.0 {
            "tl" => String::from_utf8_lossy(o).lines().map(|l| l.split(" because ").next().unwrap().to_string() + "\n").collect::<String>().into_bytes(),
            _ => o.to_vec(),
        };
        ensure!(facts(&x.out) == facts(&y.out), "{what}: output differs:\n{}\n---\n{}", String::from_utf8_lossy(&x.out), String::from_utf8_lossy(&y.out));
        ensure!(x.err == y.err, "{what}: messages differ:\n{}\n---\n{}", x.err, y.err);
        if x.code != Some(0) {
            ctx.label(format!("{} fails", st.0));
        }
    }
    let other = tree(&two);
    for (p, x) in &result {
        let Some(y) = other.get(p) else {
            return Err(format!("{}: {} is written once only", log(), p.display()));
        };
        ensure!(x == y, "{}: {} differs: {} bytes, then {} bytes, first difference at {:?}", log(), p.display(), x.1.len(), y.1.len(), x.1.iter().zip(&y.1).position(|(a, b)| a != b));
    }
    ensure!(result.len() == other.len(), "{}: other files are written the second time", log());
    if apart && steps.iter().any(|s| s.2.len() > 1 && s.0 != "tl" && s.0 != "tar") {
        ctx.label("several files and one at a time");
    }
    if result.len() > before.len() {
        ctx.nontrivial();
    }
    ctx.sample(log);
    Ok(())
}

pub const PROPS: &[&Prop] = &[&Prop {
    id: "T01",
    rule: "at least 10 valid instructions were disassembled in the case (enumerated: every one)",
    assumptions: &["instructions are not fetched from the I/O page, which the disassembler refuses by panicking"],
    tape: 1800,
    quick: 30_000,
    thorough: 200_000,
    case: t01,
    enumerate: Some(t01_all),
}, &Prop {
    id: "T02",
    rule: "at least one object was dumped, with 3 or more instructions when disassembling and symbols when listing them",
    assumptions: &["symbol names have no control characters", "one relocation for each place"],
    tape: 1500,
    quick: 14_000,
    thorough: 150_000,
    case: t02,
    enumerate: None,
}, &Prop {
    id: "T03",
    rule: "at least two stepping commands and one other",
    assumptions: &["instructions whose outcome is not determined are not stepped over", "the page-table pointer is the loader's choice"],
    tape: 1500,
    quick: 8_000,
    thorough: 150_000,
    case: t03,
    enumerate: Some(t03_enum),
}, &Prop {
    id: "T04",
    rule: "the program writes at least two bytes, and refers across modules if there are several",
    assumptions: &["what the program does depends neither on where the linker places it nor on instructions whose outcome is not determined"],
    tape: 3000,
    quick: 5000,
    thorough: 120_000,
    case: t04,
    enumerate: None,
}, &Prop {
    id: "T05",
    rule: "random sequences of tool runs over random sources (faulty ones included), objects and programs, carried out twice: in another directory, with other environment variables, over older results, and for the tools that take several files also with one file at a time; non-trivial: at least one file was written",
    assumptions: &["programs that do not end are not run"],
    tape: 3000,
    quick: 3000,
    thorough: 60_000,
    case: t05,
    enumerate: None,
}];
