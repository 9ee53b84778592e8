//! The assembler: A01-A04.
use crate::asm::*;
use crate::engine::*;
use crate::isa::{self, Form, Sem, K};
use crate::obj::*;
use crate::cli;
use crate::source::*;
use std::collections::BTreeSet;

/// lines and their bytes; words that hold label addresses
#[derive(Default)]
struct Packed {
    lines: Vec<String>,
    bytes: Vec<u8>,
    /// offset of the word, label
    uses: Vec<(usize, usize)>,
    /// offset of each label
    labels: Vec<Option<usize>>,
    /// line number of every line with bytes, with its offset
    at: Vec<(usize, usize)>,
}

impl Packed {
    fn push(&mut self, line: String, bytes: &[u8]) {
        self.lines.push(line);
        if !bytes.is_empty() {
            self.at.push((self.bytes.len(), self.lines.len()));
        }
        self.bytes.extend(bytes);
    }
    /// a valid instruction line
    fn ins(&mut self, text: String, f: &Form, ops: &[Opnd]) {
        let mut v: Vec<u16> = ops.iter().map(|o| o.v).collect();
        if f.sem == Sem::Ret && ops.is_empty() {
            v.push(0);
        }
        let b = f.encode(&v);
        if let Some(o) = ops.iter().find(|o| o.a == A::Label) {
            // the immediate comes last in every encoding
            self.uses.push((self.bytes.len() + b.len() - 2, o.v as usize));
        }
        self.push(text, &b);
    }
    fn check(mut self, ctx: &mut Ctx, dir: &std::path::Path) -> R {
        if self.bytes.is_empty() {
            return Ok(());
        }
        let mut src = self.lines.join("\n");
        src.push('\n');
        let o = match assemble_talk(&ctx.bin, dir, src.as_bytes())? {
            Ok((o, talk)) => {
                ensure!(talk.is_empty(), "correct lines, but tc says {talk:?}");
                o
            }
            Err((l, brief)) => return Err(format!("correct lines were refused: {}; {brief}", show(&self.lines, &l))),
        };
        ensure!(o.segs.len() == 1, "segments {:?}, expected text only", o.segs.keys().collect::<Vec<_>>());
        let (start, got) = o.segs.get(&TEXT).ok_or("no text segment")?;
        for (w, l) in &self.uses {
            let a = start.wrapping_add(self.labels[*l].unwrap() as u16);
            self.bytes[*w..*w + 2].copy_from_slice(&a.to_le_bytes());
        }
        if let Some(i) = (0..self.bytes.len().max(got.len())).find(|i| got.get(*i) != self.bytes.get(*i)) {
            let k = self.at.iter().rposition(|a| a.0 <= i).unwrap_or(0);
            let (off, ln) = self.at[k];
            let end = self.at.get(k + 1).map_or(self.bytes.len(), |a| a.0);
            return Err(format!("line {ln} {:?} assembled to {}.., expected {}", self.lines[ln - 1], hex(&got[off.min(got.len())..(end + 2).min(got.len())]), hex(&self.bytes[off..end])));
        }
        Ok(())
    }
}

fn labels(t: &mut Tape) -> Vec<String> {
    let n = t.size(1, 4);
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let l = gen_label(t, v.len());
        if !v.contains(&l) {
            v.push(l);
        } else {
            v.push(format!("other{}", v.len()));
        }
    }
    v
}

fn mnemonics() -> Vec<&'static str> {
    let mut v: Vec<&str> = isa::FORMS.iter().flat_map(|f| f.names.iter().copied()).collect();
    v.sort();
    v.dedup();
    v
}

/// an instruction line that fits no form
fn bad_ins(t: &mut Tape, labels: &[String]) -> String {
    let names = mnemonics();
    loop {
        let (name, mut ops): (String, Vec<Opnd>) = if t.bool() {
            // a right line with one thing wrong
            let f = t.pick(isa::FORMS);
            let mut ops = gen_ops(t, f, labels);
            let mut name = t.pick(f.names).to_string();
            match t.below(5) {
                0 if !ops.is_empty() => {
                    let i = t.below(ops.len() as u32) as usize;
                    ops.remove(i);
                }
                1 => {
                    let i = t.size(0, ops.len());
                    let a = *t.pick(&ALL_A);
                    ops.insert(i, gen_opnd(t, a, labels));
                }
                2 if !ops.is_empty() => {
                    let i = t.below(ops.len() as u32) as usize;
                    let a = *t.pick(&ALL_A);
                    ops[i] = gen_opnd(t, a, labels);
                }
                3 => name = t.pick(&["mov", "ldx", "Ldi", "NOP", "jz", "jne1", "addb", "add.w", "hlt", "inc", "st", "ld", "cmp", "int", "nop;", "ret,", "jumps", "pushb", "\u{e9}"]).to_string(),
                _ => {
                    // an operand that is nothing
                    let x = *t.pick(&["r11", "r0l", "rx", "r1b", "r6l", "R1", "r1 r2", "", "[r1]", "(r1)", "r1+1", "r10l", "r", "rsp", "%r1", "@", "nothing", "r 1", "1 b"]);
                    let o = Opnd { a: A::Label, v: 0, text: x.into() };
                    if ops.is_empty() {
                        if x.is_empty() {
                            continue;
                        }
                        ops.push(o);
                    } else {
                        let i = t.below(ops.len() as u32) as usize;
                        ops[i] = o;
                        // (blanks at the end are no operand)
                        if ops.len() == 1 && ops[0].text.is_empty() {
                            continue;
                        }
                    }
                    if !labels.iter().any(|l| l == x) {
                        return line(t, &name, &ops);
                    }
                    continue;
                }
            }
            (name, ops)
        } else {
            let name = t.pick(&names).to_string();
            let n = t.size(0, 5);
            let ops = (0..n)
                .map(|_| {
                    let a = *t.pick(&ALL_A);
                    gen_opnd(t, a, labels)
                })
                .collect();
            (name, ops)
        };
        let kinds: Vec<A> = ops.iter().map(|o| o.a).collect();
        match form_for(&name, &kinds) {
            None => return line(t, &name, &ops),
            Some(f) if f.sem == Sem::JmpR => {
                ops[0].text = "r0".into();
                return line(t, &name, &ops);
            }
            _ if t.left() == 0 => return "nop r1".into(),
            _ => (),
        }
    }
}

fn a01(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let ls = labels(t);
    let mut p = Packed { labels: vec![None; ls.len()], ..Packed::default() };
    p.push(".seg text".into(), &[]);
    let with_bad = t.chance(1, 4);
    let mut bad = BTreeSet::new();
    let n = t.size(1, 70);
    for _ in 0..n {
        if t.left() == 0 {
            break;
        }
        match t.below(16) {
            0 => {
                let c = comment(t);
                p.push(c, &[]);
            }
            1 => {
                if let Some(i) = p.labels.iter().position(Option::is_none) {
                    p.labels[i] = Some(p.bytes.len());
                    let l = indent(t, &format!("{}:", ls[i]));
                    p.push(l, &[]);
                }
            }
            2..=5 if with_bad => {
                let b = bad_ins(t, &ls);
                let b = indent(t, &b);
                p.push(b, &[]);
                bad.insert(p.lines.len() as u32);
            }
            2 => {
                let l = indent(t, "ret");
                p.push(l, &[0x26, 0]);
            }
            _ => {
                let f = t.pick(isa::FORMS);
                let ops = gen_ops(t, f, &ls);
                let name = *t.pick(f.names);
                let l = line(t, name, &ops);
                let l = indent(t, &l);
                p.ins(l, f, &ops);
                ctx.label(f.names[0]);
            }
        }
    }
    for i in 0..ls.len() {
        if p.labels[i].is_none() {
            p.labels[i] = Some(p.bytes.len());
            p.push(format!("{}:", ls[i]), &[]);
        }
    }
    p.push("halt".into(), &[0x0a]);
    ctx.nontrivial();
    ctx.sample(|| p.lines[p.lines.len() / 2].clone());
    if bad.is_empty() {
        p.check(ctx, &dir)
    } else {
        ctx.label("file with ill-formed lines");
        check_bad(&ctx.bin, &dir, &p.lines, &bad)
    }
}

fn a01_enum(ctx: &mut Ctx, shard: usize, shards: usize) -> R {
    let mut evals = 0;
    let zeros = [0u32; 4];
    // every form, name and register in every place
    for (k, f) in isa::FORMS.iter().enumerate() {
        if k % shards != shard {
            continue;
        }
        let dir = ctx.fresh_dir();
        let mut p = Packed { labels: vec![Some(0)], ..Packed::default() };
        p.push(".seg text".into(), &[]);
        p.push("lab:".into(), &[]);
        for name in f.names {
            for pos in 0..f.ops.len().max(1) {
                for v in 0..16u16 {
                    let ops: Vec<Opnd> = f
                        .ops
                        .iter()
                        .enumerate()
                        .map(|(i, k)| {
                            let v = if i == pos { v } else { (3 + 4 * i as u16 + v / 8) % 16 };
                            let v = if f.sem == Sem::JmpR && v == 0 { 1 } else { v };
                            match k {
                                K::B => Opnd { a: A::B, v, text: isa::BREGS[v as usize].into() },
                                K::W => Opnd { a: A::W, v, text: isa::WREGS[v as usize].into() },
                                K::Ib => Opnd { a: A::Num, v: v * 0x11, text: format!("{}", v * 0x11) },
                                K::Iw => Opnd { a: A::Num, v: v * 0x1111, text: format!("{}", v as u32 * 0x1111) },
                            }
                        })
                        .collect();
                    let l = line(&mut Tape::new(&zeros[..0]), name, &ops);
                    p.ins(l, f, &ops);
                    evals += 1;
                }
            }
        }
        p.check(ctx, &dir)?;
    }
    // every mnemonic with every sequence of operand kinds
    let text = |a: A, i: usize| -> Opnd {
        let r = (2 + 5 * i) % 16;
        match a {
            A::B => Opnd { a, v: r as u16, text: isa::BREGS[r].into() },
            A::W => Opnd { a, v: r as u16, text: isa::WREGS[r].into() },
            A::Num => Opnd { a, v: 0x21, text: "0x21".into() },
            A::Byte => Opnd { a, v: 0x42, text: "66b".into() },
            A::Wide => Opnd { a, v: 0x1234, text: "0x1234w".into() },
            A::Label => Opnd { a, v: 0, text: "lab".into() },
        }
    };
    let max = if ctx.tier_thorough { 5 } else { 4 };
    for (k, name) in mnemonics().into_iter().enumerate() {
        if k % shards != shard {
            continue;
        }
        let dir = ctx.fresh_dir();
        let mut p = Packed { labels: vec![Some(0)], ..Packed::default() };
        p.push(".seg text".into(), &[]);
        p.push("lab:".into(), &[]);
        let mut lines = vec![".seg text".to_string(), "lab:".into()];
        let mut bad = BTreeSet::new();
        for len in 0..=max {
            for mut code in 0..6usize.pow(len) {
                let mut ops = vec![];
                for i in 0..len {
                    ops.push(text(ALL_A[code % 6], i as usize));
                    code /= 6;
                }
                let kinds: Vec<A> = ops.iter().map(|o| o.a).collect();
                let l = line(&mut Tape::new(&zeros[..0]), name, &ops);
                evals += 1;
                match form_for(name, &kinds) {
                    Some(f) => p.ins(l, f, &ops),
                    None => {
                        lines.push(l);
                        bad.insert(lines.len() as u32);
                    }
                }
            }
        }
        p.check(ctx, &dir)?;
        check_bad(&ctx.bin, &dir, &lines, &bad)?;
    }
    ctx.enumerated(evals, evals);
    Ok(())
}

// ------------------------------------------------------------------ A02

/// numbers that do not fit their directive are warned about, and lose their upper bits
fn a02_large(t: &mut Tape, ctx: &mut Ctx, dir: &std::path::Path) -> R {
    let mut src = String::from(".seg data\n");
    let mut want = vec![];
    let mut large = 0;
    for _ in 0..t.size(1, 6) {
        let wide = t.bool();
        let (lo, hi) = if wide { (-0x8000, 0xffff) } else { (-0x80, 0xff) };
        let v: i32 = match t.below(6) {
            0 => hi,
            1 => lo,
            2 => hi + 1,
            3 => lo - 1,
            4 => t.raw() as i32,
            _ => (t.raw() as i32) >> t.below(24),
        };
        let x = number(t, v);
        if x.len() > 2 && x.ends_with(['b', 'w']) {
            // a digit that could be a suffix
            continue;
        }
        large += (v < lo || v > hi) as usize;
        src += &format!(".{} {x}\n", if wide { *t.pick(&["wide", "word"]) } else { "byte" });
        want.extend(&v.to_le_bytes()[..if wide { 2 } else { 1 }]);
    }
    if want.is_empty() {
        return Ok(());
    }
    let (o, talk) = match assemble_talk(&ctx.bin, dir, src.as_bytes())? {
        Ok(o) => o,
        Err(e) => return Err(format!("{src:?} was refused: {}", e.1)),
    };
    let got = o.segs.get(&DATA).map(|s| s.1.clone()).unwrap_or_default();
    ensure!(got == want, "{src:?} assembled to {}, expected {}", hex(&got), hex(&want));
    let n = talk.matches("warning").count();
    ensure!(n == large, "{src:?}: {n} warnings, expected {large}: {talk:?}");
    if large > 0 {
        ctx.nontrivial();
    }
    ctx.label("numbers out of range");
    Ok(())
}

fn a02(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    if t.chance(1, 16) {
        return a02_large(t, ctx, &dir);
    }
    let mut p = Packed::default();
    p.push(".seg text".into(), &[]);
    let with_bad = t.chance(1, 4);
    let mut bad = BTreeSet::new();
    let n = t.size(1, 60);
    for _ in 0..n {
        if t.left() == 0 {
            break;
        }
        match t.below(12) {
            0 | 1 => {
                let v = t.b8();
                let x = byte_literal(t, v, false);
                let sp = *t.pick(&[" ", " ", "  ", " \t"]);
                let l = indent(t, &format!(".byte{sp}{x}"));
                p.push(l, &[v]);
                ctx.label("byte");
            }
            2 | 3 => {
                let v = t.b16();
                let x = wide_literal(t, v);
                let d = *t.pick(&["wide", "word"]);
                let l = indent(t, &format!(".{d} {x}"));
                p.push(l, &v.to_le_bytes());
                ctx.label("wide");
            }
            4..=6 => {
                let b = if t.chance(1, 24) {
                    // long ones
                    let n = t.size(100, 5000);
                    let unit = gen_string(t, 6);
                    unit.iter().copied().cycle().take(n).collect()
                } else {
                    gen_string(t, 24)
                };
                let x = string_text(t, &b);
                // (blanks before the directive only)
                p.push(format!("{}.string {x}", t.pick(&["", " ", "\t"])), &b);
                ctx.label("string");
            }
            7 | 8 if with_bad => {
                let l = match t.below(6) {
                    0 => format!(".string {}", bad_escape(t)),
                    1 => {
                        let mut s = string_text(t, b"abc ");
                        s.push_str(bad_escape(t));
                        format!(".string {s}")
                    }
                    2 => {
                        let x = bad_literal(t);
                        format!(".byte {x}")
                    }
                    3 => {
                        let x = bad_literal(t);
                        format!(".wide {x}")
                    }
                    4 => {
                        let x = bad_literal(t);
                        format!("ldi r{}, {x}", t.pick(&["1", "1l", "4h", "10b", "s"]))
                    }
                    _ => {
                        // of the wrong size
                        let (v, w) = (t.b8(), t.b16());
                        let w = format!("{}w", number(t, w as i32));
                        let b = format!("{}b", number(t, v as i32 | 1));
                        let c = char_literal(t, b'a').unwrap();
                        match t.below(6) {
                            0 => format!(".byte {w}"),
                            1 => format!(".wide {b}"),
                            2 => format!(".word {c}"),
                            3 => format!("ldi r3l, {w}"),
                            4 => format!("call {b}"),
                            _ => format!("load r1, r2, {c}"),
                        }
                    }
                };
                let out_of_i32 = ["2147483648", "0x100000000", "-2147483649"].iter().any(|x| l.ends_with(x));
                if out_of_i32 && !(l.starts_with(".byte") || l.starts_with(".wide") || l.starts_with("ldi")) {
                    continue;
                }
                p.push(l, &[]);
                bad.insert(p.lines.len() as u32);
            }
            _ => {
                let imm: Vec<&Form> = isa::FORMS.iter().filter(|f| f.imm().is_some()).collect();
                let f = *t.pick(&imm);
                let ops = gen_ops(t, f, &[]);
                let name = *t.pick(f.names);
                let l = line(t, name, &ops);
                let l = indent(t, &l);
                p.ins(l, f, &ops);
                ctx.label("immediate");
            }
        }
    }
    p.push("halt".into(), &[0x0a]);
    ctx.nontrivial();
    ctx.sample(|| p.lines[p.lines.len() / 2].clone());
    if bad.is_empty() {
        p.check(ctx, &dir)
    } else {
        ctx.label("file with malformed literals");
        check_bad(&ctx.bin, &dir, &p.lines, &bad)
    }
}

fn a02_enum(ctx: &mut Ctx, shard: usize, shards: usize) -> R {
    let dir = ctx.fresh_dir();
    let bases: [(&str, u32); 4] = [("", 10), ("0x", 16), ("0b", 2), ("0o", 8)];
    let spell = |v: i32, (pre, radix): (&str, u32), upper: bool| -> String {
        let mut n = v.unsigned_abs();
        let mut s = String::new();
        loop {
            s.insert(0, char::from_digit(n % radix, radix).unwrap());
            n /= radix;
            if n == 0 {
                break;
            }
        }
        if upper || s.ends_with('b') {
            s = s.to_uppercase();
        }
        format!("{pre}{}{s}", if v < 0 { "-" } else { "" })
    };
    let mut evals = 0;
    if shard == 0 {
        // every byte in every notation
        for base in bases {
            let mut p = Packed::default();
            p.push(".seg text".into(), &[]);
            for v in -128..=255i32 {
                for (k, suffix) in ["", "b"].into_iter().enumerate() {
                    let x = format!("{}{suffix}", spell(v, base, k == 1));
                    if x == "0b" {
                        continue;
                    }
                    p.push(format!(".byte {x}"), &[v as u8]);
                    p.push(format!("ldi r1l, {x}"), &[0x3f, 0x10, v as u8]);
                    evals += 2;
                }
            }
            p.check(ctx, &dir)?;
        }
        let mut p = Packed::default();
        p.push(".seg text".into(), &[]);
        for v in 0..=255u8 {
            for x in [format!("\\x{v:02x}"), format!("\\x{v:02X}")] {
                p.push(format!(".byte '{x}'"), &[v]);
                p.push(format!(".string {x}"), &[v]);
                p.push(format!(".string a{x}b"), &[b'a', v, b'b']);
                evals += 3;
            }
            if (0x20..0x7f).contains(&v) && v != b'\\' && v != b'\'' {
                let c = v as char;
                p.push(format!(".byte '{c}'"), &[v]);
                p.push(format!(".string {c}{c}x"), &[v, v, b'x']);
                if c != ',' {
                    p.push(format!("ret '{c}'"), &[0x26, v]);
                }
                evals += 3;
            }
        }
        p.check(ctx, &dir)?;
        // every character after a backslash
        let mut lines = vec![".seg text".to_string()];
        let mut bad = BTreeSet::new();
        let mut p = Packed::default();
        p.push(".seg text".into(), &[]);
        for c in 0x20..0x7fu8 {
            let e = c as char;
            let v = match e {
                'r' => 13,
                't' => 9,
                'n' => 10,
                '0' => 0,
                '\\' | '\'' | '"' => c,
                _ => {
                    lines.push(format!(".string \\{e}"));
                    bad.insert(lines.len() as u32);
                    lines.push(format!(".byte '\\{e}'"));
                    bad.insert(lines.len() as u32);
                    evals += 2;
                    continue;
                }
            };
            p.push(format!(".string \\{e}"), &[v]);
            p.push(format!(".byte '\\{e}'"), &[v]);
            evals += 2;
        }
        p.check(ctx, &dir)?;
        check_bad(&ctx.bin, &dir, &lines, &bad)?;
        hex_b(ctx, &dir)?;
    } else {
        // every wide in every notation
        let mut p = Packed::default();
        p.push(".seg text".into(), &[]);
        let vs: Vec<i32> = (-32768..=65535i32).step_by(if ctx.tier_thorough { 1 } else { 7 }).skip(shard - 1).step_by(shards - 1).collect();
        for (i, v) in vs.iter().enumerate() {
            let base = bases[i % 4];
            let suffix = if i / 4 % 2 == 0 { "" } else { "w" };
            let x = format!("{}{suffix}", spell(*v, base, i / 8 % 2 == 0));
            let b = (*v as u16).to_le_bytes();
            p.push(format!(".wide {x}"), &b);
            p.push(format!("jez {x}"), &[0x2f, b[0], b[1]]);
            evals += 2;
            if p.bytes.len() > 20000 {
                std::mem::take(&mut p).check(ctx, &dir)?;
                p.push(".seg text".into(), &[]);
            }
        }
        p.check(ctx, &dir)?;
    }
    ctx.enumerated(evals, evals);
    Ok(())
}

/// hexadecimal numbers that end in the digit b: recorded finding
fn hex_b(ctx: &mut Ctx, dir: &std::path::Path) -> R {
    for v in [0xbu16, 0x1b, 0x0b, 0x7b, 0xfb, 0xbb, 0xab] {
        let p = if v < 16 && v != 0xb { format!("0x{v:02x}") } else { format!("0x{v:x}") };
        for (l, digit, suffix) in [
            (format!(".byte {p}"), vec![v as u8], (v > 0xf).then(|| vec![(v >> 4) as u8])),
            (format!("ldi r1l, {p}"), vec![0x3f, 0x10, v as u8], (v > 0xf).then(|| vec![0x3f, 0x10, (v >> 4) as u8])),
            (format!(".wide {p}"), vec![v as u8, 0], None),
            (format!("ldi r1, {p}"), vec![0x40, 0x10, v as u8, 0], None),
        ] {
            let src = format!(".seg text\n{l}\n");
            let got = match assemble(&ctx.bin, dir, src.as_bytes())? {
                Ok(o) => Some(o.segs.get(&TEXT).map(|s| s.1.clone()).unwrap_or_default()),
                Err(_) => None,
            };
            if got.as_deref() == Some(&digit) {
                continue;
            }
            let m = format!("{l:?} assembled to {got:x?}, expected {digit:x?}");
            if got == suffix {
                ctx.known("hex-b-suffix", m)?;
            } else {
                return Err(m);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ A03

fn a03(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let n = if t.chance(1, 150) { t.size(5, 20) } else if t.chance(1, 4) { t.size(1, 3) } else { 1 };
    let mut srcs = vec![];
    let mut args = vec![];
    let name = cli::naming(t, true);
    for i in 0..n {
        let sub = *t.pick(&["", "", "", "", "main/", "a/b/", "\u{f7c3}/\u{fe} "]);
        let ext = *t.pick(&["telda", "telda", "s", "x.telda"]);
        let path = format!("{sub}{}", name(&format!("m{i}.{ext}")));
        let s = gen_source(t, &path, &format!("s{i}"), false);
        s.write(&dir, t);
        args.push(match t.below(6) {
            0 => format!("./{path}"),
            1 => dir.join(&path).to_str().unwrap().to_string(),
            _ => path,
        });
        srcs.push(s);
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let out = cli::run(&ctx.bin, "tc", &dir, &a)?;
    ensure!(out.ok(), "correct sources were refused: {}\n{}", out.brief(), srcs.iter().map(|s| s.show()).collect::<String>());
    for s in &srcs {
        let p = cli::file(&dir, &s.files[0].0).with_extension("to");
        let o = Obj::read(&p)?;
        s.check(&o).map_err(|e| format!("{e}\n{}", s.show()))?;
        if !s.uses.is_empty() && s.segs.len() > 1 {
            ctx.nontrivial();
        }
        if s.includes > 0 {
            ctx.label("includes");
        }
        if s.interleaved > 0 {
            ctx.label("interleaved segments");
        }
        if s.entry.is_some() {
            ctx.label("entry");
        }
        if s.labels.iter().any(|l| l.mentioned && l.def.is_none()) {
            ctx.label("undefined symbols");
        }
        if s.segs.values().any(|b| b.len() > 0x80) {
            ctx.label("segment longer than a page");
        }
        ctx.sample(|| o.brief());
    }
    Ok(())
}

// ------------------------------------------------------------------ A04

fn a04(t: &mut Tape, ctx: &mut Ctx) -> R {
    if t.chance(1, 4) {
        return a04_soup(t, ctx);
    }
    let dir = ctx.fresh_dir();
    let n = if t.chance(1, 100) { t.size(4, 20) } else { t.size(1, 3) };
    let mut srcs: Vec<(String, Option<Src>)> = vec![];
    // whose output cannot be written
    let mut blocked = BTreeSet::new();
    let name = cli::naming(t, true);
    for i in 0..n {
        let path = name(&format!("m{i}.telda"));
        if t.chance(1, 10) {
            std::fs::create_dir(cli::file(&dir, &path).with_extension("to")).unwrap();
            blocked.insert(path.clone());
        }
        if t.chance(1, 10) {
            // a file that is not there
            srcs.push((path, None));
            continue;
        }
        let faults = t.chance(3, 4);
        let s = gen_source(t, &path, &format!("s{i}"), faults);
        s.write(&dir, t);
        srcs.push((path, Some(s)));
    }
    let a: Vec<&str> = srcs.iter().map(|s| s.0.as_str()).collect();
    let out = cli::run(&ctx.bin, "tc", &dir, &a)?;
    ensure!(!out.crashed(), "crashed: {}", out.brief());
    let all = || srcs.iter().filter_map(|s| s.1.as_ref()).map(|s| s.show()).collect::<String>();
    let mut any = false;
    for (path, s) in &srcs {
        let to = cli::file(&dir, path).with_extension("to");
        let Some(s) = s else {
            any = true;
            ctx.label("missing file");
            ensure!(!reported(&out.stderr, &cli::shown(path)).is_empty(), "the missing file {path} was not reported: {}", out.brief());
            ensure!(reported(&out.stderr, &cli::shown(path)) == BTreeSet::from([0]), "a line of the missing file {path} was reported: {}", out.brief());
            ensure!(!to.is_file(), "an object was written for a missing file");
            continue;
        };
        let mut files: BTreeSet<&str> = s.files.iter().map(|f| base_of(&f.0)).collect();
        let mut file_level = false;
        for f in std::mem::take(&mut files) {
            let mut got = reported(&out.stderr, &cli::shown(f));
            file_level |= got.remove(&0);
            let want: BTreeSet<u32> = s.bad.iter().filter(|b| b.0 == f).map(|b| b.1).collect();
            let k = s.files.iter().position(|x| base_of(&x.0) == f).unwrap();
            let lines: Vec<String> = s.files[k].1.iter().map(|l| String::from_utf8_lossy(l).chars().take(60).collect()).collect();
            let missed: BTreeSet<u32> = want.difference(&got).copied().collect();
            let extra: BTreeSet<u32> = got.difference(&want).copied().collect();
            ensure!(missed.is_empty(), "{f}: wrong lines were not reported: {}; {}\n{}", show(&lines, &missed), out.brief(), all());
            ensure!(extra.is_empty(), "{f}: correct lines were reported: {}; {}\n{}", show(&lines, &extra), out.brief(), all());
        }
        let (least, most) = s.ends();
        if s.bad.is_empty() && s.conflicts.is_empty() && least <= 0x10000 && most > 0xffff {
            // on the limit
            return Ok(());
        }
        if s.bad.is_empty() && s.conflicts.is_empty() && most <= 0xffff {
            if most > 0xfff0 {
                ctx.label("just fits");
            }
            ensure!(!file_level, "a correct source was reported: {}\n{}", out.brief(), all());
            if blocked.contains(path) {
                any = true;
                ctx.label("output cannot be written");
                ctx.nontrivial();
                continue;
            }
            let o = Obj::read(&to).map_err(|e| format!("{e}: {}", out.brief()))?;
            s.check(&o).map_err(|e| format!("{e}\n{}", s.show()))?;
            if any {
                ctx.label("correct file after a wrong one");
            }
        } else {
            any = true;
            ensure!(!to.is_file(), "an object was written for a wrong source: {}\n{}", out.brief(), all());
            for k in &s.bad_kinds {
                ctx.label(*k);
            }
            ctx.nontrivial();
            for l in &s.conflicts {
                ctx.label("both defined and defined elsewhere");
                ensure!(out.stderr.contains(l.as_str()), "{l} is defined and said to be defined elsewhere, which was not reported: {}\n{}", out.brief(), all());
            }
            if s.bad.is_empty() && s.conflicts.is_empty() {
                ctx.label("does not fit");
            }
        }
    }
    ensure!(out.ok() != any, "exit status: {}, there were {} wrong files\n{}", out.brief(), if any { "" } else { "no" }, all());
    if any {
        ensure!(!out.stderr.is_empty(), "failed without a message");
    }
    ctx.sample(|| out.stderr.chars().take(200).collect());
    Ok(())
}

fn soup_line(t: &mut Tape, out: &mut Vec<u8>, quiet: bool) {
    let toks: &[&[u8]] = &[
        b".seg", b"text", b"data", b"heap", b".byte", b".wide", b".string", b".global", b".ref", b".entry", b".include", b"s.telda", b".", b"..", b"/", b"x:", b"x", b":", b",", b" ", b" ", b" ", b"'", b"''", b"\\", b"\\x", b"0x", b"0b", b"b", b"w",
        b"0", b"1", b"-", b"65536", b"r1", b"r1l", b"ldi", b"jmp", b"store", b"ret", b"add", b"halt", b";", b"//", b"#", b"\t", b"\r", b"\xff", b"\xc3\xa9", b"\xc3", b"\0", b"\xe2\x80\xa8", b"\xc2\xa0", b"99999999999999999999", b"e", b"+",
    ];
    for _ in 0..t.size(0, 8) {
        if t.chance(1, 10) {
            out.push(t.u8());
        } else {
            let k = *t.pick(toks);
            // (large numbers make the library print warnings)
            if !(quiet && k == b"65536") {
                out.extend(k);
            }
        }
    }
    out.push(b'\n');
}

fn soup(t: &mut Tape, quiet: bool) -> Vec<u8> {
    let mut b = vec![];
    if t.chance(3, 4) {
        b.extend(b".seg text\n");
    }
    if t.chance(1, 6) {
        for _ in 0..t.size(0, 60) {
            b.push(t.u8());
        }
    } else {
        let max = *t.pick(&[1, 2, 4, 12]);
        for _ in 0..t.size(1, max) {
            soup_line(t, &mut b, quiet);
        }
    }
    b
}

/// anything at all
fn a04_soup(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    // within the process, many
    for _ in 0..12 {
        let b = soup(t, true);
        let r = guarded(|| telda2::source::process(telda2::source::SourceLines::from_reader(b.as_slice())).map(|p| p.dls.values().all(|d| d.start as usize + d.size as usize <= 0x10000)).map_err(|e| e.to_string()));
        match r.map_err(|e| format!("{e}; source {:?}", String::from_utf8_lossy(&b)))? {
            Ok(fits) => ensure!(fits, "segments leave the address space; source {:?}", String::from_utf8_lossy(&b)),
            Err(m) => ensure!(!m.is_empty(), "an error without a message; source {:?}", String::from_utf8_lossy(&b)),
        }
    }
    let b = soup(t, false);
    ctx.label("arbitrary bytes");
    ctx.nontrivial();
    match assemble(&ctx.bin, &dir, &b).map_err(|e| format!("{e}; source {:?}", String::from_utf8_lossy(&b)))? {
        Ok(o) => {
            ctx.label("arbitrary bytes assembled");
            ensure!(o.segs.values().all(|(a, b)| *a as usize + b.len() <= 0x10000), "segments leave the address space");
        }
        Err((l, brief)) => ensure!(!l.is_empty(), "nothing was reported: {brief}; source {:?}", String::from_utf8_lossy(&b)),
    }
    Ok(())
}

/// what takes very many lines
fn a04_enum(ctx: &mut Ctx, shard: usize, shards: usize) -> R {
    let dir = ctx.fresh_dir();
    let mut evals = 0;
    let mut mine = |k: usize| {
        let m = k % shards == shard;
        evals += m as u64;
        m
    };
    // every one of many wrong lines is reported
    // (fewer than a segment has bytes)
    for (k, n) in [60_000usize, 9000].into_iter().enumerate() {
        if !mine(k) {
            continue;
        }
        for wrong in ["qqq r1", "ldi r1, nowhere", ".byte 'ab'", ".nothing"] {
            let src = format!(".seg text\nnop\n{}", format!("{wrong}\n").repeat(n));
            match assemble(&ctx.bin, &dir, src.as_bytes()).map_err(|e| format!("{n} lines {wrong:?}: {e}"))? {
                Ok(_) => return Err(format!("{n} lines {wrong:?} were assembled")),
                Err((mut l, _)) => {
                    l.remove(&0);
                    let want: BTreeSet<u32> = (3..3 + n as u32).collect();
                    ensure!(l == want, "of {n} wrong lines {wrong:?}, {} were reported and {} others", l.intersection(&want).count(), l.difference(&want).count());
                }
            }
        }
    }
    // symbols and relocations that the object has no room for
    let mut k = 2;
    for more in [0usize, 1, 2, 1000] {
        // five bytes for each use, ten for each of these symbols
        let uses = 0xffff / 5 + more;
        let syms = 0xffff / 10 + more;
        for (what, src, n) in [
            ("uses", format!(".seg data\na:\n{}", ".wide a\n".repeat(uses)), uses),
            ("labels", format!(".seg data\n{}", (0..syms).map(|i| format!("l{:04x}:\n.byte {}\n", i, i % 251)).collect::<String>()), syms),
            ("references", format!(".seg data\n.byte 1\n{}", (0..syms).map(|i| format!(".ref g{:05x}\n", i)).collect::<String>()), syms),
        ] {
            k += 1;
            if !mine(k) {
                continue;
            }
            match assemble(&ctx.bin, &dir, src.as_bytes()).map_err(|e| format!("{n} {what}: {e}"))? {
                Ok(o) => {
                    ensure!(more == 0, "{n} {what} were assembled, for which the object has no room");
                    let got = if what == "uses" { o.rels.len() } else { o.syms.len() };
                    ensure!(got == n, "{got} of {n} {what} are in the object");
                }
                Err((_, brief)) => ensure!(more > 0, "{n} {what} were refused, which fit into the object: {brief}"),
            }
        }
    }
    ctx.enumerated(evals, evals);
    Ok(())
}

pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "A01",
        rule: "instruction lines of every form, alias, register, literal notation and spacing assembled by tc and compared with the encoding table, a quarter of the files with lines fitting no form, which must be exactly the lines reported; enumerated: every form x name x register x place, and every mnemonic with every sequence of up to four operand kinds; every file is non-trivial",
        assumptions: &["spaces separate the mnemonic from operands, commas the operands", "immediates are in range"],
        tape: 900,
        quick: 12_000,
        thorough: 200_000,
        case: a01,
        enumerate: Some(a01_enum),
    },
    &Prop {
        id: "A02",
        rule: "byte and wide directives, strings and instruction immediates in random notations assembled by tc and compared with the values they were made from, a quarter of the files with malformed literals, which must be exactly the lines reported; enumerated: every byte in every notation, escapes, wides; every file is non-trivial",
        assumptions: &["hexadecimal numbers ending in a lower-case b only as the recorded finding", "no ',' character literal as an instruction operand"],
        tape: 900,
        quick: 15_000,
        thorough: 250_000,
        case: a02,
        enumerate: Some(a02_enum),
    },
    &Prop {
        id: "A03",
        rule: "one to three generated sources per run (segments interleaved in any order, labels of all visibilities, forward and backward uses, entry, files included in each other from different directories) assembled by tc; the object, parsed independently, compared with the model: placement invariants, bytes, symbols, relocations, entry; non-trivial: label uses and more than one segment",
        assumptions: &["segments with labels have bytes", "what a use of an undefined symbol holds is not settled"],
        tape: 900,
        quick: 12_000,
        thorough: 250_000,
        case: a03,
        enumerate: None,
    },
    &Prop {
        id: "A04",
        rule: "one to three generated sources per run with planted errors of fourteen kinds in main and included files, next to correct and missing files; exactly the planted lines must be reported, wrong sources get no object, correct ones their object; a quarter: arbitrary bytes and token mixtures, checked for crashes, hangs and a consistent exit status; non-trivial: at least one wrong or arbitrary file",
        assumptions: &["reports without a line number concern the whole file", "the line of an include is not wrong because of errors within the included file"],
        tape: 900,
        quick: 12_000,
        thorough: 250_000,
        case: a04,
        enumerate: Some(a04_enum),
    },
];
