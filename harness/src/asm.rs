//! Source lines: spellings of literals and instructions, what they mean, and runs of the real assembler.
use crate::cli;
use crate::engine::*;
use crate::isa::{self, Form, Sem, K};
use crate::obj::*;
use std::collections::BTreeSet;
use std::path::Path;

// ------------------------------------------------------------------ literals

/// digits of a value in a base, in some spelling
fn digits(t: &mut Tape, v: u32, radix: u32) -> String {
    let mut s = String::new();
    let mut v = v;
    loop {
        let d = char::from_digit(v % radix, radix).unwrap();
        // a lower-case b at the end of a hexadecimal number is taken for a suffix (known finding A02)
        let up = radix == 16 && (t.bool() || s.is_empty() && d == 'b');
        s.insert(0, if up { d.to_ascii_uppercase() } else { d });
        v /= radix;
        if v == 0 {
            break;
        }
    }
    if t.chance(1, 8) {
        for _ in 0..t.size(1, 6) {
            s.insert(0, '0');
        }
    }
    s
}

/// a number without suffix
pub fn number(t: &mut Tape, v: i32) -> String {
    let radix = *t.pick(&[10u32, 16, 16, 2, 8, 10]);
    let pre = match radix {
        16 => "0x",
        2 => "0b",
        8 => "0o",
        _ => "",
    };
    let sign = if v < 0 {
        "-"
    } else if t.chance(1, 16) {
        "+"
    } else {
        ""
    };
    // the sign of a number with a base comes after the base
    format!("{pre}{sign}{}", digits(t, v.unsigned_abs(), radix))
}

pub fn char_literal(t: &mut Tape, b: u8) -> Option<String> {
    let e = escape(t, b, t_raw(b) && b != b'\'')?;
    Some(format!("'{e}'"))
}

fn t_raw(b: u8) -> bool {
    (0x20..0x7f).contains(&b) && b != b'\\'
}

/// one byte of a string or character literal
fn escape(t: &mut Tape, b: u8, raw: bool) -> Option<String> {
    let short = match b {
        b'\r' => Some("\\r"),
        b'\t' => Some("\\t"),
        b'\n' => Some("\\n"),
        0 => Some("\\0"),
        b'\\' => Some("\\\\"),
        b'\'' => Some("\\'"),
        b'"' => Some("\\\""),
        _ => None,
    };
    Some(match t.below(8) {
        0 => {
            let s = format!("{b:02x}");
            let s = if t.bool() { s.to_uppercase() } else { s };
            format!("\\x{s}")
        }
        1..=3 if short.is_some() => short.unwrap().into(),
        _ if raw => (b as char).to_string(),
        _ => match short {
            Some(s) => s.into(),
            None => format!("\\x{b:02x}"),
        },
    })
}

/// spelling of a byte operand
pub fn byte_literal(t: &mut Tape, v: u8, in_ins: bool) -> String {
    match t.below(4) {
        0 if !(in_ins && v == b',') => {
            let c = char_literal(t, v).unwrap();
            if !(in_ins && c.contains(',')) {
                return c;
            }
            number(t, v as i32)
        }
        // a suffixed hexadecimal number ends in b all the same
        1 => {
            let n = if v >= 0x80 && t.bool() { v as i8 as i32 } else { v as i32 };
            let s = number(t, n);
            // (0b alone is the start of a binary number)
            if s == "0" {
                s
            } else {
                format!("{s}b")
            }
        }
        2 if v >= 0x80 => number(t, v as i8 as i32),
        _ => number(t, v as i32),
    }
}

pub fn wide_literal(t: &mut Tape, v: u16) -> String {
    match t.below(4) {
        1 => {
            let n = if v >= 0x8000 && t.bool() { v as i16 as i32 } else { v as i32 };
            format!("{}w", number(t, n))
        }
        2 if v >= 0x8000 => number(t, v as i16 as i32),
        _ => number(t, v as i32),
    }
}

/// `.string` text of some bytes
pub fn string_text(t: &mut Tape, b: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < b.len() {
        // characters of more than one byte may stand for themselves
        if b[i] >= 0xc2 && t.bool() {
            let n = (2..=4).find(|n| b.len() >= i + n && std::str::from_utf8(&b[i..i + n]).is_ok_and(|s| s.chars().count() == 1 && !s.chars().all(char::is_whitespace)));
            if let Some(n) = n {
                s.push_str(std::str::from_utf8(&b[i..i + n]).unwrap());
                i += n;
                continue;
            }
        }
        // blanks at the end of the line do not count
        let last = i + 1 == b.len();
        let raw = (t_raw(b[i]) || b[i] == 1) && !(last && b[i] == b' ');
        s.push_str(&escape(t, b[i], raw).unwrap());
        i += 1;
    }
    s
}

pub fn gen_string(t: &mut Tape, max: usize) -> Vec<u8> {
    let n = t.size(1, max);
    let mut v = vec![];
    while v.len() < n {
        match t.below(12) {
            0 => v.extend("þ".bytes()),
            1 => v.extend("字".bytes()),
            2 => v.push(*t.pick(b"\\'\"\r\n\t\0;:#., /")),
            3 => v.push(t.u8()),
            4 => v.push(b' '),
            5 => v.extend(*t.pick(&[b"//".as_slice(), b"r1", b"\\x", b"0x", b"x41", b".seg"])),
            _ => v.push(b'a' + t.below(26) as u8),
        }
    }
    v
}

/// literals that mean nothing
pub fn bad_escape(t: &mut Tape) -> &'static str {
    *t.pick(&["\\q", "\\x", "\\x1", "\\xg1", "\\x1g", "\\", "\\x+1", "\\x 1", "\\N", "\\x-1", "a\\", "\\u0041", "\\x\u{e9}", "\\\u{e9}", "ok\\xok", "\\a", "\\1"])
}

pub fn bad_literal(t: &mut Tape) -> String {
    match t.below(5) {
        0 => format!("'{}'", bad_escape(t)),
        1 => (*t.pick(&["''", "'ab'", "'\u{e9}'", "'\\x411'", "'\\'", "'  '", "'\\nn'"])).into(),
        2 => (*t.pick(&["0x", "0xg", "0b2", "0o8", "12a", "1.5", "--1", "- 1", "1 2", "0x1_0", "1e3", "$1", "0X10", "#1", "0x-", "a'", "2147483648", "0x100000000", "-2147483649"])).into(),
        3 => {
            let v = t.range(256, 70000);
            format!("{v}b")
        }
        _ => {
            let v = t.range(65536, 99999);
            format!("{v}w")
        }
    }
}

// ------------------------------------------------------------------ lines

/// what an operand looks like to the assembler
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum A {
    B,
    W,
    /// number without suffix
    Num,
    Byte,
    Wide,
    Label,
}
pub const ALL_A: [A; 6] = [A::B, A::W, A::Num, A::Byte, A::Wide, A::Label];

fn fits(k: K, a: A) -> bool {
    match k {
        K::B => a == A::B,
        K::W => a == A::W,
        K::Ib => matches!(a, A::Num | A::Byte),
        K::Iw => matches!(a, A::Num | A::Wide | A::Label),
    }
}

/// the form that a line is, if any
pub fn form_for(name: &str, ops: &[A]) -> Option<&'static Form> {
    if name == "ret" && ops.is_empty() {
        return isa::FORMS.iter().find(|f| f.sem == Sem::Ret);
    }
    isa::FORMS.iter().find(|f| f.names.contains(&name) && f.ops.len() == ops.len() && f.ops.iter().zip(ops).all(|(k, a)| fits(*k, *a)))
}

#[derive(Debug, Clone)]
pub struct Opnd {
    pub a: A,
    pub v: u16,
    pub text: String,
}

pub fn gen_opnd(t: &mut Tape, a: A, labels: &[String]) -> Opnd {
    let r = t.below(16) as usize;
    let (v, text) = match a {
        A::B => (r as u16, isa::BREGS[r].to_string()),
        A::W => (r as u16, isa::WREGS[r].to_string()),
        A::Num => {
            // a number that fits a byte fits every place
            let v = t.b8();
            if v >= 0x80 && t.bool() {
                (v as i8 as u16, number(t, v as i8 as i32))
            } else {
                (v as u16, number(t, v as i32))
            }
        }
        A::Byte => {
            let v = t.b8();
            let mut x = byte_literal(t, v, true);
            if !x.ends_with('b') && !x.ends_with('\'') {
                if x == "0" {
                    x.push('0');
                }
                x.push('b');
            }
            (v as u16, x)
        }
        A::Wide => {
            let v = t.b16();
            let mut x = wide_literal(t, v);
            if !x.ends_with('w') {
                x.push('w');
            }
            (v, x)
        }
        A::Label => {
            let i = t.below(labels.len() as u32) as usize;
            (i as u16, labels[i].clone())
        }
    };
    Opnd { a, v, text }
}

/// the operands of a form
pub fn gen_ops(t: &mut Tape, f: &Form, labels: &[String]) -> Vec<Opnd> {
    f.ops
        .iter()
        .map(|k| match k {
            K::B => gen_opnd(t, A::B, labels),
            K::W => {
                let mut o = gen_opnd(t, A::W, labels);
                if f.sem == Sem::JmpR && o.v == 0 {
                    o.v = 1;
                    o.text = "r1".into();
                }
                o
            }
            K::Ib => {
                let v = t.b8();
                let text = byte_literal(t, v, true);
                Opnd { a: if text.ends_with('\'') || text.ends_with('b') { A::Byte } else { A::Num }, v: v as u16, text }
            }
            K::Iw if !labels.is_empty() && t.chance(1, 3) => gen_opnd(t, A::Label, labels),
            K::Iw => {
                let v = t.b16();
                let text = wide_literal(t, v);
                Opnd { a: if text.ends_with('w') { A::Wide } else { A::Num }, v, text }
            }
        })
        .collect()
}

/// a line with the given operands, spaced in some way
pub fn line(t: &mut Tape, name: &str, ops: &[Opnd]) -> String {
    let mut s = name.to_string();
    for (i, o) in ops.iter().enumerate() {
        let plain = t.chance(7, 8);
        if i == 0 {
            s.push(' ');
            if !plain {
                s.push_str(*t.pick(&[" ", "   ", " \t", "\t "]));
            }
        } else {
            s.push_str(if plain { ", " } else { *t.pick(&[",", " ,", " , ", ",\t", "\t,  "]) });
        }
        s.push_str(&o.text);
    }
    s
}

/// white space around a line
pub fn indent(t: &mut Tape, l: &str) -> String {
    if t.chance(3, 4) {
        return l.to_string();
    }
    format!("{}{l}{}", t.pick(&["", " ", "    ", "\t", " \t "]), t.pick(&["", " ", "\t", "  ", "\r"]))
}

/// a line that means nothing
pub fn comment(t: &mut Tape) -> String {
    let c = *t.pick(&["", "; ldi r1, undefined", "// x:", "#!/bin/env tc", "  ", ";", "//", "   ; jmp nowhere", "# .seg nothing", "\t// .entry"]);
    c.to_string()
}

/// names that are neither numbers nor registers
pub fn gen_label(t: &mut Tape, n: usize) -> String {
    let odd = [
        "r11", "r0l", "rb", "rw", "b", "w", "bw", "ldi", "halt", "x.y", "_", "_start", "main", "þú", "字", "a-b", "r1b", "r10l", "R1", "seg", "0z", "9lives", "1_", "e1", "in'valid", "feb", "abb", "-x", "L@1", "a/b", "w0", "@1", "r6l", "a\\n", "xb", "\u{e9}b",
    ];
    if t.chance(1, 10) {
        // long ones that differ at the end only
        let k = *t.pick(&[4, 13, 40]);
        return format!("{}{n}", "a_long_".repeat(k));
    }
    match t.below(4) {
        0 => format!("{}{n}", t.pick(&odd)),
        1 if n < odd.len() => odd[n].to_string(),
        _ => format!("l{n}"),
    }
}

// ------------------------------------------------------------------ the assembler

/// lines of a file that the assembler complained about (0: no line)
pub fn reported(stderr: &str, base: &str) -> BTreeSet<u32> {
    let mut s = BTreeSet::new();
    for l in stderr.lines() {
        let Some(i) = l.find(&format!("{base}:")) else { continue };
        // the file name must be the start of the line, with directories before it
        if l[..i].contains(": ") || !(i == 0 || l[..i].ends_with('/')) {
            continue;
        }
        let rest = &l[i + base.len() + 1..];
        let n: String = rest.chars().take_while(char::is_ascii_digit).collect();
        s.insert(if rest[n.len()..].starts_with(':') { n.parse().unwrap_or(0) } else { 0 });
    }
    s
}

/// runs the assembler on one file; `Ok(Ok)` with the object or `Ok(Err)` with the lines reported
pub fn assemble(bin: &Path, dir: &Path, src: &[u8]) -> R<Result<Obj, (BTreeSet<u32>, String)>> {
    Ok(assemble_talk(bin, dir, src)?.map(|o| o.0))
}

/// the object and what was printed
pub fn assemble_talk(bin: &Path, dir: &Path, src: &[u8]) -> R<Result<(Obj, String), (BTreeSet<u32>, String)>> {
    let p = dir.join("s.telda");
    let to = dir.join("s.to");
    let _ = std::fs::remove_file(&to);
    std::fs::write(&p, src).unwrap();
    let out = cli::run(bin, "tc", dir, &["s.telda"])?;
    ensure!(!out.crashed(), "tc crashed: {}", out.brief());
    if out.ok() {
        let o = Obj::read(&to).map_err(|e| format!("tc succeeded, but {e}"))?;
        return Ok(Ok((o, out.stderr)));
    }
    ensure!(!to.exists(), "tc failed, but wrote an object: {}", out.brief());
    Ok(Err((reported(&out.stderr, "s.telda"), out.brief())))
}

/// `what` names lines of the source in a message
pub fn show(lines: &[String], at: &BTreeSet<u32>) -> String {
    at.iter().take(4).map(|n| format!("{n}: {:?}", lines.get((*n as usize).wrapping_sub(1)).map_or("", |s| s.as_str()))).collect::<Vec<_>>().join(", ")
}

/// assembles lines of which some are wrong, and compares the complaints
pub fn check_bad(bin: &Path, dir: &Path, lines: &[String], bad: &BTreeSet<u32>) -> R {
    let mut src = lines.join("\n");
    src.push('\n');
    match assemble(bin, dir, src.as_bytes())? {
        Ok(o) => Err(format!("wrong lines were assembled ({}) to {}", show(lines, bad), o.brief())),
        Err((mut got, brief)) => {
            got.remove(&0);
            let missed: BTreeSet<u32> = bad.difference(&got).copied().collect();
            let extra: BTreeSet<u32> = got.difference(bad).copied().collect();
            ensure!(missed.is_empty(), "wrong lines were not reported: {}; {brief}", show(lines, &missed));
            ensure!(extra.is_empty(), "correct lines were reported: {}; {brief}", show(lines, &extra));
            Ok(())
        }
    }
}

pub fn of_form(f: &Form, v: &[u16]) -> Vec<u8> {
    f.encode(v)
}
