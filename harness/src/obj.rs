//! Object and archive files: an own serializer and parser of the format, independent of the code under test.
use crate::engine::*;
use std::collections::BTreeMap;
use telda2::aalv::obj as ta;

pub const ZERO: u8 = 0;
pub const DATA: u8 = 0x10;
pub const RODATA: u8 = 0x18;
pub const TEXT: u8 = 0x20;
pub const HEAP: u8 = 0x70;
pub const UNKNOWN: u8 = 0xff;
pub const KINDS: [u8; 6] = [TEXT, DATA, RODATA, HEAP, ZERO, UNKNOWN];
pub const MAGIC: &[u8] = "álvur2\n".as_bytes();
pub const SAVN: &[u8] = "álvasavn\n".as_bytes();

pub fn kind_name(k: u8) -> &'static str {
    match k {
        ZERO => "zero",
        DATA => "data",
        RODATA => "rodata",
        TEXT => "text",
        HEAP => "heap",
        _ => "unknown",
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sym {
    pub name: String,
    pub global: bool,
    pub seg: u8,
    pub loc: u16,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rel {
    pub seg: u8,
    pub loc: u16,
    pub sym: u16,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Obj {
    pub prefix: Vec<u8>,
    pub entry: Option<(u8, u16)>,
    pub flags: Option<bool>,
    pub stack: Option<u16>,
    pub heap: Option<u16>,
    pub segs: BTreeMap<u8, (u16, Vec<u8>)>,
    pub syms: Vec<Sym>,
    pub rels: Vec<Rel>,
}

pub fn section(name: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = name.to_vec();
    v.push(0);
    v.extend((data.len() as u16).to_le_bytes());
    v.extend(data);
    v
}

impl Obj {
    pub fn sections(&self) -> Vec<Vec<u8>> {
        let mut s = vec![];
        if let Some((k, l)) = self.entry {
            s.push(section(b"_entry", &[k, l as u8, (l >> 8) as u8]));
        }
        if let Some(r) = self.flags {
            s.push(section(b"_flags", if r { b"R" } else { b"" }));
        }
        if let Some(n) = self.stack {
            s.push(section(b"_stack_size", &n.to_le_bytes()));
        }
        if let Some(n) = self.heap {
            s.push(section(b"_heap_size", &n.to_le_bytes()));
        }
        for (&k, (o, b)) in &self.segs {
            let mut d = vec![*o as u8, (*o >> 8) as u8, k];
            d.extend(b);
            s.push(section(b"_seg", &d));
        }
        if !self.syms.is_empty() {
            let mut d = vec![];
            for y in &self.syms {
                if !y.global {
                    d.push(b' ');
                }
                d.extend(y.name.as_bytes());
                d.extend([0, y.seg, y.loc as u8, (y.loc >> 8) as u8]);
            }
            s.push(section(b"_syms", &d));
        }
        if !self.rels.is_empty() {
            let mut d = vec![];
            for r in &self.rels {
                d.extend([r.seg, r.loc as u8, (r.loc >> 8) as u8, r.sym as u8, (r.sym >> 8) as u8]);
            }
            s.push(section(b"_reloc", &d));
        }
        s
    }
    /// every section of the model must fit
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.prefix.clone();
        v.extend(MAGIC);
        for s in self.sections() {
            v.extend(s);
        }
        v.push(0);
        v
    }
    /// strict: every byte of the file must be accounted for
    pub fn parse(b: &[u8]) -> R<Obj> {
        let (o, end) = Self::parse_at(b)?;
        ensure!(end == b.len(), "{} bytes after the end of the object", b.len() - end);
        Ok(o)
    }
    pub fn parse_at(b: &[u8]) -> R<(Obj, usize)> {
        let start = find(b, MAGIC).ok_or("no object in the file")?;
        let mut p = start + MAGIC.len();
        let mut o = Obj { prefix: b[..start].to_vec(), ..Obj::default() };
        let (mut seen_syms, mut seen_rels) = (false, false);
        loop {
            let n = b[p..].iter().position(|&c| c == 0).ok_or("section name does not end")?;
            let name = &b[p..p + n];
            p += n + 1;
            if name.is_empty() {
                break;
            }
            ensure!(p + 2 <= b.len(), "file ends in a section header");
            let len = u16::from_le_bytes([b[p], b[p + 1]]) as usize;
            p += 2;
            ensure!(p + len <= b.len(), "file ends in a section");
            let d = &b[p..p + len];
            p += len;
            let w = |i: usize| u16::from_le_bytes([d[i], d[i + 1]]);
            let what = String::from_utf8_lossy(name).into_owned();
            let len_is = |n: usize| if d.len() == n { Ok(()) } else { Err(format!("section {what} has {} bytes", d.len())) };
            match name {
                b"_entry" => {
                    len_is(3)?;
                    ensure!(o.entry.replace((d[0], w(1))).is_none(), "two _entry sections");
                }
                b"_flags" => {
                    ensure!(d.is_empty() || d == b"R", "flags {d:x?}");
                    ensure!(o.flags.replace(!d.is_empty()).is_none(), "two _flags sections");
                }
                b"_stack_size" => {
                    len_is(2)?;
                    ensure!(o.stack.replace(w(0)).is_none(), "two _stack_size sections");
                }
                b"_heap_size" => {
                    len_is(2)?;
                    ensure!(o.heap.replace(w(0)).is_none(), "two _heap_size sections");
                }
                b"_seg" => {
                    ensure!(len >= 3, "short _seg section");
                    ensure!(KINDS.contains(&d[2]), "segment type {:02x}", d[2]);
                    ensure!(o.segs.insert(d[2], (w(0), d[3..].to_vec())).is_none(), "two {} segments", kind_name(d[2]));
                }
                b"_syms" => {
                    ensure!(!std::mem::replace(&mut seen_syms, true), "two _syms sections");
                    let mut q = 0;
                    while q < len {
                        let n = d[q..].iter().position(|&c| c == 0).ok_or("symbol name does not end")?;
                        let name = &d[q..q + n];
                        q += n + 1;
                        ensure!(q + 3 <= len, "short symbol");
                        let global = name.first() != Some(&b' ');
                        let name = String::from_utf8(name[usize::from(!global)..].to_vec()).map_err(|_| "symbol name is not UTF-8")?;
                        o.syms.push(Sym { name, global, seg: d[q], loc: w(q + 1) });
                        q += 3;
                    }
                }
                b"_reloc" => {
                    ensure!(!std::mem::replace(&mut seen_rels, true), "two _reloc sections");
                    ensure!(len % 5 == 0, "_reloc has {len} bytes");
                    for q in (0..len).step_by(5) {
                        o.rels.push(Rel { seg: d[q], loc: w(q + 1), sym: w(q + 3) });
                    }
                }
                _ => return Err(format!("unexpected section {what:?}")),
            }
        }
        Ok((o, p))
    }
    pub fn read(path: &std::path::Path) -> R<Obj> {
        let b = std::fs::read(path).map_err(|e| format!("{}: {e}", path.display()))?;
        Self::parse(&b).map_err(|e| format!("{}: {e}", path.display()))
    }
    pub fn of_real(o: &ta::Object) -> Obj {
        Obj {
            prefix: vec![],
            entry: o.entry.map(|e| (e.0 as u8, e.1)),
            flags: o.flags.map(|f| f.readable_text),
            stack: o.stack_size.map(|s| s.0),
            heap: o.heap_size.map(|s| s.0),
            segs: o.segs.iter().map(|(k, (a, b))| (*k as u8, (*a, b.clone()))).collect(),
            syms: o.symbols.iter().map(|s| Sym { name: s.name.to_string(), global: s.is_global, seg: s.segment_type as u8, loc: s.location }).collect(),
            rels: o.relocation_table.0.iter().map(|r| Rel { seg: r.reference_segment as u8, loc: r.reference_location, sym: r.symbol_index }).collect(),
        }
    }
    pub fn to_real(&self) -> ta::Object {
        let st = |k: u8| match k {
            UNKNOWN => ta::SegmentType::Unknown,
            ZERO => ta::SegmentType::Zero,
            DATA => ta::SegmentType::Data,
            RODATA => ta::SegmentType::RoData,
            TEXT => ta::SegmentType::Text,
            HEAP => ta::SegmentType::Heap,
            k => unreachable!("segment type {k:02x}"),
        };
        ta::Object {
            file_offset: self.prefix.len() as u64,
            entry: self.entry.map(|(k, l)| ta::Entry(st(k), l)),
            flags: self.flags.map(|readable_text| ta::Flags { readable_text }),
            stack_size: self.stack.map(ta::StackSize),
            heap_size: self.heap.map(ta::HeapSize),
            segs: self.segs.iter().map(|(k, (o, b))| (st(*k), (*o, b.clone()))).collect(),
            symbols: ta::SymbolTable(
                self.syms.iter().map(|s| ta::SymbolDefinition { name: s.name.clone().into(), is_global: s.global, segment_type: st(s.seg), location: s.loc }).collect(),
            ),
            relocation_table: ta::RelocationTable(
                self.rels.iter().map(|r| ta::RelocationEntry { reference_segment: st(r.seg), reference_location: r.loc, symbol_index: r.sym }).collect(),
            ),
        }
    }
    pub fn sans_prefix(mut self) -> Obj {
        self.prefix.clear();
        self
    }
    pub fn brief(&self) -> String {
        use std::fmt::Write;
        let mut s = String::new();
        if !self.prefix.is_empty() {
            write!(s, "prefix[{}] ", self.prefix.len()).unwrap();
        }
        if let Some((k, l)) = self.entry {
            write!(s, "entry {}:{l:04x} ", kind_name(k)).unwrap();
        }
        if let Some(r) = self.flags {
            write!(s, "flags {} ", if r { "R" } else { "-" }).unwrap();
        }
        if let Some(n) = self.stack {
            write!(s, "stack {n:x} ").unwrap();
        }
        if let Some(n) = self.heap {
            write!(s, "heap {n:x} ").unwrap();
        }
        for (k, (o, b)) in &self.segs {
            write!(s, "{}@{o:04x}+{:x} ", kind_name(*k), b.len()).unwrap();
        }
        for y in self.syms.iter().take(8) {
            write!(s, "{}{:?}={}:{:04x} ", if y.global { "" } else { "local " }, y.name, kind_name(y.seg), y.loc).unwrap();
        }
        for r in self.rels.iter().take(8) {
            write!(s, "rel {}:{:04x}->{} ", kind_name(r.seg), r.loc, r.sym).unwrap();
        }
        s
    }
}

pub fn find(b: &[u8], what: &[u8]) -> Option<usize> {
    b.windows(what.len()).position(|w| w == what)
}

pub fn archive(members: &[Vec<u8>]) -> Vec<u8> {
    let mut v = SAVN.to_vec();
    for m in members {
        v.extend(m);
    }
    v
}

/// bytes before an object that do not make the object start earlier
pub fn gen_prefix(t: &mut Tape) -> Vec<u8> {
    let mut v = match t.below(6) {
        0 | 1 => vec![],
        2 => b"#!/bin/env t\n".to_vec(),
        3 => (0..t.size(0, 40)).map(|_| t.u8()).collect(),
        4 => {
            let mut v = vec![];
            for _ in 0..t.size(1, 5) {
                let n = t.size(1, MAGIC.len() - 1);
                v.extend(&MAGIC[..n]);
                if t.chance(1, 4) {
                    v.push(*t.pick(&[b'\n', 0, 0xc3, 0xa1, b'l']));
                }
            }
            v
        }
        _ => {
            let n = if t.chance(1, 10) { *t.pick(&[16_384usize, 32_760, 65_530, 70_000, 131_072]) + t.below(8) as usize } else { t.size(0, 9000) };
            let b = t.u8();
            vec![b; n]
        }
    };
    v.extend(MAGIC);
    let at = find(&v, MAGIC).unwrap();
    v.truncate(at);
    v
}

const NAME_CHARS: &[char] = &['a', 'b', 'x', 'Z', '_', '0', '9', '.', '@', 'þ', 'é', '字', ' ', '\n', ':', '\u{1}', '\t', '#'];

pub fn gen_name(t: &mut Tape) -> String {
    let n = match t.below(8) {
        0 => 0,
        7 => t.size(0, 300),
        _ => t.size(1, 8),
    };
    let s: String = (0..n).map(|_| *t.pick(NAME_CHARS)).collect();
    // the format's own rule
    s.trim_start().to_string()
}

fn gen_bytes(t: &mut Tape, n: usize) -> Vec<u8> {
    // long ones repeat a short random piece with a counter, to need few choices
    let k = n.min(24);
    let seed: Vec<u8> = (0..k).map(|_| t.u8()).collect();
    (0..n).map(|i| if i < k { seed[i] } else { seed[i % k].wrapping_add((i / k) as u8) }).collect()
}

/// a section that is no part of an object, to be ignored in one
pub fn gen_foreign(t: &mut Tape) -> Vec<u8> {
    if t.chance(1, 40) {
        // many, or a long name
        if t.bool() {
            let n = *t.pick(&[20usize, 60, 130, 250, 260, 600]);
            return (0..n).flat_map(|i| section(format!("s{i}").as_bytes(), &[i as u8][..i % 2])).collect();
        }
        let n = *t.pick(&[30usize, 70, 130, 250, 260, 1030, 5000]);
        return section(&vec![*t.pick(&[b'n', b'x', b'-', 0xc3]); n], b"data");
    }
    let name = *t.pick(&[&b"name"[..], b"x", b"seg", b"syms", b"debug_info", b"entry_", b"x_", b"\xc3\xbe", b"N", b" _seg", b"-"]);
    let data = match t.below(4) {
        0 => vec![],
        1 => section(b"_seg", &[0, 1, 0x20, 7]),
        2 => MAGIC.to_vec(),
        _ => {
            let n = t.size(0, 30);
            (0..n).map(|_| t.u8()).collect()
        }
    };
    section(name, &data)
}

/// any object the format can represent
pub fn gen_any(t: &mut Tape) -> Obj {
    let mut o = Obj::default();
    if t.bool() {
        o.entry = Some((*t.pick(&KINDS), t.b16()));
    }
    if t.bool() {
        o.flags = Some(t.bool());
    }
    if t.bool() {
        // the sizes that apply without one are no special case
        o.stack = Some(if t.chance(1, 8) { *t.pick(&[0x180, 0x400]) } else { t.b16() });
    }
    if t.bool() {
        o.heap = Some(if t.chance(1, 8) { *t.pick(&[0x400, 0x180]) } else { t.b16() });
    }
    for k in KINDS {
        if t.bool() {
            let n = match t.below(16) {
                0 => 0,
                14 => *t.pick(&[255usize, 256, 257, 4095, 4096, 8191, 8192, 8193]),
                15 if t.chance(1, 4) => *t.pick(&[65532usize, 65531, 32767, 32768, 65000]),
                _ => t.size(1, 40),
            };
            let max = (0x10000 - n).min(0xffff) as u32;
            let off = match t.below(4) {
                0 => 0,
                1 => max,
                _ => t.range(0, max),
            };
            let b = if t.chance(1, 8) { vec![0; n] } else { gen_bytes(t, n) };
            o.segs.insert(k, (off as u16, b));
        }
    }
    let ns = if t.chance(1, 60) { t.size(200, 900) } else { t.size(0, 7) };
    for _ in 0..ns {
        o.syms.push(Sym { name: gen_name(t), global: t.bool(), seg: *t.pick(&KINDS), loc: t.b16() });
    }
    while o.syms.iter().map(|s| s.name.len() + 5).sum::<usize>() > 65535 {
        o.syms.pop();
    }
    let nr = match t.below(40) {
        39 => t.size(13000, 13107),
        _ => t.size(0, 7),
    };
    if nr > 100 {
        let s = t.u16();
        for i in 0..nr {
            o.rels.push(Rel { seg: KINDS[i % 6], loc: (i as u16).wrapping_mul(s), sym: i as u16 ^ s });
        }
    } else {
        for _ in 0..nr {
            o.rels.push(Rel { seg: *t.pick(&KINDS), loc: t.b16(), sym: t.b16() });
        }
    }
    o
}

/// `Err` names the first difference
pub fn same(got: &Obj, want: &Obj, what: &str) -> R {
    ensure_eq!(got.entry, want.entry, "{what}: entry");
    ensure_eq!(got.flags, want.flags, "{what}: flags");
    ensure_eq!(got.stack, want.stack, "{what}: stack size");
    ensure_eq!(got.heap, want.heap, "{what}: heap size");
    ensure_eq!(got.segs.keys().collect::<Vec<_>>(), want.segs.keys().collect::<Vec<_>>(), "{what}: segments");
    for (k, (o, b)) in &want.segs {
        let (go, gb) = &got.segs[k];
        ensure_eq!(go, o, "{what}: start of the {} segment", kind_name(*k));
        ensure_eq!(gb.len(), b.len(), "{what}: length of the {} segment", kind_name(*k));
        if let Some(i) = gb.iter().zip(b).position(|(x, y)| x != y) {
            return Err(format!("{what}: byte {i:x} of the {} segment: got {:02x}, expected {:02x}", kind_name(*k), gb[i], b[i]));
        }
    }
    ensure_eq!(got.syms, want.syms, "{what}: symbols");
    ensure_eq!(got.rels, want.rels, "{what}: relocations");
    Ok(())
}
