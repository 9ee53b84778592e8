//! Sets of objects to link, and what a link of them is.
use crate::engine::*;
use crate::obj::*;
use std::collections::{BTreeMap, BTreeSet};

/// what is wanted of a set
#[derive(Clone, Copy)]
pub struct Want {
    pub max: usize,
    /// globals that nobody defines
    pub undefined: bool,
    pub entries: bool,
    pub tag: usize,
}

const LOCALS: [&str; 7] = ["loop", "l", "", "g0", "g1", "loop2", "þ"];

pub fn global_name(i: usize) -> String {
    match i {
        2 => "printf".into(),
        5 => "字".into(),
        _ => format!("g{i}"),
    }
}

fn gen_segs(t: &mut Tape, o: &mut Obj) {
    for (k, n, d) in [(TEXT, 4, 5), (DATA, 1, 2), (RODATA, 1, 3), (HEAP, 1, 5), (ZERO, 1, 8)] {
        if !t.chance(n, d) {
            continue;
        }
        let len = match t.below(8) {
            0 => *t.pick(&[2usize, 0x7f, 0x80, 0x81, 0x100]),
            1 => t.size(1, 0x400),
            _ => t.size(1, 0x30),
        };
        let start = match t.below(4) {
            0 => t.range(0, (0xffff - len) as u32) as u16,
            1 => 0,
            _ => 0x80 * t.range(1, 30) as u16,
        };
        let (a, b) = (t.u8(), t.u8() | 1);
        o.segs.insert(k, (start, (0..len).map(|i| a.wrapping_add((i as u8).wrapping_mul(b))).collect()));
    }
}

/// a place in a segment of the object
fn a_place(t: &mut Tape, o: &Obj) -> (u8, u16) {
    let ks: Vec<u8> = o.segs.keys().copied().collect();
    let k = *t.pick(&ks);
    let (a, b) = &o.segs[&k];
    (k, a + t.range(0, b.len() as u32) as u16)
}

/// objects that fit together
pub fn gen_set(t: &mut Tape, w: Want) -> Vec<Obj> {
    let n = if w.max > 1 && t.chance(1, 80) { t.size(15, 70) } else { t.size(1, w.max) };
    let ng = if t.chance(1, 80) { t.size(20, 280) } else { t.size(0, 6) };
    // who defines which global
    let owner: Vec<Option<usize>> = (0..ng).map(|_| if w.undefined && t.chance(1, 6) { None } else { Some(t.below(n as u32) as usize) }).collect();
    let mut v = vec![];
    for i in 0..n {
        let mut o = Obj::default();
        gen_segs(t, &mut o);
        if o.segs.is_empty() {
            o.segs.insert(TEXT, (0x80, vec![0x20; 1 + t.below(6) as usize]));
        }
        for (g, own) in owner.iter().enumerate() {
            let name = global_name(g);
            if *own == Some(i) {
                let (seg, loc) = a_place(t, &o);
                o.syms.push(Sym { name, global: true, seg, loc });
            } else if t.bool() {
                o.syms.push(Sym { name, global: true, seg: UNKNOWN, loc: 0xfaff });
            }
        }
        let mine: Vec<String> = o.syms.iter().map(|s| s.name.clone()).collect();
        for _ in 0..t.size(0, 4) {
            let name = t.pick(&LOCALS).to_string();
            if mine.contains(&name) {
                continue;
            }
            let (seg, loc) = a_place(t, &o);
            o.syms.push(Sym { name, global: false, seg, loc });
        }
        t.shuffle(&mut o.syms);
        if t.chance(1, 60) {
            // more symbols than fit in a byte, before the others
            let few = std::mem::take(&mut o.syms);
            let ks: Vec<u8> = o.segs.keys().copied().collect();
            let step = t.range(1, 9) as usize;
            for j in 0..250 + t.size(0, 30) {
                let seg = ks[j % ks.len()];
                let (a, b) = &o.segs[&seg];
                o.syms.push(Sym { name: format!("crowd{j}"), global: false, seg, loc: a + (j * step % (b.len() + 1)) as u16 });
            }
            o.syms.extend(few);
        }
        gen_rels(t, &mut o);
        if w.entries && t.chance(1, 3) {
            o.entry = Some(a_place(t, &o));
        }
        if t.chance(1, 10) {
            o.prefix = b"#!/bin/env t\n".to_vec();
        }
        v.push(o);
    }
    if t.chance(1, 60) {
        // all names begin alike
        let n = *t.pick(&[8usize, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300, 1024]);
        // (a section has less than 64 KiB)
        let all: usize = v.iter().flat_map(|o| &o.syms).map(|y| y.name.len() + 7).sum();
        let count: usize = v.iter().map(|o| o.syms.len()).sum();
        let n = n.min(0xf000usize.saturating_sub(all) / (2 * count + 1));
        let like = t.pick(&["n", "þ", "_"]).repeat(n);
        for y in v.iter_mut().flat_map(|o| &mut o.syms).filter(|y| !y.name.is_empty()) {
            y.name = format!("{like}{}", y.name);
        }
    }
    v
}

/// relocations that do not overlap
pub fn gen_rels(t: &mut Tape, o: &mut Obj) {
    if o.syms.is_empty() {
        return;
    }
    let ns = o.syms.len() as u32;
    for (&k, (a, b)) in &o.segs {
        let mut p = t.size(0, 6);
        while p + 2 <= b.len() {
            let sym = if ns > 250 && t.bool() { ns - 1 - t.below(12) } else { t.below(ns) };
            o.rels.push(Rel { seg: k, loc: a + p as u16, sym: sym as u16 });
            p += 2 + match t.below(4) {
                0 => 0,
                1 => t.size(1, 4),
                _ => t.size(4, 60),
            };
            if t.left() == 0 || o.rels.len() > 14 {
                break;
            }
        }
    }
    t.shuffle(&mut o.rels);
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Place {
    pub name: String,
    pub global: bool,
    pub seg: u8,
    /// nothing for undefined symbols
    pub loc: Option<u16>,
}

fn place_of(s: &Sym) -> Place {
    Place { name: s.name.clone(), global: s.global, seg: s.seg, loc: (s.seg != UNKNOWN).then_some(s.loc) }
}

/// what is in an object, whatever the numbering of its symbols
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Image {
    pub entry: Option<(u8, u16)>,
    pub segs: BTreeMap<u8, (u16, Vec<u8>)>,
    pub syms: Vec<Place>,
    pub rels: Vec<(u8, u16, Place)>,
}

pub fn image(o: &Obj) -> R<Image> {
    let mut syms: Vec<Place> = o.syms.iter().map(place_of).collect();
    let mut rels = vec![];
    let mut segs = o.segs.clone();
    for r in &o.rels {
        let y = o.syms.get(r.sym as usize).ok_or_else(|| format!("relocation of symbol {}, which is not there", r.sym))?;
        rels.push((r.seg, r.loc, place_of(y)));
        if y.seg == UNKNOWN {
            // what is in the place of an undefined reference is not settled
            let (a, b) = segs.get_mut(&r.seg).ok_or("relocation in a segment that is not there")?;
            let p = r.loc.wrapping_sub(*a) as usize;
            ensure!(p + 2 <= b.len(), "relocation outside its segment");
            b[p..p + 2].fill(0);
        }
    }
    syms.sort();
    rels.sort();
    Ok(Image { entry: o.entry, segs, syms, rels })
}

fn first_diff<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T]) -> String {
    let a: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(3).collect();
    let b: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(3).collect();
    format!("missing {a:x?}, not expected {b:x?}, {} instead of {}", got.len(), want.len())
}

pub fn same_image(got: &Image, want: &Image) -> R {
    ensure_eq!(got.entry, want.entry, "entry");
    for k in got.segs.keys().chain(want.segs.keys()) {
        match (got.segs.get(k), want.segs.get(k)) {
            (Some((a, b)), Some((wa, wb))) => {
                ensure!(a == wa, "the {} segment is at {a:04x}, expected {wa:04x}", kind_name(*k));
                ensure!(b.len() == wb.len(), "the {} segment has {} bytes, expected {}", kind_name(*k), b.len(), wb.len());
                for i in 0..b.len() {
                    ensure!(b[i] == wb[i], "byte {:04x} of the {} segment is {:02x}, expected {:02x}", *a as usize + i, kind_name(*k), b[i], wb[i]);
                }
            }
            (None, _) => return Err(format!("no {} segment", kind_name(*k))),
            (_, None) => return Err(format!("there is a {} segment", kind_name(*k))),
        }
    }
    ensure!(got.syms == want.syms, "symbols: {}", first_diff(&got.syms, &want.syms));
    ensure!(got.rels == want.rels, "relocations: {}", first_diff(&got.rels, &want.rels));
    Ok(())
}

pub enum Entry {
    First,
    Sym(String),
    Addr(u16),
}

/// The link of some objects, with the segments where the output has them.
/// `starts` must be right already (see `check_placement`).
pub fn model(objs: &[Obj], starts: &BTreeMap<u8, u16>, strip: bool, entry: &Entry) -> Image {
    // where each input's part of each segment is
    let mut at = vec![];
    let mut cur = starts.clone();
    let mut segs: BTreeMap<u8, (u16, Vec<u8>)> = BTreeMap::new();
    for o in objs {
        let mut m = BTreeMap::new();
        for (k, (_, b)) in &o.segs {
            m.insert(*k, cur[k]);
            *cur.get_mut(k).unwrap() += b.len() as u16;
            segs.entry(*k).or_insert((starts[k], vec![])).1.extend(b);
        }
        at.push(m);
    }
    let moved = |i: usize, k: u8, loc: u16| loc.wrapping_sub(objs[i].segs[&k].0).wrapping_add(at[i][&k]);
    let mut globals: BTreeMap<&str, Place> = BTreeMap::new();
    for (i, o) in objs.iter().enumerate() {
        for y in o.syms.iter().filter(|y| y.global) {
            let e = globals.entry(&y.name).or_insert(Place { name: y.name.clone(), global: true, seg: UNKNOWN, loc: None });
            if y.seg != UNKNOWN {
                *e = Place { name: y.name.clone(), global: true, seg: y.seg, loc: Some(moved(i, y.seg, y.loc)) };
            }
        }
    }
    let mut syms: Vec<Place> = globals.values().cloned().collect();
    let mut rels = vec![];
    for (i, o) in objs.iter().enumerate() {
        let mine: Vec<Place> = o
            .syms
            .iter()
            .map(|y| {
                if y.global {
                    globals[y.name.as_str()].clone()
                } else {
                    let p = Place { name: if strip { String::new() } else { y.name.clone() }, global: false, seg: y.seg, loc: Some(moved(i, y.seg, y.loc)) };
                    syms.push(p.clone());
                    p
                }
            })
            .collect();
        for r in &o.rels {
            let p = mine[r.sym as usize].clone();
            let loc = moved(i, r.seg, r.loc);
            let (a, b) = segs.get_mut(&r.seg).unwrap();
            let x = (loc - *a) as usize;
            b[x..x + 2].copy_from_slice(&p.loc.unwrap_or(0).to_le_bytes());
            rels.push((r.seg, loc, p));
        }
    }
    let entry = match entry {
        Entry::First => objs.iter().enumerate().find_map(|(i, o)| o.entry.map(|(k, l)| (k, moved(i, k, l)))),
        Entry::Sym(s) => globals.get(s.as_str()).and_then(|p| p.loc.map(|l| (p.seg, l))),
        Entry::Addr(a) => Some((ZERO, *a)),
    };
    syms.sort();
    rels.sort();
    Image { entry, segs, syms, rels }
}

/// where the segments of the output are
pub fn check_placement(o: &Obj, align: u32) -> R<BTreeMap<u8, u16>> {
    let mut ext: Vec<(usize, usize, u8)> = vec![];
    let mut m = BTreeMap::new();
    for (k, (a, b)) in &o.segs {
        m.insert(*k, *a);
        let a = *a as usize;
        if *k == ZERO {
            ensure!(a == 0, "the zero segment is at {a:04x}");
        } else {
            ensure!(a % align as usize == 0, "the {} segment at {a:04x} is not aligned to {align}", kind_name(*k));
            ensure!(a >= 0x80, "the {} segment is at {a:04x}", kind_name(*k));
        }
        ensure!(a + b.len() <= 0x10000, "the {} segment ends at {:x}", kind_name(*k), a + b.len());
        ext.push((a, a + b.len(), *k));
    }
    ext.sort();
    for w in ext.windows(2) {
        ensure!(w[0].1 <= w[1].0, "the {} and {} segments overlap", kind_name(w[0].2), kind_name(w[1].2));
    }
    Ok(m)
}

/// an upper limit of the space the link needs
pub fn space(objs: &[Obj], align: usize) -> usize {
    let mut len: BTreeMap<u8, usize> = BTreeMap::new();
    for o in objs {
        for (k, (_, b)) in &o.segs {
            *len.entry(*k).or_insert(0) += b.len();
        }
    }
    0x80 + len.values().map(|n| n + align).sum::<usize>()
}

/// the most space the link can need, in whatever order the segments are placed
pub fn most_space(objs: &[Obj], align: usize) -> usize {
    let mut len: BTreeMap<u8, usize> = BTreeMap::new();
    for o in objs {
        for (k, (_, b)) in &o.segs {
            *len.entry(*k).or_insert(0) += b.len();
        }
    }
    let zero = len.remove(&ZERO).unwrap_or(0);
    len.retain(|_, n| *n > 0);
    let all: usize = len.values().map(|n| n.next_multiple_of(align)).sum();
    if zero > 0xfff0 {
        // (an object has no room for it)
        return usize::MAX;
    }
    match len.values().map(|n| n.next_multiple_of(align) - n).min() {
        None => zero,
        Some(least) => zero.max(0x80).next_multiple_of(align) + all - least,
    }
}

/// the least space the link needs
pub fn least_space(objs: &[Obj]) -> usize {
    let all: usize = objs.iter().flat_map(|o| o.segs.values()).map(|s| s.1.len()).sum();
    let zero: usize = objs.iter().filter_map(|o| o.segs.get(&ZERO)).map(|s| s.1.len()).sum();
    if zero >= 0x80 {
        all
    } else {
        all - zero + 0x80
    }
}

pub fn defined(objs: &[Obj]) -> BTreeSet<String> {
    objs.iter().flat_map(|o| &o.syms).filter(|y| y.global && y.seg != UNKNOWN).map(|y| y.name.clone()).collect()
}

/// globals that are referred to and defined nowhere
pub fn unresolved(objs: &[Obj]) -> BTreeSet<String> {
    let d = defined(objs);
    objs.iter().flat_map(|o| o.rels.iter().map(|r| &o.syms[r.sym as usize])).filter(|y| y.seg == UNKNOWN && !d.contains(&y.name)).map(|y| y.name.clone()).collect()
}

pub fn show_set(objs: &[Obj]) -> String {
    let mut s = String::new();
    for (i, o) in objs.iter().enumerate() {
        s.push_str(&format!("\n  [{i}] {}", o.brief()));
    }
    s
}
