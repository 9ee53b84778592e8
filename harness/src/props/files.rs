//! Object files, archives and the container format: F01-F05.
use crate::cli;
use crate::engine::*;
use crate::obj::*;
use std::cell::RefCell;
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, Write};
use std::path::Path;
use telda2::aalv::obj::Object;
use telda2::aalv::{read_aalv_file, read_archive, write_aalv_file, write_aalv_file_with_offset, AalvReader, AalvWriter, Section};

// ------------------------------------------------------------------ F01
fn f01_case(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut o = gen_any(t);
    o.prefix = gen_prefix(t);
    let dir = ctx.fresh_dir();
    let path = dir.join("o.to");
    let parts = [o.entry.is_some(), o.flags.is_some(), o.stack.is_some(), o.heap.is_some(), !o.segs.is_empty(), !o.syms.is_empty(), !o.rels.is_empty()];
    if parts.iter().filter(|p| **p).count() >= 2 {
        ctx.nontrivial();
    }
    ctx.sample(|| o.brief());
    if t.bool() {
        ctx.label("written");
        // into a file that has the prefix and maybe more
        let mut before = o.prefix.clone();
        if t.bool() {
            before.extend((0..t.size(0, 200)).map(|_| t.u8()));
            ctx.label("over an existing object");
        }
        if !before.is_empty() || t.bool() {
            std::fs::write(&path, &before).unwrap();
        }
        if !o.prefix.is_empty() {
            ctx.label("with a prefix");
        }
        guarded(|| o.to_real().write_to_file(&path))?.map_err(|e| format!("writing failed: {e}"))?;
        let b = std::fs::read(&path).unwrap();
        ensure!(b.starts_with(&o.prefix), "the bytes before the object changed");
        let (p, end) = Obj::parse_at(&b).map_err(|e| format!("the written file is damaged: {e}"))?;
        ensure_eq!(end, b.len(), "end of the object in the file");
        ensure_eq!(p.prefix.len(), o.prefix.len(), "start of the object");
        same(&p, &o, "written file")?;
    } else {
        ctx.label("serialized independently");
        let mut b = o.prefix.clone();
        b.extend(MAGIC);
        let mut s = o.sections();
        if t.bool() {
            t.shuffle(&mut s);
            ctx.label("sections in another order");
        }
        if t.chance(1, 3) {
            for _ in 0..t.size(1, 3) {
                let extra = gen_foreign(t);
                let at = t.size(0, s.len());
                s.insert(at, extra);
            }
            ctx.label("with an unrelated section");
        }
        for x in s {
            b.extend(x);
        }
        b.push(0);
        if t.chance(1, 4) {
            b.extend(b"trailing");
        }
        std::fs::write(&path, &b).unwrap();
    }
    let r = guarded(|| Object::from_file(&path))?.map_err(|e| format!("reading back failed: {e}"))?;
    ensure_eq!(r.file_offset, o.prefix.len() as u64, "recorded offset of the object");
    same(&Obj::of_real(&r), &o, "read back")?;
    // reading and writing what was read keeps everything
    if t.bool() {
        guarded(|| r.write_to_file(&path))?.map_err(|e| format!("writing again failed: {e}"))?;
        let b = std::fs::read(&path).unwrap();
        ensure!(b.starts_with(&o.prefix), "the bytes before the object changed when writing again");
        same(&Obj::parse(&b)?, &o, "written again")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ F02
fn read_mem(b: &[u8]) -> R<Result<Object, String>> {
    guarded(|| {
        let mut r = AalvReader::new(Cursor::new(b)).map_err(|e| e.to_string())?;
        Object::from_aalv_reader(&mut r).map_err(|e| e.to_string())
    })
}

fn mutate(t: &mut Tape, b: &mut Vec<u8>) {
    for _ in 0..t.size(1, 4) {
        if b.is_empty() {
            return;
        }
        let at = t.size(0, b.len() - 1);
        match t.below(8) {
            0 => b[at] ^= 1 << t.below(8),
            1 => b[at] = t.u8(),
            2 => b[at] = *t.pick(&[0, 0xff, 1, 0x20, b'_', 0xc3]),
            3 => {
                let e = (at + t.size(1, 12)).min(b.len());
                b.drain(at..e);
            }
            4 => {
                let n = t.size(1, 6);
                for _ in 0..n {
                    b.insert(at, t.u8());
                }
            }
            5 => {
                let e = (at + t.size(1, 30)).min(b.len());
                let c = b[at..e].to_vec();
                let to = t.size(0, b.len());
                b.splice(to..to, c);
            }
            6 => b.truncate(at),
            _ => {
                // a length field
                if at + 1 < b.len() {
                    b[at] = *t.pick(&[0, 1, 0xff, 0xfe]);
                    b[at + 1] = *t.pick(&[0, 1, 0xff, 0x7f]);
                }
            }
        }
    }
}

fn small(t: &mut Tape) -> Obj {
    let mut o = gen_any(t);
    for (_, (_, b)) in o.segs.iter_mut() {
        b.truncate(60);
    }
    o.syms.truncate(10);
    for s in &mut o.syms {
        if s.name.len() > 40 {
            s.name = "long".into();
        }
    }
    o.rels.truncate(10);
    o
}

/// what must happen with an accepted or rejected file, whatever it holds
fn f02_any(t: &mut Tape, ctx: &mut Ctx, b: &[u8]) -> R {
    match read_mem(b)? {
        Err(_) => {
            ctx.label("rejected");
        }
        Ok(o) => {
            ctx.label("accepted");
            let dir = ctx.fresh_dir();
            let m = Obj::of_real(&o);
            for (k, (off, by)) in &m.segs {
                ensure!(*off as usize + by.len() <= 0x10000, "accepted a {} segment that ends after the address space", kind_name(*k));
            }
            // names read lossily may become too long to be written
            let o = o.zero_offset();
            let path = dir.join("again.to");
            match guarded(|| o.write_to_file(&path))? {
                Ok(()) => {
                    let r = guarded(|| Object::from_file(&path))?.map_err(|e| format!("an accepted object, written, cannot be read back: {e}"))?;
                    same(&Obj::of_real(&r), &m, "accepted object, written and read")?;
                }
                Err(e) => ensure!(e.to_string().contains("too large"), "an accepted object cannot be written: {e}"),
            }
        }
    }
    if t.chance(1, 40) {
        f02_tools(t, ctx, b)?;
    }
    Ok(())
}

fn f02_tools(t: &mut Tape, ctx: &mut Ctx, b: &[u8]) -> R {
    let accepted = read_mem(b)?.is_ok();
    let dir = ctx.fresh_dir();
    std::fs::write(dir.join("x.to"), b).unwrap();
    let (tool, args): (&str, &[&str]) = match t.below(if accepted { 7 } else { 9 }) {
        0 => ("tobjdump", &["-t", "-d", "-R", "x.to"]),
        1 => ("tobjdump", &["-t", "-D", "main", "-R", "x.to"]),
        2 => ("tl", &["x.to", "-o", "out"]),
        3 => ("tl", &["x.to", "x.to", "-e", "-E", "main", "-o", "out"]),
        4 => ("tstrip", &["x.to"]),
        5 => ("tstrip", &["-a", "-f", "x.to"]),
        6 => ("tl", &["-l", "x.to", "x.to", "-o", "out"]),
        7 => ("t", &["x.to"]),
        _ => ("tdbg", &["x.to"]),
    };
    ctx.label(format!("tool {tool}"));
    let r = cli::run_in(&ctx.bin, tool, &dir, args, b"q\n")?;
    ensure!(!r.crashed(), "{tool} {} crashed on a damaged file: {}", args.join(" "), r.brief());
    if !accepted && tool != "tobjdump" {
        ensure!(!r.ok(), "{tool} {} succeeded with a file that is not an object: {}", args.join(" "), r.brief());
    }
    Ok(())
}

fn f02_case(t: &mut Tape, ctx: &mut Ctx) -> R {
    let kind = t.below(8);
    match kind {
        // proper truncations of a valid object
        0 => {
            ctx.label("truncation");
            ctx.nontrivial();
            let mut o = small(t);
            o.prefix = if t.chance(1, 4) { gen_prefix(t) } else { vec![] };
            let b = o.bytes();
            ctx.sample(|| format!("every truncation of {}", o.brief()));
            ensure!(read_mem(&b)?.is_ok(), "a valid object was rejected");
            let step = if b.len() > 600 { b.len() / 300 } else { 1 };
            let mut n = 0;
            for cut in (0..b.len()).step_by(step).chain(b.len().saturating_sub(4)..b.len()) {
                n += 1;
                ensure!(read_mem(&b[..cut])?.is_err(), "accepted the first {cut} of {} bytes of {}", b.len(), o.brief());
            }
            ctx.enumerated(n, 0);
            if t.chance(1, 40) {
                let cut = t.size(0, b.len() - 1);
                f02_tools(t, ctx, &b[..cut])?;
            }
        }
        // damage that must be noticed
        1 | 2 => {
            let mut o = small(t);
            let k = *t.pick(&KINDS);
            o.segs.entry(k).or_insert((0x100, vec![1, 2, 3]));
            let mut s = o.sections();
            let unknown_type = loop {
                let v = t.u8();
                if !KINDS.contains(&v) {
                    break v;
                }
                if t.left() == 0 {
                    break 0x55;
                }
            };
            let what = t.below(9);
            let bad = match what {
                0 => section(*t.pick(&[&b"_x"[..], b"_", b"_sym", b"_segs", b"__seg", b"_Entry", b"_\xff"]), &[0; 4]),
                1 => section(b"_seg", &[0, 1, k, 7]),
                2 => section(b"_seg", &[0, 1, unknown_type, 7]),
                3 => {
                    s.retain(|x| !x.starts_with(b"_flags\0"));
                    section(b"_flags", *t.pick(&[&b"r"[..], b"RX", b"W", b"R ", b"\0"]))
                }
                4 => {
                    s.retain(|x| !x.starts_with(b"_entry\0"));
                    section(b"_entry", &[unknown_type, 0, 0])
                }
                5 => {
                    s.retain(|x| !x.starts_with(b"_syms\0"));
                    section(b"_syms", &[b'a', 0, unknown_type, 0, 0])
                }
                6 => {
                    s.retain(|x| !x.starts_with(b"_reloc\0"));
                    section(b"_reloc", &[unknown_type, 0, 0, 0, 0])
                }
                7 => {
                    // a section shorter than its content
                    let (name, n): (&[u8], usize) = *t.pick(&[(&b"_entry"[..], 2), (b"_entry", 0), (b"_stack_size", 1), (b"_heap_size", 1), (b"_stack_size", 0), (b"_seg", 2), (b"_seg", 0)]);
                    if name != b"_seg" {
                        let mut pre = name.to_vec();
                        pre.push(0);
                        s.retain(|x| !x.starts_with(&pre));
                    }
                    section(name, &vec![0; n])
                }
                _ => {
                    // does not fit the address space
                    o.segs.remove(&k);
                    s = o.sections();
                    let over = t.range(1, 5);
                    let n = t.range(over, 40);
                    let off = 0x10000 - n + over;
                    let off = off.min(0xffff);
                    let mut d = vec![off as u8, (off >> 8) as u8, k];
                    d.extend(vec![0; (0x10000 - off + over) as usize]);
                    section(b"_seg", &d)
                }
            };
            let at = t.size(0, s.len());
            s.insert(at, bad.clone());
            if t.chance(1, 3) {
                ctx.label("damage among sections to ignore");
                for _ in 0..t.size(1, 3) {
                    let at = t.size(0, s.len());
                    s.insert(at, gen_foreign(t));
                }
            }
            let mut b = MAGIC.to_vec();
            for x in s {
                b.extend(x);
            }
            b.push(0);
            ctx.label(format!("damage {what}"));
            ctx.nontrivial();
            ctx.sample(|| format!("{} with section {:?}", o.brief(), String::from_utf8_lossy(&bad[..bad.len().min(40)])));
            ensure!(read_mem(&b)?.is_err(), "accepted an object with the section {:?}", &bad[..bad.len().min(40)]);
            if t.chance(1, 40) {
                f02_tools(t, ctx, &b)?;
            }
        }
        3..=5 => {
            ctx.label("mutation");
            let mut o = small(t);
            if t.chance(1, 4) {
                o.prefix = gen_prefix(t);
            }
            let mut b = o.bytes();
            let orig = b.clone();
            mutate(t, &mut b);
            if b != orig {
                ctx.nontrivial();
            }
            ctx.sample(|| format!("mutated {}: {}", o.brief(), hex(&b[..b.len().min(200)])));
            f02_any(t, ctx, &b)?;
        }
        6 => {
            ctx.label("random");
            let mut b = if t.bool() { MAGIC.to_vec() } else { vec![] };
            for _ in 0..t.size(0, 12) {
                match t.below(5) {
                    0 => b.extend(*t.pick(&[&b"_seg\0"[..], b"_entry\0", b"_flags\0", b"_syms\0", b"_reloc\0", b"_stack_size\0", b"_heap_size\0"])),
                    1 => b.extend([t.below(8) as u8, 0]),
                    2 => b.extend([t.u8(), t.u8()]),
                    3 => b.extend(MAGIC),
                    _ => b.push(0),
                }
            }
            ctx.nontrivial();
            ctx.sample(|| format!("bytes {}", hex(&b)));
            f02_any(t, ctx, &b)?;
        }
        // archives
        _ => {
            ctx.label("archive");
            let members: Vec<Obj> = (0..t.size(1, 3)).map(|_| small(t)).collect();
            let bytes: Vec<Vec<u8>> = members.iter().map(|m| m.bytes()).collect();
            let mut a = archive(&bytes);
            let dir = ctx.fresh_dir();
            let path = dir.join("a.savn");
            ctx.nontrivial();
            ctx.sample(|| format!("damaged archive of {} objects", members.len()));
            if t.bool() {
                // truncated: the members before the cut, then an error unless the cut is between two members
                let cut = t.size(0, a.len());
                a.truncate(cut);
                std::fs::write(&path, &a).unwrap();
                let r = read_all(&path, 100)?;
                if cut < SAVN.len() {
                    ensure!(r.is_err(), "accepted an archive cut to {cut} bytes");
                } else {
                    let (got, err) = r.unwrap();
                    let mut end = SAVN.len();
                    let mut n = 0;
                    while n < bytes.len() && end + bytes[n].len() <= cut {
                        end += bytes[n].len();
                        n += 1;
                    }
                    ensure_eq!(got.len(), n, "members read from an archive cut after {n} members");
                    for (g, m) in got.iter().zip(&members) {
                        same(g, m, "member of a cut archive")?;
                    }
                    ensure!(err == (n == 0 || end != cut), "archive cut at {cut}, member end {end}: error {err}");
                }
            } else {
                mutate(t, &mut a);
                std::fs::write(&path, &a).unwrap();
                let _ = read_all(&path, 1000)?;
                if t.chance(1, 40) {
                    std::fs::write(dir.join("x.to"), &bytes[0]).unwrap();
                    let r = cli::run(&ctx.bin, "tl", &dir, &["x.to", "-l", "a.savn", "-o", "out"])?;
                    ensure!(!r.crashed(), "tl crashed on a damaged archive: {}", r.brief());
                    let r = cli::run(&ctx.bin, "tobjdump", &dir, &["-t", "-d", "a.savn"])?;
                    ensure!(!r.crashed(), "tobjdump crashed on a damaged archive: {}", r.brief());
                }
            }
        }
    }
    Ok(())
}

/// members until the end or an error (true); outer `Err` when it is not taken for an archive
fn read_all(path: &Path, max: usize) -> R<Result<(Vec<Obj>, bool), String>> {
    guarded(|| {
        let mut it = match read_archive(path) {
            Ok(i) => i,
            Err(e) => return Ok(Err(e.to_string())),
        };
        let mut v = vec![];
        loop {
            if v.len() > max {
                return Err("reading the archive does not end".to_string());
            }
            match it.next(Object::from_aalv_reader) {
                Ok(Some(o)) => v.push(Obj::of_real(&o)),
                Ok(None) => return Ok(Ok((v, false))),
                Err(_) => return Ok(Ok((v, true))),
            }
        }
    })?
}

// ------------------------------------------------------------------ F03
fn f03_case(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let n = if t.chance(1, 30) { t.size(10, 40) } else { t.size(1, 6) };
    let mut objs: Vec<Obj> = vec![];
    let mut files: Vec<Vec<u8>> = vec![];
    let mut names: Vec<String> = vec![];
    let naming = cli::naming(t, true);
    for i in 0..n {
        let mut o = if i > 0 && t.chance(1, 6) { objs[0usize].clone() } else if t.chance(1, 5) { gen_any(t) } else { small(t) };
        let o: &mut Obj = &mut o;
        o.prefix = gen_prefix(t);
        // an archive is a plain concatenation
        if i > 0 && t.chance(1, 5) {
            // the same file again
            let j = if t.bool() { i - 1 } else { t.below(i as u32) as usize };
            objs.push(objs[j].clone());
            files.push(files[j].clone());
            names.push(names[j].clone());
            ctx.label("an input named twice");
            continue;
        }
        let name = naming(&format!("o{i}.to"));
        let mut b = o.bytes();
        if t.chance(1, 6) {
            // sections that are no part of the object
            ctx.label("a member with unrelated sections");
            b = o.prefix.clone();
            b.extend(MAGIC);
            let mut s = o.sections();
            for _ in 0..t.size(1, 3) {
                let at = t.size(0, s.len());
                s.insert(at, gen_foreign(t));
            }
            b.extend(s.concat());
            b.push(0);
        }
        std::fs::write(cli::file(&dir, &name), &b).unwrap();
        files.push(b);
        objs.push(o.clone());
        names.push(name);
    }
    if n > 1 {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("archive of {}", objs.iter().map(|o| o.brief()).collect::<Vec<_>>().join(" | ")));
    let arch = cli::naming(t, true)("out.savn");
    let path = cli::file(&dir, &arch);
    let old = t.chance(1, 3);
    if old {
        // archives are replaced, not extended
        std::fs::write(&path, archive(&[objs[0].bytes(), objs[0].bytes(), vec![7; 3000]])).unwrap();
        ctx.label("over an existing archive");
    }
    let mut args: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    // the archive may take the place of one of the objects
    let over = t.chance(1, 8);
    let to = if over { t.pick(&names).clone() } else { arch };
    let path = cli::file(&dir, &to);
    if over {
        ctx.label("over an input");
    }
    let o_at = t.bool();
    if o_at {
        args.splice(0..0, ["-o", &to]);
    } else {
        args.extend(["-o", &to]);
    }
    if t.chance(1, 12) {
        ctx.label("missing input");
        args.push("missing.to");
        let r = cli::run(&ctx.bin, "tar", &dir, &args)?;
        ensure!(r.clean_failure(), "tar with a missing input: {}", r.brief());
        return Ok(());
    }
    let r = cli::run(&ctx.bin, "tar", &dir, &args)?;
    ensure!(r.ok(), "tar failed: {}", r.brief());
    let (got, err) = read_all(&path, 1000)?.map_err(|e| format!("the archive is not taken for one: {e}"))?;
    ensure!(!err, "the archive ends in an error after {} of {n} members", got.len());
    ensure_eq!(got.len(), n, "members of the archive");
    for (i, (g, o)) in got.iter().zip(&objs).enumerate() {
        same(g, o, &format!("member {i}"))?;
    }
    // inputs are left alone
    for (i, b) in files.iter().enumerate() {
        ensure!(names[i] == to || std::fs::read(cli::file(&dir, &names[i])).unwrap() == *b, "tar changed its input {}", names[i]);
    }
    // an object without symbols still names what it is
    if t.chance(1, 3) {
        let r = cli::run(&ctx.bin, "tobjdump", &dir, &["-t", &to])?;
        ensure!(r.ok(), "tobjdump of an archive failed: {}", r.brief());
        let out = r.out();
        for o in &objs {
            for s in o.syms.iter().filter(|s| s.name.chars().all(|c| c.is_alphanumeric()) && s.name.len() > 2) {
                ensure!(out.contains(&s.name), "tobjdump of the archive does not list {}", s.name);
            }
        }
    }
    // not an archive
    let mut b = std::fs::read(&path).unwrap();
    match t.below(4) {
        0 => b = objs[0].bytes(),
        1 => b.insert(0, t.u8()),
        2 => {
            let i = t.size(0, SAVN.len() - 1);
            b[i] ^= 1 << t.below(8);
        }
        _ => {
            b.remove(t.size(0, SAVN.len() - 1));
        }
    }
    if !b.starts_with(SAVN) {
        ctx.label("not an archive");
        let p2 = dir.join("no.savn");
        std::fs::write(&p2, &b).unwrap();
        ensure!(read_all(&p2, 1000)?.is_err(), "a file that does not start with the archive marker is taken for an archive");
    }
    Ok(())
}

// ------------------------------------------------------------------ F04
fn read_or_empty(p: &Path) -> Vec<u8> {
    std::fs::read(p).unwrap_or_default()
}

/// an object that tl accepts
fn linkable(t: &mut Tape) -> Obj {
    let mut o = Obj::default();
    for k in [TEXT, DATA, RODATA] {
        if k == TEXT || t.bool() {
            let max = if t.chance(1, 6) { 9000 } else { 60 };
            let n = t.size(2, max);
            let b = t.u8();
            o.segs.insert(k, (0x100, vec![b; n]));
        }
    }
    // places in different segments must not overlap, wherever they are
    let mut at = 0x80u16;
    for (off, b) in o.segs.values_mut() {
        *off = at;
        at = (at as usize + b.len() + 0x7f & !0x7f) as u16;
    }
    let off = o.segs[&TEXT].0;
    o.syms.push(Sym { name: "main".into(), global: true, seg: TEXT, loc: off });
    for i in 0..t.size(0, 6) {
        o.syms.push(Sym { name: format!("l{i}"), global: t.bool(), seg: TEXT, loc: off + 1 });
    }
    for i in 0..t.size(0, 4) {
        o.rels.push(Rel { seg: TEXT, loc: off, sym: (i % o.syms.len()) as u16 });
    }
    if t.bool() {
        o.entry = Some((TEXT, off));
    }
    o
}

fn f04_case(t: &mut Tape, ctx: &mut Ctx) -> R {
    if t.below(12) == 11 {
        return f04_large(t, ctx);
    }
    let dir = ctx.fresh_dir();
    let tool = t.below(4);
    // (tool, arguments, output)
    let mut input: Vec<(String, Vec<u8>)> = vec![];
    let n = cli::naming(t, true);
    let (name, args, out): (&str, Vec<String>, String) = match tool {
        0 => {
            let mut s = String::from(".seg text\n.global main\nmain:\n");
            for i in 0..t.size(1, 20) {
                s += match t.below(4) {
                    0 => " ldi r1, main\n",
                    1 => " nop\n",
                    2 => " add r1, r2, r3\n",
                    _ => " jmp main\n",
                };
                if t.chance(1, 3) {
                    s += &format!("label{i}:\n");
                }
            }
            if t.bool() {
                s += ".seg data\n.string \"";
                let max = if t.chance(1, 8) { 20000 } else { 100 };
                let n = t.size(1, max);
                s += &"x".repeat(n);
                s += "\"\n";
            }
            input.push((n("a.telda"), s.into_bytes()));
            ("tc", vec![n("a.telda")], cli::object_of(&n("a.telda")))
        }
        1 => {
            let o = linkable(t);
            input.push((n("a.to"), o.bytes()));
            let mut a = vec![n("a.to"), "-o".into(), n("out")];
            if t.bool() {
                a.extend(["-e".to_string(), "-E".into(), "main".into()]);
            }
            if t.chance(1, 3) {
                a.push("-S".into());
            }
            ("tl", a, n("out"))
        }
        2 => {
            let mut o = linkable(t);
            o.entry = Some((TEXT, o.segs[&TEXT].0));
            o.prefix = gen_prefix(t);
            input.push((n("a.to"), o.bytes()));
            ("tstrip", if t.bool() { vec![n("a.to")] } else { vec!["-a".into(), n("a.to")] }, n("a.to"))
        }
        _ => {
            let mut a = vec![];
            for i in 0..t.size(1, 3) {
                let o = linkable(t);
                input.push((n(&format!("o{i}.to")), o.bytes()));
                a.push(n(&format!("o{i}.to")));
            }
            a.extend(["-o".into(), n("out")]);
            ("tar", a, n("out"))
        }
    };
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let setup = |d: &Path| {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            let _ = std::fs::remove_file(&p).or_else(|_| std::fs::remove_dir_all(&p));
        }
        for (n, b) in &input {
            std::fs::write(cli::file(d, n), b).unwrap();
        }
    };
    let out = cli::file(&dir, &out);
    setup(&dir);
    let r = cli::run(&ctx.bin, name, &dir, &args)?;
    ensure!(r.ok(), "{name} {} failed without any fault: {}", args.join(" "), r.brief());
    let full = read_or_empty(&out);
    if name == "tar" {
        ensure!(!read_all(&out, 100)?.map_err(|e| format!("tar wrote no archive: {e}"))?.1, "tar wrote a damaged archive");
    } else {
        Obj::parse(&full).map_err(|e| format!("{name} reported success but its output is damaged: {e}"))?;
    }
    // where writing fails
    let mut limits: Vec<usize> = vec![full.len(), full.len() - 1, full.len() - 2, 0];
    for _ in 0..if ctx.tier_thorough { 12 } else { 6 } {
        limits.push(match t.below(4) {
            0 => full.len() - 1 - t.size(0, 20.min(full.len() - 1)),
            1 => *t.pick(&[4096, 8192, 8191, 8193, 16384]),
            _ => t.size(0, full.len() + 1),
        });
    }
    ctx.label(name);
    ctx.sample(|| format!("{name} {} writing {} bytes, file size limits {limits:?}", args.join(" "), full.len()));
    for k in limits {
        setup(&dir);
        let r = cli::run_with(&ctx.bin.join(name), &args, cli::Run { cwd: &dir, stdin: &[], fsize: Some(k as u64), env: &[] })?;
        ctx.nontrivial();
        ctx.enumerated(1, 0);
        ensure!(!r.crashed(), "{name} crashed when the file could not grow past {k} bytes: {}", r.brief());
        if k == full.len() && name == "tar" {
            // copying in the kernel asks for more than there is, which the limit refuses
        } else if k >= full.len() {
            ensure!(r.ok(), "{name} failed although all {} bytes fit the limit {k}: {}", full.len(), r.brief());
        } else {
            ensure!(!r.ok(), "{name} reported success although only {k} of {} bytes could be written", full.len());
            ensure!(!r.stderr.trim().is_empty(), "{name} failed without reporting anything ({k} of {} bytes)", full.len());
        }
        if r.ok() {
            ensure!(read_or_empty(&out) == full, "{name} reported success but its output is not complete (limit {k})");
        }
    }
    Ok(())
}

/// sections that do not fit their size field
fn f04_large(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let path = dir.join("big.to");
    let mut o = small(t);
    let what = t.below(3);
    let over = match what {
        0 => {
            let n = t.size(65525, 65536);
            let b = t.u8();
            o.segs.insert(*t.pick(&KINDS), (0, vec![b; n]));
            n + 3 > 65535
        }
        1 => {
            o.rels = (0..t.size(13100, 13115)).map(|i| Rel { seg: TEXT, loc: i as u16, sym: 0 }).collect();
            o.rels.len() * 5 > 65535
        }
        _ => {
            let n = t.size(65520, 65540);
            o.syms = vec![];
            let mut left = n;
            while left > 0 {
                let g = t.bool();
                let head = if g { 4 } else { 5 };
                let take = if left < 2000 { left } else { 1000 };
                if take < head {
                    break;
                }
                o.syms.push(Sym { name: "n".repeat(take - head), global: g, seg: TEXT, loc: 3 });
                left -= take;
            }
            o.syms.iter().map(|s| s.name.len() + 4 + usize::from(!s.global)).sum::<usize>() > 65535
        }
    };
    ctx.label(if over { "section too large" } else { "section just fits" });
    ctx.nontrivial();
    ctx.sample(|| format!("section at the limit: {}", o.brief().chars().take(300).collect::<String>()));
    let r = guarded(|| o.to_real().write_to_file(&path))?;
    if over {
        ensure!(r.is_err(), "an object with a section that is too large was written without an error ({what})");
    } else {
        r.map_err(|e| format!("an object whose sections fit was refused: {e}"))?;
        let back = guarded(|| Object::from_file(&path))?.map_err(|e| format!("cannot read it back: {e}"))?;
        same(&Obj::of_real(&back), &o, "read back")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ F05

const NAMES: [&str; 10] = ["a", "ab", "b", "seg", "_seg", "\u{e1}lvur", "\u{e1}lvur2\n", "with space\n", " ", "the name of a section may be as long as one likes, longer than what any buffer for it could hold at first, and it would still be a name, would it not?"];

/// how a section's content is read or written, and what came of it
#[derive(Default)]
struct Plan {
    /// 0 to the end, 1 in pieces, 2 exactly all, 3 only some, 4 one byte too many, 5 an error of its own
    how: u32,
    piece: usize,
    len: usize,
    /// of a read of one byte after the end
    beyond: Option<usize>,
}

thread_local! {
    static PLAN: RefCell<Plan> = RefCell::default();
}

#[derive(Debug, PartialEq)]
struct Sec<const N: usize>(Vec<u8>);

impl<const N: usize> Section for Sec<N> {
    const NAME: &'static str = NAMES[N];
    fn read<R: Read>(mut r: R) -> io::Result<Self> {
        let (how, piece, len) = PLAN.with(|p| (p.borrow().how, p.borrow().piece, p.borrow().len));
        let mut b = vec![];
        match how {
            0 => {
                r.read_to_end(&mut b)?;
            }
            1 => loop {
                let mut x = vec![0; piece];
                let n = r.read(&mut x)?;
                if n == 0 {
                    break;
                }
                b.extend(&x[..n]);
            },
            2 => {
                b = vec![0; len];
                for x in b.chunks_mut(piece) {
                    r.read_exact(x)?;
                }
            }
            3 => {
                b = vec![0; piece.min(len)];
                r.read_exact(&mut b)?;
                return Ok(Sec(b));
            }
            4 => {
                b = vec![0; len + 1];
                r.read_exact(&mut b)?;
                return Ok(Sec(b));
            }
            _ => return Err(io::Error::new(io::ErrorKind::Other, "mine")),
        }
        let n = r.read(&mut [0])?;
        PLAN.with(|p| p.borrow_mut().beyond = Some(n));
        Ok(Sec(b))
    }
    fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        let (how, piece) = PLAN.with(|p| (p.borrow().how, p.borrow().piece));
        match how {
            0 => w.write_all(&self.0),
            1 => {
                let mut at = 0;
                while at < self.0.len() {
                    at += w.write(&self.0[at..self.0.len().min(at + piece)])?;
                }
                w.flush()
            }
            5 => {
                w.write_all(&self.0)?;
                Err(io::Error::new(io::ErrorKind::Other, "mine"))
            }
            _ => {
                for x in self.0.chunks(piece) {
                    w.write_all(x)?;
                }
                Ok(())
            }
        }
    }
}

macro_rules! by_name {
    ($n:expr, $f:ident :: < $($g:ty),* > ( $($a:expr),* )) => {
        match $n {
            0 => $f::<0, $($g),*>($($a),*),
            1 => $f::<1, $($g),*>($($a),*),
            2 => $f::<2, $($g),*>($($a),*),
            3 => $f::<3, $($g),*>($($a),*),
            4 => $f::<4, $($g),*>($($a),*),
            5 => $f::<5, $($g),*>($($a),*),
            6 => $f::<6, $($g),*>($($a),*),
            7 => $f::<7, $($g),*>($($a),*),
            8 => $f::<8, $($g),*>($($a),*),
            _ => $f::<9, $($g),*>($($a),*),
        }
    };
}

fn put_sec<const N: usize, W: Write + Seek>(w: &mut AalvWriter<W>, b: &[u8]) -> io::Result<()> {
    w.write_section(&Sec::<N>(b.to_vec()))
}
fn get_sec<const N: usize, F: BufRead + Seek>(r: &mut AalvReader<F>) -> Option<io::Result<Vec<u8>>> {
    r.read_section::<Sec<N>>().map(|r| r.map(|s| s.0))
}

fn plan(t: &mut Tape, how: u32, len: usize) -> String {
    let most = *t.pick(&[1usize, 3, 100, 0xffff]);
    let piece = t.size(1, most).max(1);
    PLAN.with(|p| *p.borrow_mut() = Plan { how, piece, len, beyond: None });
    format!("{how}/{piece}")
}

/// takes no more than so many bytes at a time
struct Short<W>(W, usize);

impl<W: Write> Write for Short<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(&b[..b.len().min(self.1)])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

impl<W: Seek> Seek for Short<W> {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        self.0.seek(to)
    }
}

struct Container {
    junk: Vec<u8>,
    secs: Vec<(usize, Vec<u8>)>,
}

fn write_container<W: Write + Seek>(t: &mut Tape, w: io::Result<AalvWriter<W>>, c: &Container) -> R {
    let mut w = w.map_err(|e| format!("starting to write failed: {e}"))?;
    for (n, b) in &c.secs {
        let how = t.below(3);
        plan(t, how, b.len());
        by_name!(*n, put_sec::<W>(&mut w, b)).map_err(|e| format!("writing section {:?} of {} bytes failed: {e}", NAMES[*n], b.len()))?;
    }
    if t.bool() {
        w.finish().map_err(|e| format!("finishing failed: {e}"))
    } else {
        Ok(drop(w))
    }
}

fn read_container<F: BufRead + Seek>(t: &mut Tape, ctx: &mut Ctx, r: io::Result<AalvReader<F>>, c: &Container, start: usize) -> Result<F, String> {
    let mut r = r.map_err(|e| format!("reading failed: {e}"))?;
    ensure_eq!(r.file_offset, start as u64, "where the container starts");
    let mut left: Vec<&(usize, Vec<u8>)> = c.secs.iter().collect();
    let tries = if t.chance(1, 6) { 0 } else { c.secs.len() + t.size(0, 3) };
    for i in 0..tries {
        let names: Vec<&str> = r.remaing_sections().collect();
        let want: Vec<&str> = left.iter().map(|s| NAMES[s.0]).collect();
        ensure_eq!(names, want, "the sections not yet read");
        let n = if left.is_empty() || t.chance(1, 8) { t.below(NAMES.len() as u32) as usize } else { t.pick(&left).0 };
        let at = left.iter().position(|s| s.0 == n);
        if at.is_some_and(|a| a > 0) {
            ctx.label("read out of order");
        }
        let want = at.map(|a| &left.remove(a).1);
        let len = want.map_or(0, |w| w.len());
        let how = if t.chance(1, 8) { 3 + t.below(3) } else { t.below(3) };
        let shown = plan(t, how, len);
        let got = guarded(|| by_name!(n, get_sec::<F>(&mut r)))?;
        let what = format!("section {:?} of {len} bytes, read {i} ({shown})", NAMES[n]);
        match (got, want) {
            (None, None) => ctx.label("a section that is not there"),
            (Some(_), None) => return Err(format!("{what} does not exist, and was found")),
            (None, Some(_)) => return Err(format!("{what} was not found")),
            (Some(Ok(g)), Some(w)) => {
                let (beyond, piece) = PLAN.with(|p| (p.borrow().beyond, p.borrow().piece));
                ensure!(how < 4, "{what}: reading more than the section holds worked");
                let w = if how == 3 { &w[..piece.min(len)] } else { &w[..] };
                ensure!(g == w, "{what} has another content: {} bytes, {:x?}.. instead of {:x?}..", g.len(), &g[..g.len().min(8)], &w[..w.len().min(8)]);
                ensure!(how == 3 || beyond == Some(0), "{what}: there is something after its end");
            }
            (Some(Err(e)), Some(_)) => {
                ensure!(how >= 4, "{what} could not be read: {e}");
                ensure!(how != 5 || e.to_string() == "mine", "{what}: error {e} instead of the section's own");
                ctx.label("reading a section fails");
            }
        }
    }
    guarded(|| r.end())?.map_err(|e| format!("going to the end failed: {e}"))
}

fn f05_case(t: &mut Tape, ctx: &mut Ctx) -> R {
    let n = if t.chance(1, 20) { t.size(3, 12) } else { t.size(1, 3) };
    let mut cs = vec![];
    for _ in 0..n {
        let junk = if t.bool() { gen_prefix(t) } else { vec![] };
        let kinds = t.size(1, NAMES.len()) as u32;
        let secs = (0..t.size(0, 6))
            .map(|_| {
                let n = t.below(kinds) as usize;
                let len = if t.chance(1, 12) {
                    let edge = *t.pick(&[255usize, 256, 8192, 32767, 32768, 65533, 65535]);
                    t.size(edge - 3, edge)
                } else {
                    let most = *t.pick(&[2, 10, 200, 3000]);
                    t.size(0, most)
                };
                let kind = t.below(4);
                let (x, m) = (t.u8(), t.u8() | 1);
                let b = match kind {
                    0 => vec![0; len],
                    // what looks like the start of another one
                    1 => MAGIC.iter().copied().cycle().take(len).collect(),
                    _ => (0..len).map(|i| x.wrapping_add((i as u8).wrapping_mul(m)).wrapping_add((i >> 8) as u8)).collect(),
                };
                (n, b)
            })
            .collect::<Vec<_>>();
        cs.push(Container { junk, secs });
    }
    if cs.iter().any(|c| c.secs.len() > 1) {
        ctx.nontrivial();
    }
    for c in &cs {
        if c.secs.iter().enumerate().any(|(i, s)| c.secs[..i].iter().any(|x| x.0 == s.0)) {
            ctx.label("sections of the same name");
        }
        if c.secs.iter().any(|s| s.1.len() > 0x8000) {
            ctx.label("section of more than 32768 bytes");
        }
    }
    if n > 1 {
        ctx.label("several containers");
    }
    let dir = ctx.fresh_dir();
    let path = dir.join("f");
    let mut all = vec![];
    let mut starts = vec![];
    let in_file = t.chance(1, 4);
    // what the format says
    for c in &cs {
        all.extend(&c.junk);
        starts.push(all.len());
        let at = all.len();
        all.extend(MAGIC);
        for (n, b) in &c.secs {
            all.extend(NAMES[*n].as_bytes());
            all.push(0);
            all.extend((b.len() as u16).to_le_bytes());
            all.extend(b);
        }
        all.push(0);
        let before = &all[..at];
        let mut got;
        if in_file {
            let mut old = before.to_vec();
            old.extend((0..t.size(0, 40)).map(|_| 0xee));
            std::fs::write(&path, &old).unwrap();
            if at == 0 && t.bool() {
                let w = guarded(|| write_aalv_file(&path))?;
                write_container(t, w, c)?;
            } else {
                let w = guarded(|| write_aalv_file_with_offset(&path, at as u64))?;
                write_container(t, w, c)?;
            }
            got = std::fs::read(&path).unwrap();
        } else {
            got = before.to_vec();
            let most = if t.bool() { usize::MAX } else { t.size(1, 300) };
            let w = guarded(|| AalvWriter::new(Short(Cursor::new(&mut got), most), at as u64))?;
            write_container(t, w, c)?;
        }
        ensure!(got.len() == all.len() && got[at..] == all[at..], "the container at {at} was not written as the format says: {} bytes instead of {}, first difference at {:?}", got.len(), all.len(), got.iter().zip(&all).position(|(a, b)| a != b));
        ensure!(got[..at] == all[..at], "writing at {at} changed what is before");
    }
    ctx.sample(|| format!("{} containers, {} bytes", cs.len(), all.len()));
    // sections that cannot be written
    if t.chance(1, 6) {
        let mut v = vec![];
        let mut w = AalvWriter::new(Cursor::new(&mut v), 0).map_err(|e| e.to_string())?;
        if t.bool() {
            ctx.label("section too large");
            let over = *t.pick(&[0x10000usize, 0x10001, 0x10004, 0x12345, 0x20000, 0x20003]);
            let how = t.below(3);
            plan(t, how, over);
            let r = guarded(|| put_sec::<0, _>(&mut w, &vec![7; over]))?;
            ensure!(r.is_err(), "a section of {over} bytes was written");
        } else {
            ctx.label("writing a section fails");
            plan(t, 5, 3);
            let r = guarded(|| put_sec::<1, _>(&mut w, &[7; 3]))?;
            ensure!(r.is_err_and(|e| e.to_string() == "mine"), "the section's own error was not passed on");
        }
    }
    // one after the other
    if in_file {
        std::fs::write(&path, &all).unwrap();
        let first = guarded(|| read_aalv_file(&path))?;
        let mut f = read_container(t, ctx, first, &cs[0], starts[0])?;
        for (c, s) in cs.iter().zip(&starts).skip(1) {
            let r = guarded(|| AalvReader::new(f))?;
            f = read_container(t, ctx, r, c, *s)?;
        }
        ensure_eq!(f.stream_position().unwrap(), all.len() as u64, "position after the last container");
    } else {
        let cap = *t.pick(&[1usize, 2, 7, 64, 8192]);
        let mut f = BufReader::with_capacity(cap, Cursor::new(&all[..]));
        for (c, s) in cs.iter().zip(&starts) {
            let r = guarded(|| AalvReader::new(f))?;
            f = read_container(t, ctx, r, c, *s)?;
        }
        ensure_eq!(f.stream_position().unwrap(), all.len() as u64, "position after the last container");
        // there is no further one
        ensure!(guarded(|| AalvReader::new(f).is_err())?, "a container was found after the last one");
    }
    Ok(())
}

pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "F01",
        rule: "objects with random optional parts, segments (0 to 65532 bytes), symbols and relocations and bytes before the object (interpreter lines, partial magics, long runs); either written by the library over an existing file and compared with an independent parse, or serialized independently (sections in any order, unrelated sections) and read by the library; non-trivial: at least two parts present",
        assumptions: &["symbol names hold no NUL and do not start with white space (the format's rule)", "bytes before an object do not contain the object magic"],
        tape: 900,
        quick: 150_000,
        thorough: 1_500_000,
        case: f01_case,
        enumerate: None,
    },
    &Prop {
        id: "F02",
        rule: "truncations, planted damage (unknown sections, types, flags, duplicates, short sections, segments past the address space), byte mutations of valid objects and archives and random section-like bytes, read by the library and sometimes given to a tool; non-trivial: differs from a valid file",
        assumptions: &["an object with a lossily read symbol name may be too large to be written again"],
        tape: 700,
        quick: 200_000,
        thorough: 2_000_000,
        case: f02_case,
        enumerate: None,
    },
    &Prop {
        id: "F03",
        rule: "lists of 1 to 40 random objects with bytes before them put into an archive by tar, read back and compared with the list; non-trivial: more than one member",
        assumptions: &["bytes before an object do not contain the object magic"],
        tape: 1200,
        quick: 9_000,
        thorough: 120_000,
        case: f03_case,
        enumerate: None,
    },
    &Prop {
        id: "F04",
        rule: "tc, tl, tstrip and tar on random inputs with the file size limited to 0, the last bytes, buffer boundaries and random places (one execution per limit), and objects with sections at and past the format's limit written by the library; non-trivial: each case injects at least one fault",
        assumptions: &["a file that cannot grow stands for every write fault"],
        tape: 200,
        quick: 1_600,
        thorough: 30_000,
        case: f04_case,
        enumerate: None,
    },
    &Prop {
        id: "F05",
        rule: "1 to 12 containers of 0 to 6 sections (0 to 65535 bytes, names repeated, contents that look like containers) with other bytes between them, written section by section into memory and files, compared with the format, then read one after the other, sections in any order, whole, in pieces, too little, too much or failing; non-trivial: a container with at least two sections",
        assumptions: &["bytes between containers do not contain the magic", "section names hold no NUL and are not empty (the format's rule)"],
        tape: 500,
        quick: 200_000,
        thorough: 2_500_000,
        case: f05_case,
        enumerate: None,
    },
];
