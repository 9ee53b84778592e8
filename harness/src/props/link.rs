//! The linker and the stripper: L01-L05.
use crate::cli;
use crate::engine::*;
use crate::link::*;
use crate::obj::*;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;

fn write_set(t: &mut Tape, dir: &Path, objs: &[Obj], tag: &str) -> Vec<String> {
    let naming = cli::naming(t, true);
    objs.iter()
        .enumerate()
        .map(|(i, o)| {
            let p = naming(&format!("{tag}{i}.to"));
            std::fs::write(cli::file(dir, &p), o.bytes()).unwrap();
            p
        })
        .collect()
}

fn tl(ctx: &Ctx, dir: &Path, args: &[String]) -> R<cli::Out> {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let out = cli::run(&ctx.bin, "tl", dir, &a)?;
    ensure!(!out.crashed(), "tl {} crashed: {}", args.join(" "), out.brief());
    Ok(out)
}

/// link that must succeed
fn linked(ctx: &Ctx, dir: &Path, args: &[String], to: &str, objs: &[Obj]) -> R<Obj> {
    let path = cli::file(dir, to);
    let out = tl(ctx, dir, args)?;
    ensure!(out.ok(), "tl {} failed: {}{}", args.join(" "), out.brief(), show_set(objs));
    Obj::read(&path).map_err(|e| format!("tl {} succeeded, but {e}{}", args.join(" "), show_set(objs)))
}

struct Options {
    args: Vec<String>,
    align: u32,
    strip: bool,
    entry: Entry,
    exec: bool,
    to: String,
}

/// options that suit the objects
fn gen_options(t: &mut Tape, objs: &[Obj]) -> Options {
    let mut args = vec![];
    let mut align = 128;
    if t.chance(1, 3) {
        align = if t.chance(1, 12) { 1 << t.range(11, 14) } else { 1 << t.below(11) };
        args.push(match t.below(3) {
            0 => vec!["-A".to_string(), align.to_string()],
            1 => vec![format!("--alignment={align}")],
            _ => vec![format!("-A{align}")],
        });
    }
    let strip = t.chance(1, 4);
    if strip {
        args.push(vec![t.pick(&["-S", "--strip-internal"]).to_string()]);
    }
    let can = unresolved(objs).is_empty();
    let mut exec = can && t.chance(1, 3);
    let mut entry = Entry::First;
    if exec {
        let defs: Vec<String> = defined(objs).into_iter().collect();
        let has = objs.iter().any(|o| o.entry.is_some());
        match t.below(3) {
            0 if !defs.is_empty() => {
                let s = t.pick(&defs).clone();
                args.push(vec![t.pick(&["-E", "--set-entry"]).to_string(), s.clone()]);
                entry = Entry::Sym(s);
            }
            1 => {
                let a = t.u16();
                args.push(vec!["-E".into(), match t.below(3) {
                    0 => format!("0x{a:x}"),
                    1 => format!("0x{a:04x}"),
                    _ => format!("0x{a:X}"),
                }]);
                entry = Entry::Addr(a);
            }
            _ if has => (),
            _ => exec = false,
        }
    }
    if exec {
        args.push(vec![t.pick(&["-e", "--executable"]).to_string()]);
    }
    if t.chance(1, 8) {
        args.push(vec![t.pick(&["-v", "--verbose"]).to_string()]);
    }
    let to = if t.chance(1, 6) {
        "a.to".to_string()
    } else {
        let to = t.pick(&["out.to", "prog", "z.bin"]).to_string();
        let to = cli::naming(t, true)(&to);
        args.push(vec![t.pick(&["-o", "--out"]).to_string(), to.clone()]);
        to
    };
    t.shuffle(&mut args);
    Options { args: args.concat(), align, strip, entry, exec, to }
}

/// inputs and options in some order
fn command(t: &mut Tape, o: &Options, inputs: &[String]) -> Vec<String> {
    if t.bool() {
        [o.args.clone(), inputs.to_vec()].concat()
    } else {
        [inputs.to_vec(), o.args.clone()].concat()
    }
}

fn l01(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let mut objs = gen_set(t, Want { max: 5, undefined: true, entries: true, tag: 0 });
    let op = gen_options(t, &objs);
    if t.chance(1, 24) {
        // (nearly) fill the address space
        let left = 0xfff0usize.saturating_sub(space(&objs, op.align as usize) + op.align as usize);
        if left > 0 {
            let n = if t.bool() { left } else { t.size(1, left) };
            let k = t.below(objs.len() as u32 + 1) as usize;
            let mut o = Obj::default();
            o.segs.insert(*t.pick(&[TEXT, DATA, RODATA, HEAP, ZERO]), (0, (0..n).map(|i| (i % 253) as u8).collect()));
            objs.insert(k, o);
            ctx.label("large");
        }
    }
    if space(&objs, op.align as usize) > 0xfff0 {
        return Ok(());
    }
    let mut twice = None;
    if t.chance(1, 8) {
        // what defines nothing for others may be linked more than once
        let ks: Vec<usize> = (0..objs.len()).filter(|&k| globals(&objs[k], true).is_empty()).collect();
        if !ks.is_empty() {
            let k = *t.pick(&ks);
            let at = t.range(k as u32 + 1, objs.len() as u32) as usize;
            objs.insert(at, objs[k].clone());
            let tables: usize = objs.iter().map(|o| o.syms.iter().map(|s| s.name.len() + 8).sum::<usize>() + 8 * o.rels.len()).sum();
            if space(&objs, op.align as usize) > 0xfff0 || tables > 0x8000 {
                objs.remove(at);
            } else {
                twice = t.bool().then_some((k, at));
                ctx.label("an input twice");
            }
        }
    }
    let mut names = write_set(t, &dir, &objs, "o");
    if let Some((k, at)) = twice {
        names[at] = names[k].clone();
    }
    let args = command(t, &op, &names);
    if t.chance(1, 4) {
        // an older output
        std::fs::write(cli::file(&dir, &op.to), vec![b'x'; 9000]).unwrap();
    }
    let over = if t.chance(1, 12) {
        // the output takes the place of an input
        let i = t.below(objs.len() as u32) as usize;
        std::os::unix::fs::symlink(cli::file(&dir, &names[i]), cli::file(&dir, &op.to)).or_else(|_| std::fs::remove_file(cli::file(&dir, &op.to)).and_then(|_| std::os::unix::fs::symlink(cli::file(&dir, &names[i]), cli::file(&dir, &op.to)))).unwrap();
        ctx.label("over an input");
        Some(i)
    } else {
        None
    };
    let o = linked(ctx, &dir, &args, &op.to, &objs)?;
    let err = |e: String| format!("tl {}: {e}{}\n  output {}", args.join(" "), show_set(&objs), o.brief());
    let starts = check_placement(&o, op.align).map_err(err)?;
    let kinds: BTreeSet<u8> = objs.iter().flat_map(|o| o.segs.keys().copied()).collect();
    if starts.keys().copied().collect::<BTreeSet<_>>() != kinds {
        return Err(err("wrong set of segments".into()));
    }
    let want = model(&objs, &starts, op.strip, &op.entry);
    let got = image(&o).map_err(err)?;
    same_image(&got, &want).map_err(err)?;
    if o.flags.is_some() || o.stack.is_some() || o.heap.is_some() {
        return Err(err("flags or sizes out of nowhere".into()));
    }
    let mode = std::fs::metadata(cli::file(&dir, &op.to)).unwrap().permissions().mode();
    if op.exec {
        ctx.label("executable");
        if !(o.prefix.starts_with(b"#!") && o.prefix.ends_with(b"\n") && mode & 0o111 == 0o111) {
            return Err(err(format!("not an executable: mode {mode:o}, starts with {:?}", String::from_utf8_lossy(&o.prefix))));
        }
    } else if !o.prefix.is_empty() {
        return Err(err("the object does not start the file".into()));
    }
    // the inputs are as they were
    for (_, (n, i)) in names.iter().zip(&objs).enumerate().filter(|x| over.map_or(true, |i| names[i] != names[x.0])) {
        ensure!(std::fs::read(cli::file(&dir, n)).unwrap() == i.bytes(), "tl {} changed its input {n}", args.join(" "));
    }
    let cross = want.rels.iter().filter(|r| r.2.global).count();
    if objs.len() > 1 && !want.rels.is_empty() {
        ctx.nontrivial();
    }
    if cross > 0 && objs.len() > 1 {
        ctx.label("references to globals");
    }
    if want.syms.iter().any(|s| s.loc.is_none()) {
        ctx.label("undefined globals");
    }
    if kinds.contains(&ZERO) {
        ctx.label("zero segment");
    }
    if op.align != 128 {
        ctx.label("other alignment");
    }
    if op.strip {
        ctx.label("stripped");
    }
    ctx.sample(|| format!("tl {}: {}", args.join(" "), o.brief()));
    Ok(())
}

// ------------------------------------------------------------------ L02

/// breaks an object in itself
fn damage(t: &mut Tape, o: &mut Obj) -> Option<&'static str> {
    let ks: Vec<u8> = o.segs.keys().copied().collect();
    let k = *t.pick(&ks);
    let (a, n) = (o.segs[&k].0 as u32, o.segs[&k].1.len() as u32);
    // a place outside the segment
    let outside = |t: &mut Tape, slack: u32| -> Option<u16> {
        let lo = t.bool();
        if lo && a > 0 {
            Some(if t.bool() { a - 1 } else { t.range(0, a - 1) } as u16)
        } else if a + n + 1 - slack <= 0xffff {
            let first = a + n + 1 - slack;
            Some(if t.bool() { first } else { t.range(first, 0xffff) } as u16)
        } else {
            None
        }
    };
    match t.below(5) {
        0 => {
            let sym = t.range(o.syms.len() as u32, 0xffff) as u16;
            let sym = if t.bool() { o.syms.len() as u16 } else { sym };
            o.rels.push(Rel { seg: k, loc: a as u16, sym });
            (n >= 2).then_some("relocation of a symbol that is not there")
        }
        1 => {
            let loc = outside(t, 2)?;
            o.syms.push(Sym { name: "damage".into(), global: false, seg: k, loc: a as u16 });
            o.rels.push(Rel { seg: k, loc, sym: o.syms.len() as u16 - 1 });
            Some("relocation outside its segment")
        }
        2 => {
            let none = KINDS.into_iter().find(|x| !ks.contains(x))?;
            o.syms.push(Sym { name: "damage".into(), global: false, seg: k, loc: a as u16 });
            o.rels.push(Rel { seg: none, loc: 0x80, sym: o.syms.len() as u16 - 1 });
            Some("relocation in a segment that is not there")
        }
        3 => {
            let loc = outside(t, 0)?;
            o.syms.push(Sym { name: "damage".into(), global: t.bool(), seg: k, loc });
            Some("symbol outside its segment")
        }
        _ => {
            let loc = outside(t, 0)?;
            o.entry = Some((k, loc));
            Some("entry outside its segment")
        }
    }
}

fn l02(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let mut objs = gen_set(t, Want { max: 4, undefined: false, entries: true, tag: 0 });
    // every member of the set may be linked as an executable
    let mut args: Vec<String> = vec![];
    let what = if t.chance(1, 80) { 16 } else { t.below(16) };
    let n = objs.len();
    let i = t.below(n as u32) as usize;
    let mut extra: Vec<(usize, String)> = vec![];
    let mut text = "";
    let mut exec = t.bool();
    let mut archive_arg = None;
    let some_place = |o: &Obj| {
        let (k, (a, _)) = o.segs.iter().next().unwrap();
        (*k, *a)
    };
    match what {
        0 => {
            // defined twice
            let (k, a) = some_place(&objs[i]);
            let j = t.below(n as u32 + 1) as usize;
            let mut o = Obj::default();
            o.segs.insert(TEXT, (0x80, vec![0x20; 4]));
            o.syms.push(Sym { name: "twice".into(), global: true, seg: TEXT, loc: 0x82 });
            if t.chance(1, 6) {
                // in the same file
                let y = o.syms[0].clone();
                o.syms.push(y);
            } else {
                objs[i].syms.push(Sym { name: "twice".into(), global: true, seg: k, loc: a });
            }
            objs.insert(j, o);
            if t.bool() {
                // and used somewhere
                let mut u = Obj::default();
                u.segs.insert(TEXT, (0x80, vec![0x20; 4]));
                u.syms.push(Sym { name: "twice".into(), global: true, seg: UNKNOWN, loc: 0xfaff });
                u.rels.push(Rel { seg: TEXT, loc: 0x81, sym: 0 });
                let j = t.below(objs.len() as u32 + 1) as usize;
                objs.insert(j, u);
            }
            text = "global defined twice";
        }
        1 | 2 => {
            let (k, a) = some_place(&objs[i]);
            if objs[i].segs[&k].1.len() >= 2 {
                objs[i].syms.push(Sym { name: "nowhere".into(), global: true, seg: UNKNOWN, loc: 0xfaff });
                let s = objs[i].syms.len() as u16 - 1;
                objs[i].rels.retain(|r| !(r.seg == k && r.loc <= a + 1));
                objs[i].rels.push(Rel { seg: k, loc: a, sym: s });
                if t.bool() {
                    // a local elsewhere does not help
                    let j = t.below(n as u32) as usize;
                    let (k, a) = some_place(&objs[j]);
                    if j != i {
                        objs[j].syms.push(Sym { name: "nowhere".into(), global: false, seg: k, loc: a });
                    }
                }
                objs[i].entry = Some((k, a));
                exec = true;
                text = "undefined reference in an executable";
            }
        }
        3 => {
            for o in &mut objs {
                o.entry = None;
            }
            exec = true;
            text = "no entry point";
        }
        4 => {
            exec = true;
            // unknown, local only or undefined
            let name = match t.below(3) {
                0 => "missing".to_string(),
                1 => {
                    let (k, a) = some_place(&objs[i]);
                    objs[i].syms.push(Sym { name: "here".into(), global: false, seg: k, loc: a });
                    "here".to_string()
                }
                _ => {
                    objs[i].syms.push(Sym { name: "declared".into(), global: true, seg: UNKNOWN, loc: 0xfaff });
                    "declared".to_string()
                }
            };
            args.extend(["-E".to_string(), name]);
            text = "unknown entry symbol";
        }
        5 => {
            exec = true;
            args.extend(["-E".to_string(), t.pick(&["0x", "0x10000", "0xfffff", "0xg", "0x 1", "0x1w", "0x-1"]).to_string()]);
            text = "malformed entry address";
        }
        6 | 7 => {
            // too large
            // or just not
            let mut left = if t.bool() { 0x10000 + t.below(5) as usize - 3 } else { 0xffff + t.size(1, 40) } - 0x80;
            let mut kinds = vec![TEXT, DATA, RODATA, HEAP, ZERO];
            if t.bool() {
                kinds = vec![*t.pick(&[TEXT, DATA, RODATA, HEAP])];
                objs.clear();
            }
            if t.chance(1, 4) {
                kinds = vec![ZERO];
                left += 0x80;
            }
            while left > 0 {
                let piece = left.min(t.size(0x4000, 0xfff0));
                left -= piece;
                let mut o = Obj::default();
                o.segs.insert(*t.pick(&kinds), (0, vec![0x77; piece]));
                objs.push(o);
            }
            if least_space(&objs) > 0x10000 {
                text = "does not fit";
            }
        }
        8 => {
            extra.push((t.size(0, n), "missing.to".into()));
            text = "missing input";
        }
        9 => {
            let b = objs[i].bytes();
            let cut = t.size(0, b.len() - 1);
            std::fs::write(dir.join("bad.to"), &b[..cut]).unwrap();
            extra.push((t.size(0, n), "bad.to".into()));
            text = "truncated input";
        }
        10 => {
            // archives that are none
            let p = match t.below(4) {
                0 => "missing.savn",
                1 => {
                    std::fs::write(dir.join("o.savn"), objs[0].bytes()).unwrap();
                    "o.savn"
                }
                2 => {
                    let mut b = archive(&[objs[0].bytes()]);
                    let keep = t.size(0, b.len() - 1);
                    b.truncate(keep);
                    // (an archive without members is not damaged)
                    if keep == SAVN.len() {
                        b.pop();
                    }
                    std::fs::write(dir.join("cut.savn"), &b).unwrap();
                    "cut.savn"
                }
                _ => {
                    std::fs::write(dir.join("empty.savn"), b"").unwrap();
                    "empty.savn"
                }
            };
            archive_arg = Some(p);
            text = "unreadable archive";
        }
        11 => {
            args.extend(["-A".to_string(), t.pick(&["0", "3", "100", "129", "65536", "-1", "x", "", "12 8"]).to_string()]);
            text = "alignment that is no power of two";
        }
        12..=14 => {
            if let Some(w) = damage(t, &mut objs[i]) {
                text = w;
                if w.starts_with("entry") {
                    for o in &mut objs[..i] {
                        o.entry = None;
                    }
                }
            }
        }
        15 if t.chance(1, 3) => {
            exec = false;
            args.push(t.pick(&["-r", "--raw-binary"]).to_string());
            text = "raw binary output";
        }
        16 => {
            // more than an object has room for
            let many = t.bool();
            let each = if many { 0xffff / 5 } else { 0xffff / 10 } / 2 + 1;
            for h in 0..2 {
                let mut o = Obj::default();
                o.segs.insert(DATA, (0, vec![0; 4]));
                if many {
                    o.syms.push(Sym { name: "a".into(), global: false, seg: DATA, loc: 1 });
                    o.rels = vec![Rel { seg: DATA, loc: 1, sym: 0 }; each];
                } else {
                    o.syms = (0..each).map(|i| Sym { name: format!("m{h}{i:04x}"), global: true, seg: DATA, loc: 1 }).collect();
                }
                let j = t.below(objs.len() as u32 + 1) as usize;
                objs.insert(j, o);
            }
            text = "symbols or relocations without number";
        }
        _ => (),
    }
    let names = write_set(t, &dir, &objs, "o");
    let mut inputs = names.clone();
    for (at, x) in extra {
        inputs.insert(at, x);
    }
    if exec {
        args.push("-e".into());
    }
    if let Some(p) = archive_arg {
        args.extend(["-l".to_string(), p.to_string()]);
    }
    let to = if t.chance(1, 4) { "a.to" } else { "out" };
    if to == "out" {
        args.extend(["-o".to_string(), to.to_string()]);
    }
    let all: Vec<String> = if t.bool() { [args, inputs].concat() } else { [inputs, args].concat() };
    let old = t.bool();
    let before = b"what was there before\n".to_vec();
    if old {
        std::fs::write(cli::file(&dir, to), &before).unwrap();
    }
    if text.is_empty() {
        // nothing is wrong, if there is an entry and space
        if exec && !all.contains(&"-E".to_string()) && objs.iter().all(|o| o.entry.is_none()) || most_space(&objs, 128) > 0xffff || (12..=14).contains(&what) {
            return Ok(());
        }
        linked(ctx, &dir, &all, to, &objs)?;
        ctx.label("nothing wrong");
        if most_space(&objs, 128) > 0xfff0 {
            ctx.label("just fits");
            ctx.nontrivial();
        }
        return Ok(());
    }
    let out = tl(ctx, &dir, &all)?;
    ctx.label(text);
    ctx.nontrivial();
    ensure!(!out.ok(), "tl {} succeeded: {text}{}", all.join(" "), show_set(&objs));
    ensure!(!out.stderr.trim().is_empty(), "tl {} failed without a message: {text}{}", all.join(" "), show_set(&objs));
    let now = std::fs::read(cli::file(&dir, to)).ok();
    ensure!(now == old.then_some(before), "tl {} failed ({text}), but {} its output{}", all.join(" "), if old { "changed" } else { "wrote" }, show_set(&objs));
    for (n, o) in names.iter().zip(&objs) {
        ensure!(std::fs::read(cli::file(&dir, n)).unwrap() == o.bytes(), "tl {} changed its input {n}", all.join(" "));
    }
    ctx.sample(|| format!("tl {}: {}", all.join(" "), out.stderr.trim()));
    Ok(())
}

// ------------------------------------------------------------------ L03

fn l03(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let objs = gen_set(t, Want { max: 6, undefined: true, entries: true, tag: 0 });
    let n = objs.len();
    if space(&objs, 1024) > 0xfff0 {
        return Ok(());
    }
    let names = write_set(t, &dir, &objs, "o");
    let align = if t.bool() { 128 } else { 1 << t.below(9) };
    let mut last: Vec<String> = vec!["-A".into(), align.to_string()];
    // the names of local symbols can go at any stage
    let strip = t.chance(1, 3);
    if strip {
        last.push("-S".into());
    }
    let direct = linked(ctx, &dir, &[last.clone(), vec!["-o".into(), "direct.to".into()], names.clone()].concat(), "direct.to", &objs)?;
    // again
    let again = linked(ctx, &dir, &[last.clone(), vec!["-o".into(), "again.to".into()], names.clone()].concat(), "again.to", &objs)?;
    ensure!(direct == again, "linking twice gave different objects{}", show_set(&objs));
    // in stages
    let mut left = names.clone();
    let mut parts: Vec<Vec<Obj>> = objs.iter().map(|o| vec![o.clone()]).collect();
    let mut plan = vec![];
    for stage in 0..t.size(1, 3) {
        // mostly several, not all
        let i = t.size(0, left.len() - 1);
        let mut j = t.size((i + 1).min(left.len() - 1), left.len() - 1);
        if i == 0 && j == left.len() - 1 && j > 1 && t.chance(3, 4) {
            j -= 1;
        }
        let mid = format!("mid{stage}.to");
        let part: Vec<String> = left.drain(i..=j).collect();
        let mut args = part.clone();
        let whole: Vec<Obj> = parts.drain(i..=j).flatten().collect();
        if t.bool() {
            args.extend(["-A".to_string(), (1u32 << t.below(9)).to_string()]);
        }
        if strip && t.chance(2, 3) {
            args.push("-S".into());
            ctx.label("stage without local names");
        }
        if whole.iter().any(|o| o.entry.is_some()) && unresolved(&whole).is_empty() && t.chance(1, 3) {
            args.push("-e".into());
            ctx.label("executable as a stage");
        }
        args.extend(["-o".to_string(), mid.clone()]);
        let o = tl(ctx, &dir, &args)?;
        ensure!(o.ok(), "tl {} failed: {}{}", args.join(" "), o.brief(), show_set(&objs));
        plan.push(args.join(" "));
        left.insert(i, mid);
        parts.insert(i, whole);
        if part.len() > 1 && n > part.len() {
            ctx.nontrivial();
        }
    }
    let args = [last, left, vec!["-o".into(), "staged.to".into()]].concat();
    plan.push(args.join(" "));
    let staged = linked(ctx, &dir, &args, "staged.to", &objs)?;
    let plan = plan.join("; tl ");
    let err = |e: String| format!("tl {plan}: {e}{}", show_set(&objs));
    same_image(&image(&staged).map_err(err)?, &image(&direct).map_err(err)?).map_err(err)?;
    if !unresolved(&objs).is_empty() {
        ctx.label("undefined references");
    }
    ctx.label(format!("{n} objects"));
    ctx.sample(|| format!("tl {plan}"));
    Ok(())
}

// ------------------------------------------------------------------ L04

fn marker(i: usize) -> [u8; 4] {
    [0xee, 0x4d, 0x30 + i as u8, 0xd4]
}

/// an archive member: defines and needs the given globals
fn member(t: &mut Tape, i: usize, defs: &[String], needs: &[String]) -> Obj {
    let mut o = Obj::default();
    let mut b = marker(i).to_vec();
    b.extend([0; 8]);
    for _ in 0..t.size(0, 12) {
        b.push(t.below(0x60) as u8);
    }
    let a = 0x80 * t.range(1, 8) as u16;
    let n = b.len() as u16;
    o.segs.insert(TEXT, (a, b));
    if t.chance(1, 3) {
        o.segs.insert(DATA, (0x200, vec![0x33; t.size(2, 20)]));
    }
    for d in defs {
        let data = o.segs.contains_key(&DATA) && t.bool();
        let (seg, loc) = if data { (DATA, 0x201) } else { (TEXT, a + t.below(n as u32) as u16) };
        o.syms.push(Sym { name: d.clone(), global: true, seg, loc });
    }
    let mut at = a + 4;
    for d in needs {
        o.syms.push(Sym { name: d.clone(), global: true, seg: UNKNOWN, loc: 0xfaff });
        // not every declaration is used
        if at + 2 <= a + 12 && t.chance(3, 4) {
            o.rels.push(Rel { seg: TEXT, loc: at, sym: o.syms.len() as u16 - 1 });
            at += 2;
        }
    }
    if t.bool() {
        o.syms.push(Sym { name: t.pick(&["g0", "l", "helper"]).to_string(), global: false, seg: TEXT, loc: a + 1 });
        if o.syms.iter().filter(|s| s.name == o.syms.last().unwrap().name).count() > 1 {
            o.syms.pop();
        }
    }
    if t.chance(1, 6) {
        o.prefix = b"#!/bin/env t\n".to_vec();
    }
    if t.chance(1, 8) {
        o.entry = Some((TEXT, a + 1));
    }
    o
}

fn globals(o: &Obj, def: bool) -> BTreeSet<&str> {
    let d: BTreeSet<&str> = o.syms.iter().filter(|y| y.global && y.seg != UNKNOWN).map(|y| y.name.as_str()).collect();
    if def {
        return d;
    }
    o.syms.iter().filter(|y| y.global && y.seg == UNKNOWN && !d.contains(y.name.as_str())).map(|y| y.name.as_str()).collect()
}

/// the members that are needed, in the order in which that is found: always the first that is needed by then
fn closure(inputs: &[Obj], members: &[Obj]) -> Vec<usize> {
    let have: BTreeSet<&str> = inputs.iter().flat_map(|o| globals(o, true)).collect();
    let mut need: BTreeSet<&str> = inputs.iter().flat_map(|o| globals(o, false)).filter(|s| !have.contains(s)).collect();
    let mut inc = vec![];
    loop {
        let next = (0..members.len()).find(|i| !inc.contains(i) && (globals(&members[*i], true).iter().any(|d| need.contains(d)) || globals(&members[*i], false).iter().any(|u| have.contains(u))));
        let Some(i) = next else { return inc };
        inc.push(i);
        need.extend(globals(&members[i], false).into_iter().filter(|s| !have.contains(s)));
    }
}

fn l04(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    // sometimes many members
    let many = t.chance(1, 10);
    let ng = if many { t.size(10, 30) } else { t.size(2, 9) };
    let ni = t.size(1, 3);
    let nm = if many { t.size(8, 26) } else { t.size(1, 7) };
    // owner: input, member or nobody
    let mut owner: Vec<Option<usize>> = vec![];
    for _ in 0..ng {
        owner.push(match t.below(8) {
            0 => None,
            1 | 2 => Some(t.below(ni as u32) as usize),
            _ => Some(ni + t.below(nm as u32) as usize),
        });
    }
    let clash = t.chance(1, 12);
    let mut all = vec![];
    for i in 0..ni + nm {
        let defs: Vec<String> = (0..ng).filter(|g| owner[*g] == Some(i)).map(global_name).collect();
        let mut defs = defs;
        let chance = match (i < ni, many) {
            (true, false) => 3,
            (false, false) => 5,
            (true, true) => 4,
            _ => 10,
        };
        let needs: Vec<String> = (0..ng).filter(|g| owner[*g] != Some(i) && t.chance(1, chance)).map(global_name).collect();
        if clash && i >= ni && t.chance(1, 2) {
            // something an input defines already
            if let Some(g) = (0..ng).find(|g| owner[*g].is_some_and(|o| o < ni)) {
                let n = global_name(g);
                if !needs.contains(&n) {
                    defs.push(n);
                }
            }
        }
        all.push(member(t, i, &defs, &needs));
    }
    let members = all.split_off(ni);
    let inputs = all;
    let want = closure(&inputs, &members);
    let names = write_set(t, &dir, &inputs, "in");
    let mnames = write_set(t, &dir, &members, "m");
    // one or several archives
    let mut archs = vec![];
    let mut cuts = vec![0, nm];
    if t.chance(1, 3) {
        let n = if t.bool() { 1 } else { t.size(1, 8) };
        cuts.extend((0..n).map(|_| t.size(0, nm)));
        cuts.sort();
    }
    let naming = cli::naming(t, true);
    if cuts.len() > 4 {
        ctx.label("three archives or more");
    }
    for (k, part) in cuts.windows(2).map(|w| w[0]..w[1]).enumerate() {
        if part.is_empty() {
            continue;
        }
        let p = naming(&format!("lib{k}.savn"));
        let path = cli::file(&dir, &p);
        if t.chance(1, 4) {
            let mut a = vec!["-o", p.as_str()];
            a.extend(mnames[part].iter().map(|s| s.as_str()));
            let o = cli::run(&ctx.bin, "tar", &dir, &a)?;
            ensure!(o.ok(), "tar {} failed: {}", a.join(" "), o.brief());
        } else {
            std::fs::write(path, archive(&part.map(|i| members[i].bytes()).collect::<Vec<_>>())).unwrap();
        }
        archs.push(p);
    }
    let mut opts = vec![];
    if t.chance(1, 5) {
        opts.push("-v".to_string());
    }
    // the same for both ways to link
    let mut both: Vec<String> = vec![];
    let mut exec = false;
    let mut entry = want.iter().map(|i| &members[*i]).chain(&inputs).any(|o| o.entry.is_some());
    if t.chance(1, 6) {
        both.push("-S".into());
    }
    if t.chance(1, 6) {
        both.push(format!("-A{}", 1 << t.below(10)));
    }
    if t.chance(1, 4) {
        exec = true;
        both.push("-e".into());
        if t.bool() {
            // (a label in a needed member, perhaps)
            let defined: Vec<&str> = inputs.iter().chain(want.iter().map(|i| &members[*i])).flat_map(|o| globals(o, true)).collect();
            if !defined.is_empty() {
                both.extend(["-E".to_string(), t.pick(&defined).to_string()]);
                entry = true;
            }
        }
    }
    let line = |opts: &[String], files: &[String], to: &str| [opts.to_vec(), files.to_vec(), vec!["-o".to_string(), to.to_string()]].concat();
    let larg: Vec<String> = archs.iter().flat_map(|a| ["-l".to_string(), a.clone()]).collect();
    opts.extend(both.clone());
    let args = if t.bool() { [larg, line(&opts, &names, "out.to")].concat() } else { [line(&opts, &names, "out.to"), larg].concat() };
    let out = tl(ctx, &dir, &args)?;
    let err = |e: String| format!("tl {}: {e}; inputs{}\n members{}", args.join(" "), show_set(&inputs), show_set(&members));
    let model_files: Vec<String> = names.iter().cloned().chain(want.iter().map(|i| mnames[*i].clone())).collect();
    let chosen: Vec<Obj> = inputs.iter().cloned().chain(want.iter().map(|i| members[*i].clone())).collect();
    let mut seen = BTreeMap::new();
    for o in &chosen {
        for d in globals(o, true) {
            *seen.entry(d.to_string()).or_insert(0) += 1;
        }
    }
    if seen.values().any(|n| *n > 1) {
        ctx.label("included member defines what an input defines");
        if out.ok() {
            return Err(err("linked, although a global is defined twice".into()));
        }
        return Ok(());
    }
    if exec {
        let open = chosen.iter().any(|o| o.rels.iter().any(|r| o.syms[r.sym as usize].seg == UNKNOWN && !seen.contains_key(&o.syms[r.sym as usize].name)));
        ctx.label(if open { "executable with an undefined reference" } else if entry { "executable" } else { "executable without entry" });
        if open || !entry {
            if !out.clean_failure() || dir.join("out.to").exists() {
                return Err(err(format!("an executable with an undefined reference or without entry was made: {}", out.brief())));
            }
            return Ok(());
        }
    }
    if !out.ok() {
        return Err(err(format!("failed: {}", out.brief())));
    }
    let got = Obj::read(&dir.join("out.to"))?;
    // which members are in it, in which order
    let text = got.segs.get(&TEXT).map(|s| s.1.clone()).unwrap_or_default();
    let mut order: Vec<(usize, usize)> = vec![];
    for i in 0..ni + nm {
        let hits: Vec<usize> = text.windows(4).enumerate().filter(|w| w.1 == marker(i)).map(|w| w.0).collect();
        if hits.len() > 1 {
            return Err(err(format!("part {i} is there twice")));
        }
        if let Some(h) = hits.first() {
            order.push((*h, i));
        }
    }
    order.sort();
    let found: Vec<usize> = order.iter().filter(|x| x.1 >= ni).map(|x| x.1 - ni).collect();
    if found != want {
        return Err(err(format!("included members {found:?}, expected {want:?}")));
    }
    let order: Vec<usize> = order.iter().map(|x| x.1).collect();
    if order[..ni] != (0..ni).collect::<Vec<_>>() {
        return Err(err(format!("parts in the order {order:?}")));
    }
    // the same as naming them
    let files: Vec<String> = order.iter().map(|i| if *i < ni { names[*i].clone() } else { mnames[*i - ni].clone() }).collect();
    let explicit = linked(ctx, &dir, &line(&both, &files, "explicit.to"), "explicit.to", &chosen)?;
    same_image(&image(&got).map_err(err)?, &image(&explicit).map_err(err)?).map_err(|e| err(format!("{e} (compared with tl {})", files.join(" "))))?;
    let _ = model_files;
    if !want.is_empty() {
        ctx.nontrivial();
    }
    ctx.label(format!("{} members included", want.len()));
    if want.len() > 1 {
        let direct = (0..nm).filter(|i| closure(&inputs, &members[*i..=*i]).contains(&0)).count();
        if direct != want.len() {
            ctx.label("members needed by members");
        }
        if want.windows(2).any(|w| w[0] > w[1]) {
            ctx.label("not in archive order");
        }
    }
    ctx.sample(|| format!("tl {}: members {found:?} of {nm}", args.join(" ")));
    Ok(())
}

// ------------------------------------------------------------------ L05

fn blank(o: &Obj) -> Obj {
    let mut o = o.clone();
    for y in &mut o.syms {
        if !y.global {
            y.name.clear();
        }
    }
    o
}

fn l05(t: &mut Tape, ctx: &mut Ctx) -> R {
    if t.chance(1, 3) {
        return l05_link(t, ctx);
    }
    let dir = ctx.fresh_dir();
    let n = if t.chance(1, 40) { t.size(8, 24) } else { t.size(1, 4) };
    let all = t.chance(1, 3);
    let force = all && t.bool();
    let mut args = vec![];
    if all {
        args.push(t.pick(&["-a", "--all"]).to_string());
    }
    if force {
        args.push("-f".to_string());
    }
    let mut files: Vec<(String, Vec<u8>, Option<Obj>, u32)> = vec![];
    let mut fail = false;
    let mut changed = false;
    let naming = cli::naming(t, false);
    for i in 0..n {
        let name = naming(&format!("f{i}.to"));
        let mut o = gen_any(t);
        o.prefix = gen_prefix(t);
        let b = o.bytes();
        let mode = *t.pick(&[0o644, 0o755, 0o600, 0o777]);
        let (b, want) = match t.below(12) {
            0 => {
                let k = t.size(0, b.len() - 1);
                fail = true;
                (b[..k].to_vec(), None)
            }
            1 => {
                fail = true;
                (b"not an object\n".to_vec(), None)
            }
            _ if all && !force && o.entry.is_none() => {
                fail = true;
                ctx.label("refused without entry");
                (b, None)
            }
            _ => {
                let mut w = blank(&o);
                if all {
                    w.syms.clear();
                    w.rels.clear();
                }
                changed |= w != o;
                (b, Some(w))
            }
        };
        let p = cli::file(&dir, &name);
        std::fs::write(&p, &b).unwrap();
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
        files.push((name, b, want, mode));
    }
    let mut inputs: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
    if t.chance(1, 10) {
        let i = t.size(0, inputs.len());
        inputs.insert(i, "missing.to".into());
        fail = true;
        ctx.label("missing file");
    }
    let cmd = if t.bool() { [args, inputs].concat() } else { [inputs, args].concat() };
    let a: Vec<&str> = cmd.iter().map(|s| s.as_str()).collect();
    for round in 0..2 {
        let out = cli::run(&ctx.bin, "tstrip", &dir, &a)?;
        let line = format!("tstrip {}", a.join(" "));
        ensure!(!out.crashed(), "{line} crashed: {}", out.brief());
        ensure!(out.ok() != fail, "{line}: {}, expected {}", out.brief(), if fail { "failure" } else { "success" });
        if fail {
            for (n, _, w, _) in &files {
                ensure!(w.is_some() || out.stderr.contains(n.as_str()), "{line}: {n} was not reported: {}", out.brief());
            }
        }
        for (n, b, w, mode) in &files {
            let p = cli::file(&dir, n);
            let now = std::fs::read(&p).unwrap();
            match w {
                None => ensure!(now == *b, "{line}: changed {n}, which it did not strip"),
                Some(w) => {
                    let got = Obj::parse(&now).map_err(|e| format!("{line}: {n}: {e}"))?;
                    same(&got, w, &format!("{line} (round {round}): {n}"))?;
                    ensure!(got.prefix == w.prefix, "{line}: {n}: the bytes before the object changed");
                }
            }
            let m = std::fs::metadata(&p).unwrap().permissions().mode() & 0o777;
            ensure!(m == *mode, "{line}: mode of {n} changed from {mode:o} to {m:o}");
        }
    }
    if changed {
        ctx.nontrivial();
    }
    if fail && files.iter().any(|f| f.2.is_some()) {
        ctx.label("some fail, others do not");
    }
    ctx.label(if all { "all" } else { "names" });
    ctx.sample(|| format!("tstrip {}", a.join(" ")));
    Ok(())
}

/// stripped objects link to the same
fn l05_link(t: &mut Tape, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let objs = gen_set(t, Want { max: 5, undefined: true, entries: true, tag: 0 });
    if space(&objs, 128) > 0xfff0 {
        return Ok(());
    }
    let names = write_set(t, &dir, &objs, "o");
    let line = |to: &str| [names.clone(), vec!["-o".to_string(), to.to_string()]].concat();
    let plain = linked(ctx, &dir, &line("plain.to"), "plain.to", &objs)?;
    let some: Vec<&str> = names.iter().filter(|_| t.chance(3, 4)).map(|s| s.as_str()).collect();
    if !some.is_empty() {
        let out = cli::run(&ctx.bin, "tstrip", &dir, &some)?;
        ensure!(out.ok(), "tstrip {} failed: {}", some.join(" "), out.brief());
    }
    let stripped = linked(ctx, &dir, &line("stripped.to"), "stripped.to", &objs)?;
    let out = cli::run(&ctx.bin, "tstrip", &dir, &["plain.to"])?;
    ensure!(out.ok(), "tstrip plain.to failed: {}", out.brief());
    let after = Obj::read(&dir.join("plain.to"))?;
    let err = |e: String| format!("{e}; after tstrip {}{}", some.join(" "), show_set(&objs));
    let base = image(&blank(&plain)).map_err(err)?;
    same_image(&image(&blank(&stripped)).map_err(err)?, &base).map_err(err)?;
    same_image(&image(&after).map_err(err)?, &base).map_err(|e| err(format!("stripped after linking: {e}")))?;
    ctx.label("linked");
    if plain != stripped {
        ctx.nontrivial();
    }
    Ok(())
}

pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "L01",
        rule: "sets of one to five generated objects (all kinds of segments at any place, local, global and undefined symbols with colliding local names, relocations, entries) linked by tl with random options; the output, parsed independently, compared with a model: placement invariants, bytes, symbols, relocations, entry, executability; non-trivial: several objects and relocations",
        assumptions: &["symbols and relocations lie in segments with bytes", "relocated words do not overlap", "what is in the place of an undefined reference is not settled", "inputs have no flags or stack and heap sizes"],
        tape: 500,
        quick: 14_000,
        thorough: 300_000,
        case: l01,
        enumerate: None,
    },
    &Prop {
        id: "L02",
        rule: "sets of objects with one planted defect (duplicate global, undefined reference or missing entry in an executable, unknown or malformed entry, too large, unreadable or inconsistent input, bad archive or alignment) or none; tl must fail with a message and leave the output path as it was, or succeed; non-trivial: defect planted",
        assumptions: &["a link needing nearly all of the address space may do either"],
        tape: 900,
        quick: 16_000,
        thorough: 300_000,
        case: l02,
        enumerate: None,
    },
    &Prop {
        id: "L03",
        rule: "sets of objects linked at once, twice (must be identical), and in one to three stages of consecutive parts with any intermediate alignment; same image up to the numbering of symbols; non-trivial: a stage of several but not all objects",
        assumptions: &["as L01"],
        tape: 500,
        quick: 4_500,
        thorough: 100_000,
        case: l03,
        enumerate: None,
    },
    &Prop {
        id: "L04",
        rule: "inputs and one or two archives (written by the harness or tar) of members with random definitions and needs; the members found in the output by their markers must be the closure a model computes, and the output the same as that of naming them; non-trivial: at least one member included",
        assumptions: &["no global is defined by two members"],
        tape: 3000,
        quick: 12_000,
        thorough: 150_000,
        case: l04,
        enumerate: None,
    },
    &Prop {
        id: "L05",
        rule: "any objects with any prefixes and modes, damaged and missing files among them, stripped twice by tstrip and compared with the model; a third: sets linked before and after stripping; non-trivial: stripping changed something",
        assumptions: &[],
        tape: 700,
        quick: 8_000,
        thorough: 150_000,
        case: l05,
        enumerate: None,
    },
];
