//! C17: damaged and arbitrary input.
use super::core::describe;
use super::ident::{pair_pe, tree};
use super::stack::{add_cfi, pdata};
use super::win::cabinet;
use crate::engine::*;
use crate::fmt::*;
use crate::model::*;
use crate::run::Cmd;
use crate::sym;

/// A valid file of some kind: (usual name, contents)
fn valid(s: &mut Src, case: &mut Case) -> (String, Vec<u8>) {
    let kind = Kind::all(s);
    let m = generate(s, &GenCfg { kind, max_funcs: 5, units: 2, partial: kind != Kind::Pdb, ..Default::default() });
    let mut f = Fmt::gen(s, &m);
    if matches!(kind, Kind::Elf | Kind::Mach) && s.chance(1, 2) {
        add_cfi(s, &m, &mut f, 4);
    }
    if let Fmt::Pe(o) = &mut f {
        if o.machine == 0x8664 && s.chance(2, 3) {
            o.pdata = pdata(s, &m, 6).0;
        }
    }
    case.note(&describe(&m));
    case.label(match kind {
        Kind::Elf => "ELF",
        Kind::Mach => "Mach-O",
        Kind::Pe => "PE",
        Kind::Pdb => "PDB",
    });
    let mut name = f.name().to_string();
    let mut data = f.build(&m);
    if kind == Kind::Elf && s.chance(1, 6) {
        case.label("mini debug information");
        let mut outer = f.clone();
        if let Fmt::Elf(o) = &mut outer {
            let mut x = vec![];
            let mut r = std::io::Cursor::new(&data);
            lzma_rs::xz_compress(&mut r, &mut x).unwrap();
            o.debug = s.chance(1, 2);
            o.extra.push(crate::elf::Sec::new(".gnu_debugdata", crate::elf::PROGBITS, 0, 0, x));
        }
        data = outer.build(&m);
    }
    if kind == Kind::Mach && s.chance(1, 3) {
        case.label("fat");
        let m2 = generate(s, &GenCfg { kind, max_funcs: 3, ..Default::default() });
        let f2 = Fmt::gen(s, &m2);
        data = fat(&[(f.cpu(), data), (f2.cpu(), f2.build(&m2))]);
    }
    if s.chance(1, 6) {
        case.label("cabinet");
        data = cabinet(&[(s.chance(1, 2), vec![("x.txt".into(), b"hello".to_vec())]), (s.chance(1, 2), vec![(name.clone(), data)])]);
    }
    if kind == Kind::Pdb && s.chance(1, 2) {
        name = "mod.pdb".into();
    }
    (name, data)
}

fn fat(members: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut h = vec![0xca, 0xfe, 0xba, 0xbe];
    h.extend((members.len() as u32).to_be_bytes());
    let mut at = 4096u32;
    let mut body = vec![];
    for (cpu, d) in members {
        let t: (u32, u32) = match *cpu {
            "x86" => (7, 3),
            "x86_64" => (0x100_0007, 3),
            "arm64" => (0x100_000c, 0),
            _ => (12, 9),
        };
        for v in [t.0, t.1, at, d.len() as u32, 12] {
            h.extend(v.to_be_bytes());
        }
        body.push((at as usize, d));
        at += (d.len() as u32).next_multiple_of(4096);
    }
    h.resize(at as usize, 0);
    for (a, d) in body {
        h[a..a + d.len()].copy_from_slice(d);
    }
    h
}

/// Where to damage: headers, tables and everything else get their share.
fn place(s: &mut Src, n: usize) -> usize {
    match s.u(4) {
        0 => s.us(n.min(256).max(1)),
        1 => n - 1 - s.us(n.min(2048).max(1)).min(n - 1),
        _ => s.us(n.max(1)),
    }
}

fn mutate(s: &mut Src, case: &mut Case, d: &mut Vec<u8>, other: &mut dyn FnMut(&mut Src) -> Vec<u8>) {
    let what = s.count(1, 8);
    for _ in 0..what {
        if d.is_empty() {
            return;
        }
        let n = d.len();
        match s.u(12) {
            0..=2 => {
                let i = place(s, n);
                d[i] ^= 1 << s.u(8);
                case.label("bit flipped");
            }
            3 | 4 => {
                let i = place(s, n);
                d[i] = *s.pick(&[0, 0xff, 0x7f, 0x80, 1, 0x20]);
                case.label("byte set");
            }
            5 | 6 => {
                // a number of 2, 4 or 8 bytes
                let w = *s.pick(&[4, 2, 8]);
                let mut i = place(s, n);
                if s.chance(3, 4) {
                    i &= !(w - 1);
                }
                let v: u64 = match s.u(8) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 0x7fff_ffff_ffff_ffff >> (64 - 8 * w),
                    3 => 1 << (8 * w - 1),
                    4 => n as u64,
                    5 => (n as u64).wrapping_sub(s.u(64)),
                    6 => s.u(1 << 20),
                    _ => u64::MAX - s.u(0x2000),
                };
                let b = if s.chance(1, 4) { v.to_be_bytes()[8 - w..].to_vec() } else { v.to_le_bytes()[..w].to_vec() };
                for (k, x) in b.into_iter().enumerate() {
                    if i + k < n {
                        d[i + k] = x;
                    }
                }
                case.label("number replaced");
            }
            7 => {
                d.truncate(s.us(n));
                case.label("truncated");
            }
            8 => {
                let a = place(s, n);
                let l = s.us((n - a).min(600) + 1);
                let v = if s.chance(1, 2) { 0 } else { 0xff };
                d[a..a + l].fill(v);
                case.label("block filled");
            }
            9 => {
                let a = place(s, n);
                let l = s.us((n - a).min(200) + 1);
                if s.chance(1, 2) {
                    d.drain(a..a + l);
                } else {
                    let x: Vec<u8> = d[a..a + l].to_vec();
                    let at = s.us(n + 1);
                    d.splice(at..at, x);
                }
                case.label("block moved");
            }
            10 => {
                let a = place(s, n);
                let b = place(s, n);
                let l = s.us((n - a.max(b)).min(300) + 1);
                d.copy_within(a..a + l, b);
                case.label("block copied");
            }
            _ => {
                let o = other(s);
                let a = s.us(n);
                let b = s.us(o.len().max(1)).min(o.len());
                d.truncate(a);
                d.extend(&o[b..]);
                case.label("spliced");
            }
        }
    }
}

fn well_formed(data: &[u8]) -> Verdict {
    let y = sym::parse(data)?;
    y.ordered()?;
    for f in &y.funcs {
        if f.lines.iter().any(|l| l.file >= y.files.len()) || f.inlines.iter().any(|i| i.call_file >= y.files.len() || i.origin >= y.origins.len()) {
            return Err(format!("FUNC {:x}: undeclared file or origin", f.addr));
        }
    }
    Ok(())
}

/// A panic of dump_syms itself which is no message for the user but Rust's own
fn internal_panic(o: &crate::run::Out) -> Verdict {
    let rust = ["called `", "index out of bounds", "attempt to ", "range ", "byte index", "mid > len", "assertion", "capacity overflow", "internal error", "already ", "not implemented", "explicit panic", "slice index", "begin <= end", "start byte", "end byte"];
    for l in o.stderr.lines() {
        let Some((_, l)) = l.split_once("panic occurred at ") else { continue };
        let Some((place, text)) = l.split_once(": ") else { continue };
        if !place.starts_with('/') && rust.iter().any(|r| text.starts_with(r)) {
            return Err(format!("internal panic: {}", o.describe()));
        }
    }
    Ok(())
}

fn arbitrary(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let (name, mut data) = match s.u(12) {
        0 => {
            case.label("random bytes");
            let n = s.us(300);
            let mut d = s.bytes(n);
            let magic: &[u8] = s.pick(&[
                &b"\x7fELF\x02\x01\x01"[..],
                b"\x7fELF\x01\x02\x01",
                b"\xcf\xfa\xed\xfe",
                b"\xce\xfa\xed\xfe",
                b"\xca\xfe\xba\xbe\0\0\0\x02",
                b"\xca\xfe\xba\xbf\0\0\0\x01",
                b"MZ",
                b"Microsoft C/C++ MSF 7.00\r\n\x1aDS\0\0\0",
                b"MSCF\0\0\0\0",
                b"",
                b"MODULE Linux x86_64 0 x\n",
                b"!<arch>\n",
            ]);
            d.splice(0..0, magic.iter().copied());
            ("mod.bin".to_string(), d)
        }
        _ => valid(s, case),
    };
    let damaged = !s.chance(1, 25);
    if damaged {
        let mut other = |s: &mut Src| {
            let mut c = Case::default();
            valid(s, &mut c).1
        };
        mutate(s, case, &mut data, &mut other);
    }
    case.artifact(&name, &data);
    std::fs::write(ctx.dir.join(&name), &data).unwrap();
    // a good companion of a damaged PDB
    if name == "mod.pdb" && s.chance(1, 3) {
        let m = generate(s, &GenCfg { kind: Kind::Pdb, max_funcs: 2, ..Default::default() });
        let po = PdbOpts::gen(s, &m);
        let (pm, peo) = pair_pe(s, &m, &po, b"mod.pdb");
        let mut pe = pe_spec(&pm, &peo).build();
        if s.chance(1, 2) {
            let mut other = |_: &mut Src| vec![];
            mutate(s, case, &mut pe, &mut other);
        }
        std::fs::write(ctx.dir.join("mod.dll"), &pe).unwrap();
    }
    let mut args: Vec<String> = vec![name.clone()];
    let list = s.chance(1, 12);
    if list {
        args.push("--list-arch".into());
    }
    if s.chance(1, 2) {
        args.push("--inlines".into());
    }
    if s.chance(1, 6) {
        args.push("--check-cfi".into());
    }
    if s.chance(1, 5) {
        args.extend(["--arch".into(), s.pick(&["x86_64", "x86", "arm64", "arm"]).to_string()]);
    }
    let out = s.chance(1, 2);
    let store = s.chance(1, 3);
    if out {
        args.extend(["-o".into(), "out.sym".into()]);
    }
    if store {
        args.extend(["--store".into(), "st".into()]);
    }
    if s.chance(1, 8) {
        args.extend(["--mapping-src".into(), "/(.*)".into(), "--mapping-dest".into(), "x:{1}".into()]);
    }
    let before = tree(&ctx.dir);
    let mut c = Cmd::new(ctx).args(&args);
    c.mem_limit = Some(28 << 30);
    c.cpu_limit = 40.0;
    let o = c.run();
    case.note(&format!("{name} {} bytes {args:?} -> {:?}", data.len(), o.code));
    if o.code.is_none() {
        return Err(by_signal(&o, &format!("{args:?}"), &data));
    }
    case.label(match o.code {
        Some(0) => "dumped",
        Some(101) => "panic reported",
        _ => "refused",
    });
    case.nontrivial = damaged;
    let mut after = tree(&ctx.dir);
    if o.ok() {
        if list {
            return Ok(());
        }
        let mut n = 0;
        if let Some(d) = after.remove("out.sym").filter(|_| out) {
            well_formed(&d)?;
            n += 1;
        }
        for (p, d) in after.iter().filter(|x| x.0.starts_with("st/")) {
            well_formed(d).map_err(|e| format!("{p}: {e}"))?;
            n += 1;
        }
        if !out && !store {
            well_formed(&o.stdout)?;
            n += 1;
        }
        if n != (out as usize + store as usize).max(1) {
            return Err(format!("{args:?}: exit status 0 with {n} symbol files"));
        }
        return Ok(());
    }
    if o.stderr.trim().is_empty() {
        return Err(format!("{args:?}: failure without a message: {}", o.describe()));
    }
    internal_panic(&o)?;
    if after != before || (!o.stdout.is_empty() && !list) {
        return Err(format!("{args:?}: a refused input leaves a symbol file ({})", o.describe()));
    }
    Ok(())
}

/// Whether a type or id record of a PDB refers to itself or to a later one, as no valid record does
fn forward_type(data: &[u8]) -> bool {
    fn u32at(d: &[u8], at: usize) -> Option<usize> {
        Some(u32::from_le_bytes(d.get(at..at.checked_add(4)?)?.try_into().ok()?) as usize)
    }
    fn look(d: &[u8]) -> Option<bool> {
        let bs = u32at(d, 32).filter(|b| (64..=65536).contains(b))?;
        let pages = |list: usize, size: usize| -> Option<Vec<u8>> {
            let mut v = vec![];
            for i in 0..size.div_ceil(bs).min(10_000) {
                let a = u32at(d, list + 4 * i)?.checked_mul(bs)?;
                v.extend_from_slice(d.get(a.min(d.len())..(a + bs).min(d.len()))?);
            }
            v.truncate(size);
            Some(v)
        };
        let dir = pages(u32at(d, 52)?.checked_mul(bs)?, u32at(d, 44)?)?;
        let n = u32at(&dir, 0)?;
        let mut at = 4 + 4 * n.min(100_000);
        for i in 0..n.min(5) {
            let size = u32at(&dir, 4 + 4 * i).filter(|x| *x != 0xffff_ffff).unwrap_or(0);
            let mut v = vec![];
            for k in 0..size.div_ceil(bs) {
                let a = u32at(&dir, at + 4 * k)?.checked_mul(bs)?;
                v.extend_from_slice(d.get(a.min(d.len())..(a + bs).min(d.len()))?);
            }
            at += 4 * size.div_ceil(bs);
            if i != 2 && i != 4 {
                continue;
            }
            let Some(min) = u32at(&v, 8) else { continue };
            let mut p = u32at(&v, 4).unwrap_or(56);
            let mut idx = min;
            while let Some(h) = v.get(p..p + 2) {
                let len = u16::from_le_bytes([h[0], h[1]]) as usize;
                let rec = &v[(p + 2).min(v.len())..(p + 2 + len).min(v.len())];
                if rec.windows(4).any(|w| (idx..idx + 0x1_0000).contains(&(u32::from_le_bytes(w.try_into().unwrap()) as usize))) {
                    return Some(true);
                }
                p += 2 + len;
                idx += 1;
            }
        }
        Some(false)
    }
    let magic = b"Microsoft C/C++ MSF 7.00";
    // (a cabinet may hold it)
    data.windows(magic.len()).position(|w| w == magic).and_then(|i| look(&data[i..])).unwrap_or(false)
}

/// The end of the process by a signal, apart from the known finding about types which contain themselves
fn by_signal(o: &crate::run::Out, what: &str, data: &[u8]) -> String {
    let m = format!("{what}: {}", o.describe());
    if o.signal == Some(6) && o.stderr.contains("has overflowed its stack") && forward_type(data) {
        return format!("known(pdb-type-cycle): {m}");
    }
    m
}

/// A PDB with a type which contains itself
fn type_cycle(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let m = generate(s, &GenCfg { kind: Kind::Pdb, max_funcs: 8, ..Default::default() });
    let po = PdbOpts::gen(s, &m);
    let mut p = pdb_spec(&m, &po);
    let n = p.types.len();
    let lists: Vec<usize> = (0..n).filter(|i| p.types[*i].0 == 0x1201 && p.types[*i].1.len() > 4).collect();
    if lists.is_empty() {
        return Ok(());
    }
    let i = *s.pick(&lists);
    let k = (0x1000 + i + s.us(2)) as u32;
    let args = &mut p.types[i].1;
    let at = 4 + 4 * s.us(args.len() / 4 - 1);
    args[at..at + 4].copy_from_slice(&k.to_le_bytes());
    let data = p.build();
    case.note(&format!("{}: type {:x} is an argument of itself", describe(&m), 0x1000 + i));
    case.label("type containing itself");
    case.artifact("mod.pdb", &data);
    std::fs::write(ctx.dir.join("mod.pdb"), &data).unwrap();
    let mut c = Cmd::new(ctx).arg("mod.pdb");
    c.mem_limit = Some(28 << 30);
    c.cpu_limit = 40.0;
    let o = c.run();
    case.nontrivial = true;
    if o.code.is_none() {
        return Err(by_signal(&o, "type containing itself", &data));
    }
    if o.ok() {
        well_formed(&o.stdout)?;
    }
    Ok(())
}

/// The places of the units in .debug_info
fn units(info: &[u8], be: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut at = 0;
    while at + 4 <= info.len() {
        let b: [u8; 4] = info[at..at + 4].try_into().unwrap();
        let n = if be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) } as usize;
        v.push((at, at + 4 + n));
        at += 4 + n;
    }
    v
}

/// Bytes to write over those at 0..n
fn overwrite(s: &mut Src, old: &dyn Fn(usize) -> u8, n: usize) -> Vec<(usize, u8)> {
    let mut hits = vec![];
    for _ in 0..s.count(1, 6) {
        let i = if s.chance(1, 2) { s.us(n) } else { n - 1 - s.us(n) };
        let v = match s.u(4) {
            0 => old(i) ^ (1 << s.u(8)),
            1 => 0xff,
            2 => 0,
            _ => s.byte(),
        };
        // numbers of several bytes
        let w = if s.chance(1, 4) { 8 } else { 1 };
        hits.extend((i..(i + w).min(n)).map(|j| (j, v)));
    }
    hits
}

/// Damage in one unit leaves the functions of the others.
fn one_unit(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = *s.pick(&[Kind::Elf, Kind::Elf, Kind::Mach, Kind::Pe, Kind::Pdb, Kind::Pdb]);
    let m = generate(s, &GenCfg { kind, max_funcs: 8, units: 4, dup: false, ..Default::default() });
    let f = Fmt::gen(s, &m);
    if m.units.len() < 2 {
        return Ok(());
    }
    let k = s.us(m.units.len());
    let data = if let Fmt::Pdb(po) = &f {
        let mut p = pdb_spec(&m, po);
        if p.mods.len() != m.units.len() {
            return Ok(());
        }
        let n = if s.chance(1, 2) { 400 } else { 4000 };
        p.hits = overwrite(s, &|_| 0, n).into_iter().map(|(i, v)| (k, i, v)).collect();
        case.note(&format!("{} damage in module {k}: {:x?}", describe(&m), p.hits));
        p.build()
    } else {
        let mut data = f.build(&m);
        let secs = m.dwarf();
        let Some((_, info)) = secs.iter().find(|x| x.0 == "debug_info") else { return Ok(()) };
        let us = units(info, m.be);
        let at = data.windows(info.len().max(1)).position(|w| w == &info[..]);
        let Some(at) = at.filter(|_| us.len() == m.units.len() && info.len() > 20) else {
            return Ok(());
        };
        let (a, b) = us[k];
        let first = a + if m.units[k].version >= 5 { 12 } else { 11 };
        let hits = overwrite(s, &|i| info[first + i], b - first);
        for (i, v) in &hits {
            data[at + first + i] = *v;
        }
        case.note(&format!("{} damage in unit {k}: {hits:x?}", describe(&m)));
        data
    };
    case.label(if kind == Kind::Pdb { "one damaged module" } else { "one damaged unit" });
    case.artifact(f.name(), &data);
    std::fs::write(ctx.dir.join(f.name()), &data).unwrap();
    let inl = s.chance(1, 2);
    let mut c = Cmd::new(ctx).arg(f.name()).args(if inl { &["--inlines"][..] } else { &[] });
    c.mem_limit = Some(28 << 30);
    c.cpu_limit = 40.0;
    let o = c.run();
    // the libraries' own assertions and, in this build, checked arithmetic
    if o.code == Some(101) && o.stderr.contains("/registry/") {
        case.label("panic in a library");
        return Ok(());
    }
    if !o.ok() {
        return Err(format!("damage in unit {k} makes the dump fail: {}", o.describe()));
    }
    well_formed(&o.stdout)?;
    let y = sym::parse(&o.stdout)?;
    let exp = m.expected_funcs();
    case.nontrivial = exp.values().any(|e| e.unit != k);
    for e in exp.values().filter(|e| e.unit != k) {
        // A damaged function may be at the same address as a later one. An export or public symbol
        // may give a function of Windows another name.
        match y.func(e.addr) {
            Some(g) if e.unit > k || g.size == e.size && (matches!(kind, Kind::Pe | Kind::Pdb) || e.names.contains(&g.name)) => {}
            g => return Err(format!("function {:x}+{:x} {:?} of unit {} (unit {k} is damaged) is dumped as {g:?}", e.addr, e.size, e.names, e.unit)),
        }
    }
    Ok(())
}

fn c17(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    if s.chance(1, 4) {
        one_unit(s, ctx, case)
    } else if s.chance(1, 200) {
        type_cycle(s, ctx, case)
    } else {
        arbitrary(s, ctx, case)
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        quick: 20_000,
        thorough: 500_000,
        rule: "the input differs from a valid file (or has functions in units before the damaged one)",
        assumptions: &["memory exhaustion is judged with 2 GB of memory in use and 28 GB of address space, endless loops with 40 s of CPU time"],
        run: c17,
        expect: &[("one damaged unit", 100), ("one damaged module", 50), ("dumped", 200), ("refused", 200), ("cabinet", 50), ("fat", 20), ("type containing itself", 5)],
        workers: 8,
    }]
}
