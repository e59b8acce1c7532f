//! C14, C15, C20: cabinets, PE and PDB pairs, PE files on their own.
use super::core::{check_publics, describe, dump, label_module};
use super::ident::{check_header, header, pair_pe, pe_code_id, small, store_path, tree, write};
use super::multi::shuffle;
use super::stack::{check_inits, pdata};
use crate::engine::*;
use crate::fmt::*;
use crate::model::*;
use crate::names;
use crate::pe;
use crate::run::{Cmd, Out};
use crate::sym;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, PartialEq)]
struct Rec {
    func: bool,
    len: u64,
    /// None: a DWARF function, whose name is C01's business
    name: Option<String>,
    multiple: bool,
    param: u64,
}

/// The records of a PE, where "inside a function" means inside any (or only inside the nearest preceding one).
fn simulate(any: bool, dwarf: &[(u64, u64)], pd: &[(u32, u32)], exports: &[(u64, String, Option<u64>)], file: &str, trailing: &str) -> BTreeMap<u64, Rec> {
    let mut r: BTreeMap<u64, Rec> = BTreeMap::new();
    for &(a, n) in dwarf {
        r.insert(a, Rec { func: true, len: n, name: None, multiple: false, param: 0 });
    }
    let inside = |r: &BTreeMap<u64, Rec>, a: u64| {
        let hit = |(b, x): (&u64, &Rec)| a - b < x.len;
        if any {
            r.range(..a).any(hit)
        } else {
            r.range(..a).next_back().is_some_and(hit)
        }
    };
    for &(b, e) in pd {
        if e < b || inside(&r, b as u64) {
            continue;
        }
        r.entry(b as u64).or_insert(Rec { func: true, len: (e - b) as u64, name: Some(format!("<unknown in {file}>")), multiple: false, param: 0 });
    }
    for (a, text, param) in exports {
        if inside(&r, *a) {
            continue;
        }
        match r.get_mut(a) {
            Some(x) if x.func => {
                if x.name.as_ref().is_some_and(|n| !n.contains('(')) {
                    x.name = Some(text.clone());
                }
                if let Some(p) = param {
                    x.param = *p;
                }
            }
            Some(x) => x.multiple = true,
            None => {
                r.insert(*a, Rec { func: false, len: 0, name: Some(text.clone()), multiple: false, param: param.unwrap_or(0) });
            }
        }
    }
    if let Some((a, x)) = r.iter().next_back() {
        let end = a + x.len.max(1);
        r.insert(end, Rec { func: false, len: 0, name: Some(format!("<unknown in {trailing}>")), multiple: false, param: 0 });
    }
    r
}

fn c20(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let plain_class = s.chance(4, 5);
    let max_funcs = *s.pick(&[4, 2, 8]);
    let mut m = generate(s, &GenCfg { kind: Kind::Pe, max_funcs, units: 2, dup: false, inlines: false, symtab: false, plain_class, ..Default::default() });
    m.syms.clear();
    let with_dwarf = s.chance(1, 2);
    if !with_dwarf {
        m.units.clear();
    }
    let mut o = PeOpts::gen(s, &m);
    o.debug = with_dwarf;
    if m.is64 && s.chance(5, 6) {
        (o.machine, o.cpu) = (0x8664, "x86_64");
    }
    let dwarf: Vec<(u64, u64)> = m.expected_funcs().values().map(|e| (e.addr, e.size)).collect();
    // exception table
    let mut pd: Vec<(u32, u32)> = vec![];
    let mut points: Vec<u64> = vec![];
    for &(a, n) in &dwarf {
        points.extend([a, a + n, a + n / 2]);
    }
    let gap = *s.pick(&[0, 16, 200]);
    let max = *s.pick(&[8, 2, 30]);
    for x in &m.sections {
        let mut a = x.rva + s.u(gap + 1);
        while a < x.rva + x.size && pd.len() < max {
            let n = s.u((x.rva + x.size - a).min(120) + 1);
            pd.push((a as u32, (a + n) as u32));
            a += n.max(1) + s.u(gap + 1);
        }
    }
    for _ in 0..s.count(0, 3) {
        // overlapping, duplicate, inverted and empty entries
        let base = if !points.is_empty() && s.chance(1, 2) {
            *s.pick(&points) as u32
        } else if !pd.is_empty() {
            let k = s.us(pd.len());
            let (b, e) = pd[k];
            b.min(e) + s.u((e.max(b) - b.min(e)) as u64 + 2) as u32
        } else {
            m.sections[0].rva as u32
        };
        let n = s.u(200) as u32;
        let x = match s.u(4) {
            0 => (base, base),
            1 => (base + n, base),
            _ => (base, base + n),
        };
        let k = s.us(pd.len() + 1);
        pd.insert(k, x);
    }
    match s.u(4) {
        0 => shuffle(s, &mut pd),
        1 => {}
        _ => pd.sort(),
    }
    pd.retain(|x| x.0 != 0);
    for &(b, e) in &pd {
        points.extend([b as u64, b as u64, e as u64, (b as u64 + e as u64) / 2, e as u64 - (e > 0) as u64]);
    }
    for x in &m.sections {
        points.extend([x.rva + s.u(x.size), x.rva + x.size]);
    }
    o.pdata = pd.iter().map(|&(b, e)| (b, e, vec![1, 0, 0, 0])).collect();
    // exports
    let mut seen = BTreeSet::new();
    for _ in 0..s.count(0, 12) {
        let mut name = names::win(s, true);
        if s.chance(1, 12) {
            name = names::Nm::plain(s.pick(&["??_C@_05abc@x", "__real@3f800000"]));
        }
        if !seen.insert(name.full()) {
            continue;
        }
        let rva = *s.pick(&points);
        if rva == 0 {
            continue;
        }
        m.syms.push(SymM { name, rva, size: 0, sec: Some(0), func: true, dynamic: true, local: false });
    }
    let mut spec = pe_spec(&m, &o);
    let odd = s.count(0, 4);
    for i in 0..odd {
        let rva = *s.pick(&points) as u32;
        let e = match s.u(3) {
            0 => pe::Export { name: None, rva, forward: None },
            1 => pe::Export { name: Some(format!("zz_fwd{i}")), rva, forward: Some("KERNEL32.HeapAlloc".into()) },
            _ => pe::Export { name: Some(format!("Afwd{i}")), rva, forward: Some("NTDLL.#12".into()) },
        };
        spec.exports.push(e);
    }
    shuffle(s, &mut spec.exports);
    let data = spec.build();
    let file = *s.pick(&["mod.dll", "a b.exe", "x.sys"]);
    write(ctx, case, file, &data);
    case.note(&format!(
        "{} machine {:x}, exception table {pd:x?}, exports {:x?}",
        describe(&m),
        o.machine,
        spec.exports.iter().map(|e| (e.name.clone(), e.rva, e.forward.is_some())).collect::<Vec<_>>()
    ));
    label_module(&m, case);
    let exports: Vec<(u64, String, Option<u64>)> = m
        .func_syms()
        .iter()
        .filter(|s| !names::skipped(&s.name.full()))
        .map(|s| {
            let (t, p) = s.name.in_win();
            (s.rva, t, p.map(u64::from))
        })
        .collect();
    let used: &[(u32, u32)] = if o.machine == 0x8664 { &pd } else { &[] };
    let trailing = Fmt::Pe(o.clone()).synthetic(file);
    // a module without functions, exports and exception data yields nothing
    let a = simulate(false, &dwarf, used, &exports, file, &trailing);
    let b = simulate(true, &dwarf, used, &exports, file, &trailing);
    case.label_if(with_dwarf, "with DWARF");
    case.label_if(a != b, "undecided overlap");
    case.label_if(used.iter().any(|x| x.1 < x.0), "inverted entry");
    let placeholders = a.values().filter(|r| r.func && r.name.as_ref().is_some_and(|n| n.starts_with("<unknown in"))).count();
    case.label_if(placeholders > 0, "placeholder");
    case.label_if(a.iter().any(|(k, r)| r.func && r.name.as_ref().is_some_and(|n| !n.starts_with("<unknown")) && used.iter().any(|p| p.0 as u64 == *k)), "placeholder named by export");
    case.label_if(odd > 0, "unnamed or forwarded export");
    case.nontrivial = placeholders > 0 && !exports.is_empty();
    let args: &[&str] = if s.chance(1, 4) { &["--inlines"] } else { &[] };
    let y = dump(s, ctx, file, args)?;
    y.ordered()?;
    let mut got: BTreeMap<u64, Rec> = BTreeMap::new();
    for f in &y.funcs {
        got.insert(f.addr, Rec { func: true, len: f.size, name: Some(f.name.clone()), multiple: f.multiple, param: f.param });
    }
    for p in &y.publics {
        got.insert(p.addr, Rec { func: false, len: 0, name: Some(p.name.clone()), multiple: p.multiple, param: p.param });
    }
    let all: BTreeSet<u64> = a.keys().chain(b.keys()).chain(got.keys()).copied().collect();
    // a forwarded export may or may not be listed at its forwarder text
    let forwarded = spec.exports.iter().any(|e| e.forward.is_some() && e.name.is_some());
    let last = a.keys().next_back().copied();
    for k in all {
        if forwarded && (k >= spec.meta_rva as u64 || Some(k) == last) {
            continue;
        }
        let (want, got) = (a.get(&k), got.get(&k));
        if want != b.get(&k) {
            continue;
        }
        let same = match (want, got) {
            (None, None) => true,
            (Some(w), Some(g)) if w.name.is_none() => g.func && g.len == w.len,
            (w, g) => w == g,
        };
        if !same {
            return Err(format!("at {k:x}: {got:x?} instead of {want:x?}"));
        }
    }
    if let Some(f) = y.funcs.iter().find(|f| !f.lines.is_empty() && !dwarf.iter().any(|d| d.0 == f.addr)) {
        return Err(format!("placeholder {:x} has line records", f.addr));
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

/// A cabinet of folders, each with a compression and members.
pub fn cabinet(folders: &[(bool, Vec<(String, Vec<u8>)>)]) -> Vec<u8> {
    let mut b = cab::CabinetBuilder::new();
    for (zip, members) in folders {
        let f = b.add_folder(if *zip { cab::CompressionType::MsZip } else { cab::CompressionType::None });
        for (n, _) in members {
            f.add_file(n.clone());
        }
    }
    let mut w = b.build(std::io::Cursor::new(Vec::new())).unwrap();
    let mut all = folders.iter().flat_map(|f| f.1.iter());
    while let Some(mut fw) = w.next_file().unwrap() {
        let (n, d) = all.next().unwrap();
        assert_eq!(fw.file_name(), n);
        fw.write_all(d).unwrap();
    }
    w.finish().unwrap().into_inner()
}

fn noise(s: &mut Src, n: usize) -> Vec<u8> {
    let k = s.u(1 << 20);
    let mut r = Rng::new(k);
    if s.chance(1, 2) {
        (0..n).map(|_| r.next() as u8).collect()
    } else {
        (0..n).map(|i| (i / 7 % 13) as u8).collect()
    }
}

pub fn completed(name: &str) -> String {
    for (a, b) in [(".pd_", ".pdb"), (".dl_", ".dll"), (".ex_", ".exe"), (".db_", ".dbg")] {
        if let Some(x) = name.strip_suffix(a) {
            return format!("{x}{b}");
        }
    }
    name.to_string()
}

fn c14(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = *s.pick(&[Kind::Pdb, Kind::Pdb, Kind::Pe, Kind::Elf, Kind::Mach]);
    let m = small(s, kind);
    let mut f = Fmt::gen(s, &m);
    if let Fmt::Elf(o) = &mut f {
        // module names are C05's business
        if s.chance(1, 2) {
            o.soname = None;
        }
    }
    let data = f.build(&m);
    let stem = *s.pick(&["mod", "a.b", "x y", "MOD", "näme"]);
    let ext = match kind {
        Kind::Pdb => *s.pick(&[".pd_", ".pd_", ".pdb", ".bin"]),
        Kind::Pe => *s.pick(&[".dl_", ".ex_", ".dll", ".exe", ".sys"]),
        _ => *s.pick(&["", ".so", ".db_", ".dbg", ".dylib", ".debug"]),
    };
    let name = format!("{stem}{ext}");
    let member = completed(&name);
    let missing = s.chance(1, 6);
    let dir = *s.pick(&["", "", "", "sub\\", "a\\b\\", "sub/"]);
    // members other than the wanted one
    let mut folders: Vec<(bool, Vec<(String, Vec<u8>)>)> = vec![];
    let mut used = BTreeSet::from([member.clone()]);
    for _ in 0..s.usr(1, 4) {
        let zip = s.chance(2, 3);
        let mut v = vec![];
        for _ in 0..s.count(0, 4) {
            let n = match s.u(10) {
                8 => member.to_uppercase(),
                9 => member.to_lowercase(),
                0 => format!("x{member}"),
                1 => format!("{member}.bak"),
                2 => format!("{stem}.txt"),
                3 => member[..member.len() - 1].to_string(),
                4 => format!("d\\{}x", member),
                5 => format!("{stem}.zzz"),
                _ => format!("{}.dat", names::ident(s)),
            };
            if n.is_empty() || !used.insert(n.clone()) {
                continue;
            }
            let d = if s.chance(1, 3) {
                data.clone()
            } else {
                let n = match s.u(4) {
                    0 => 0,
                    1 => s.us(100),
                    2 => s.us(32768 * 3),
                    _ => 32768 - s.us(2),
                };
                noise(s, n)
            };
            v.push((n, d));
        }
        folders.push((zip, v));
    }
    let k = s.us(folders.len());
    let big = folders[k].1.iter().map(|x| x.1.len()).sum::<usize>() + data.len() > 32768;
    if !missing {
        let at = s.us(folders[k].1.len() + 1);
        folders[k].1.insert(at, (format!("{dir}{member}"), data.clone()));
        case.label_if(folders[k].0, "MSZIP");
        case.label_if(!folders[k].0, "stored");
        case.label_if(k > 0, "not in the first folder");
        case.label_if(at > 0, "not the first member");
        case.label_if(big, "several blocks");
        case.label_if(!dir.is_empty(), "member in a directory");
    }
    folders.retain(|f| !f.1.is_empty());
    let cab = cabinet(&folders);
    let mut bytes = cab.clone();
    let truncated = !missing && s.chance(1, 8);
    if truncated {
        let n = s.us(bytes.len());
        bytes.truncate(n);
    }
    write(ctx, case, &format!("c/{name}"), &bytes);
    write(ctx, case, &format!("r/{name}"), &data);
    case.note(&format!(
        "{} as {name:?}; cabinet {:?} missing {missing} truncated {truncated}",
        describe(&m),
        folders.iter().map(|f| (f.0, f.1.iter().map(|x| (x.0.clone(), x.1.len())).collect::<Vec<_>>())).collect::<Vec<_>>()
    ));
    label_module(&m, case);
    case.label_if(missing, "no such member");
    case.label_if(truncated, "truncated");
    case.nontrivial = folders.iter().map(|f| f.1.len()).sum::<usize>() > 1;
    let mut args: Vec<&str> = vec![];
    if s.chance(1, 3) {
        args.push("--inlines");
    }
    let raw = Cmd::new(ctx).arg(format!("r/{name}")).args(&args).run();
    if !raw.ok() {
        return Err(format!("dumping the uncompressed file failed: {}", raw.describe()));
    }
    if missing || truncated {
        args.extend(["-o", "out.sym", "--store", "st"]);
        let before = tree(&ctx.dir);
        let o = Cmd::new(ctx).arg(format!("c/{name}")).args(&args).noise(s).run();
        let mut after = tree(&ctx.dir);
        if truncated && o.ok() {
            // the cut may lie behind the member
            if after.remove("out.sym").as_ref() != Some(&raw.stdout) {
                return Err("a truncated cabinet gives another dump".into());
            }
            return Ok(());
        }
        if o.ok() || o.code.is_none() {
            return Err(format!("cabinet without the file {member:?}: {}", o.describe()));
        }
        if before != after || !o.stdout.is_empty() {
            return Err("a symbol file was written for an unusable cabinet".into());
        }
        return Ok(());
    }
    let o = Cmd::new(ctx).arg(format!("c/{name}")).args(&args).noise(s).run();
    if !o.ok() {
        return Err(format!("dumping the cabinet failed: {}", o.describe()));
    }
    if o.stdout != raw.stdout {
        return Err(format!("the dump of the cabinet differs from that of the file in it ({} and {} bytes)", o.stdout.len(), raw.stdout.len()));
    }
    if s.chance(1, 4) {
        // the same along with another input
        case.label("with another input");
        let m2 = small(s, Kind::Elf);
        let f2 = Fmt::gen(s, &m2);
        write(ctx, case, "second.so", &f2.build(&m2));
        let first = s.chance(1, 2);
        let mut run = |dir: &str, st: &str| {
            let file = format!("{dir}/{name}");
            let v: [&str; 2] = if first { [&file, "second.so"] } else { ["second.so", &file] };
            Cmd::new(ctx).args(&v).args(&args).args(["--store", st]).noise(s).run()
        };
        let (a, b) = (run("c", "s1"), run("r", "s2"));
        if !a.ok() || !b.ok() {
            return Err(format!("dumping the cabinet along with another file failed: {} / {}", a.describe(), b.describe()));
        }
        if tree(&ctx.dir.join("s1")) != tree(&ctx.dir.join("s2")) {
            return Err("the dump of the cabinet along with another file differs from that of the file in it".into());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Copy, Debug, PartialEq)]
enum Slot {
    Nothing,
    Right,
    WrongGuid,
    WrongAge,
    Garbage,
    Dir,
    Truncated,
}

fn slot(s: &mut Src, right: bool) -> Slot {
    match s.u(9) {
        0..=2 => Slot::Nothing,
        3 | 4 if right => Slot::Right,
        3 | 4 => Slot::Nothing,
        5 => Slot::WrongGuid,
        6 => Slot::WrongAge,
        7 => *s.pick(&[Slot::Garbage, Slot::Truncated]),
        _ => Slot::Dir,
    }
}

/// Everything but the name of the PE in the CODE_ID line.
fn without_pe_name(o: &Out) -> Vec<String> {
    String::from_utf8_lossy(&o.stdout)
        .lines()
        .map(|l| match l.strip_prefix("INFO CODE_ID ") {
            Some(r) => format!("INFO CODE_ID {}", r.split(' ').next().unwrap()),
            None => l.to_string(),
        })
        .collect()
}

/// What is no companion: some bytes, or a cabinet with the right file under another name.
fn unusable(s: &mut Src, right: &[u8]) -> Vec<u8> {
    if s.chance(1, 2) {
        return s.bytes(40);
    }
    cabinet(&[(s.chance(1, 2), vec![("readme.txt".into(), b"x".to_vec()), ("another.bin".into(), right.to_vec())])])
}

fn c15(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let plain_class = s.chance(1, 2);
    let m = generate(s, &GenCfg { kind: Kind::Pdb, max_funcs: 4, units: 2, dup: false, partial: false, plain_class, ..Default::default() });
    let other = small(s, Kind::Pdb);
    let po = PdbOpts::gen(s, &m);
    let stem = *s.pick(&["mod", "a.b", "x y", "Mod"]);
    let pdb_name = format!("{stem}.{}", s.pick(&["pdb", "pdb", "pdb", "PDB"]));
    let from_pe = s.chance(2, 3);
    let case_dir = ctx.dir.to_str().unwrap().to_string();
    let cwd = *s.pick(&["w", "p", "."]);
    std::fs::create_dir_all(ctx.dir.join(cwd)).unwrap();
    std::fs::create_dir_all(ctx.dir.join("p")).unwrap();
    // where the PE says its PDB is, and where that is
    let (rsds, at): (String, Option<String>) = match s.u(5) {
        0 => (format!("{case_dir}/abs/{pdb_name}"), Some(format!("abs/{pdb_name}"))),
        1 => (format!("{case_dir}/abs/d e/{pdb_name}").replace('/', "\\"), Some(format!("abs/d e/{pdb_name}"))),
        2 => (format!("rel\\{pdb_name}"), Some(format!("{cwd}/rel/{pdb_name}"))),
        3 => (format!("C:\\vpnx\\{pdb_name}"), None),
        _ => (pdb_name.clone(), Some(format!("{cwd}/{pdb_name}"))),
    };
    let (pm, mut peo) = pair_pe(s, &m, &po, rsds.as_bytes());
    let mut inits = vec![];
    if peo.machine == 0x8664 && s.chance(3, 4) {
        (peo.pdata, inits) = pdata(s, &m, 6);
    }
    let pe_stem = if s.chance(2, 3) { stem.to_string() } else { s.pick(&["prog", "PROG", "prög", "p r"]).to_string() };
    let pe_name = format!("{pe_stem}.{}", s.pick(&["dll", "exe", "dll", "exe", "DLL", "Exe", "sys", "ocx"]));
    let pe_bytes = pe_spec(&pm, &peo).build();
    let fmt = Fmt::Pdb(po.clone());
    let pdb_bytes = fmt.build(&m);
    let mut wrong_guid = po.clone();
    let k = s.us(16);
    wrong_guid.guid[k] ^= 1 << s.u(8);
    let mut wrong_age = po.clone();
    wrong_age.age = match s.u(3) {
        0 => po.real_age().wrapping_add(1),
        1 => po.real_age() ^ 0x10,
        _ => po.real_age().wrapping_mul(3),
    }
    .max(1);
    if wrong_age.age == po.real_age() {
        wrong_age.age ^= 0x100;
    }
    label_module(&m, case);
    let inl = s.chance(1, 2);
    let args: &[&str] = if inl { &["--inlines"] } else { &[] };
    let check_pair = |o: &Out, pe_names: &[String], has_pe: bool| -> Verdict {
        if !o.ok() {
            return Err(format!("dump failed: {}", o.describe()));
        }
        let y = sym::parse(&o.stdout)?;
        let mut e = header(&m, &fmt, &pdb_name);
        if has_pe {
            let have = pe_names.iter().find(|n| y.infos.iter().any(|i| *i == format!("CODE_ID {} {n}", pe_code_id(&peo))));
            let n = have.unwrap_or(&pe_names[0]);
            e.4 = Some(format!("CODE_ID {} {n}", pe_code_id(&peo)));
        }
        check_header(&y, &e)?;
        check_funcs(&m, &y)?;
        check_publics(&y, &expected_publics(&m, &fmt, &pdb_name))?;
        check_lines(&m, &y, inl)?;
        if inl {
            check_inlines(&m, &y)?;
        }
        if has_pe {
            check_inits(&y, &inits)
        } else if !y.stack.is_empty() {
            Err("STACK records without PE".into())
        } else {
            Ok(())
        }
    };
    if from_pe {
        let arg = if cwd == "w" { format!("../p/{pe_name}") } else if cwd == "p" { pe_name.clone() } else { format!("p/{pe_name}") };
        write(ctx, case, &format!("p/{pe_name}"), &pe_bytes);
        let alone = Cmd::new(ctx).cwd(ctx.dir.join(cwd)).arg(&arg).args(args).noise(s).run();
        if !alone.ok() {
            return Err(format!("dumping the PE alone failed: {}", alone.describe()));
        }
        // places where the PDB may be
        let mut places: Vec<String> = vec![];
        for p in at.iter().cloned().chain([format!("p/{pdb_name}"), format!("p/{stem}.pd_"), format!("{cwd}/{pdb_name}")]) {
            let p = p.trim_start_matches("./").to_string();
            if !places.contains(&p) {
                places.push(p);
            }
        }
        // the cache of a symbol server comes last
        let mut server: Vec<String> = vec![];
        if s.chance(1, 4) {
            let id = header(&m, &fmt, &pdb_name).2;
            places.push(format!("symcache/{pdb_name}/{id}/{pdb_name}"));
            server.extend(["--symbol-server".into(), format!("SRV*{case_dir}/symcache*http://127.0.0.1:9")]);
        }
        let allow = s.chance(3, 4);
        let mut desc = vec![];
        let mut any = false;
        for p in &places {
            let mut k = slot(s, allow);
            if p.starts_with("symcache/") {
                case.label("cache of a symbol server");
                if matches!(k, Slot::Garbage | Slot::Truncated | Slot::Dir) {
                    k = Slot::WrongGuid;
                }
            }
            let cab = p.ends_with("_");
            let mut data = match k {
                Slot::Nothing => None,
                Slot::Right => Some(pdb_bytes.clone()),
                Slot::WrongGuid => Some(Fmt::Pdb(wrong_guid.clone()).build(if s.chance(1, 2) { &other } else { &m })),
                Slot::WrongAge => Some(Fmt::Pdb(wrong_age.clone()).build(if s.chance(1, 2) { &other } else { &m })),
                Slot::Garbage => Some(unusable(s, &pdb_bytes)),
                Slot::Truncated => {
                    let n = s.us(pdb_bytes.len().min(200));
                    Some(pdb_bytes[..n].to_vec())
                }
                Slot::Dir => {
                    std::fs::create_dir_all(ctx.dir.join(p)).unwrap();
                    None
                }
            };
            any |= k == Slot::Right;
            if let (true, Some(d)) = (cab && s.chance(5, 6), &mut data) {
                *d = cabinet(&[(true, vec![("readme.txt".into(), b"x".to_vec()), (format!("{stem}.pdb"), d.clone())])]);
            }
            if let Some(d) = &data {
                write(ctx, case, p, d);
            }
            desc.push(format!("{p}: {k:?}"));
            case.label_if(k == Slot::Right, if cab { "right PDB in cabinet" } else { "right PDB" });
            case.label_if(matches!(k, Slot::WrongGuid | Slot::WrongAge), "wrong PDB");
        }
        case.note(&format!("{} PE p/{pe_name} names {rsds:?} run in {cwd}; {desc:?}", describe(&m)));
        case.label("from PE");
        case.nontrivial = desc.iter().any(|d| !d.ends_with("Nothing"));
        let o = Cmd::new(ctx).cwd(ctx.dir.join(cwd)).arg(&arg).args(args).args(&server).noise(s).run();
        if !any {
            case.label("PE without usable PDB");
            if !o.ok() || o.stdout != alone.stdout {
                return Err(format!("a PE without usable PDB is not dumped as on its own: {}", o.describe()));
            }
            let y = sym::parse(&o.stdout)?;
            let mut e = header(&pm, &Fmt::Pe(peo.clone()), &pe_name);
            e.3 = pdb_name.clone();
            return check_header(&y, &e);
        }
        check_pair(&o, &[pe_name.clone()], true)?;
        // and the other direction
        let ext = if pe_name.ends_with("exe") { "exe" } else { "dll" };
        write(ctx, case, &format!("q/{pdb_name}"), &pdb_bytes);
        write(ctx, case, &format!("q/{stem}.{ext}"), &pe_bytes);
        let b = Cmd::new(ctx).arg(format!("q/{pdb_name}")).args(args).run();
        if !b.ok() {
            return Err(format!("dumping the PDB failed: {}", b.describe()));
        }
        if without_pe_name(&o) != without_pe_name(&b) {
            return Err("the PE with its PDB and the PDB with its PE give different symbols".into());
        }
        Ok(())
    } else {
        let allow = s.chance(3, 4);
        let mut desc = vec![];
        let mut names = vec![];
        write(ctx, case, &format!("p/{pdb_name}"), &pdb_bytes);
        let other_pe = |s: &mut Src, po: &PdbOpts| {
            let (pm, mut o) = pair_pe(s, &m, po, rsds.as_bytes());
            o.machine = peo.machine;
            if s.chance(1, 2) {
                o.pdata = pdata(s, &m, 4).0;
            }
            pe_spec(&pm, &o).build()
        };
        for ext in ["dll", "dl_", "exe", "ex_"] {
            let p = format!("p/{stem}.{ext}");
            let k = slot(s, allow);
            let cab = ext.ends_with('_');
            let member = completed(&format!("{stem}.{ext}"));
            let mut data = match k {
                Slot::Nothing => None,
                Slot::Right => {
                    names.push(member.clone());
                    Some(pe_bytes.clone())
                }
                Slot::WrongGuid => Some(other_pe(s, &wrong_guid)),
                Slot::WrongAge => Some(other_pe(s, &wrong_age)),
                Slot::Garbage => Some(unusable(s, &pe_bytes)),
                Slot::Truncated => {
                    let n = s.us(pe_bytes.len().min(100));
                    Some(pe_bytes[..n].to_vec())
                }
                Slot::Dir => {
                    std::fs::create_dir_all(ctx.dir.join(&p)).unwrap();
                    None
                }
            };
            if let (true, Some(d)) = (cab && s.chance(5, 6), &mut data) {
                *d = cabinet(&[(s.chance(1, 2), vec![("readme.txt".into(), b"x".to_vec()), (member.clone(), d.clone())])]);
            }
            if let Some(d) = &data {
                write(ctx, case, &p, d);
            }
            desc.push(format!("{p}: {k:?}"));
            case.label_if(k == Slot::Right, if cab { "right PE in cabinet" } else { "right PE" });
            case.label_if(matches!(k, Slot::WrongGuid | Slot::WrongAge), "wrong PE");
        }
        // a PE elsewhere is none of its companions
        if s.chance(1, 3) && cwd != "p" {
            write(ctx, case, &format!("{cwd}/{stem}.dll"), &pe_bytes);
        }
        case.note(&format!("{} PDB p/{pdb_name} run in {cwd}; {desc:?}", describe(&m)));
        case.label("from PDB");
        case.label_if(names.is_empty(), "PDB without usable PE");
        case.nontrivial = desc.iter().any(|d| !d.ends_with("Nothing"));
        let arg = if cwd == "w" { format!("../p/{pdb_name}") } else if cwd == "p" { pdb_name.clone() } else { format!("p/{pdb_name}") };
        let o = Cmd::new(ctx).cwd(ctx.dir.join(cwd)).arg(&arg).args(args).noise(s).run();
        check_pair(&o, &names, !names.is_empty())
    }
}

pub fn props() -> Vec<Prop> {
    let _ = store_path;
    vec![
        Prop { id: "C14", quick: 5000, thorough: 200_000,
            rule: "a random module of any format put into a random cabinet (several folders, stored or MSZIP, other members of up to 96 KiB and with similar names, member in a directory), dumped and compared with the dump of the bare file; also cabinets without the member and cut at a random length; non-trivial: the cabinet has at least two members",
            assumptions: &["LZX folders are not generated (no encoder available)", "member names differing only in letter case or in their directory from the wanted one are not generated"],
            run: c14, expect: &[("MSZIP", 100), ("stored", 100), ("no such member", 50), ("truncated", 50), ("several blocks", 50)], workers: 0 },
        Prop { id: "C15", quick: 5000, thorough: 200_000,
            rule: "a random PDB module and its PE with random unwind data; every place where the companion may be holds nothing, the right file, one with another GUID or age (and often other contents), garbage, a truncated file or a directory; dumped from the PE or from the PDB, compared with the model of the pair or the dump of the file alone; non-trivial: some place is not empty",
            assumptions: &["right companions in several places are identical"],
            run: c15, expect: &[("right PDB", 100), ("right PDB in cabinet", 50), ("wrong PDB", 100), ("right PE", 100), ("right PE in cabinet", 50), ("wrong PE", 100)], workers: 0 },
        Prop { id: "C20", quick: 10000, thorough: 400_000,
            rule: "a PE with a random exception table (sorted, unsorted, overlapping, duplicate, inverted and empty entries), random exports (named, unnamed, forwarded; at, inside, behind functions) and optionally DWARF functions, compared record by record with a reference model; non-trivial: at least one placeholder and one export",
            assumptions: &["PUBLIC records of forwarded exports (at the forwarder text) are not judged", "records whose presence depends on whether 'inside a function' means any function or the nearest preceding one are not judged"],
            run: c20, expect: &[("placeholder", 500), ("placeholder named by export", 100), ("inverted entry", 50), ("with DWARF", 500), ("unnamed or forwarded export", 200)], workers: 0 },
    ]
}
