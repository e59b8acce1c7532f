//! C05, C12, C16, C22, C23: module identity, output modes, fat files, bundles and INFO lines.
use super::core::{describe, label_module};
use crate::engine::*;
use crate::fmt::*;
use crate::macho::{self, MachOpts};
use crate::model::*;
use crate::pe;
use crate::run::{Cmd, Out};
use crate::sym;
use std::collections::BTreeMap;
use std::path::Path;

pub fn small(s: &mut Src, kind: Kind) -> Module {
    generate(s, &GenCfg { kind, max_funcs: 4, units: 2, partial: kind != Kind::Pdb, ..Default::default() })
}

/// Writes a file below the scratch directory, creating directories.
pub fn write(ctx: &Ctx, case: &mut Case, path: &str, data: &[u8]) {
    let p = ctx.dir.join(path);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, data).unwrap();
    case.artifact(path, data);
}

/// All files below a directory (hidden supervisor files excluded) with their contents.
pub fn tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(d: &Path, pre: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if pre.is_empty() && (n.starts_with(".out") || n.starts_with(".err")) {
                continue;
            }
            let p = format!("{pre}{n}");
            let Ok(t) = e.file_type() else { continue };
            if t.is_dir() {
                walk(&e.path(), &format!("{p}/"), out);
            } else if t.is_file() {
                out.insert(p, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, "", &mut m);
    m
}

pub fn hex_upper(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect()
}

pub fn win_id(guid: &[u8; 16], age: u32) -> String {
    let g = crate::elfmod::guid_text(guid, true);
    format!("{}{age:x}", &g[..32])
}

pub fn pe_code_id(o: &PeOpts) -> String {
    format!("{:08X}{:X}", o.timestamp, o.size_of_image)
}

/// (os, cpu, id, name, text of the CODE_ID line)
pub fn header(m: &Module, f: &Fmt, file: &str) -> (String, String, String, String, Option<String>) {
    let base = |p: &str| p.rsplit(['/']).next().unwrap().to_string();
    match f {
        Fmt::Elf(o) => (
            "Linux".into(),
            o.cpu.into(),
            crate::elfmod::debug_id(m, o).unwrap(),
            o.soname.as_ref().map(|n| base(&String::from_utf8_lossy(n))).unwrap_or(file.into()),
            o.build_id.as_ref().map(|b| format!("CODE_ID {}", hex_upper(b))),
        ),
        Fmt::Mach(o) => (
            "Mac".into(),
            o.cpu.into(),
            macho::debug_id(o),
            o.install_name.as_ref().map(|n| base(&String::from_utf8_lossy(n))).unwrap_or(file.into()),
            o.uuid.map(|u| format!("CODE_ID {}", hex_upper(&u))),
        ),
        Fmt::Pe(o) => (
            "windows".into(),
            o.cpu.into(),
            o.rsds.as_ref().map(|r| win_id(&r.guid, r.age)).unwrap_or("0".repeat(33)),
            o.rsds
                .as_ref()
                .map(|r| base(&String::from_utf8_lossy(&r.path).rsplit('\\').next().unwrap()))
                .unwrap_or(file.into()),
            Some(format!("CODE_ID {} {file}", pe_code_id(o))),
        ),
        Fmt::Pdb(o) => ("windows".into(), o.cpu.into(), win_id(&o.guid, o.real_age()), file.into(), None),
    }
}

pub fn check_header(y: &sym::Sym, e: &(String, String, String, String, Option<String>)) -> Verdict {
    for (what, got, want) in [("OS", &y.os, &e.0), ("CPU", &y.cpu, &e.1), ("debug identifier", &y.id, &e.2), ("name", &y.name, &e.3)] {
        if got != want {
            return Err(format!("MODULE {what} is {got:?} instead of {want:?}"));
        }
    }
    let c: Vec<&String> = y.infos.iter().filter(|i| i.starts_with("CODE_ID")).collect();
    match (&e.4, c.as_slice()) {
        (None, []) => Ok(()),
        (Some(w), [c]) if *c == w => {
            if y.infos[0] != *w {
                return Err("INFO CODE_ID does not follow the MODULE line".into());
            }
            Ok(())
        }
        (w, c) => Err(format!("CODE_ID lines {c:?} instead of {w:?}")),
    }
}

/// A PE belonging to (or, with other options, next to) a PDB module.
pub fn pair_pe(s: &mut Src, m: &Module, o: &PdbOpts, pdb_path: &[u8]) -> (Module, PeOpts) {
    let mut p = m.clone();
    p.kind = Kind::Pe;
    p.base = if m.is64 { 0x1_8000_0000 } else { 0x1000_0000 };
    p.units.clear();
    p.syms.clear();
    let opts = PeOpts {
        machine: o.machine,
        cpu: o.cpu,
        timestamp: s.u(1 << 32) as u32,
        size_of_image: (s.u(1 << 16) as u32) << 12,
        rsds: Some(pe::Rsds { guid: o.guid, age: o.real_age(), path: pdb_path.to_vec() }),
        dll: true,
        pdata: vec![],
        debug: false,
    };
    (p, opts)
}

fn gen_file_name(s: &mut Src, kind: Kind) -> String {
    let stem = match s.u(8) {
        0 => "mod".to_string(),
        1 => "a b".into(),
        2 => "näme".into(),
        3 => "UPPER".into(),
        4 => "x.y.z".into(),
        5 => "日本".into(),
        6 => "d+e=f,(1)".into(),
        _ => crate::names::ident(s),
    };
    let ext = match kind {
        Kind::Elf => *s.pick(&[".so", "", ".so.6", ".dbg", ".debug"]),
        Kind::Mach => *s.pick(&[".dylib", "", ".dSYM"]),
        Kind::Pe => *s.pick(&[".dll", ".exe", ".DLL", ".sys", ""]),
        Kind::Pdb => *s.pick(&[".pdb", ".PDB", ".bin"]),
    };
    format!("{stem}{ext}")
}

fn c05(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = Kind::all(s);
    let m = small(s, kind);
    let mut f = Fmt::gen(s, &m);
    let mut file = gen_file_name(s, kind);
    match &mut f {
        Fmt::Elf(o) => {
            if s.chance(1, 8) {
                o.soname = Some(s.pick(&["libé.so", "/abs/dir/libx.so.2", "a/b/c", "l i b", "a\\b.so", "C:\\x\\y.dll", "d/x:y.so"]).as_bytes().to_vec());
            }
        }
        Fmt::Mach(o) => {
            if s.chance(1, 8) {
                o.install_name = Some(s.pick(&["@executable_path/../Frameworks/XUL", "/System/Lib rary/é", "/x/a\\b"]).as_bytes().to_vec());
            }
        }
        Fmt::Pe(o) => {
            if let Some(r) = &mut o.rsds {
                if s.chance(1, 2) {
                    r.path = s.pick(&["D:\\vpnx dir\\vpnx x.pdb", "vpnx.with.dots.pdb", "C:\\vpnx\\mixed/vpnxm.pdb", "vpnxnoext", "C:\\vpnx\\vpnx:a.pdb"]).as_bytes().to_vec();
                }
            }
        }
        Fmt::Pdb(_) => {}
    }
    let dir = *s.pick(&["", "d/", "d/e.f/g h/"]);
    write(ctx, case, &format!("{dir}{file}"), &f.build(&m));
    let mut e = header(&m, &f, &file);
    let mut arg = format!("{dir}{file}");
    if s.chance(1, 4) {
        arg = format!("./{arg}");
    } else if s.chance(1, 3) {
        arg = ctx.dir.join(&arg).to_str().unwrap().to_string();
    }
    let mut paired = false;
    if let Fmt::Pdb(o) = &f {
        if s.chance(1, 2) && !file.ends_with(".bin") {
            let (pm, po) = pair_pe(s, &m, o, b"vpnx.pdb");
            let stem = file.rsplit_once('.').unwrap().0;
            let pe_name = format!("{stem}.{}", s.pick(&["dll", "exe"]));
            write(ctx, case, &format!("{dir}{pe_name}"), &pe_spec(&pm, &po).build());
            e.4 = Some(format!("CODE_ID {} {pe_name}", pe_code_id(&po)));
            paired = true;
        }
    }
    // several directory levels and the parent directory
    let mut cwd = ctx.dir.clone();
    if s.chance(1, 6) {
        std::fs::create_dir_all(ctx.dir.join("w")).unwrap();
        cwd = ctx.dir.join("w");
        if !arg.starts_with('/') {
            arg = format!("../{arg}");
        }
    }
    case.note(&format!("{} as {arg:?}, expected {e:?}", describe(&m)));
    label_module(&m, case);
    case.label_if(paired, "PDB with PE");
    case.label_if(matches!(&f, Fmt::Elf(o) if o.build_id.is_none()), "ELF without build id");
    case.label_if(matches!(&f, Fmt::Elf(o) if o.build_id.as_ref().is_some_and(|b| b.len() != 20)), "odd build id length");
    case.label_if(matches!(&f, Fmt::Pe(o) if o.rsds.is_none()), "PE without debug directory");
    case.nontrivial = true;
    let inl = s.chance(1, 3);
    let mut c = Cmd::new(ctx).cwd(&cwd).arg(&arg).noise(s);
    if inl {
        c = c.arg("--inlines");
    }
    file.clear();
    let o = c.run();
    if !o.ok() {
        return Err(format!("dump failed: {}", o.describe()));
    }
    check_header(&sym::parse(&o.stdout)?, &e)
}

/// Where --store puts a module (statement of C12, written independently).
pub fn store_path(name: &str, id: &str) -> String {
    let (stem, ext) = match name.rfind('.') {
        Some(i) if i > 0 => (&name[..i], &name[i + 1..]),
        _ => (name, ""),
    };
    let l = ext.to_ascii_lowercase();
    let dir = match l.as_str() {
        "pd_" => format!("{stem}.pdb"),
        "ex_" => format!("{stem}.exe"),
        "dl_" => format!("{stem}.dll"),
        _ => name.to_string(),
    };
    let file = if l == "pdb" { format!("{stem}.sym") } else { format!("{name}.sym") };
    format!("{dir}/{id}/{file}")
}

fn c12(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = Kind::all(s);
    let m = small(s, kind);
    let mut f = Fmt::gen(s, &m);
    let stem = match s.u(6) {
        0 => "mod".to_string(),
        1 => "a b".into(),
        2 => "x.pdb".into(),
        3 => "né.so".into(),
        4 => "lib-x.2".into(),
        _ => crate::names::ident(s),
    };
    let ext = *s.pick(&[
        ".pdb", "", ".PDB", ".pDb", ".pd_", ".PD_", ".Pd_", ".ex_", ".EX_", ".dl_", ".Dl_", ".so", ".exe", ".dll", ".sym", ".pdbx", ".xpdb", ".pd", ".db_", ".pdb.so", ".pd_.1", ".",
    ]);
    let name = format!("{stem}{ext}");
    match &mut f {
        Fmt::Elf(o) => o.soname = if s.chance(1, 2) { Some(name.clone().into_bytes()) } else { None },
        Fmt::Mach(o) => o.install_name = if s.chance(1, 2) { Some(format!("@rpath/{name}").into_bytes()) } else { None },
        Fmt::Pe(o) => o.rsds = if s.chance(1, 2) { Some(pe::Rsds { guid: guid(s), age: 1, path: format!("C:\\vpnx\\{name}").into_bytes() }) } else { None },
        Fmt::Pdb(_) => {}
    }
    let e0 = header(&m, &f, "input");
    let file = if e0.3 == "input" { name.clone() } else { "input".to_string() };
    let e = header(&m, &f, &file);
    write(ctx, case, &format!("in/{file}"), &f.build(&m));
    // a PE whose debug directory names a file present in in/ would look for it: never the case here
    let input = format!("in/{file}");
    let o = Cmd::new(ctx).arg(&input).run();
    if !o.ok() {
        return Err(format!("dump failed: {}", o.describe()));
    }
    let y = sym::parse(&o.stdout)?;
    let want = o.stdout;
    if y.name != name {
        // C05's business
        return Ok(());
    }
    let sp = store_path(&name, &e.2);
    let mut store = *s.pick(&["st", "st/a/b", "./st", "st u/ö", ".", "st/", "st/x/.."]);
    if store == "." && ctx.dir.join(sp.split('/').next().unwrap()).exists() {
        // the input itself is in the way
        store = "st";
    }
    let base = match store {
        "." => "",
        "./st" | "st/" | "st/x/.." => "st/",
        "st/a/b" => "st/a/b/",
        "st u/ö" => "st u/ö/",
        _ => "st/",
    };
    let stored = format!("{base}{sp}");
    // earlier contents
    let mut pre = "nothing";
    match s.u(5) {
        0 | 1 => {}
        2 => {
            write(ctx, case, &stored, &vec![b'x'; want.len() + 1 + s.us(5000)]);
            pre = "longer file";
        }
        3 => {
            write(ctx, case, &stored, b"short");
            pre = "shorter file";
        }
        _ => {
            let other = stored.replace(&e.2, "00000000000000000000000000000000F");
            write(ctx, case, &other, b"another build");
            write(ctx, case, &format!("{base}other.pdb/1/other.sym"), b"another module");
            pre = "other modules";
        }
    }
    let mut outfile = s.pick(&["out.sym", "o dir/out", "out.txt"]).to_string();
    std::fs::create_dir_all(ctx.dir.join("o dir")).unwrap();
    if s.chance(1, 3) {
        write(ctx, case, &outfile, &vec![b'y'; s.us(2 * want.len() + 2)]);
    }
    let mode = s.us(7);
    let abs = s.chance(1, 4);
    let mut args: Vec<String> = vec![];
    let mut expect: BTreeMap<String, Vec<u8>> = tree(&ctx.dir);
    let mut to_stdout = false;
    let st_arg = if abs { ctx.dir.join(store).to_str().unwrap().to_string() } else { store.to_string() };
    let out_arg = if abs { ctx.dir.join(&outfile).to_str().unwrap().to_string() } else { outfile.clone() };
    match mode {
        0 => to_stdout = true,
        1 => {
            args.extend(["-o".into(), "-".into()]);
            to_stdout = true;
        }
        2 => args.extend(["-o".into(), out_arg]),
        3 => args.extend(["--store".into(), st_arg]),
        4 => args.extend(["-o".into(), out_arg, "-s".into(), st_arg]),
        5 => {
            args.extend(["--output".into(), "-".into(), "--store".into(), st_arg]);
            to_stdout = true;
        }
        _ => args.extend(["--store".into(), st_arg, "--verbose".into(), "trace".into()]),
    }
    if matches!(mode, 3..=6) {
        expect.insert(stored.clone(), want.clone());
    }
    if matches!(mode, 2 | 4) {
        expect.insert(std::mem::take(&mut outfile), want.clone());
    }
    case.note(&format!("{} name {name:?} options {args:?} store had {pre}", describe(&m)));
    label_module(&m, case);
    case.label_if(pre == "longer file", "longer file in the store");
    case.nontrivial = mode >= 2;
    let o = Cmd::new(ctx).args(&args).arg(&input).noise(s).run();
    if !o.ok() {
        return Err(format!("{args:?}: {}", o.describe()));
    }
    let ex: &[u8] = if to_stdout { &want } else { b"" };
    if o.stdout != ex {
        return Err(format!("{args:?}: standard output has {} bytes instead of {}: {:?}", o.stdout.len(), ex.len(), String::from_utf8_lossy(&o.stdout[..o.stdout.len().min(200)])));
    }
    let got = tree(&ctx.dir);
    for (k, v) in &expect {
        match got.get(k) {
            None => return Err(format!("{args:?}: {k:?} was not written (files: {:?})", got.keys().collect::<Vec<_>>())),
            Some(g) if g != v => return Err(format!("{args:?}: contents of {k:?} differ from the expected ones ({} and {} bytes)", g.len(), v.len())),
            _ => {}
        }
    }
    match got.keys().find(|k| !expect.contains_key(*k)) {
        Some(k) => Err(format!("{args:?}: unexpected file {k:?}")),
        None => Ok(()),
    }
}

fn refused(o: &Out, what: &str) -> Verdict {
    if o.ok() || o.code.is_none() {
        return Err(format!("{what}: not refused: {}", o.describe()));
    }
    if !o.stdout.is_empty() {
        return Err(format!("{what}: refused, but wrote to standard output"));
    }
    Ok(())
}

fn c16(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let n = s.usr(1, 5);
    let mut cpus: Vec<usize> = (0..macho::CPUS.len()).collect();
    let mut parts = vec![];
    for _ in 0..n {
        let k = cpus.remove(s.us(cpus.len()));
        let c = &macho::CPUS[k];
        let mut m = generate(s, &GenCfg { kind: Kind::Mach, max_funcs: 3, units: 1, plain_class: true, ..Default::default() });
        (m.is64, m.be) = (c.0, c.1);
        if !m.is64 {
            m.base = 0x10000;
        }
        let o = MachOpts::of(s, c);
        parts.push((c.2, c.3, macho::macho_file(&m, &o), c.4));
    }
    let align = *s.pick(&[12u32, 14, 4, 2]);
    let fat = macho::fat_aligned(&parts.iter().map(|p| (p.0, p.1, p.2.clone())).collect::<Vec<_>>(), align);
    let thin_input = n == 1 && s.chance(1, 2);
    let name = s.pick(&["XUL", "lib x.dylib"]).to_string();
    write(ctx, case, &name, if thin_input { &parts[0].2 } else { &fat });
    let names: Vec<&str> = parts.iter().map(|p| p.3).collect();
    case.note(&format!("{} with {names:?}, alignment 2^{align}", if thin_input { "thin file" } else { "fat file" }));
    case.nontrivial = n > 1;
    case.label(if thin_input { "thin" } else if n == 1 { "one member" } else { "several members" });
    // what each thin file dumps
    let inl = s.chance(1, 2);
    let run = |args: &[&str], file: &str| -> Out {
        let mut c = Cmd::new(ctx).args(args);
        if inl {
            c = c.arg("--inlines");
        }
        c.arg(file).run()
    };
    let mut thin = vec![];
    for (i, p) in parts.iter().enumerate() {
        write(ctx, case, &format!("t{i}/{name}"), &p.2);
        let o = run(&["--arch", p.3], &format!("t{i}/{name}"));
        if !o.ok() {
            return Err(format!("thin {} file: {}", p.3, o.describe()));
        }
        let y = sym::parse(&o.stdout)?;
        if y.cpu != p.3 {
            return Err(format!("thin {} file dumped as {}", p.3, y.cpu));
        }
        thin.push(o.stdout);
    }
    // some requests
    for _ in 0..2 {
        let other: Vec<&str> = macho::CPUS.iter().map(|c| c.4).filter(|c| !names.contains(c)).collect();
        let (arch, what) = match s.u(5) {
            0 | 1 => (Some(*s.pick(&names)), "present"),
            2 if !other.is_empty() => (Some(*s.pick(&other)), "absent"),
            3 => (Some(*s.pick(&["foo", "", "x86_65", "arm 64"])), "unknown"),
            _ => (None, "default"),
        };
        let args: Vec<&str> = match arch {
            Some(a) => vec![if s.chance(1, 2) { "-a" } else { "--arch" }, a],
            None => vec![],
        };
        if what == "unknown" && s.chance(1, 3) {
            // among several files
            let o = Cmd::new(ctx).args(&args).arg(&name).arg(format!("t0/{name}")).arg("--store").arg("st").run();
            refused(&o, &format!("{args:?} with several files"))?;
            if ctx.dir.join("st").exists() {
                return Err(format!("{args:?} with several files: refused, but something was stored"));
            }
        }
        let o = run(&args, &name);
        let eff = arch.unwrap_or("x86_64");
        if what == "unknown" {
            case.label("unknown architecture");
            refused(&o, &format!("--arch {eff:?}"))?;
            continue;
        }
        let want = if n == 1 { Some(0) } else { names.iter().position(|x| *x == eff) };
        match want {
            Some(i) => {
                if !o.ok() {
                    return Err(format!("{args:?}: {}", o.describe()));
                }
                if o.stdout != thin[i] {
                    return Err(format!("{args:?}: output is not the dump of the {} member", names[i]));
                }
            }
            None => {
                case.label("absent architecture");
                refused(&o, &format!("{args:?} with {names:?}"))?
            }
        }
    }
    // listing
    let mut c = Cmd::new(ctx).arg("--list-arch");
    if s.chance(1, 3) {
        c = c.args(["-o", "lst"]);
    }
    let mut want: Vec<(String, Vec<&str>)> = vec![];
    let files = if s.chance(1, 6) { *s.pick(&[8, 12, 20]) } else { 1 + s.us(3) };
    for _ in 0..files {
        let k = s.us(parts.len() + 1);
        if k == 0 {
            c = c.arg(&name);
            want.push((name.clone(), names.clone()));
        } else {
            c = c.arg(format!("t{}/{name}", k - 1));
            want.push((name.clone(), vec![names[k - 1]]));
        }
    }
    let o = c.run();
    if !o.ok() {
        return Err(format!("--list-arch: {}", o.describe()));
    }
    if ctx.dir.join("lst").exists() {
        return Err("--list-arch wrote an output file".into());
    }
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    let l: Vec<&str> = t.lines().collect();
    if l.len() != 2 * want.len() {
        return Err(format!("--list-arch printed {} lines for {} files: {t:?}", l.len(), want.len()));
    }
    for (c, (n, a)) in l.chunks(2).zip(&want) {
        if !c[0].contains(n.as_str()) || c[1].split(", ").collect::<Vec<_>>() != *a {
            return Err(format!("--list-arch printed {c:?} for {n:?} with {a:?}"));
        }
    }
    Ok(())
}

fn c22(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = *s.pick(&[Kind::Mach, Kind::Mach, Kind::Mach, Kind::Elf]);
    let m = small(s, kind);
    let f = Fmt::gen(s, &m);
    let mut data = f.build(&m);
    let mut arch = None;
    if let Fmt::Mach(o) = &f {
        if s.chance(1, 3) {
            // a fat member
            let c = macho::CPUS.iter().find(|c| c.4 != o.cpu).unwrap();
            let mut m2 = generate(s, &GenCfg { kind: Kind::Mach, max_funcs: 2, units: 1, plain_class: true, ..Default::default() });
            (m2.is64, m2.be) = (c.0, c.1);
            let o2 = MachOpts::of(s, c);
            data = macho::fat(&[(o.cputype, o.cpusubtype, data), (c.2, c.3, macho::macho_file(&m2, &o2))]);
            arch = Some(if s.chance(1, 2) { o.cpu } else { c.4 });
            case.label("fat member");
        }
    }
    let bundle = s.pick(&["XUL.dSYM", "lib a.dylib.dSYM", "plugin.bundle", "né"]).to_string();
    let inner = s.pick(&["XUL", "other name", "x.dylib", ".hidden", "x.pdb"]).to_string();
    let dw = format!("{bundle}/Contents/Resources/DWARF");
    let shape = s.us(8);
    let mut good = false;
    let mut what = "one file";
    match shape {
        0..=3 => {
            if s.chance(1, 6) {
                // links to the file or to the bundle
                case.label("symbolic link");
                if s.chance(1, 2) {
                    write(ctx, case, "away/x", &data);
                    std::fs::create_dir_all(ctx.dir.join(&dw)).unwrap();
                    std::os::unix::fs::symlink("../../../../away/x", ctx.dir.join(&dw).join(&inner)).unwrap();
                } else {
                    write(ctx, case, &format!("away/y/Contents/Resources/DWARF/{inner}"), &data);
                    std::os::unix::fs::symlink("away/y", ctx.dir.join(&bundle)).unwrap();
                }
            } else {
                write(ctx, case, &format!("{dw}/{inner}"), &data);
            }
            good = true;
        }
        4 => {
            std::fs::create_dir_all(ctx.dir.join(&dw)).unwrap();
            what = "empty";
        }
        5 => {
            write(ctx, case, &format!("{dw}/{inner}"), &data);
            write(ctx, case, &format!("{dw}/second"), &data);
            what = "two files";
        }
        6 => {
            // a directory which is no bundle
            write(ctx, case, &format!("{bundle}/{}", s.pick(&["file", "Contents/DWARF/XUL", "Contents/Resources/XUL", "DWARF/XUL"])), &data);
            what = "no bundle";
        }
        _ => {
            // a directory in place of the file
            write(ctx, case, &format!("{dw}/{inner}/XUL"), &data);
            what = "nested directory";
        }
    }
    if s.chance(1, 2) && what != "no bundle" {
        write(ctx, case, &format!("{bundle}/Contents/Info.plist"), b"<plist/>");
        write(ctx, case, &format!("{bundle}/Contents/Resources/Relocations/x.yml"), b"---");
    }
    write(ctx, case, &format!("direct/{bundle}"), &data);
    let mut arg = bundle.clone();
    match s.u(4) {
        0 | 1 => {}
        2 => arg += "/",
        _ => arg = ctx.dir.join(&arg).to_str().unwrap().to_string(),
    }
    let mut opts: Vec<String> = vec![];
    if s.chance(1, 2) {
        opts.push("--inlines".into());
    }
    if let Some(a) = arch {
        opts.extend(["--arch".into(), a.into()]);
    }
    case.note(&format!("{what}: {arg:?} member {inner:?} options {opts:?} {}", describe(&m)));
    case.label(what);
    case.nontrivial = true;
    let st = s.chance(1, 2);
    let mut c = Cmd::new(ctx).args(&opts);
    if st {
        c = c.args(["-o", "out.sym"]);
    }
    let mut o = c.arg(&arg).run();
    let out_exists = ctx.dir.join("out.sym").exists();
    if !good {
        if out_exists {
            return Err(format!("{what}: refused input left an output file"));
        }
        return refused(&o, what);
    }
    if !o.ok() {
        return Err(format!("bundle: {}", o.describe()));
    }
    if st {
        o.stdout = std::fs::read(ctx.dir.join("out.sym")).unwrap_or_default();
    }
    let d = Cmd::new(ctx).args(&opts).arg(format!("direct/{bundle}")).run();
    if !d.ok() {
        return Err(format!("direct run: {}", d.describe()));
    }
    sym::parse(&d.stdout)?;
    if o.stdout != d.stdout {
        return Err("the dump of the bundle differs from the dump of the file in it".into());
    }
    if s.chance(1, 3) {
        // together with another module
        let m2 = generate(s, &GenCfg { kind: Kind::Mach, max_funcs: 2, units: 1, plain_class: true, ..Default::default() });
        let c = macho::CPUS.iter().find(|c| c.0 == m2.is64 && c.1 == m2.be).unwrap();
        let mut o2 = MachOpts::of(s, c);
        let id = guid(s);
        o2.uuid = Some(id);
        o2.install_name = None;
        if matches!(&f, Fmt::Mach(o) if o.uuid == Some(id)) {
            return Ok(());
        }
        case.label("with another input");
        let second = "Second.dSYM";
        let d2 = macho::macho_file(&m2, &o2);
        let other = if s.chance(1, 2) { format!("{second}/Contents/Resources/DWARF/x") } else { second.to_string() };
        write(ctx, case, &other, &d2);
        let run = |st: &str, files: &[&str]| Cmd::new(ctx).args(&opts).args(["--store", st]).args(files).run();
        let direct = format!("direct/{bundle}");
        let both = if s.chance(1, 2) { [arg.as_str(), second] } else { [second, arg.as_str()] };
        for (st, files) in [("s1", &both[..]), ("s2", &[direct.as_str()][..]), ("s2", &[second][..])] {
            let o = run(st, files);
            if !o.ok() {
                return Err(format!("dump of {files:?} failed: {}", o.describe()));
            }
        }
        if tree(&ctx.dir.join("s1")) != tree(&ctx.dir.join("s2")) {
            return Err("a bundle dumped along with another module is stored differently".into());
        }
    }
    Ok(())
}

fn c23(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = Kind::all(s);
    let m = small(s, kind);
    let f = Fmt::gen(s, &m);
    write(ctx, case, f.name(), &f.build(&m));
    let mut vals: Vec<String> = vec![];
    let mut valid = true;
    for _ in 0..s.count(0, 4) {
        let kw = *s.pick(&["RELEASECHANNEL", "VENDOR", "A", "_", "__X_Y", "BUILD_ID", "GENERATOR", "CODE_ID"]);
        let text = match s.u(8) {
            0 => "nightly".to_string(),
            1 => "a b  c".into(),
            2 => " leading".into(),
            3 => "ünï日".into(),
            4 => (*s.pick(&["CODE_ID 123 x", "GENERATOR x", "mozilla/dump_syms 2"])).into(),
            5 => "{}%s\\n\"'".into(),
            6 => "trailing ".into(),
            _ => crate::names::ident(s),
        };
        let v = match s.u(8) {
            0 if s.chance(1, 2) => {
                valid = false;
                s.pick(&["lower case", "Mixed x", "NOBLANK", "", " X y", "A1 x", "A-B x", "É x", "aAB x", "1A x", "\tA x", "A\tx", "A\u{a0}x", "A_: x"]).to_string()
            }
            1 if s.chance(1, 4) => {
                valid = false;
                format!("{kw} {text}\n{}", s.pick(&["FUNC 1000 1 0 x", "", "INFO X y"]))
            }
            _ => format!("{kw} {text}"),
        };
        vals.push(v);
    }
    let nogen = s.chance(1, 2);
    let mut opts: Vec<String> = vals.iter().flat_map(|v| ["--extra-info".to_string(), v.clone()]).collect();
    if nogen {
        opts.insert(if s.chance(1, 2) { 0 } else { opts.len() }, "--no-generator".into());
    }
    let mut others: Vec<&str> = vec![];
    if s.chance(1, 3) {
        others.push("--inlines");
    }
    if s.chance(1, 4) {
        others.extend(["--verbose", "info"]);
    }
    if s.chance(1, 4) {
        others.extend(["-j", "3", "-t", "x"]);
    }
    case.note(&format!("{} options {opts:?} {others:?}", describe(&m)));
    case.label_if(!valid, "invalid value");
    case.label_if(nogen, "--no-generator");
    case.nontrivial = !vals.is_empty();
    let r = Cmd::new(ctx).args(&others).arg(f.name()).run();
    if !r.ok() {
        return Err(format!("plain run: {}", r.describe()));
    }
    let several = s.chance(1, 4);
    if several {
        // the same module twice, through the multi-file path
        others.push(f.name());
    }
    let o = Cmd::new(ctx).args(&opts).args(&others).args(["-o", "out.sym"]).arg(f.name()).run();
    if !valid {
        if ctx.dir.join("out.sym").exists() {
            return Err("an invalid --extra-info value did not prevent output".into());
        }
        return refused(&o, "invalid --extra-info");
    }
    if !o.ok() {
        return Err(format!("run with options: {}", o.describe()));
    }
    let got = std::fs::read(ctx.dir.join("out.sym")).unwrap_or_default();
    let v = Cmd::new(ctx).arg("--version").run();
    let version = String::from_utf8_lossy(&v.stdout).trim().rsplit(' ').next().unwrap_or("").to_string();
    let split = |d: &[u8]| -> (Vec<String>, Vec<String>) {
        let t = String::from_utf8_lossy(d).into_owned();
        let (i, o): (Vec<String>, Vec<String>) = t.split_inclusive('\n').map(|x| x.to_string()).partition(|l| l.starts_with("INFO "));
        (i, o)
    };
    let (ri, rr) = split(&r.stdout);
    let (gi, gr) = split(&got);
    let mut want: Vec<String> = ri.iter().filter(|l| l.starts_with("INFO CODE_ID")).cloned().collect();
    let generator = format!("INFO GENERATOR mozilla/dump_syms {version}\n");
    let mut plain = want.clone();
    plain.push(generator.clone());
    if ri != plain {
        return Err(format!("INFO lines without options: {ri:?} instead of {plain:?}"));
    }
    want.extend(vals.iter().map(|v| format!("INFO {v}\n")));
    if !nogen {
        want.push(generator);
    }
    if gi != want {
        return Err(format!("INFO lines {gi:?} instead of {want:?}"));
    }
    let all = String::from_utf8_lossy(&got).into_owned();
    if !all.split_inclusive('\n').skip(1).take(want.len()).eq(want.iter().map(|s| s.as_str())) {
        return Err("INFO lines do not directly follow the MODULE line".into());
    }
    if !several && gr != rr {
        return Err("the options changed something besides the INFO lines".into());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C05", quick: 6000, thorough: 200_000,
            rule: "random modules of all formats with random identifiers (build ids of 1-40 bytes or none, UUIDs, GUIDs, ages), embedded names, input names and ways of naming the input; non-trivial: all",
            assumptions: &["PDB age 0 in the DBI header means the age of the PDB header"], run: c05, expect: &[("PDB with PE", 100), ("ELF without build id", 50)], workers: 0 },
        Prop { id: "C12", quick: 5000, thorough: 150_000,
            rule: "random modules with random module names (extensions in all letter cases), output option combinations and earlier store contents; the whole scratch tree is compared; non-trivial: output to a file",
            assumptions: &[], run: c12, expect: &[("longer file in the store", 50)], workers: 0 },
        Prop { id: "C16", quick: 2500, thorough: 60_000,
            rule: "random sets and orders of architectures in one file, dumped with present, absent, unknown and default --arch and listed; non-trivial: several members",
            assumptions: &["the default architecture is that of the host, x86_64"], run: c16, expect: &[], workers: 0 },
        Prop { id: "C22", quick: 5000, thorough: 100_000,
            rule: "random bundle shapes (one, no, several DWARF files, directories, no bundle) around random Mach-O files; non-trivial: all",
            assumptions: &[], run: c22, expect: &[], workers: 0 },
        Prop { id: "C23", quick: 5000, thorough: 100_000,
            rule: "random --extra-info values, valid and invalid, with and without --no-generator and other options over all formats; non-trivial: at least one value",
            assumptions: &[], run: c23, expect: &[("invalid value", 50)], workers: 0 },
    ]
}
