//! C01-C04: functions, lines, inlined calls and publics in all formats.
use crate::engine::*;
use crate::fmt::*;
use crate::model::*;
use crate::run::Cmd;
use super::ident::tree;
use crate::sym;

pub fn dump(s: &mut Src, ctx: &Ctx, file: &str, args: &[&str]) -> Result<sym::Sym, String> {
    let mut c = Cmd::new(ctx).arg(file).args(args).noise(s);
    // to standard output, a file, a store or both
    let mode = if s.chance(1, 4) { 1 + s.u(3) } else { 0 };
    if mode & 1 > 0 {
        c = c.args(["-o", ".outfile.sym"]);
    }
    if mode & 2 > 0 {
        c = c.args(["--store", ".outstore"]);
    }
    let o = c.run();
    if !o.ok() {
        return Err(format!("dumping {file} with {:?} failed: {}", c.args, o.describe()));
    }
    let r = match mode {
        0 => sym::parse(&o.stdout),
        2 => {
            let t = tree(&ctx.dir.join(".outstore"));
            match t.len() {
                1 => sym::parse(t.values().next().unwrap()),
                n => Err(format!("{n} files in the store")),
            }
        }
        _ => sym::parse(&std::fs::read(ctx.dir.join(".outfile.sym")).unwrap_or_default()),
    };
    let _ = std::fs::remove_dir_all(ctx.dir.join(".outstore"));
    let _ = std::fs::remove_file(ctx.dir.join(".outfile.sym"));
    r.map_err(|e| if c.args.len() > 1 { format!("{e} (with {:?})", &c.args) } else { e })
}

pub fn describe(m: &Module) -> String {
    let mut s = format!("{:?} {}-bit {} base {:x};", m.kind, if m.is64 { 64 } else { 32 }, if m.be { "BE" } else { "LE" }, m.base);
    for u in &m.units {
        s += &format!(" unit v{} {:?} {} files:", u.version, u.lang, u.files.len());
        for f in &u.subs {
            s += &format!(
                " [{} {:x?} {} inlined calls]",
                f.name.linkage.as_ref().map(|n| n.full()).or(f.name.dw.clone()).unwrap_or_default(),
                f.ranges,
                f.inl.len()
            );
        }
        s += &format!(" rows {}", u.seqs.iter().map(|q| q.0.len()).sum::<usize>());
    }
    s += &format!(" symbols {}", m.syms.len());
    s
}

pub fn label_module(m: &Module, case: &mut Case) {
    case.label(match m.kind {
        Kind::Elf => "ELF",
        Kind::Mach => "Mach-O",
        Kind::Pe => "PE",
        Kind::Pdb => "PDB",
    });
    case.label_if(m.units.len() > 1, "several units");
    case.label_if(m.units.iter().any(|u| u.subs.iter().any(|f| f.ranges.len() > 1)), "split function");
    case.label_if(m.expected_funcs().values().any(|e| e.multiple == Some(true)), "shared start address");
    case.label_if(m.units.iter().any(|u| u.subs.iter().any(|f| f.inl.iter().any(|i| !i.kids.is_empty()))), "nested inlining");
    case.label_if(m.units.iter().any(|u| u.subs.iter().any(|f| !f.inl.is_empty())), "inlining");
    case.label_if(m.units.iter().any(|u| u.seqs.iter().any(|q| q.0.iter().any(|r| r.line == 0))), "line 0");
    case.label_if(!m.syms.is_empty(), "symbols");
    case.label_if(m.be, "big endian");
    case.label_if(!m.is64, "32-bit");
    case.label_if(m.units.iter().any(|u| u.files.len() > 255), "over 255 files in a unit");
    case.label_if(m.units.iter().any(|u| u.subs.iter().any(|f| f.ranges.iter().any(|r| r.1 > 0xffff))), "function over 64 KiB");
    case.label_if(m.units.iter().map(|u| u.subs.len()).sum::<usize>() > 100, "over 100 functions");
}

/// Generates a module, writes it under its usual name, returns it with its format.
pub fn put(s: &mut Src, ctx: &Ctx, case: &mut Case, cfg: &GenCfg) -> (Module, Fmt) {
    let m = generate(s, cfg);
    let f = Fmt::gen(s, &m);
    let data = f.build(&m);
    std::fs::write(ctx.dir.join(f.name()), &data).unwrap();
    case.artifact(f.name(), &data);
    case.note(&describe(&m));
    label_module(&m, case);
    (m, f)
}

/// The input to name on the command line: a PDB is also found through its PE.
pub fn input_of(s: &mut Src, ctx: &Ctx, case: &mut Case, m: &Module, f: &Fmt, file: &str) -> String {
    let Fmt::Pdb(o) = f else { return file.to_string() };
    if !s.chance(1, 5) {
        return file.to_string();
    }
    let (dir, base) = file.rsplit_once('/').map_or(("", file), |(d, b)| (d, b));
    let path = format!("{}{base}", s.pick(&["C:\\vpnx\\", "", "/vpnx/"]));
    let (pm, po) = super::ident::pair_pe(s, m, o, path.as_bytes());
    let pe = format!("{dir}{}{}", if dir.is_empty() { "" } else { "/" }, s.pick(&["app.exe", "the app.dll", "mod.dll", "plugin"]));
    let data = pe_spec(&pm, &po).build();
    std::fs::write(ctx.dir.join(&pe), &data).unwrap();
    case.artifact(&pe, &data);
    case.label("PDB found through its PE");
    case.note(&format!("given as {pe:?}"));
    pe
}

fn kind(s: &mut Src) -> Kind {
    *s.pick(&[Kind::Elf, Kind::Elf, Kind::Pdb, Kind::Mach, Kind::Pe, Kind::Pdb])
}

fn c01(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = kind(s);
    let far = s.chance(1, 50);
    let cfg = GenCfg { kind, max_funcs: 14, partial: kind != Kind::Pdb, far, ..Default::default() };
    let (m, f) = put(s, ctx, case, &cfg);
    case.nontrivial = m.expected_funcs().len() >= 2;
    let args: &[&str] = if s.chance(1, 2) { &["--inlines"] } else { &[] };
    let file = input_of(s, ctx, case, &m, &f, f.name());
    let y = dump(s, ctx, &file, args)?;
    let r = check_funcs(&m, &y);
    if far && r.is_err() {
        // known: addresses are cut to 32 bits. Anything else wrong with the file still counts.
        let exp = m.expected_funcs();
        let mut z = y.clone();
        for a in z.funcs.iter_mut().map(|f| &mut f.addr).chain(z.publics.iter_mut().map(|p| &mut p.addr)) {
            if !exp.contains_key(a) && exp.contains_key(&(*a + (1 << 32))) {
                *a += 1 << 32;
            }
        }
        z.funcs.sort_by_key(|f| f.addr);
        z.publics.retain(|p| p.addr < 1 << 32);
        if exp.keys().any(|a| *a >= 1 << 32) && check_funcs(&m, &z).is_ok() {
            return r.map_err(|e| format!("known(32-bit-rva): {e}"));
        }
    }
    r
}

fn lines_cfg(kind: Kind) -> GenCfg {
    // a function sharing its start with another one has no line table of its own in a PDB
    GenCfg { kind, dup: kind != Kind::Pdb, partial: kind != Kind::Pdb, ..Default::default() }
}

fn c02(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = kind(s);
    let (m, f) = put(s, ctx, case, &GenCfg { names: false, ..lines_cfg(kind) });
    case.nontrivial = m.units.iter().map(|u| u.seqs.iter().map(|q| q.0.len()).sum::<usize>()).sum::<usize>() >= 3;
    let file = input_of(s, ctx, case, &m, &f, f.name());
    let y = dump(s, ctx, &file, &[])?;
    check_lines(&m, &y, false)?;
    let y = dump(s, ctx, &file, &["--inlines"])?;
    // a PE alone is always dumped without inlines
    check_lines(&m, &y, kind != Kind::Pe)
}
fn c03(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = *s.pick(&[Kind::Elf, Kind::Elf, Kind::Pdb, Kind::Mach]);
    let (m, f) = put(s, ctx, case, &GenCfg { symtab: false, ..lines_cfg(kind) });
    case.nontrivial = m.units.iter().any(|u| u.subs.iter().any(|f| f.inl.iter().any(|i| !i.kids.is_empty())));
    let file = input_of(s, ctx, case, &m, &f, f.name());
    let y = dump(s, ctx, &file, &["--inlines"])?;
    check_inlines(&m, &y)?;
    // one origin per inlined function
    for t in y.origins.iter().collect::<std::collections::BTreeSet<_>>() {
        let same: std::collections::BTreeSet<String> = m
            .units
            .iter()
            .flat_map(|u| u.abs.iter().filter(|a| a.shown(u.lang) == *t).map(move |a| format!("{:?} {:?} {:?} {:?}", u.dwlang, a.linkage, a.dw, a.args)))
            .collect();
        let got = y.origins.iter().filter(|o| *o == t).count();
        if got > same.len() {
            return Err(format!("{got} INLINE_ORIGIN records {t:?} for {} inlined function(s) of that name", same.len()));
        }
    }
    let y = dump(s, ctx, &file, &[])?;
    if !y.origins.is_empty() || y.funcs.iter().any(|f| !f.inlines.is_empty()) {
        return Err("INLINE or INLINE_ORIGIN records without --inlines".into());
    }
    if s.chance(1, 8) {
        // copies of the module
        let n = s.usr(2, 6);
        let copies: Vec<&str> = (0..n).map(|_| file.as_str()).collect();
        let o = Cmd::new(ctx).args(&copies).run();
        if !o.ok() {
            return Err(format!("dumping {n} copies: {}", o.describe()));
        }
        let y = sym::parse(&o.stdout)?;
        if !y.origins.is_empty() || y.funcs.iter().any(|f| !f.inlines.is_empty()) {
            return Err(format!("INLINE or INLINE_ORIGIN records without --inlines from {n} copies"));
        }
        let o = Cmd::new(ctx).args(&copies).arg("--inlines").run();
        if !o.ok() {
            return Err(format!("dumping {n} copies: {}", o.describe()));
        }
        check_inlines(&m, &sym::parse(&o.stdout)?).map_err(|e| format!("{n} copies: {e}"))?;
    }
    Ok(())
}

pub fn check_publics(y: &sym::Sym, exp: &ExpPublics) -> Result<(), String> {
    for p in &y.publics {
        if exp.may.contains(&p.addr) {
            continue;
        }
        let Some((name, mult, param)) = exp.must.get(&p.addr) else {
            return Err(format!("PUBLIC {:x} {:?} should not be there", p.addr, p.name));
        };
        if *name != p.name {
            return Err(format!("PUBLIC {:x}: name {:?} instead of {name:?}", p.addr, p.name));
        }
        if *mult != p.multiple {
            return Err(format!("PUBLIC {:x} {:?}: multiple flag is {} instead of {mult}", p.addr, p.name, p.multiple));
        }
        if *param != p.param {
            return Err(format!("PUBLIC {:x} {:?}: parameter size is {:x} instead of {param:x}", p.addr, p.name, p.param));
        }
    }
    for (a, (n, ..)) in &exp.must {
        if !exp.may.contains(a) && !y.publics.iter().any(|p| p.addr == *a) {
            return Err(format!("no PUBLIC at {a:x} for {n:?}"));
        }
    }
    Ok(())
}

fn c04(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = kind(s);
    let max_funcs = *s.pick(&[5, 2, 1]);
    let mut m = generate(
        s,
        &GenCfg { kind, symtab: false, inlines: false, max_funcs, dup: false, partial: kind != Kind::Pdb, ..Default::default() },
    );
    m.syms = gen_syms(s, &m, 16, true);
    if s.chance(1, 4) && !m.syms.is_empty() {
        let k = s.us(m.syms.len());
        let mut n = crate::names::Nm::plain(s.pick(&["??_C@_05abc@x", "__real@3f800000", "__xmm@00", "__ymm@11", "__realx", "?_C"]));
        if kind.win() && n.raw == "__realx" {
            n.shown = "_realx".into();
        }
        m.syms[k].name = n;
    }
    if s.chance(1, 8) && kind != Kind::Pe && !m.syms.is_empty() {
        let k = s.us(m.syms.len());
        let raw = if kind == Kind::Elf && s.chance(1, 2) { crate::elf::BAD_NAME } else { "" };
        m.syms[k].name = crate::names::Nm { shown: "<name omitted>".into(), ..crate::names::Nm::plain(raw) };
        case.label("symbol without name");
    }
    if s.chance(1, 8) && kind == Kind::Elf {
        // an empty section
        let k = s.us(m.sections.len());
        let at = m.sections[k].rva + *s.pick(&[0, 1, m.sections[k].size, m.sections[k].size + 0x100, m.sections[k].size / 2]);
        m.sections.push(crate::model::Section { name: ".empty".into(), rva: at, size: 0 });
        case.label("empty section");
    }
    let f = Fmt::gen(s, &m);
    let data = f.build(&m);
    let name = match kind {
        Kind::Pe => s.pick(&["mod.dll", "prog.exe", "a b.dll"]).to_string(),
        Kind::Pdb => s.pick(&["mod.pdb", "x y.pdb"]).to_string(),
        _ => s.pick(&["mod.so", "prog", "a b.so"]).to_string(),
    };
    std::fs::write(ctx.dir.join(&name), &data).unwrap();
    case.artifact(&name, &data);
    case.note(&describe(&m));
    label_module(&m, case);
    case.note(&format!("{:?}", m.syms.iter().map(|s| (s.rva, s.size, s.name.full(), s.func, s.dynamic)).collect::<Vec<_>>()));
    let e = expected_publics(&m, &f, &name);
    case.nontrivial = e.must.len() >= 2;
    case.label_if(!e.may.is_empty(), "undecided overlap");
    case.label_if(e.must.values().any(|x| x.1), "multiple");
    let file = input_of(s, ctx, case, &m, &f, &name);
    let y = dump(s, ctx, &file, &[])?;
    check_publics(&y, &e)
}

const WRITERS: &str = "the harness's ELF, Mach-O, PE, PDB and DWARF writers produce what they are told to (cross-checked with readelf, llvm-dwarfdump and llvm-pdbutil)";

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", quick: 8000, thorough: 400_000,
            rule: "a random program model (sections, units, functions with one or more ranges, shared starts, symbols, names of all manglings) written as ELF, Mach-O, PE+DWARF or PDB in all classes and endiannesses; non-trivial: at least two distinct function start addresses",
            assumptions: &[WRITERS], run: c01, expect: &[("shared start address", 50)], workers: 0 },
        Prop { id: "C02", quick: 8000, thorough: 300_000,
            rule: "as C01 with random line tables (line 0, repeated, partial, one or several sequences) and inline trees, each dumped with and without --inlines and compared at every address where a position changes and its neighbours; non-trivial: at least three line rows",
            assumptions: &[WRITERS, "every line sequence of a function starts at the function's start (symbolic finds it by that address)"], run: c02, expect: &[], workers: 0 },
        Prop { id: "C03", quick: 8000, thorough: 300_000,
            rule: "as C02, comparing the stack of INLINE records; non-trivial: some inlined call contains another one",
            assumptions: &[WRITERS], run: c03, expect: &[], workers: 0 },
        Prop { id: "C04", quick: 10000, thorough: 400_000,
            rule: "a random module with up to 16 symbols at, inside, right before and right after functions and each other, in .symtab/.dynsym, nlist, PE exports or PDB publics; non-trivial: at least two PUBLIC records expected",
            assumptions: &[WRITERS, "symbols overlapping the extent of a symbol that is itself dropped are not judged"], run: c04, expect: &[], workers: 0 },
    ]
}
