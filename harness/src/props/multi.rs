//! C10, C11, C21, C24: several files, schedules, repeatability and failing outputs.
use super::core::{describe, label_module};
use super::ident::{store_path, tree, write};
use super::stack::add_cfi;
use crate::cfi::parse_stack;
use crate::engine::*;
use crate::fmt::*;
use crate::model::*;
use crate::run::{Cmd, Out};
use crate::sym::{self, Func, Sym};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone)]
pub struct Part {
    pub file: String,
    pub data: Vec<u8>,
    pub stripped: bool,
    pub soname: bool,
    /// a PE whose functions are placeholders
    pub pe: bool,
    /// extents of the symbols with a size
    pub sized: Vec<(u64, u64)>,
    /// what a PDB was made with
    pub pdb: Option<crate::fmt::PdbOpts>,
}

pub fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - s.us(i + 1);
        v.swap(i, j);
    }
}

/// One module's information spread over `n` files.
pub fn split(s: &mut Src, m: &Module, tag: &str, n: usize, cfi: bool) -> Vec<Part> {
    let mut f = Fmt::gen(s, m);
    // different modules must have different identifiers
    let salt = (hash_bytes(tag.as_bytes()) as u32).to_le_bytes();
    if let Fmt::Elf(o) = &mut f {
        if o.build_id.is_none() {
            o.build_id = Some(s.bytes(20));
        }
        if let Some(b) = &mut o.build_id {
            b.resize(20, 0);
            b[..4].copy_from_slice(&salt);
        }
        o.soname = None;
        o.data_sec = false;
    }
    if let Fmt::Mach(o) = &mut f {
        if o.uuid.is_none() {
            o.uuid = Some(guid(s));
        }
        o.uuid.as_mut().unwrap()[..4].copy_from_slice(&salt);
        o.install_name = None;
    }
    if let Fmt::Pdb(o) = &mut f {
        o.guid[..4].copy_from_slice(&salt);
    }
    if let Fmt::Pe(o) = &mut f {
        let path = format!("C:\\vpnx\\vpnx_{tag}.pdb").into_bytes();
        let mut g = guid(s);
        g[..4].copy_from_slice(&salt);
        o.rsds = Some(crate::pe::Rsds { guid: g, age: 1, path });
    }
    let mut parts = vec![];
    for i in 0..n {
        let mut pm = m.clone();
        let mut pf = f.clone();
        let stripped = m.kind != Kind::Pdb && s.chance(1, 3);
        if stripped {
            pm.units.clear();
        } else if n > 1 {
            pm.units.retain(|_| s.chance(2, 3));
        }
        let stripped = stripped || (pm.units.is_empty() && m.kind != Kind::Pdb);
        let keep = s.u(4);
        pm.syms.retain(|_| keep != 0 && (keep == 1 || s.chance(1, 2)));
        if m.kind == Kind::Elf && s.chance(1, 2) {
            // no "undecided" overlaps with sized symbols
            pm.syms.iter_mut().for_each(|x| x.size = 0);
        }
        let mut soname = false;
        let mut cfi_here = cfi && s.chance(1, 2);
        match &mut pf {
            Fmt::Elf(o) => {
                o.debug = !stripped;
                if !stripped && s.chance(1, 3) {
                    o.nobits = true;
                }
                if s.chance(1, 4) {
                    o.soname = Some(format!("lib{tag}{i}.so").into_bytes());
                    soname = true;
                }
            }
            Fmt::Mach(o) => {
                o.debug = !stripped;
                if s.chance(1, 4) {
                    o.install_name = Some(format!("/usr/lib/lib{tag}{i}.dylib").into_bytes());
                    soname = true;
                }
            }
            Fmt::Pe(o) => {
                o.debug = !stripped;
                cfi_here = false;
            }
            Fmt::Pdb(_) => cfi_here = false,
        }
        if cfi_here {
            let most = *s.pick(&[5, 1]);
            add_cfi(s, &pm, &mut pf, most);
        }
        let ext = f.name().strip_prefix("mod").unwrap();
        let sized = if m.kind == Kind::Elf { pm.syms.iter().filter(|x| x.func && x.size > 0).map(|x| (x.rva, x.size)).collect() } else { vec![] };
        let pre = if s.chance(1, 4) { *s.pick(&["Lib", "A B.", "ÄÖ", "UP.D-"]) } else { "" };
        parts.push(Part { file: format!("{pre}{tag}{i}{ext}"), data: pf.build(&pm), stripped, soname, pe: false, sized, pdb: if let Fmt::Pdb(o) = &f { Some(o.clone()) } else { None } });
    }
    // a PDB's PE, in a place where it is not looked for
    if let (Fmt::Pdb(po), true) = (&f, n > 1 && s.chance(1, 2)) {
        let (mut pm, mut peo) = super::ident::pair_pe(s, m, po, format!("C:\\vpnx\\vpnx_{tag}.pdb").as_bytes());
        let mut names = BTreeSet::new();
        pm.syms = m.syms.iter().filter(|x| x.func && names.insert(x.name.full())).cloned().collect();
        pm.syms.retain(|_| s.chance(1, 2));
        if peo.machine == 0x8664 && s.chance(3, 4) {
            let many = s.chance(1, 3);
            let few = !many && s.chance(1, 2);
            if !few {
                peo.pdata = super::stack::pdata(s, m, if many { 40 } else { 6 }).0;
            }
            // placeholders where the PDB has but a PUBLIC
            for x in m.syms.iter().filter(|x| x.func) {
                if s.chance(1 + few as u64, 3) {
                    peo.pdata.push((x.rva as u32, (x.rva + 1 + s.u(16)) as u32, vec![1, 0, 0, 0]));
                }
            }
            if many {
                pm.syms.clear();
            }
            for u in &m.units {
                for r in u.subs.iter().flat_map(|f| &f.ranges) {
                    if s.chance(1, 2) {
                        peo.pdata.push((r.0 as u32, (r.0 + r.1) as u32, vec![1, 0, 0, 0]));
                    }
                }
            }
            peo.pdata.sort_by_key(|x| x.0);
        }
        let k = s.us(n);
        parts[k] = Part { file: format!("{}{tag}pe.dll", s.pick(&["", "the ", "über"])), data: pe_spec(&pm, &peo).build(), stripped: true, soname: false, pe: true, sized: vec![], pdb: None };
    }
    parts
}

fn synthetic(n: &str) -> bool {
    (n.starts_with('<') && n.contains(" ELF section in ")) || n.starts_with("<unknown in ")
}

type RLine = (u64, u64, u64, String);
type RInl = (u64, u64, String, String, Vec<(u64, u64)>);
/// A FUNC with its references resolved.
type RFunc = (u64, u64, String, Vec<RLine>, Vec<RInl>, bool);
/// The inlined calls, those of one site (also where a path has several numbers) together.
fn inline_sites(y: &Sym, f: &Func) -> Vec<RInl> {
    let mut sites: BTreeMap<(u64, u64, String, String), Vec<(u64, u64)>> = BTreeMap::new();
    for i in &f.inlines {
        let key = (i.depth, i.call_line, y.file(i.call_file).to_string(), y.origin(i.origin).to_string());
        sites.entry(key).or_default().extend(i.ranges.iter().copied());
    }
    sites
        .into_iter()
        .map(|((d, l, f, o), mut r)| {
            r.sort();
            r.dedup_by(|next, cur| {
                let join = cur.0.checked_add(cur.1) == Some(next.0) && next.0.checked_add(next.1).is_some();
                if join {
                    cur.1 += next.1;
                }
                join
            });
            (d, l, f, o, r)
        })
        .collect()
}

fn resolved(y: &Sym, f: &Func) -> Result<RFunc, String> {
    if f.lines.iter().any(|l| l.file >= y.files.len()) || f.inlines.iter().any(|i| i.call_file >= y.files.len() || i.origin >= y.origins.len()) {
        return Err(format!("FUNC {:x} refers to an undeclared file or origin", f.addr));
    }
    Ok((
        f.size,
        f.param,
        f.name.clone(),
        f.lines.iter().map(|l| (l.addr, l.size, l.line, y.file(l.file).to_string())).collect(),
        inline_sites(y, f),
        false,
    ))
}

fn blocks(y: &Sym) -> Result<Vec<String>, String> {
    let mut v: Vec<String> = parse_stack(&y.stack)?.iter().map(|b| format!("{:x} {:x} {:?}", b.start, b.len, b.deltas)).collect();
    v.extend(y.stack.iter().filter(|l| l.starts_with("WIN")).cloned());
    v.sort();
    Ok(v)
}

fn check_merged(g: &Sym, ys: &[Sym], parts: &[Part]) -> Verdict {
    g.ordered()?;
    // module line
    for (what, a, b) in [("OS", &g.os, &ys[0].os), ("CPU", &g.cpu, &ys[0].cpu), ("identifier", &g.id, &ys[0].id)] {
        if a != b {
            return Err(format!("{what} is {a:?} instead of {b:?}"));
        }
    }
    let any_stripped = parts.iter().any(|p| p.stripped);
    let names: BTreeSet<&String> = ys.iter().zip(parts).filter(|(_, p)| p.stripped || !any_stripped).map(|(y, _)| &y.name).collect();
    if !names.contains(&g.name) {
        return Err(format!("the module is named {:?}, but the {} inputs are {names:?}", g.name, if any_stripped { "stripped" } else { "" }));
    }
    let code = |y: &Sym| y.infos.iter().find(|i| i.starts_with("CODE_ID")).cloned();
    let codes: BTreeSet<String> = ys.iter().filter_map(code).collect();
    match code(g) {
        None if !codes.is_empty() => return Err("the code identifier got lost".into()),
        Some(c) if !codes.contains(&c) => return Err(format!("code identifier {c} is in no input")),
        _ => {}
    }
    // functions
    let mut want: BTreeMap<u64, Vec<_>> = BTreeMap::new();
    for (y, p) in ys.iter().zip(parts) {
        for f in &y.funcs {
            let mut r = resolved(y, f)?;
            r.5 = p.pe;
            want.entry(f.addr).or_default().push(r);
        }
    }
    let publics_at = |a: u64| ys.iter().flat_map(|y| &y.publics).filter(move |p| p.addr == a && !synthetic(&p.name));
    for f in &g.funcs {
        let mut r = resolved(g, f)?;
        let Some(c) = want.get(&f.addr) else { return Err(format!("FUNC {:x} {:?} is in no input", f.addr, f.name)) };
        if c.iter().any(|x| !x.5) {
            // a real function wins over placeholders
            if !c.iter().any(|x| !x.5 && *x == r) {
                return Err(format!("FUNC {:x} {r:x?} is none of the inputs' {c:x?}", f.addr));
            }
            continue;
        }
        // a placeholder may get the name of a symbol
        r.5 = true;
        let named = publics_at(f.addr).any(|p| p.name == f.name && p.param == f.param);
        if !c.contains(&r) && !(named && c.iter().any(|x| x.0 == f.size)) {
            return Err(format!("placeholder FUNC {:x} {r:x?} is none of the inputs' {c:x?}", f.addr));
        }
        let inside = ys.iter().flat_map(|y| &y.funcs).any(|o| f.addr > o.addr && f.addr < o.addr + o.size);
        if synthetic(&f.name) && !inside && publics_at(f.addr).next().is_some() {
            return Err(format!("FUNC {:x} {:?} has no name although an input has a symbol there", f.addr, f.name));
        }
    }
    if let Some(a) = want.keys().find(|a| g.func(**a).is_none()) {
        return Err(format!("FUNC {a:x} {:?} got lost", want[a][0].2));
    }
    // publics
    let mut cand: BTreeMap<u64, BTreeSet<(String, u64)>> = BTreeMap::new();
    for p in ys.iter().flat_map(|y| &y.publics) {
        cand.entry(p.addr).or_default().insert((p.name.clone(), p.param));
    }
    let within = |a: u64, r: (u64, u64)| a > r.0 && a < r.0 + r.1;
    for p in &g.publics {
        let Some(c) = cand.get(&p.addr) else { return Err(format!("PUBLIC {:x} {:?} is in no input", p.addr, p.name)) };
        if !c.contains(&(p.name.clone(), p.param)) {
            return Err(format!("PUBLIC {:x} {:?} parameter size {:x} is none of {c:?}", p.addr, p.name, p.param));
        }
        let covered = parts.iter().flat_map(|q| &q.sized).any(|r| within(p.addr, *r)) || ys.iter().flat_map(|y| &y.funcs).any(|f| within(p.addr, (f.addr, f.size)));
        if synthetic(&p.name) && !covered && c.iter().any(|x| !synthetic(&x.0)) {
            return Err(format!("PUBLIC {:x}: {:?} instead of one of {c:?}", p.addr, p.name));
        }
        if let Some(f) = g.funcs.iter().rev().find(|f| f.addr <= p.addr) {
            if f.addr == p.addr || within(p.addr, (f.addr, f.size)) {
                return Err(format!("PUBLIC {:x} {:?} lies in FUNC {:x} {:?}", p.addr, p.name, f.addr, f.name));
            }
        }
    }
    for (a, c) in &cand {
        if g.publics.iter().any(|p| p.addr == *a) || want.contains_key(a) {
            continue;
        }
        if ys.iter().flat_map(|y| &y.funcs).any(|f| within(*a, (f.addr, f.size))) || parts.iter().flat_map(|p| &p.sized).any(|r| within(*a, *r)) {
            continue;
        }
        return Err(format!("PUBLIC {a:x} {c:?} got lost"));
    }
    // unwind information
    let mut st = vec![];
    for y in ys {
        st.extend(blocks(y)?);
    }
    st.sort();
    let gs = blocks(g)?;
    if gs != st {
        return Err(format!("{} STACK blocks instead of the inputs' {}: {:?}", gs.len(), st.len(), st.iter().find(|x| !gs.contains(x))));
    }
    Ok(())
}

fn gen_module(s: &mut Src, kind: Kind, max_funcs: usize) -> Module {
    let units = *s.pick(&[3, 4, 2]);
    let dup = s.chance(1, 4) && kind != Kind::Pdb;
    let mut m = generate(s, &GenCfg { kind, max_funcs, units, dup, partial: kind != Kind::Pdb, ..Default::default() });
    m.syms = gen_syms(s, &m, 12, true);
    // extents over many other symbols leave nothing to judge
    m.syms.iter_mut().filter(|x| x.size > 0x1000).for_each(|x| x.size = 0);
    m
}

fn c10(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = *s.pick(&[Kind::Elf, Kind::Elf, Kind::Mach, Kind::Pdb]);
    let mut m = gen_module(s, kind, 10);
    let mapped = s.chance(1, 4);
    let equal = mapped && kind != Kind::Pdb && s.chance(2, 3);
    if equal {
        // calls of few functions in equal lines of different files
        fn level(s: &mut Src, v: &mut [Inl]) {
            for i in v {
                i.call_line = 7 + s.u(2);
                i.origin &= 1;
                level(s, &mut i.kids);
            }
        }
        for u in &mut m.units {
            if u.abs.len() > 1 {
                u.subs.iter_mut().for_each(|f| level(s, &mut f.inl));
            }
        }
    }
    let n = *s.pick(&[2, 3, 2, 4]);
    let with_cfi = s.chance(1, 2);
    let parts = split(s, &m, "p", n, with_cfi);
    let mut opts: Vec<&str> = vec![];
    if s.chance(2, 3) {
        opts.push("--inlines");
    }
    if mapped {
        // the last ones give several source files one name
        let (src, dest) = if equal { ("^.*$", "same") } else { *s.pick(&[(".*/([^/]+)$", "r:{1}"), (r"^(.*)[/\\][^/\\]+$", "d/{1}"), (r"^.*\.([a-z]+)$", "one.{1}"), ("^.*$", "same")])};
        opts.retain(|o| *o != "--inlines" || !equal);
        if equal {
            opts.push("--inlines");
        }
        opts.extend(["--mapping-src", src, "--mapping-dest", dest]);
        case.label("mapped source files");
    }
    let inl = &opts[..];
    let mut ys = vec![];
    for p in &parts {
        write(ctx, case, &format!("in/{}", p.file), &p.data);
        let o = Cmd::new(ctx).arg(format!("in/{}", p.file)).args(inl).run();
        if !o.ok() {
            return Err(format!("dumping {} failed: {}", p.file, o.describe()));
        }
        ys.push(sym::parse(&o.stdout)?);
    }
    case.note(&describe(&m));
    case.note(&format!("{:?} in {n} files: {:?}", kind, parts.iter().map(|p| (&p.file, p.stripped, p.soname)).collect::<Vec<_>>()));
    label_module(&m, case);
    let with_lines = ys.iter().filter(|y| !y.files.is_empty()).count();
    case.label_if(with_lines > 1, "several files with line records");
    case.label_if(ys.iter().filter(|y| !y.origins.is_empty()).count() > 1, "several files with inline origins");
    case.label_if(ys.iter().filter(|y| !y.stack.is_empty()).count() > 1, "several files with STACK records");
    case.label_if(n > 2, "more than two files");
    case.label_if(kind == Kind::Pdb && parts.iter().any(|p| p.stripped), "PDB and PE");
    case.nontrivial = with_lines > 1 || ys.iter().filter(|y| !y.publics.is_empty()).count() > 1;
    for round in 0..2 {
        let mut order: Vec<usize> = (0..n).collect();
        if round > 0 {
            shuffle(s, &mut order);
        }
        let j = s.pick(&["1", "2", "4", "9"]).to_string();
        let o = Cmd::new(ctx).args(order.iter().map(|i| format!("in/{}", parts[*i].file))).args(inl).args(["-j", &j]).noise(s).run();
        if !o.ok() {
            return Err(format!("dumping the files together failed: {}", o.describe()));
        }
        let g = sym::parse(&o.stdout).map_err(|e| format!("order {order:?}: {e}"))?;
        check_merged(&g, &ys, &parts).map_err(|e| format!("order {order:?} -j {j}: {e}"))?;
    }
    Ok(())
}

/// Opens when all have come to it, or when no more come.
pub struct Gate {
    pub here: std::sync::atomic::AtomicUsize,
    pub all: usize,
}
impl Gate {
    fn wait(&self, stop: &AtomicBool) {
        let mut n = self.here.fetch_add(1, Ordering::SeqCst);
        let mut since = std::time::Instant::now();
        while n < self.all && since.elapsed() < Duration::from_millis(300) && !stop.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_micros(200));
            let k = self.here.load(Ordering::SeqCst);
            if k != n {
                (n, since) = (k, std::time::Instant::now());
            }
        }
    }
}

/// Feeds files through named pipes.
pub struct Feeder {
    stop: Arc<AtomicBool>,
    threads: Vec<std::thread::JoinHandle<()>>,
}
impl Feeder {
    pub fn new() -> Feeder {
        Feeder { stop: Default::default(), threads: vec![] }
    }
    pub fn pipe(&mut self, path: &std::path::Path, data: Vec<u8>, delay: Duration, gate: Option<Arc<Gate>>) {
        let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
        unsafe { libc::mkfifo(c.as_ptr(), 0o600) };
        let stop = self.stop.clone();
        let path = path.to_path_buf();
        self.threads.push(std::thread::spawn(move || {
            use std::os::unix::fs::OpenOptionsExt;
            loop {
                match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&path) {
                    Ok(f) => {
                        use std::os::fd::AsRawFd;
                        unsafe { libc::fcntl(f.as_raw_fd(), libc::F_SETFL, 0) };
                        let mut f = f;
                        let k = data.len() / 2;
                        if f.write_all(&data[..k]).is_err() {
                            return;
                        }
                        match &gate {
                            Some(g) => g.wait(&stop),
                            None => std::thread::sleep(delay),
                        }
                        let _ = f.write_all(&data[k..]);
                        return;
                    }
                    Err(_) if stop.load(Ordering::Relaxed) => return,
                    Err(_) => std::thread::sleep(Duration::from_micros(200)),
                }
            }
        }));
    }
    pub fn finish(self) {
        self.stop.store(true, Ordering::Relaxed);
        for t in self.threads {
            let _ = t.join();
        }
    }
}

fn c11(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let mut nmod = if s.chance(1, 30) {
        *s.pick(&[12, 24, 40, 66, 90, 130, 300])
    } else {
        *s.pick(&[2, 3, 1, 4, 6, 9])
    };
    // each input in a directory of its own, the names being those of other inputs
    let dirs = s.chance(1, 4);
    let check_cfi = s.chance(1, 6);
    let inl = s.chance(1, 2);
    let mut base: Vec<String> = vec![];
    if check_cfi {
        base.push("--check-cfi".into());
    }
    if inl {
        base.push("--inlines".into());
    }
    // options that work on every input
    if s.chance(1, 3) {
        let (src, dest) = *s.pick(&[("/vpnx/(.*)", "M/{1}"), (".*/([^/]+)$", "{rev}:{1}"), ("^(.):.(.*)$", "{2}-{rev}")]);
        base.extend(["--mapping-var", "rev=7", "--mapping-src", src, "--mapping-dest", dest].map(String::from));
    }
    if s.chance(1, 6) {
        base.extend(["--extra-info", "RELEASE nightly"].map(String::from));
    }
    if s.chance(1, 6) {
        base.push("--no-generator".into());
    }
    let arch = *s.pick(&["", "arm64", "x86_64"]);
    if !arch.is_empty() {
        base.extend(["--arch", arch].map(String::from));
    }
    // files that are no inputs but belong to one
    let mut beside: Vec<(usize, String, Vec<u8>)> = vec![];
    let (mut fats, mut pairs) = (0, 0);
    // (argument, data): the inputs by module
    let mut mods: Vec<Vec<Part>> = vec![];
    for k in 0..nmod {
        let kind = *s.pick(&[Kind::Elf, Kind::Elf, Kind::Mach, Kind::Pdb, Kind::Pe]);
        let max = if nmod > 50 { 1 } else { *s.pick(&[2, 1, 4, 20]) };
        let m = generate(s, &GenCfg { kind, max_funcs: max, units: 2, dup: false, partial: kind != Kind::Pdb, ..Default::default() });
        let n = if kind == Kind::Pe || nmod > 50 { 1 } else { *s.pick(&[1, 1, 2, 3]) };
        let cfi = s.chance(1, 3);
        let tag = format!("m{k}x");
        let mut parts = split(s, &m, &tag, n, check_cfi || cfi);
        if kind == Kind::Mach && m.is64 && !m.be && s.chance(1, 2) {
            // universal files whose members differ in the CPU only
            fats += 1;
            for p in parts.iter_mut() {
                let member = |cpu: u32| {
                    let mut d = p.data.clone();
                    d[4..8].copy_from_slice(&cpu.to_le_bytes());
                    d[8..12].copy_from_slice(&(if cpu == 0x0100_0007 { 3u32 } else { 0 }).to_le_bytes());
                    (cpu, if cpu == 0x0100_0007 { 3 } else { 0 }, d)
                };
                let mut v = vec![member(0x0100_0007), member(0x0100_000c)];
                if s.chance(1, 2) {
                    v.reverse();
                }
                p.data = crate::macho::fat(&v);
            }
        }
        if let Some(po) = parts[0].pdb.clone() {
            if s.chance(1, 3) && !parts.iter().any(|p| p.pe) {
                pairs += 1;
                let (pm, mut peo) = super::ident::pair_pe(s, &m, &po, format!("C:\\vpnx\\m{k}.pdb").as_bytes());
                if peo.machine == 0x8664 {
                    peo.pdata = super::stack::pdata(s, &m, 6).0;
                }
                beside.push((k, if dirs { format!("d{k}_0/same0.dll") } else { format!("{tag}0.dll") }, pe_spec(&pm, &peo).build()));
            }
        }
        // a copy of a file among the inputs
        if s.chance(1, 8) {
            let p = s.us(parts.len());
            let mut d = parts[p].clone();
            d.file = format!("copy_{}", d.file);
            parts.push(d);
        }
        if dirs {
            for (i, p) in parts.iter_mut().enumerate() {
                p.file = format!("d{k}_{i}/{}", p.file.replace(&tag, "same"));
            }
        }
        mods.push(parts);
    }
    // another build with the same GUID: only the age tells the two modules apart
    let twin = mods.iter().find_map(|p| Some((p[0].file.clone(), p[0].pdb.clone()?)));
    if let (Some((file, mut po)), true) = (twin, s.chance(1, 2)) {
        let m = generate(s, &GenCfg { kind: Kind::Pdb, max_funcs: 2, units: 1, dup: false, ..Default::default() });
        let age = po.real_age();
        po.info_age = age.wrapping_add(1).max(1);
        po.age = po.info_age;
        case.label("modules of one GUID");
        let file = if dirs { format!("twin/{}", file.rsplit('/').next().unwrap()) } else { format!("twin_{file}") };
        mods.push(vec![Part { file, data: Fmt::Pdb(po.clone()).build(&m), stripped: false, soname: false, pe: false, sized: vec![], pdb: Some(po) }]);
        nmod += 1;
    }
    // what each module gives alone
    let mut expect: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut refused = 0;
    for (k, parts) in mods.iter().enumerate() {
        for p in parts {
            write(ctx, case, &format!("alone/{k}/{}", p.file), &p.data);
        }
        for (_, f, d) in beside.iter().filter(|b| b.0 == k) {
            write(ctx, case, &format!("alone/{k}/{f}"), d);
        }
        let o = Cmd::new(ctx).cwd(ctx.dir.join(format!("alone/{k}"))).args(parts.iter().map(|p| &p.file)).args(&base).args(["--store", "st"]).run();
        let t = tree(&ctx.dir.join(format!("alone/{k}/st")));
        if o.ok() {
            if t.len() != 1 {
                return Err(format!("module {k} alone: {} files in the store", t.len()));
            }
            expect.extend(t);
        } else if check_cfi && o.code.is_some() && t.is_empty() {
            refused += 1;
        } else {
            return Err(format!("module {k} alone: {} and {} files in the store", o.describe(), t.len()));
        }
        let _ = std::fs::remove_dir_all(ctx.dir.join(format!("alone/{k}")));
    }
    if expect.len() + refused != nmod {
        // two modules with the same identifier
        return Ok(());
    }
    // the inputs in some order, keeping the order of each module's files
    let mut seq: Vec<usize> = mods.iter().enumerate().flat_map(|(k, p)| vec![k; p.len()]).collect();
    shuffle(s, &mut seq);
    let mut next = vec![0; nmod];
    let mut inputs: Vec<(String, Option<Vec<u8>>)> = vec![];
    for k in seq {
        let p = &mods[k][next[k]];
        next[k] += 1;
        inputs.push((p.file.clone(), Some(p.data.clone())));
    }
    // failing inputs
    let mut bad = vec![];
    if s.chance(1, 2) {
        for i in 0..1 + s.us(3) {
            let at = s.us(inputs.len() + 1);
            let k = s.u(5);
            bad.push(k);
            match k {
                0 => inputs.insert(at, (format!("missing{i}"), None)),
                1 => inputs.insert(at, (format!("garbage{i}"), Some(s.bytes(40)))),
                2 => {
                    let name = format!("dir{i}");
                    std::fs::create_dir_all(ctx.dir.join("in").join(&name)).unwrap();
                    inputs.insert(at, (name, None));
                }
                3 => inputs.insert(at, (format!("empty{i}"), Some(vec![]))),
                _ => {
                    let j = s.us(mods.len());
                    let mut d = mods[j][0].data.clone();
                    d.truncate(s.us(40));
                    inputs.insert(at, (format!("short{i}"), Some(d)));
                }
            }
        }
    }
    // an output that cannot be stored
    std::fs::create_dir_all(ctx.dir.join("in")).unwrap();
    for (_, f, d) in &beside {
        write(ctx, case, &format!("in/{f}"), d);
    }
    let mut blocked = None;
    if !expect.is_empty() && s.chance(1, 5) {
        let i = s.us(expect.len());
        let p = expect.keys().nth(i).unwrap().clone();
        expect.remove(&p);
        match s.u(3) {
            0 => std::fs::create_dir_all(ctx.dir.join("in/st").join(&p)).unwrap(),
            1 => {
                let d = p.split('/').next().unwrap();
                write(ctx, case, &format!("in/st/{d}"), b"in the way");
                expect.retain(|k, _| !k.starts_with(&format!("{d}/")));
                expect.insert(d.to_string(), b"in the way".to_vec());
            }
            _ => {
                let d = p.rsplit_once('/').unwrap().0;
                write(ctx, case, &format!("in/st/{d}"), b"in the way");
                expect.insert(d.to_string(), b"in the way".to_vec());
            }
        }
        blocked = Some(p);
    }
    let total = inputs.len();
    let j = match s.u(8) {
        0 => Some("1".to_string()),
        1 => Some("0".into()),
        2 => Some(total.to_string()),
        3 => Some("2".into()),
        4 => Some((total + 1 + s.us(60)).to_string()),
        5 => Some((1 + s.us(total)).to_string()),
        6 => Some("3".into()),
        _ => None,
    };
    // how the data become available
    let mut feeder = Feeder::new();
    let pipes = s.u(3);
    let jn = j.as_ref().map(|x| x.parse::<usize>().unwrap().max(1)).unwrap_or(0);
    let piped: Vec<bool> = inputs.iter().map(|(_, d)| d.as_ref().is_some_and(|d| !d.is_empty()) && pipes > 0).collect();
    let np = piped.iter().filter(|p| **p).count();
    let gate = if pipes == 2 && jn >= total && np > 0 { Some(Arc::new(Gate { here: Default::default(), all: np })) } else { None };
    for ((name, d), p) in inputs.iter().zip(&piped) {
        let path = ctx.dir.join("in").join(name);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        if let Some(d) = d {
            case.artifact(&format!("in/{name}"), d);
            if *p {
                feeder.pipe(&path, d.clone(), Duration::from_micros(s.u(4000)), gate.clone());
            } else {
                std::fs::write(&path, d).unwrap();
            }
        }
    }
    let fails = !bad.is_empty() || blocked.is_some() || refused > 0;
    case.note(&format!(
        "{nmod} modules, inputs {:?}, bad {bad:?}, -j {j:?}, {base:?}, blocked {blocked:?}, pipes {pipes} gate {}",
        inputs.iter().map(|x| &x.0).collect::<Vec<_>>(),
        gate.is_some()
    ));
    case.label_if(fails, "something fails");
    case.label_if(!bad.is_empty(), "unreadable input");
    case.label_if(blocked.is_some(), "blocked store path");
    case.label_if(refused > 0, "module without CFI refused");
    case.label_if(gate.is_some(), "inputs released together");
    case.label_if(pipes > 0, "inputs through pipes");
    case.label_if(jn > 0 && jn < total, "fewer jobs than inputs");
    case.label_if(fats > 0, "universal files");
    case.label_if(dirs, "equal names in different directories");
    case.label_if(nmod > 50, "more than 50 modules");
    case.label_if(pairs > 0, "PDB with its PE beside it");
    case.label_if(base.iter().any(|x| x == "--mapping-src"), "with mapping");
    case.nontrivial = nmod > 1;
    let mut c = Cmd::new(ctx).cwd(ctx.dir.join("in")).args(&base).args(["--store", "st"]);
    if let Some(j) = &j {
        c = c.args(["-j", j]);
    }
    let o = c.args(inputs.iter().map(|x| &x.0)).run();
    feeder.finish();
    if o.killed.is_some() {
        return Err(format!("-j {j:?}: {}", o.describe()));
    }
    let got = tree(&ctx.dir.join("in/st"));
    for (k, v) in &expect {
        match got.get(k) {
            None => return Err(format!("-j {j:?}: {k} was not written: {}", o.describe())),
            Some(g) if g != v => return Err(format!("-j {j:?}: {k} differs from the file written when its module is dumped alone")),
            _ => {}
        }
    }
    if let Some(k) = got.keys().find(|k| !expect.contains_key(*k)) {
        return Err(format!("-j {j:?}: unexpected file {k} in the store"));
    }
    match (fails, o.code) {
        (false, Some(0)) => Ok(()),
        (true, Some(c)) if c != 0 => Ok(()),
        _ => Err(format!("-j {j:?}: exit status is wrong ({} failures expected): {}", if fails { "some" } else { "no" }, o.describe())),
    }
}

fn c21(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = Kind::all(s);
    let max = *s.pick(&[8, 25, 3]);
    let mut m = gen_module(s, kind, max);
    // sources which exist here, next to working directories
    let local = s.chance(1, 2);
    if local {
        super::maps::on_disk(s, ctx, case, &mut m, "f", &mut BTreeMap::new());
        case.label("sources on this machine");
    }
    let n = if kind == Kind::Pe { 1 } else { *s.pick(&[1, 2, 1, 3]) };
    let cfi = s.chance(1, 2);
    let mut parts = split(s, &m, "p", n, cfi);
    if kind == Kind::Pe {
        // a single file with everything
        let f = Fmt::gen(s, &m);
        parts[0].data = f.build(&m);
    }
    for p in &parts {
        write(ctx, case, &format!("in/{}", p.file), &p.data);
    }
    let before = tree(&ctx.dir.join("in"));
    let inl = s.chance(3, 4);
    case.note(&format!("{} in {n} files, inlines {inl}", describe(&m)));
    label_module(&m, case);
    case.label_if(n > 1, "several files");
    let mut first: Option<Vec<u8>> = None;
    let runs = 4;
    for r in 0..runs {
        let cwd = match s.u(4) {
            0 if local => ctx.dir.join("srcs"),
            1 => ctx.dir.clone(),
            _ => ctx.dir.join(format!("w{r}")),
        };
        std::fs::create_dir_all(&cwd).unwrap();
        let mut c = Cmd::new(ctx).cwd(&cwd).args(parts.iter().map(|p| match s.u(2) {
            0 if cwd == ctx.dir => std::path::Path::new("in").join(&p.file),
            _ => ctx.dir.join("in").join(&p.file),
        }));
        if n == 1 {
            c = c.noise(s);
        }
        if s.chance(1, 3) {
            // the files get older
            for p in &parts {
                if let Ok(f) = std::fs::File::options().append(true).open(ctx.dir.join("in").join(&p.file)) {
                    let _ = f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(86_400 * (1 + s.u(20_000))));
                }
            }
        }
        if inl {
            c = c.arg("--inlines");
        }
        if s.chance(1, 2) && !c.args.iter().any(|a| a == "-j") {
            c = c.args(["-j", s.pick(&["1", "2", "3", "8", "32"])]);
        }
        if s.chance(1, 2) && !c.args.iter().any(|a| a == "--verbose") {
            c = c.args(["--verbose", s.pick(&["off", "error", "warn", "info", "debug", "trace"])]);
        }
        let mode = s.u(3);
        match mode {
            0 => {}
            1 => c = c.args(["-o", "out"]),
            _ => c = c.args(["--store", "st"]),
        }
        let _ = std::fs::remove_dir_all(cwd.join("st"));
        let o = c.run();
        if !o.ok() {
            return Err(format!("run {r} failed: {}", o.describe()));
        }
        let out = match mode {
            0 => o.stdout,
            1 => std::fs::read(cwd.join("out")).unwrap_or_default(),
            _ => tree(&cwd.join("st")).into_values().next().unwrap_or_default(),
        };
        match &first {
            None => first = Some(out),
            Some(f) if *f != out => {
                let a = String::from_utf8_lossy(f).into_owned();
                let b = String::from_utf8_lossy(&out).into_owned();
                let d = a.lines().zip(b.lines()).find(|(x, y)| x != y);
                return Err(format!("run {r} ({:?}) gave other output than run 0: first difference {d:?}", c.args));
            }
            _ => {}
        }
    }
    let y = sym::parse(&first.unwrap())?;
    case.nontrivial = y.files.len() > 1 || n > 1;
    if tree(&ctx.dir.join("in")) != before {
        return Err("the input files were modified".into());
    }
    Ok(())
}

fn c24(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = *s.pick(&[Kind::Elf, Kind::Mach, Kind::Pdb]);
    let max = *s.pick(&[3, 10, 60, 200]);
    let mut m = generate(s, &GenCfg { kind, max_funcs: max, units: 3, dup: false, partial: kind != Kind::Pdb, ..Default::default() });
    let more = *s.pick(&[8, 0, 100, 500, 3000]);
    if more > 8 {
        // many symbols in a section of their own
        let rva = m.sections.iter().map(|x| x.rva + x.size).max().unwrap() + 0x1000;
        let len = m.sections.len();
        if let Some(x) = m.sections.last_mut() {
            x.size = rva + 0x2000 - x.rva;
        }
        let step = 1 + s.u(2);
        for i in 0..more {
            let name = crate::names::Nm::plain(&format!("filler_symbol_{i}"));
            m.syms.push(SymM { name, rva: rva + step * i, size: 0, sec: Some(len - 1), func: true, dynamic: false, local: false });
        }
    } else {
        m.syms = gen_syms(s, &m, 8, true);
    }
    let n = *s.pick(&[1, 2, 1, 3]);
    // several files of one module, or several modules
    let same = n == 1 || s.chance(1, 2);
    let mut files = vec![];
    if same {
        for p in split(s, &m, "p", n, false) {
            write(ctx, case, &format!("in/{}", p.file), &p.data);
            files.push(format!("in/{}", p.file));
        }
    } else {
        for i in 0..n {
            for p in split(s, &m, &format!("q{i}"), 1, false) {
                write(ctx, case, &format!("in/{}", p.file), &p.data);
                files.push(format!("in/{}", p.file));
            }
        }
    }
    let o = Cmd::new(ctx).args(&files).args(["--store", "ref"]).run();
    if !o.ok() {
        return Err(format!("dump failed: {}", o.describe()));
    }
    let reference = tree(&ctx.dir.join("ref"));
    let big = reference.values().map(|v| v.len()).max().unwrap_or(0) as u64;
    let one = reference.len() == 1;
    let run = |args: &[String], f: &dyn Fn(&mut Cmd)| -> Out {
        let mut c = Cmd::new(ctx).args(&files).args(args);
        f(&mut c);
        c.run()
    };
    let st = |d: &str| vec!["--store".to_string(), d.to_string()];
    let ofile = |d: &str| vec!["-o".to_string(), d.to_string()];
    let what;
    let out: Out;
    let mut must_fail = true;
    // outputs that have to be complete when the exit status is zero
    let mut outs: Vec<(String, Vec<u8>)> = vec![];
    let fault = s.u(11);
    match fault {
        0 => {
            what = "-o /dev/full".to_string();
            out = run(&ofile("/dev/full"), &|_| {});
        }
        1 => {
            what = "standard output is /dev/full".to_string();
            out = run(&[], &|c| c.stdout_to = Some("/dev/full".into()));
        }
        2 => {
            what = "standard output is a broken pipe".to_string();
            out = run(&[], &|c| c.broken_pipe = true);
        }
        3 | 4 => {
            // a limit anywhere up to and a little beyond the size of the biggest output
            let lim = match s.u(5) {
                0 => big - 1,
                1 => big,
                2 => 0,
                3 => (big / 8192 * 8192).min(big - 1),
                _ => s.u(big + 2),
            };
            must_fail = lim < big;
            what = format!("file size limit {lim} for {big} bytes");
            if s.chance(1, 2) || !one {
                outs.extend(reference.iter().map(|(k, v)| (format!("out/{k}"), v.clone())));
                out = run(&st("out"), &|c| c.fsize_limit = Some(lim));
            } else {
                outs.push(("out.sym".into(), reference.values().next().unwrap().clone()));
                out = run(&ofile("out.sym"), &|c| c.fsize_limit = Some(lim));
            }
        }
        5 => {
            what = "-o names a directory".into();
            std::fs::create_dir_all(ctx.dir.join("d")).unwrap();
            out = run(&ofile("d"), &|_| {});
        }
        6 => {
            what = "-o in a missing directory".into();
            out = run(&ofile("no/such/dir/out"), &|_| {});
        }
        7 => {
            what = "--store below a file".into();
            write(ctx, case, "file", b"x");
            out = run(&st(s.pick(&["file", "file/st", "file/a/b"])), &|_| {});
        }
        8 => {
            what = "a directory or full device in place of a symbol file".into();
            let k = reference.keys().nth(s.us(reference.len())).unwrap();
            let at = ctx.dir.join("out").join(k);
            if s.chance(1, 2) {
                std::fs::create_dir_all(at).unwrap();
            } else {
                std::fs::create_dir_all(at.parent().unwrap()).unwrap();
                std::os::unix::fs::symlink("/dev/full", at).unwrap();
            }
            out = run(&st("out"), &|_| {});
        }
        9 => {
            // both outputs requested, one fails
            let k = reference.keys().nth(s.us(reference.len())).unwrap();
            let bad_store = s.chance(1, 2);
            what = format!("-o and --store, {} fails", if bad_store { "--store" } else { "-o" });
            let mut a = st("out");
            if bad_store {
                let at = ctx.dir.join("out").join(k);
                if s.chance(1, 2) {
                    std::fs::create_dir_all(at).unwrap();
                } else {
                    // it can be opened but not written
                    std::fs::create_dir_all(at.parent().unwrap()).unwrap();
                    std::os::unix::fs::symlink("/dev/full", at).unwrap();
                }
                a.extend(ofile("out.sym"));
            } else {
                a.extend(ofile(s.pick(&["/dev/full", "no/such/out", "in"])));
            }
            out = run(&a, &|_| {});
        }
        _ => {
            what = "no fault".into();
            must_fail = false;
            outs.extend(reference.iter().map(|(k, v)| (format!("out/{k}"), v.clone())));
            out = run(&st("out"), &|_| {});
        }
    }
    case.note(&format!("{:?} {} files, {} modules, output of {big} bytes: {what}", kind, files.len(), reference.len()));
    case.label_if(n > 1, "several inputs");
    case.label_if(reference.len() > 1, "several modules");
    case.label_if(big > 8192, "output larger than 8 KB");
    case.label_if(must_fail, "fault");
    case.label_if(matches!(fault, 3 | 4) && must_fail, "file size limit");
    case.nontrivial = must_fail;
    if out.killed.is_some() {
        return Err(format!("{what}: {}", out.describe()));
    }
    if must_fail && out.ok() {
        return Err(format!("{what}: exit status 0"));
    }
    if !must_fail && !out.ok() {
        return Err(format!("{what}: {}", out.describe()));
    }
    if out.ok() {
        for (p, v) in outs {
            if std::fs::read(ctx.dir.join(&p)).ok().as_ref() != Some(&v) {
                return Err(format!("{what}: exit status 0, but {p} is not complete"));
            }
        }
    }
    let _ = store_path;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C10", quick: 4000, thorough: 80_000,
            rule: "a random module spread over 2-4 files of the same identifier (stripped, partial debug information, symbols in any of them, unwind tables), each dumped alone and all together in two argument orders and job counts; non-trivial: at least two inputs with line records or PUBLICs",
            assumptions: &["'m' flags of merged records are not judged", "PUBLICs inside a sized symbol of another input are not judged", "the files do not disagree about a function's extent (where they share a unit it is the same)"],
            run: c10, expect: &[("several files with line records", 200), ("several files with inline origins", 100)], workers: 0 },
        Prop { id: "C11", quick: 1200, thorough: 40_000,
            rule: "1-9, at times up to 130 modules of 1-3 files in random order, in one directory or under the same names in several, with missing, garbage, empty, truncated and directory inputs, blocked store paths, -j from 0 to more than the files, inputs being files or named pipes fed with random delays or all released at once; non-trivial: several modules",
            assumptions: &["a process all of whose threads sleep without being scheduled for 5 s hangs"],
            run: c11, expect: &[("unreadable input", 100), ("inputs released together", 20), ("blocked store path", 50)], workers: 0 },
        Prop { id: "C21", quick: 1500, thorough: 40_000,
            rule: "a random module in one or several files dumped four times with random -j, working directory, verbosity and output mode; non-trivial: several source files or input files",
            assumptions: &[], run: c21, expect: &[], workers: 0 },
        Prop { id: "C24", quick: 3000, thorough: 60_000,
            rule: "random modules with output from 200 bytes to over 64 KB written to full devices, broken pipes, directories, missing directories, below files and under a file size limit anywhere up to the output's size; non-trivial: a fault is injected",
            assumptions: &["RLIMIT_FSIZE stands for a device getting full"], run: c24, expect: &[("file size limit", 100), ("output larger than 8 KB", 100)], workers: 0 },
    ]
}
