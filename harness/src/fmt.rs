//! A module in one of the supported file formats.
use crate::elfmod::{self, ElfOpts};
use crate::engine::Src;
use crate::macho::{self, MachOpts};
use crate::model::*;
use crate::pdb;
use crate::pe;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct PeOpts {
    pub machine: u16,
    pub cpu: &'static str,
    pub timestamp: u32,
    pub size_of_image: u32,
    pub rsds: Option<pe::Rsds>,
    pub dll: bool,
    pub pdata: Vec<(u32, u32, Vec<u8>)>,
    pub debug: bool,
}
#[derive(Clone, Debug)]
pub struct PdbOpts {
    pub machine: u16,
    pub cpu: &'static str,
    pub guid: [u8; 16],
    pub age: u32,
    pub info_age: u32,
    pub page: usize,
    pub form: bool,
}
#[derive(Clone, Debug)]
pub enum Fmt {
    Elf(ElfOpts),
    Mach(MachOpts),
    Pe(PeOpts),
    Pdb(PdbOpts),
}

pub fn guid(s: &mut Src) -> [u8; 16] {
    let v = s.bytes(16);
    let mut g = [0; 16];
    g.copy_from_slice(&v);
    g
}

fn win_machine(s: &mut Src, is64: bool) -> (u16, &'static str) {
    if is64 {
        *s.pick(&[(0x8664, "x86_64"), (0xaa64, "arm64")])
    } else {
        (0x14c, "x86")
    }
}

impl PeOpts {
    pub fn gen(s: &mut Src, m: &Module) -> PeOpts {
        let (machine, cpu) = win_machine(s, m.is64);
        let rsds = if s.chance(3, 4) {
            let path = s.pick(&["C:\\build\\vpnx_mod.pdb", "vpnx_mod.pdb", "/vpnx/out/vpnx_mod.pdb"]).as_bytes().to_vec();
            Some(pe::Rsds { guid: guid(s), age: 1 + gen_age(s), path })
        } else {
            None
        };
        PeOpts {
            machine,
            cpu,
            timestamp: s.u(1 << 32) as u32,
            size_of_image: (s.u(1 << 16) as u32) << 12,
            rsds,
            dll: s.chance(1, 2),
            pdata: vec![],
            debug: true,
        }
    }
}
fn gen_age(s: &mut Src) -> u32 {
    match s.u(3) {
        0 => 0,
        1 => s.u(40) as u32,
        _ => s.u(1 << 31) as u32,
    }
}
impl PdbOpts {
    pub fn gen(s: &mut Src, m: &Module) -> PdbOpts {
        let (machine, cpu) = win_machine(s, m.is64);
        let info_age = 1 + gen_age(s);
        let age = if s.chance(1, 6) { 0 } else if s.chance(1, 2) { info_age } else { 1 + gen_age(s) };
        PdbOpts { machine, cpu, guid: guid(s), age, info_age, page: *s.pick(&[4096, 4096, 1024, 512, 2048]), form: s.chance(1, 2) }
    }
    pub fn real_age(&self) -> u32 {
        if self.age == 0 {
            self.info_age
        } else {
            self.age
        }
    }
}

/// The PE file of a module.
pub fn pe_spec(m: &Module, o: &PeOpts) -> pe::Pe {
    let secs: Vec<pe::PeSec> = m
        .sections
        .iter()
        .enumerate()
        .map(|(i, x)| pe::PeSec {
            name: if i == 0 { ".text".into() } else { format!(".code{i}") },
            rva: x.rva as u32,
            data: elfmod::text_bytes(7 + i as u64, x.size as usize),
            vsize: x.size as u32,
            chars: pe::CODE,
        })
        .collect();
    let end = m.sections.iter().map(|x| x.rva + x.size).max().unwrap_or(0x1000);
    pe::Pe {
        is64: m.is64,
        machine: o.machine,
        base: m.base,
        timestamp: o.timestamp,
        dll: o.dll,
        secs,
        rsds: o.rsds.clone(),
        exports: m
            .syms
            .iter()
            .filter(|s| s.func)
            .map(|s| pe::Export { name: Some(s.name.full()), rva: s.rva as u32, forward: None })
            .collect(),
        export_name: "mod.dll".into(),
        pdata: o.pdata.clone(),
        size_of_image: o.size_of_image,
        meta_rva: ((end + 0xffff) & !0xffff) as u32 + 0x10000,
        debug: if o.debug { m.dwarf() } else { vec![] },
    }
}

pub fn pdb_spec(m: &Module, o: &PdbOpts) -> pdb::Pdb {
    let at = |rva: u64| -> pdb::At {
        let i = m.sections.iter().rposition(|x| rva >= x.rva).unwrap();
        (i as u16 + 1, (rva - m.sections[i].rva) as u32)
    };
    let mut types = vec![];
    let mut seen: BTreeMap<Vec<usize>, u32> = BTreeMap::new();
    let mut typ = |a: &Option<Vec<usize>>| -> u32 {
        let Some(a) = a else { return 0 };
        *seen.entry(a.clone()).or_insert_with(|| {
            let l: Vec<u32> = a.iter().map(|i| pdb::BASIC[*i].0).collect();
            let n = 0x1000 + types.len() as u32;
            types.push(pdb::arglist(&l));
            types.push(pdb::procedure(0x74, l.len() as u16, n));
            n + 1
        })
    };
    let mut ids = vec![];
    let mut mods = vec![];
    for (ui, u) in m.units.iter().enumerate() {
        let first = ids.len();
        for a in &u.abs {
            ids.push(pdb::func_id(typ(&a.args), a.dw.as_deref().unwrap_or("").as_bytes()));
        }
        let mut pm = pdb::PMod {
            name: format!("unit{ui}.obj"),
            files: u.files.iter().map(|f| f.name.clone()).collect(),
            procs: vec![],
            inlinees: BTreeMap::new(),
        };
        for i in 0..u.abs.len() {
            pm.inlinees.insert(first + i, (i % u.files.len(), 10 + i as u32));
        }
        for (si, f) in u.subs.iter().enumerate() {
            if f.ranges.is_empty() {
                continue;
            }
            let mut parts = vec![];
            for &(a, n) in &f.ranges {
                let e = ExpFunc { addr: a, size: n, names: vec![], multiple: None, param: 0, unit: ui, sub: si };
                let mut rows: Vec<pdb::Row> = vec![];
                for p in m.points(&e) {
                    let Some((mut file, mut line)) = m.row_at(ui, p) else { continue };
                    if let Some(i) = m.inl_stack(&e, p).first() {
                        (file, line) = (i.call_file, i.call_line);
                    }
                    let r = pdb::Row { off: (p - a) as u32, file, line: line as u32 };
                    if rows.last().map(|l| (l.file, l.line)) != Some((r.file, r.line)) {
                        rows.push(r);
                    }
                }
                parts.push(pdb::Part { at: at(a), len: n as u32, rows });
            }
            let (a, n) = f.ranges[0];
            let e = ExpFunc { addr: a, size: n, names: vec![], multiple: None, param: 0, unit: ui, sub: si };
            let sites = f.inl.iter().map(|i| site(m, &e, i, 0, first, o.form)).collect();
            pm.procs.push(pdb::Proc {
                name: f.name.dw.clone().unwrap_or_default().into_bytes(),
                typ: typ(&f.name.args),
                local: f.nest > 0,
                parts,
                sites,
            });
        }
        mods.push(pm);
    }
    let secs = m
        .sections
        .iter()
        .enumerate()
        .map(|(i, x)| pdb::PSec { name: if i == 0 { ".text".into() } else { format!(".code{i}") }, rva: x.rva as u32, size: x.size as u32, chars: pe::CODE })
        .chain([pdb::PSec { name: ".data".into(), rva: 0x0700_0000, size: 0x1000, chars: 0xc000_0040 }])
        .collect();
    let publics = m
        .syms
        .iter()
        .map(|s| {
            // data symbols live in the data section
            let at = if s.func { at(s.rva) } else { (m.sections.len() as u16 + 1, (s.rva & 0xfff) as u32) };
            (s.name.full().into_bytes(), at, if s.func { 2 } else { 0 })
        })
        .collect();
    pdb::Pdb {
        guid: o.guid,
        age: o.age,
        info_age: o.info_age,
        machine: o.machine,
        page: o.page,
        secs,
        types,
        ids,
        mods,
        publics,
        frames: vec![],
        hits: vec![],
    }
}

fn site(m: &Module, e: &ExpFunc, i: &Inl, depth: usize, first: usize, form: bool) -> pdb::Site {
    let mut segs: Vec<(u32, u32, usize, u32)> = vec![];
    let pts = m.points(e);
    for &(ra, rl) in &i.ranges {
        let mut cur: Option<(u64, usize, u64)> = None;
        let flush = |cur: Option<(u64, usize, u64)>, end: u64, segs: &mut Vec<(u32, u32, usize, u32)>| {
            if let Some((a, f, l)) = cur {
                segs.push(((a - e.addr) as u32, (end - a) as u32, f, l as u32));
            }
        };
        for &p in pts.iter().filter(|p| **p >= ra && **p < ra + rl) {
            let st = m.inl_stack(e, p);
            let Some((mut f, mut l)) = m.row_at(e.unit, p) else { continue };
            if let Some(k) = st.get(depth + 1) {
                (f, l) = (k.call_file, k.call_line);
            }
            if cur.map(|c| (c.1, c.2)) != Some((f, l)) {
                flush(cur, p, &mut segs);
                cur = Some((p, f, l));
            }
        }
        flush(cur, ra + rl, &mut segs);
    }
    segs.sort();
    pdb::Site {
        inlinee: first + i.origin,
        segs,
        kids: i.kids.iter().map(|k| site(m, e, k, depth + 1, first, form)).collect(),
        form,
    }
}

impl Fmt {
    pub fn gen(s: &mut Src, m: &Module) -> Fmt {
        match m.kind {
            Kind::Elf => Fmt::Elf(ElfOpts::gen(s, m)),
            Kind::Mach => Fmt::Mach(MachOpts::gen(s, m)),
            Kind::Pe => Fmt::Pe(PeOpts::gen(s, m)),
            Kind::Pdb => Fmt::Pdb(PdbOpts::gen(s, m)),
        }
    }
    pub fn build(&self, m: &Module) -> Vec<u8> {
        match self {
            Fmt::Elf(o) => elfmod::elf_file(m, o),
            Fmt::Mach(o) => macho::macho_file(m, o),
            Fmt::Pe(o) => pe_spec(m, o).build(),
            Fmt::Pdb(o) => pdb_spec(m, o).build(),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Fmt::Elf(_) => "mod.so",
            Fmt::Mach(_) => "mod.dylib",
            Fmt::Pe(_) => "mod.dll",
            Fmt::Pdb(_) => "mod.pdb",
        }
    }
    /// Name used in synthetic symbols of the dump of `file`.
    pub fn synthetic(&self, file: &str) -> String {
        match self {
            Fmt::Pe(PeOpts { rsds: Some(r), .. }) => {
                let p = String::from_utf8_lossy(&r.path).into_owned();
                p.rsplit('\\').next().unwrap().to_string()
            }
            _ => file.to_string(),
        }
    }
    pub fn cpu(&self) -> &'static str {
        match self {
            Fmt::Elf(o) => o.cpu,
            Fmt::Mach(o) => o.cpu,
            Fmt::Pe(o) => o.cpu,
            Fmt::Pdb(o) => o.cpu,
        }
    }
}

/// All PUBLIC records of a module in its format.
pub fn expected_publics(m: &Module, f: &Fmt, file: &str) -> ExpPublics {
    let funcs: Vec<(u64, u64)> = m.expected_funcs().values().map(|e| (e.addr, e.size)).collect();
    let syms: Vec<(u64, u64, String, u64)> = m
        .func_syms()
        .iter()
        .filter(|s| !crate::names::skipped(&s.name.full()))
        .map(|s| {
            let size = if m.kind == Kind::Elf { s.size } else { 0 };
            let (t, p) = if m.kind.win() { s.name.in_win() } else { (s.name.in_public(), None) };
            (s.rva, size, t, p.unwrap_or(0) as u64)
        })
        .collect();
    let mut e = expect_publics(&funcs, &syms);
    match m.kind {
        Kind::Elf => {
            for x in &m.sections {
                if !funcs.iter().any(|f| f.0 == x.rva) {
                    e.must.entry(x.rva).or_insert((format!("<{} ELF section in {file}>", x.name), false, 0));
                }
            }
        }
        Kind::Pe | Kind::Pdb => {
            // the end of the record with the highest address
            let lf = funcs.iter().max().copied();
            let lp = e.must.keys().max().copied();
            let end = match (lf, lp) {
                (Some(f), Some(p)) if p > f.0 => Some(p + 1),
                (Some(f), _) => Some(if f.1 == 0 { f.0 + 1 } else { f.0 + f.1 }),
                (None, Some(p)) => Some(p + 1),
                _ => None,
            };
            if let Some(a) = end {
                e.must.insert(a, (format!("<unknown in {}>", f.synthetic(file)), false, 0));
            }
        }
        Kind::Mach => {}
    }
    e
}
