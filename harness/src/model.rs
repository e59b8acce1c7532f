//! The program model: what a module contains, how to write it as DWARF, and what the symbol
//! file has to say about it.
use crate::dwarf::{c, Die, Dwarf, LineFile, LineProg, Row, V};
use crate::engine::Src;
use crate::names::{self, Lang, Nm};
use crate::sym::{Func, Sym};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Section {
    pub name: String,
    pub rva: u64,
    pub size: u64,
}

/// A source file of a unit.
#[derive(Clone, Debug)]
pub struct FileM {
    /// index into the unit's dirs
    pub dir: usize,
    pub name: Vec<u8>,
    /// the path expected in FILE
    pub path: String,
}

#[derive(Clone, Debug)]
pub struct Inl {
    /// index into Unit::abs
    pub origin: usize,
    pub ranges: Vec<(u64, u64)>,
    pub call_file: usize,
    pub call_line: u64,
    pub kids: Vec<Inl>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Elf,
    Mach,
    /// PE with DWARF
    Pe,
    Pdb,
}
impl Kind {
    pub fn win(self) -> bool {
        matches!(self, Kind::Pe | Kind::Pdb)
    }
    pub fn all(s: &mut Src) -> Kind {
        *s.pick(&[Kind::Elf, Kind::Pdb, Kind::Mach, Kind::Pe])
    }
}

#[derive(Clone, Debug)]
pub struct NameSrc {
    pub linkage: Option<Nm>,
    pub dw: Option<String>,
    /// PDB: parameter types (indices into pdb::BASIC)
    pub args: Option<Vec<usize>>,
}
impl NameSrc {
    /// text expected from the debug information alone
    pub fn shown(&self, l: Lang) -> String {
        match (&self.linkage, &self.dw) {
            (Some(n), _) => n.in_func(l),
            (None, Some(d)) => {
                let a = match &self.args {
                    Some(a) => {
                        format!("({})", a.iter().map(|i| crate::pdb::BASIC[*i].1).collect::<Vec<_>>().join(", "))
                    }
                    None => String::new(),
                };
                names::anon(d) + &a
            }
            _ => "<name omitted>".into(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Direct,
    Spec,
    Abstract,
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub name: NameSrc,
    pub style: Style,
    /// rva, size; empty = declaration only
    pub ranges: Vec<(u64, u64)>,
    pub inl: Vec<Inl>,
    /// nest in this many namespace DIEs
    pub nest: usize,
    /// wrap the inlined calls in lexical blocks
    pub blocks: bool,
}

#[derive(Clone, Debug)]
pub struct Unit {
    pub version: u16,
    pub lang: Lang,
    pub dwlang: u16,
    pub comp_dir: Option<Vec<u8>>,
    pub dirs: Vec<Vec<u8>>,
    pub files: Vec<FileM>,
    /// abstract (inlined) subprograms
    pub abs: Vec<NameSrc>,
    pub subs: Vec<Sub>,
    /// rows by sequence: (rows, end); addresses are rvas
    pub seqs: Vec<(Vec<Row>, u64)>,
    pub special: bool,
    pub strp: bool,
    /// attributes of the root: low_pc/high_pc instead of ranges
    pub root_low_high: bool,
    /// form of the file names in the line table
    pub form: u8,
}

#[derive(Clone, Debug)]
pub struct SymM {
    pub name: Nm,
    pub rva: u64,
    pub size: u64,
    /// index into sections; None = absolute/undefined
    pub sec: Option<usize>,
    pub func: bool,
    pub dynamic: bool,
    pub local: bool,
}

#[derive(Clone, Debug)]
pub struct Module {
    pub kind: Kind,
    pub is64: bool,
    pub be: bool,
    pub base: u64,
    pub sections: Vec<Section>,
    pub units: Vec<Unit>,
    pub syms: Vec<SymM>,
}

#[derive(Clone)]
pub struct GenCfg {
    pub kind: Kind,
    pub max_funcs: usize,
    pub inlines: bool,
    pub dup: bool,
    pub split: bool,
    pub symtab: bool,
    pub line0: bool,
    pub names: bool,
    pub units: usize,
    /// restrict to little endian 64 bit
    pub plain_class: bool,
    pub partial: bool,
    /// occasionally much bigger than usual
    pub big: bool,
    /// code beyond 4 GiB
    pub far: bool,
}
impl Default for GenCfg {
    fn default() -> Self {
        GenCfg {
            kind: Kind::Elf,
            max_funcs: 8,
            inlines: true,
            dup: true,
            split: true,
            symtab: true,
            line0: true,
            names: true,
            units: 3,
            plain_class: false,
            partial: true,
            big: true,
            far: false,
        }
    }
}

/// Lexical normalisation of a Unix path as the properties define it.
pub fn normalise(p: &str) -> String {
    let abs = p.starts_with('/');
    let mut out: Vec<&str> = vec![];
    for comp in p.split('/') {
        match comp {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("{}{}", if abs { "/" } else { "" }, out.join("/"))
}

pub fn join(a: &str, b: &str) -> String {
    format!("{}/{}", a.trim_end_matches('/'), b.trim_start_matches('/'))
}

/// The path of a file as joined from its parts (Unix rules).
pub fn joined(comp: Option<&str>, dir: &str, name: &str) -> String {
    let dir = match comp {
        Some(c) if !dir.starts_with('/') && !c.is_empty() => join(c, dir),
        _ => dir.to_string(),
    };
    join(&dir, name)
}

fn gen_files(s: &mut Src, u: usize, kind: Kind, big: &Big) -> (Option<Vec<u8>>, Vec<Vec<u8>>, Vec<FileM>) {
    if kind == Kind::Pdb {
        let n = if big.files { 1 + s.us(400) } else { 1 + s.us(4) };
        let mut files = vec![];
        for i in 0..n {
            let d = *s.pick(&["C:\\src\\proj\\", "d:\\a\\", "c:\\src\\Proj\\", "D:\\a\\", "/vpnx/src/", "\\\\net\\share\\x\\", "C:\\"]);
            let name = if s.chance(1, 3) { s.pick(&["common.h", "vector", "Common.h", "common.hh"]).to_string() } else { format!("f{u}_{i}.cpp") };
            let path = format!("{d}{name}");
            files.push(FileM { dir: 0, name: path.clone().into_bytes(), path });
        }
        return (None, vec![], files);
    }
    let comp = s.pick(&["/vpnx/build", "/vpnx/src/project", "/vpnx/b"]).to_string();
    let mut dirs = vec![comp.clone().into_bytes()];
    for _ in 0..s.us(3) {
        dirs.push(s.pick(&["/vpnx/usr/include", "/vpnx/src", "inc", "sub/dir", "/vpnx/x"]).as_bytes().to_vec());
    }
    if big.files {
        let n = s.us(200);
        dirs.extend((0..n).map(|i| format!("/vpnx/dir{i}").into_bytes()));
    }
    let n = if big.files { 1 + s.us(400) } else { 1 + s.us(4) };
    let mut files = vec![];
    for i in 0..n {
        let dir = s.us(dirs.len());
        let name = if s.chance(1, 3) {
            s.pick(&["common.h", "vector", "lib.rs", "Common.h", "common.hh", "Vector"]).to_string()
        } else {
            format!("f{u}_{i}{}", s.pick(&[".cpp", ".h", ".rs", ".c"]))
        };
        let d = String::from_utf8(dirs[dir].clone()).unwrap();
        let mut path = joined(Some(&comp), &d, &name);
        if kind == Kind::Elf {
            path = normalise(&path);
        }
        files.push(FileM { dir, name: name.into_bytes(), path });
    }
    (Some(comp.into_bytes()), dirs, files)
}

/// What is bigger than usual in a module.
#[derive(Clone, Debug, Default)]
pub struct Big {
    files: bool,
    funcs: bool,
    abs: bool,
    deep: bool,
    sizes: bool,
    lines: bool,
}
impl Big {
    fn gen(s: &mut Src) -> Big {
        let b = s.u(64);
        Big { files: b & 1 > 0, funcs: b & 2 > 0, abs: b & 4 > 0, deep: b & 8 > 0, sizes: b & 16 > 0, lines: b & 32 > 0 }
    }
}

fn gen_namesrc(s: &mut Src, lang: Lang, rich: bool, kind: Kind) -> NameSrc {
    if !rich && kind != Kind::Pdb {
        let n = names::ident(s);
        return NameSrc { linkage: None, dw: Some(n), args: None };
    }
    if kind == Kind::Pdb {
        let mut n = names::ident(s);
        if rich {
            match s.u(5) {
                0 => n = format!("{n}<{}>", names::ident(s)),
                1 => n = format!("{}::{n}", names::ident(s)),
                2 => n = format!("`anonymous namespace'::{n}"),
                _ => {}
            }
        }
        let args = if s.chance(2, 3) {
            let k = s.us(4);
            Some((0..k).map(|_| s.us(crate::pdb::BASIC.len())).collect())
        } else {
            None
        };
        return NameSrc { linkage: None, dw: Some(n), args };
    }
    match s.u(10) {
        0..=3 => {
            let n = names::any(s, lang);
            let d = names::ident(s);
            NameSrc { linkage: Some(n), dw: Some(d), args: None }
        }
        4 => {
            let n = names::any(s, lang);
            NameSrc { linkage: Some(n), dw: None, args: None }
        }
        _ => {
            // an unmangled name, as is
            let d = match s.u(6) {
                0 => format!("{}<{}>", names::ident(s), names::ident(s)),
                1 => format!("operator {}", names::ident(s)),
                2 => format!("{}::{}", names::ident(s), names::ident(s)),
                _ => names::ident(s),
            };
            NameSrc { linkage: None, dw: Some(d), args: None }
        }
    }
}

fn gen_line(s: &mut Src, line0: bool) -> u64 {
    match s.u(12) {
        0 if line0 => 0,
        1 => 1 + s.u(5_000_000),
        2 => *s.pick(&[255, 256, 65535, 65536, 65537, 0x7fff_f0]),
        _ => 1 + s.u(30),
    }
}

/// Random inlined calls within [a, b).
fn gen_inl(s: &mut Src, a: u64, b: u64, nabs: usize, nfiles: usize, depth: usize, budget: &mut usize) -> Vec<Inl> {
    let mut out: Vec<Inl> = vec![];
    if b - a < 2 || *budget == 0 {
        return out;
    }
    let n = match s.u(4) {
        0 | 1 => 1,
        2 => 2,
        _ => 3,
    };
    let mut pos = a;
    for _ in 0..n {
        if pos + 1 >= b || *budget == 0 {
            break;
        }
        // gap before
        let gap = if s.chance(1, 3) { 0 } else { s.u((b - pos).min(8)) };
        let st = pos + gap;
        if st >= b {
            break;
        }
        let most = if s.chance(1, 12) { b - st } else { 24 };
        let len = 1 + s.u((b - st).min(most));
        let len = len.min(b - st);
        *budget -= 1;
        let mut ranges = vec![(st, len)];
        let mut end = st + len;
        // several ranges
        while s.chance(1, 5) && end + 2 < b {
            let g = 1 + s.u(3.min(b - end - 1));
            let l2 = (1 + s.u(8)).min(b - end - g);
            if l2 == 0 {
                break;
            }
            ranges.push((end + g, l2));
            end = end + g + l2;
        }
        let mut kids = vec![];
        if depth > 0 && s.chance(1, 2) {
            for &(ra, rl) in &ranges {
                if s.chance(2, 3) {
                    kids.extend(gen_inl(s, ra, ra + rl, nabs, nfiles, depth - 1, budget));
                }
            }
        }
        // a recursion-like or repeated call site now and then
        let (call_file, call_line) = if !out.is_empty() && s.chance(1, 3) {
            let p = s.pick(&out);
            (p.call_file, p.call_line)
        } else {
            (s.us(nfiles), gen_line(s, true))
        };
        let origin = if !out.is_empty() && s.chance(1, 4) { s.pick(&out).origin } else { s.us(nabs) };
        out.push(Inl { origin, ranges, call_file, call_line, kids });
        pos = end;
    }
    out
}

pub fn generate(s: &mut Src, cfg: &GenCfg) -> Module {
    let kind = cfg.kind;
    let big = if cfg.big && s.chance(1, 40) { Big::gen(s) } else { Big::default() };
    let (is64, be) = if cfg.plain_class {
        (true, false)
    } else if kind.win() {
        *s.pick(&[(true, false), (false, false)])
    } else { *s.pick(&[(true, false), (true, false), (false, false), (true, true), (false, true)]) };
    let base = if kind == Kind::Pdb {
        0
    } else if kind == Kind::Pe {
        if is64 {
            *s.pick(&[0x1_4000_0000u64, 0x1_8000_0000, 0x10000])
        } else {
            *s.pick(&[0x40_0000u64, 0x1000_0000])
        }
    } else if is64 && cfg.far {
        *s.pick(&[0u64, 0x400000, 0x5555_0000_0000])
    } else if is64 {
        *s.pick(&[0u64, 0x400000, 0x10000, 0x5555_0000_0000, 0xffff_ffff_8000_0000])
    } else {
        *s.pick(&[0u64, 0x8048000, 0x10000])
    };
    // sections
    let nsec = s.count(1, 4);
    let mut sections = vec![];
    let mut rva = if kind.win() { *s.pick(&[0x1000u64, 0x5000]) } else if base != 0 && s.chance(1, 8) {
        0
    } else { *s.pick(&[0x1000u64, 0x10, 0x23450]) };
    for i in 0..nsec {
        let name = if i == 0 {
            ".text".to_string()
        } else {
            s.pick(&[".init", ".text.unlikely", ".plt", ".fini", ".mysec"]).to_string()
        };
        sections.push(Section { name, rva, size: 0 });
        rva += 0x10_0000;
        if cfg.far && i == 0 && is64 && !kind.win() {
            rva += 1 << 32;
        }
    }
    let nunits = s.count(1, if big.funcs && cfg.units > 1 { 40 } else { cfg.units });
    let mut units: Vec<Unit> = vec![];
    for u in 0..nunits {
        let lang = Lang::pick(s);
        let dwlang = lang.dw(s);
        let (comp_dir, dirs, files) = gen_files(s, u, kind, &big);
        let nabs = if cfg.inlines { 1 + s.us(if big.abs { 300 } else { 4 }) } else { 0 };
        let mut abs: Vec<NameSrc> = (0..nabs).map(|_| gen_namesrc(s, lang, cfg.names, kind)).collect();
        if kind == Kind::Pdb {
            // an inlined function without a type cannot be named
            abs.iter_mut().for_each(|a| {
                a.args.get_or_insert(vec![]);
            });
        }
        units.push(Unit {
            version: *s.pick(&[4, 5]),
            lang,
            dwlang,
            comp_dir,
            dirs,
            files,
            abs,
            subs: vec![],
            seqs: vec![],
            special: s.chance(1, 2),
            strp: s.chance(1, 2),
            root_low_high: false,
            form: s.u(3) as u8,
        });
    }
    // functions: allocate slots in the sections
    let nf = s.count(1, if big.funcs && cfg.max_funcs > 2 { 300 } else { cfg.max_funcs });
    let mut huge = if big.sizes { 3 } else { 0 };
    let mut cur: Vec<u64> = sections.iter().map(|x| x.rva).collect();
    let mut slot = |s: &mut Src, sections: &mut Vec<Section>, size: u64| -> u64 {
        let k = s.us(sections.len());
        let gap = match s.u(3) {
            0 | 1 => 0,
            _ => s.u(40),
        };
        let a = cur[k] + gap;
        cur[k] = a + size;
        sections[k].size = a + size - sections[k].rva;
        a
    };
    let mut gen_size = |s: &mut Src| match s.u(8) {
        2..=4 if huge > 0 => {
            huge -= 1;
            0x8000 + s.u(0x40000)
        }
        0 => 1 + s.u(3),
        7 => 1 + s.u(0x3000),
        _ => 1 + s.u(60),
    };
    for i in 0..nf {
        let ui = s.us(units.len());
        let lang = units[ui].lang;
        let name = gen_namesrc(s, lang, cfg.names, kind);
        let style = *s.pick(&[Style::Direct, Style::Direct, Style::Spec, Style::Abstract]);
        let nest = if s.chance(1, 4) { 1 + s.us(2) } else { 0 };
        if s.chance(1, 12) {
            units[ui].subs.push(Sub { name, style: Style::Direct, ranges: vec![], inl: vec![], nest, blocks: false });
            continue;
        }
        // a second function at an existing start
        if cfg.dup && i > 0 && s.chance(1, 8) {
            let all: Vec<(u64, u64)> = units.iter().flat_map(|u| u.subs.iter().flat_map(|f| f.ranges.iter().copied())).collect();
            if !all.is_empty() {
                let (a, l) = *s.pick(&all);
                let size = match s.u(3) {
                    0 => l,
                    1 => 1 + s.u(l),
                    _ => l,
                };
                units[ui].subs.push(Sub { name, style, ranges: vec![(a, size)], inl: vec![], nest, blocks: false });
                continue;
            }
        }
        let nr = if cfg.split && s.chance(1, 6) { 2 + s.us(2) } else { 1 };
        let mut ranges = vec![];
        for _ in 0..nr {
            let size = gen_size(s);
            let a = slot(s, &mut sections, size);
            ranges.push((a, size));
        }
        if nr > 1 && s.chance(1, 2) {
            ranges.reverse();
        }
        let unit = &mut units[ui];
        let mut inl = vec![];
        // coverage of the line table
        let partial = cfg.partial && s.chance(1, 8);
        if !partial && cfg.inlines && s.chance(2, 3) {
            let depth = if big.deep { 60 } else if s.chance(1, 8) { 8 } else { 3 };
            let mut budget = if big.deep { 150 } else { 14 };
            let within = if kind == Kind::Pdb { &ranges[..1] } else { &ranges[..] };
            for &(a, l) in within {
                inl.extend(gen_inl(s, a, a + l, unit.abs.len(), unit.files.len(), depth, &mut budget));
            }
            // the call tree of a function may list calls in any order
            if s.chance(1, 4) {
                inl.reverse();
            }
        }
        for &(a, l) in &ranges {
            let mut rows = vec![];
            let mut pos = a;
            let mut end = a + l;
            if partial {
                match s.u(2) {
                    0 => continue,
                    _ => end = a + 1 + s.u(l),
                }
            }
            while pos < end {
                let (file, line) = match rows.last() {
                    Some(Row { file, line, .. }) if s.chance(1, 5) => (*file, *line),
                    Some(Row { file, .. }) if s.chance(1, 2) => (*file, gen_line(s, cfg.line0)),
                    _ => (s.us(unit.files.len()), gen_line(s, cfg.line0)),
                };
                rows.push(Row { addr: pos, file, line });
                pos += match s.u(4) {
                    0 => 1,
                    1 | 2 => 1 + s.u(12),
                    _ if big.lines && l < 0x8000 => 1 + s.u(40),
                    _ => 1 + s.u(end - a),
                };
            }
            if !rows.is_empty() {
                unit.seqs.push((rows, end));
            }
        }
        let blocks = s.chance(1, 4);
        unit.subs.push(Sub { name, style, ranges, inl, nest, blocks });
    }
    for u in units.iter_mut() {
        // some units have one sequence per section instead of one per function
        if s.chance(1, 2) {
            u.seqs.sort_by_key(|q| q.0[0].addr);
            let mut merged: Vec<(Vec<Row>, u64)> = vec![];
            for q in std::mem::take(&mut u.seqs) {
                match merged.last_mut() {
                    Some(m) if m.1 == q.0[0].addr => {
                        m.0.extend(q.0);
                        m.1 = q.1;
                    }
                    _ => merged.push(q),
                }
            }
            u.seqs = merged;
        }
        if s.chance(1, 4) {
            u.seqs.reverse();
        }
        if s.chance(1, 4) {
            u.subs.reverse();
        }
    }
    for x in sections.iter_mut() {
        x.size = x.size.max(1) + s.u(16);
    }
    let mut m = Module { kind, is64, be, base, sections, units, syms: vec![] };
    if cfg.symtab && s.chance(2, 3) {
        m.syms = gen_syms(s, &m, 6, cfg.names);
    }
    m
}

/// Random symbols: at functions, inside functions, outside.
pub fn gen_syms(s: &mut Src, m: &Module, max: usize, rich: bool) -> Vec<SymM> {
    let mut out: Vec<SymM> = vec![];
    let funcs: Vec<(u64, u64, Lang)> =
        m.units.iter().flat_map(|u| u.subs.iter().flat_map(move |f| f.ranges.iter().map(move |r| (r.0, r.1, u.lang)))).collect();
    let n = s.count(0, max);
    for _ in 0..n {
        let k = s.us(m.sections.len());
        let sec = &m.sections[k];
        let (mut rva, mut size, mut lang) = (sec.rva + s.u(sec.size), s.u(20), Lang::Other);
        match s.u(6) {
            0 | 1 if !funcs.is_empty() => {
                let f = *s.pick(&funcs);
                (rva, size, lang) = f;
            }
            2 if !funcs.is_empty() => {
                // right after a function
                let f = *s.pick(&funcs);
                rva = f.0 + f.1;
            }
            3 if !out.is_empty() => {
                let o = s.pick(&out);
                rva = o.rva + s.u(3);
                size = s.u(10);
            }
            4 if !funcs.is_empty() => {
                // last byte of a function
                let f = *s.pick(&funcs);
                rva = f.0 + f.1 - 1;
            }
            _ => {}
        }
        if s.chance(1, 3) {
            size = 0;
        } else if s.chance(1, 40) {
            // over all symbols behind it
            size = *s.pick(&[0x100, 0x1_0000, 0x20_0000, 0x100_0000, 0x7fff_ffff]);
        } else if s.chance(1, 10) {
            // up to, or over, another symbol or the start of a section
            let to: Vec<u64> = out.iter().map(|o| o.rva).chain(m.sections.iter().map(|x| x.rva)).filter(|a| *a > rva).collect();
            if !to.is_empty() {
                size = s.pick(&to) - rva + s.u(3);
            }
        }
        let sec = m.sections.iter().position(|x| rva >= x.rva && rva < x.rva + x.size);
        let twin = out.iter().find(|o| o.rva == rva).map(|o| o.name.clone());
        let name = if let (Some(n), true) = (twin, m.kind != Kind::Pe && s.chance(1, 2)) {
            // listed twice, e.g. in both tables
            n
        } else if m.kind.win() {
            names::win(s, rich)
        } else if rich {
            names::any(s, lang)
        } else {
            names::plain(s)
        };
        let func = !s.chance(1, 10);
        let dynamic = s.chance(1, 3);
        let local = s.chance(1, 4);
        out.push(SymM { name, rva, size, sec, func: func && sec.is_some(), dynamic, local });
    }
    out
}

impl Module {
    pub fn dwarf(&self) -> Vec<(&'static str, Vec<u8>)> {
        let mut d = Dwarf::new(self.is64, self.be);
        let mut label = 1u32;
        let b = self.base;
        for u in &self.units {
            let st = |x: &str| if u.strp { V::Strp(x.as_bytes().to_vec()) } else { V::Str(x.as_bytes().to_vec()) };
            let stb = |x: &[u8]| if u.strp { V::Strp(x.to_vec()) } else { V::Str(x.to_vec()) };
            let mut root = Die::new(c::TAG_CU)
                .at(c::PRODUCER, st("vp"))
                .at(c::LANGUAGE, V::U2(u.dwlang))
                .at(c::NAME, st(&String::from_utf8_lossy(&u.files.first().map(|f| f.name.clone()).unwrap_or(b"unit".to_vec()))));
            if let Some(cd) = &u.comp_dir {
                root = root.at(c::COMP_DIR, stb(cd));
            }
            let all: Vec<(u64, u64)> =
                u.subs.iter().flat_map(|f| f.ranges.iter().map(|r| (b.wrapping_add(r.0), r.1))).collect();
            if !all.is_empty() {
                if u.root_low_high {
                    let lo = all.iter().map(|r| r.0).min().unwrap();
                    let hi = all.iter().map(|r| r.0 + r.1).max().unwrap();
                    root = root.at(c::LOW_PC, V::Addr(lo)).at(c::HIGH_PC, V::U8(hi - lo));
                } else {
                    let v = d.range_list(u.version, &all);
                    root = root.at(c::LOW_PC, V::Addr(0)).at(c::RANGES, v);
                }
            }
            if !u.seqs.is_empty() || !u.files.is_empty() {
                let mut files: Vec<LineFile> =
                    u.files.iter().map(|f| LineFile { dir: f.dir, name: f.name.clone() }).collect();
                if files.is_empty() {
                    files.push(LineFile { dir: 0, name: b"none".to_vec() });
                }
                let seqs = u
                    .seqs
                    .iter()
                    .map(|(r, e)| {
                        (
                            r.iter().map(|r| Row { addr: b.wrapping_add(r.addr), ..r.clone() }).collect(),
                            b.wrapping_add(*e),
                        )
                    })
                    .collect();
                let o = d.line_prog(u.version, &LineProg { dirs: u.dirs.clone(), files, seqs, special: u.special, form: u.form });
                root = root.at(c::STMT_LIST, V::Sec(o));
            }
            // abstract subprograms
            let first_abs = label;
            for a in &u.abs {
                let mut x = Die::new(c::TAG_SUBPROGRAM);
                x.label = label;
                label += 1;
                x = put_name(x, a, &st).at(c::INLINE, V::U1(1));
                root.kids.push(x);
            }
            let fidx = |f: usize| f as u64 + if u.version < 5 { 1 } else { 0 };
            for f in &u.subs {
                let mut x = Die::new(c::TAG_SUBPROGRAM);
                match f.style {
                    Style::Direct => x = put_name(x, &f.name, &st),
                    Style::Spec => {
                        let mut decl = Die::new(c::TAG_SUBPROGRAM);
                        decl.label = label;
                        decl = put_name(decl, &f.name, &st).at(c::DECLARATION, V::Flag);
                        let mut cl = Die::new(c::TAG_STRUCT).at(c::NAME, st("Klass"));
                        cl.kids.push(decl);
                        root.kids.push(cl);
                        x = x.at(c::SPECIFICATION, V::Ref(label));
                        label += 1;
                    }
                    Style::Abstract => {
                        let mut a = Die::new(c::TAG_SUBPROGRAM);
                        a.label = label;
                        a = put_name(a, &f.name, &st).at(c::INLINE, V::U1(3));
                        root.kids.push(a);
                        x = x.at(c::ABSTRACT_ORIGIN, V::Ref(label));
                        label += 1;
                    }
                }
                x = put_ranges(x, &f.ranges, b, u.version, &mut d);
                for i in &f.inl {
                    let k = inl_die(i, b, u, first_abs, &fidx, &mut d);
                    if f.blocks {
                        let mut bl = Die::new(c::TAG_LEXBLOCK);
                        bl = put_ranges(bl, &i.ranges, b, u.version, &mut d);
                        bl.kids.push(k);
                        x.kids.push(bl);
                    } else {
                        x.kids.push(k);
                    }
                }
                for n in 0..f.nest {
                    let mut ns = Die::new(c::TAG_NAMESPACE).at(c::NAME, st(&format!("ns{n}")));
                    ns.kids.push(x);
                    x = ns;
                }
                root.kids.push(x);
            }
            d.unit(u.version, &root);
        }
        d.finish()
    }

    /// file path and line of the row at an address of a unit
    pub fn row_at(&self, u: usize, a: u64) -> Option<(usize, u64)> {
        for (rows, end) in &self.units[u].seqs {
            if a >= rows[0].addr && a < *end {
                let r = &rows[rows.partition_point(|r| r.addr <= a) - 1];
                return Some((r.file, r.line));
            }
        }
        None
    }
}

fn put_name(mut d: Die, n: &NameSrc, st: &dyn Fn(&str) -> V) -> Die {
    if let Some(x) = &n.dw {
        d = d.at(c::NAME, st(x));
    }
    if let Some(x) = &n.linkage {
        d = d.at(c::LINKAGE_NAME, st(&x.full()));
    }
    d
}
fn put_ranges(d: Die, r: &[(u64, u64)], b: u64, version: u16, w: &mut Dwarf) -> Die {
    match r {
        [] => d.at(c::DECLARATION, V::Flag),
        [(a, n)] => d.at(c::LOW_PC, V::Addr(b.wrapping_add(*a))).at(c::HIGH_PC, V::U4(*n as u32)),
        _ => {
            let abs: Vec<_> = r.iter().map(|x| (b.wrapping_add(x.0), x.1)).collect();
            let v = w.range_list(version, &abs);
            d.at(c::RANGES, v)
        }
    }
}
fn inl_die(i: &Inl, b: u64, u: &Unit, first: u32, fidx: &dyn Fn(usize) -> u64, w: &mut Dwarf) -> Die {
    let mut d = Die::new(c::TAG_INLINED).at(c::ABSTRACT_ORIGIN, V::Ref(first + i.origin as u32));
    d = put_ranges(d, &i.ranges, b, u.version, w);
    d = d.at(c::CALL_FILE, V::Udata(fidx(i.call_file))).at(c::CALL_LINE, V::Udata(i.call_line));
    for k in &i.kids {
        d.kids.push(inl_die(k, b, u, first, fidx, w));
    }
    d
}

// ---------------------------------------------------------------- expectations

#[derive(Clone, Debug)]
pub struct ExpFunc {
    pub addr: u64,
    pub size: u64,
    /// acceptable names
    pub names: Vec<String>,
    /// None: either way
    pub multiple: Option<bool>,
    pub param: u64,
    pub unit: usize,
    pub sub: usize,
}

impl Module {
    /// Function symbols the reader sees, in order.
    pub fn func_syms(&self) -> Vec<&SymM> {
        match self.kind {
            Kind::Elf => {}
            Kind::Mach => return self.syms.iter().filter(|s| s.func && s.sec.is_some_and(|i| i < 2)).collect(),
            Kind::Pdb => return self.syms.iter().filter(|s| s.func).collect(),
            Kind::Pe => {
                let mut v: Vec<&SymM> = self.syms.iter().filter(|s| s.func).collect();
                v.sort_by_key(|s| s.name.full());
                return v;
            }
        }
        let mut v: Vec<&SymM> = self.syms.iter().filter(|s| s.func && !s.dynamic).collect();
        v.extend(self.syms.iter().filter(|s| s.func && s.dynamic));
        v
    }

    pub fn expected_funcs(&self) -> BTreeMap<u64, ExpFunc> {
        let mut out: BTreeMap<u64, ExpFunc> = BTreeMap::new();
        let mut seen: BTreeSet<(u64, u64)> = BTreeSet::new();
        let syms = self.func_syms();
        for (ui, u) in self.units.iter().enumerate() {
            for (si, f) in u.subs.iter().enumerate() {
                if f.ranges.is_empty() {
                    continue;
                }
                let low = f.ranges.iter().map(|r| r.0).min().unwrap();
                // parts already described elsewhere do not count for the look-up in the symbol table
                let ambiguous = f.ranges.iter().any(|r| seen.contains(r));
                let mut names: Vec<String> = vec![];
                if self.kind != Kind::Pdb {
                    names = syms.iter().filter(|s| s.rva == low).map(|s| s.name.in_func(u.lang)).collect();
                }
                if names.is_empty() || ambiguous {
                    names.push(f.name.shown(u.lang));
                    if ambiguous {
                        let at = |s: &&&SymM| f.ranges.iter().any(|r| r.0 == s.rva);
                        names.extend(syms.iter().filter(at).map(|s| s.name.in_func(u.lang)));
                    }
                }
                for &(a, n) in &f.ranges {
                    if a == 0 {
                        seen.insert((a, n));
                        continue;
                    }
                    if !seen.insert((a, n)) {
                        if self.kind == Kind::Pdb {
                            if let Some(e) = out.get_mut(&a) {
                                e.multiple = e.multiple.filter(|m| *m);
                            }
                        }
                        continue;
                    }
                    match out.get_mut(&a) {
                        Some(e) => e.multiple = Some(true),
                        None => {
                            let e = ExpFunc {
                                addr: a,
                                size: n,
                                names: names.clone(),
                                multiple: Some(false),
                                param: 0,
                                unit: ui,
                                sub: si,
                            };
                            out.insert(a, e);
                        }
                    }
                }
            }
        }
        if self.kind.win() {
            // the symbols give names and parameter sizes to functions
            for y in syms.iter().filter(|s| !names::skipped(&s.name.full())) {
                if let Some(e) = out.get_mut(&y.rva) {
                    let (t, p) = y.name.in_win();
                    for n in e.names.iter_mut().filter(|n| !n.contains('(')) {
                        *n = t.clone();
                    }
                    if let Some(p) = p {
                        e.param = p as u64;
                    }
                }
            }
        }
        out
    }

    pub fn inl_stack<'a>(&'a self, e: &ExpFunc, a: u64) -> Vec<&'a Inl> {
        let mut v = vec![];
        let mut level = &self.units[e.unit].subs[e.sub].inl;
        loop {
            match level.iter().find(|i| i.ranges.iter().any(|r| a >= r.0 && a < r.0 + r.1)) {
                Some(i) => {
                    v.push(i);
                    level = &i.kids;
                }
                None => return v,
            }
        }
    }

    /// All addresses of a function where something can change, and their neighbours.
    pub fn points(&self, e: &ExpFunc) -> Vec<u64> {
        fn add(i: &[Inl], p: &mut BTreeSet<u64>) {
            for x in i {
                for r in &x.ranges {
                    p.insert(r.0);
                    p.insert(r.0 + r.1);
                }
                add(&x.kids, p);
            }
        }
        let mut p = BTreeSet::new();
        let u = &self.units[e.unit];
        add(&u.subs[e.sub].inl, &mut p);
        for (rows, end) in &u.seqs {
            if *end < e.addr || rows[0].addr > e.addr + e.size {
                continue;
            }
            let from = rows.partition_point(|r| r.addr < e.addr);
            for r in rows[from..].iter().take_while(|r| r.addr <= e.addr + e.size) {
                p.insert(r.addr);
            }
            p.insert(*end);
        }
        p.insert(e.addr);
        p.insert(e.addr + e.size - 1);
        let mut q = BTreeSet::new();
        for a in p {
            for x in [a.wrapping_sub(1), a, a + 1] {
                if x >= e.addr && x < e.addr + e.size {
                    q.insert(x);
                }
            }
        }
        q.into_iter().collect()
    }

    /// Position of the outer function at each place where it changes: (address, file, line).
    fn outer_positions(&self, e: &ExpFunc) -> Vec<(u64, usize, u64)> {
        let mut v: Vec<(u64, usize, u64)> = vec![];
        for a in self.points(e) {
            if let Some((mut f, mut l)) = self.row_at(e.unit, a) {
                if let Some(i) = self.inl_stack(e, a).first() {
                    (f, l) = (i.call_file, i.call_line);
                }
                if l == 0 {
                    continue;
                }
                v.push((a, f, l));
            }
        }
        v
    }
}

// ---------------------------------------------------------------- checks

pub fn check_funcs(m: &Module, y: &Sym) -> Result<(), String> {
    let exp = m.expected_funcs();
    y.ordered()?;
    for f in &y.funcs {
        let e = exp.get(&f.addr).ok_or(format!("FUNC {:x} {:x} {:?} is not a function of the module", f.addr, f.size, f.name))?;
        if f.size != e.size {
            return Err(format!("FUNC {:x} {:?}: size {:x} instead of {:x}", f.addr, f.name, f.size, e.size));
        }
        if !e.names.contains(&f.name) {
            return Err(format!("FUNC {:x}: name {:?} instead of {:?}", f.addr, f.name, e.names));
        }
        if e.multiple.is_some_and(|m| m != f.multiple) {
            return Err(format!("FUNC {:x} {:?}: multiple flag is {} instead of {:?}", f.addr, f.name, f.multiple, e.multiple));
        }
        if f.param != e.param {
            return Err(format!("FUNC {:x} {:?}: parameter size {:x} instead of {:x}", f.addr, f.name, f.param, e.param));
        }
    }
    for e in exp.values() {
        if y.func(e.addr).is_none() {
            return Err(format!("no FUNC at {:x} for {:?} (size {:x})", e.addr, e.names, e.size));
        }
    }
    Ok(())
}

/// Shape of the line records of a function.
pub fn line_shape(f: &Func, inlines: bool) -> Result<(), String> {
    let mut prev: Option<&crate::sym::Line> = None;
    for l in &f.lines {
        if l.size == 0 {
            return Err(format!("FUNC {:x}: line record at {:x} of length 0", f.addr, l.addr));
        }
        if let Some(p) = prev {
            if p.addr + p.size != l.addr {
                return Err(format!(
                    "FUNC {:x}: line record {:x}+{:x} does not reach to the next one at {:x}",
                    f.addr, p.addr, p.size, l.addr
                ));
            }
            if !inlines && (p.line, p.file) == (l.line, l.file) {
                return Err(format!("FUNC {:x}: records at {:x} and {:x} repeat line {}", f.addr, p.addr, l.addr, l.line));
            }
        }
        prev = Some(l);
    }
    if let Some(p) = prev {
        if p.addr + p.size != f.addr + f.size {
            return Err(format!("FUNC {:x}: last line record ends at {:x}, function at {:x}", f.addr, p.addr + p.size, f.addr + f.size));
        }
        if f.lines[0].addr < f.addr {
            return Err(format!("FUNC {:x}: line record before the function", f.addr));
        }
    }
    Ok(())
}

pub fn check_lines(m: &Module, y: &Sym, inlines: bool) -> Result<(), String> {
    for e in m.expected_funcs().values() {
        let Some(f) = y.func(e.addr) else { continue };
        if f.size != e.size {
            continue;
        }
        line_shape(f, inlines)?;
        let u = &m.units[e.unit];
        let outer = m.outer_positions(e);
        for a in m.points(e) {
            let Some((rf, rl)) = m.row_at(e.unit, a) else { continue };
            let want: Option<(&str, u64)> = if inlines {
                Some((&u.files[rf].path, rl))
            } else {
                let k = outer.partition_point(|p| p.0 <= a);
                outer[..k].last().map(|p| (u.files[p.1].path.as_str(), p.2))
            };
            // line_shape has shown that the records are sorted and disjoint
            let k = f.lines.partition_point(|l| l.addr <= a);
            let got = f.lines[..k].last().filter(|l| a < l.addr + l.size).map(|l| (y.file(l.file), l.line));
            if got != want {
                return Err(format!(
                    "FUNC {:x} ({}inlines): address {a:x} is at {:?}, dumped as {:?}",
                    f.addr,
                    if inlines { "with " } else { "without " },
                    want,
                    got
                ));
            }
        }
    }
    Ok(())
}

/// Form of the INLINE records (any format).
pub fn inline_shape(f: &Func) -> Result<(), String> {
    for i in &f.inlines {
        for w in i.ranges.windows(2) {
            if w[0].0 + w[0].1 > w[1].0 {
                return Err(format!("FUNC {:x}: INLINE ranges unsorted or overlapping: {:x?}", f.addr, i.ranges));
            }
        }
        if i.ranges.iter().any(|r| r.1 == 0) {
            return Err(format!("FUNC {:x}: empty INLINE range", f.addr));
        }
    }
    for w in f.inlines.windows(2) {
        let k = |i: &crate::sym::Inline| (i.ranges[0].0, i.depth);
        if k(&w[0]) > k(&w[1]) {
            return Err(format!("FUNC {:x}: INLINE records out of order", f.addr));
        }
    }
    Ok(())
}

pub fn check_inlines(m: &Module, y: &Sym) -> Result<(), String> {
    for e in m.expected_funcs().values() {
        let Some(f) = y.func(e.addr) else { continue };
        if f.size != e.size {
            continue;
        }
        inline_shape(f)?;
        let u = &m.units[e.unit];
        for a in m.points(e) {
            let got = f.inlines_at(a);
            if m.row_at(e.unit, a).is_none() {
                continue;
            }
            let st = m.inl_stack(e, a);
            let got: Vec<(u64, &str, &str, u64)> =
                got.iter().map(|i| (i.depth, y.origin(i.origin), y.file(i.call_file), i.call_line)).collect();
            let want: Vec<(u64, String, &str, u64)> = st
                .iter()
                .enumerate()
                .map(|(d, i)| {
                    (d as u64, u.abs[i.origin].shown(u.lang), u.files[i.call_file].path.as_str(), i.call_line)
                })
                .collect();
            if got.len() != want.len()
                || got.iter().zip(&want).any(|(g, w)| (g.0, g.1, g.2, g.3) != (w.0, w.1.as_str(), w.2, w.3))
            {
                return Err(format!("FUNC {:x}: inline stack at {a:x} is {want:?}, dumped as {got:?}", f.addr));
            }
        }
    }
    Ok(())
}

pub struct ExpPublics {
    /// address -> name, multiple, parameter size
    pub must: BTreeMap<u64, (String, bool, u64)>,
    pub may: BTreeSet<u64>,
}

/// Expected PUBLIC records, given the symbols in listing order (rva, size, text).
pub fn expect_publics(funcs: &[(u64, u64)], syms: &[(u64, u64, String, u64)]) -> ExpPublics {
    let mut must: BTreeMap<u64, (String, bool, u64)> = BTreeMap::new();
    let mut may = BTreeSet::new();
    let mut ext: Vec<(u64, u64)> = vec![];
    let mut may_ext: Vec<(u64, u64)> = vec![];
    for (a, n, t, p) in syms {
        if funcs.iter().any(|f| *a >= f.0 && *a < f.0 + f.1.max(1)) {
            continue;
        }
        if let Some(x) = must.get_mut(a) {
            // inside nothing when first listed; a later extent may cover it now
            if ext.iter().chain(&may_ext).any(|e| *a > e.0 && *a < e.0 + e.1) {
                may.insert(*a);
            }
            x.1 = true;
            continue;
        }
        if ext.iter().any(|e| *a > e.0 && *a < e.0 + e.1) {
            // nearest preceding record covers it: surely dropped; otherwise undecided
            let near = ext.iter().filter(|e| e.0 < *a).max_by_key(|e| e.0).unwrap();
            let nf = funcs.iter().filter(|f| f.0 < *a).map(|f| f.0).max().unwrap_or(0);
            if !(*a < near.0 + near.1 && near.0 > nf && may_ext.is_empty()) {
                may.insert(*a);
                may_ext.push((*a, *n));
            }
            continue;
        }
        // inside (or at) a symbol that may or may not be there
        if may_ext.iter().any(|e: &(u64, u64)| *a >= e.0 && *a < (e.0 + e.1).max(e.0 + 1)) {
            may.insert(*a);
            may_ext.push((*a, *n));
            continue;
        }
        must.insert(*a, (t.clone(), false, *p));
        ext.push((*a, *n));
    }
    ExpPublics { must, may }
}
