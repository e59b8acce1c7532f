//! Mach-O writer (thin and fat) for program models.
use crate::engine::Src;
use crate::model::Module;
use crate::w::W;

#[derive(Clone, Debug)]
pub struct MachOpts {
    pub cputype: u32,
    pub cpusubtype: u32,
    pub cpu: &'static str,
    pub uuid: Option<[u8; 16]>,
    pub install_name: Option<Vec<u8>>,
    pub debug: bool,
    pub symbols: bool,
    /// extra sections of __TEXT: (name, address, data)
    pub extra: Vec<(String, u64, Vec<u8>)>,
    pub text_seed: u64,
    pub dsym: bool,
}

/// (is64, be, cputype, cpusubtype, name)
pub const CPUS: &[(bool, bool, u32, u32, &str)] = &[
    (true, false, 0x0100_0007, 3, "x86_64"),
    (true, false, 0x0100_000c, 0, "arm64"),
    (false, false, 7, 3, "x86"),
    (false, false, 12, 9, "armv7"),
    (false, true, 18, 0, "ppc"),
    (true, true, 0x0100_0012, 0, "ppc64"),
    (true, false, 0x0100_0007, 8, "x86_64h"),
    (true, false, 0x0100_000c, 2, "arm64e"),
];

impl MachOpts {
    pub fn gen(s: &mut Src, m: &Module) -> MachOpts {
        let c: Vec<_> = CPUS.iter().filter(|x| x.0 == m.is64 && x.1 == m.be).collect();
        let c = *s.pick(&c);
        MachOpts::of(s, c)
    }
    pub fn of(s: &mut Src, c: &(bool, bool, u32, u32, &'static str)) -> MachOpts {
        let uuid = if s.chance(7, 8) {
            let v = s.bytes(16);
            let mut u = [0; 16];
            u.copy_from_slice(&v);
            Some(u)
        } else {
            None
        };
        let install_name = if s.chance(1, 3) {
            Some(s.pick(&["/usr/lib/libvp.dylib", "@rpath/XUL", "plain.dylib"]).as_bytes().to_vec())
        } else {
            None
        };
        MachOpts {
            cputype: c.2,
            cpusubtype: c.3,
            cpu: c.4,
            uuid,
            install_name,
            debug: true,
            symbols: true,
            extra: vec![],
            text_seed: s.u(1 << 20),
            dsym: s.chance(1, 3),
        }
    }
}

fn name16(s: &str) -> [u8; 16] {
    let mut n = [0; 16];
    n[..s.len()].copy_from_slice(s.as_bytes());
    n
}

pub fn sec_name(i: usize) -> String {
    match i {
        0 => "__text".into(),
        1 => "__stubs".into(),
        n => format!("__other{n}"),
    }
}

/// The Mach-O file of a module. Section i of the model becomes __text, __stubs, __other2...
pub fn macho_file(m: &Module, o: &MachOpts) -> Vec<u8> {
    let (is64, be) = (m.is64, m.be);
    struct S {
        name: String,
        seg: &'static str,
        addr: u64,
        data: Vec<u8>,
        flags: u32,
        size: u64,
    }
    let mut text: Vec<S> = vec![];
    for (i, x) in m.sections.iter().enumerate() {
        text.push(S {
            name: sec_name(i),
            seg: "__TEXT",
            addr: m.base + x.rva,
            data: crate::elfmod::text_bytes(o.text_seed + i as u64, x.size as usize),
            flags: 0x8000_0400,
            size: x.size,
        });
    }
    for (n, a, d) in &o.extra {
        text.push(S { name: n.clone(), seg: "__TEXT", addr: *a, size: d.len() as u64, data: d.clone(), flags: 0 });
    }
    let mut dw: Vec<S> = vec![];
    if o.debug {
        for (n, d) in m.dwarf() {
            let n = format!("__{n}");
            dw.push(S { name: n.chars().take(16).collect(), seg: "__DWARF", addr: 0, size: d.len() as u64, data: d, flags: 0x0200_0000 });
        }
    }
    // symbols
    let mut str = W::new(be);
    str.u8(b' ').u8(0);
    let mut sy = W::new(be);
    let mut nsyms = 0u32;
    if o.symbols {
        for x in &m.syms {
            let n = str.len();
            let mut name = vec![b'_'];
            name.extend(x.name.full().bytes());
            str.cstr(&name);
            let (ty, sect) = match (x.func, x.sec) {
                (true, Some(i)) => (0x0e | if x.local { 0 } else { 1 }, i as u8 + 1),
                (false, Some(i)) if x.size % 2 == 0 => (0x24, i as u8 + 1), // N_FUN stab
                _ => (0x02, 0),
            };
            sy.u32(n as u32).u8(ty).u8(sect).u16(0).word(m.base + x.rva, is64);
            nsyms += 1;
        }
    }
    let hdr = if is64 { 32 } else { 28 };
    let segsz = if is64 { 72 } else { 56 };
    let secsz = if is64 { 80 } else { 68 };
    let mut ncmds = 1;
    let mut cmdsz = segsz + secsz * text.len();
    if !dw.is_empty() {
        ncmds += 1;
        cmdsz += segsz + secsz * dw.len();
    }
    if o.symbols {
        ncmds += 1;
        cmdsz += 24;
    }
    if o.uuid.is_some() {
        ncmds += 1;
        cmdsz += 24;
    }
    let idsz = o.install_name.as_ref().map(|n| (24 + n.len() + 1 + 7) & !7).unwrap_or(0);
    if idsz > 0 {
        ncmds += 1;
        cmdsz += idsz;
    }
    let mut off = (hdr + cmdsz + 15) & !15;
    let mut place = |v: &[S]| -> Vec<usize> {
        v.iter()
            .map(|s| {
                let o = off;
                off = (off + s.data.len() + 7) & !7;
                o
            })
            .collect()
    };
    let to = place(&text);
    let tend = to.last().map(|x| x + text.last().unwrap().data.len()).unwrap_or(0);
    let do_ = place(&dw);
    let symoff = off;
    let stroff = symoff + sy.len();
    let total = stroff + str.len();
    let mut w = W::new(be);
    w.u32(if is64 { 0xfeedfacf } else { 0xfeedface }).u32(o.cputype).u32(o.cpusubtype);
    w.u32(if o.dsym {
        10
    } else if o.install_name.is_some() {
        6
    } else {
        2
    });
    w.u32(ncmds).u32(cmdsz as u32).u32(0);
    if is64 {
        w.u32(0);
    }
    let seg = |w: &mut W, name: &str, addr: u64, fo: usize, fsz: usize, secs: &[S], offs: &[usize]| {
        w.u32(if is64 { 0x19 } else { 1 }).u32((segsz + secsz * secs.len()) as u32).bytes(&name16(name));
        let vmsz = secs.iter().map(|s| (s.addr + s.size).saturating_sub(addr)).max().unwrap_or(0).max(fsz as u64);
        w.word(addr, is64).word(vmsz, is64).word(fo as u64, is64).word(fsz as u64, is64);
        w.u32(7).u32(5).u32(secs.len() as u32).u32(0);
        for (s, off) in secs.iter().zip(offs) {
            w.bytes(&name16(&s.name)).bytes(&name16(s.seg));
            w.word(s.addr, is64).word(s.size, is64);
            w.u32(*off as u32).u32(0).u32(0).u32(0).u32(s.flags).u32(0).u32(0);
            if is64 {
                w.u32(0);
            }
        }
    };
    seg(&mut w, "__TEXT", m.base, 0, tend, &text, &to);
    if !dw.is_empty() {
        seg(&mut w, "__DWARF", m.base + 0x0100_0000, do_[0], symoff - do_[0], &dw, &do_);
    }
    if o.symbols {
        w.u32(2).u32(24).u32(symoff as u32).u32(nsyms).u32(stroff as u32).u32(str.len() as u32);
    }
    if let Some(u) = &o.uuid {
        w.u32(0x1b).u32(24).bytes(u);
    }
    if let Some(n) = &o.install_name {
        let st = w.len();
        w.u32(0xd).u32(idsz as u32).u32(24).u32(1).u32(0x10000).u32(0x10000).cstr(n);
        w.pad_to(st + idsz);
    }
    for (s, of) in text.iter().zip(&to).chain(dw.iter().zip(&do_)) {
        w.pad_to(*of);
        w.bytes(&s.data);
    }
    w.pad_to(symoff);
    w.bytes(&sy.b).bytes(&str.b);
    assert_eq!(w.len(), total);
    w.b
}

/// A fat file of thin files with their CPU types.
pub fn fat(parts: &[(u32, u32, Vec<u8>)]) -> Vec<u8> {
    fat_aligned(parts, 12)
}
pub fn fat_aligned(parts: &[(u32, u32, Vec<u8>)], align: u32) -> Vec<u8> {
    let mask = (1usize << align) - 1;
    let mut w = W::new(true);
    w.u32(0xcafebabe).u32(parts.len() as u32);
    let mut off = (8 + 20 * parts.len() + mask) & !mask;
    let mut offs = vec![];
    for (t, st, d) in parts {
        w.u32(*t).u32(*st).u32(off as u32).u32(d.len() as u32).u32(align);
        offs.push(off);
        off = (off + d.len() + mask) & !mask;
    }
    for ((_, _, d), o) in parts.iter().zip(offs) {
        w.pad_to(o);
        w.bytes(d);
    }
    w.b
}

pub fn debug_id(o: &MachOpts) -> String {
    match o.uuid {
        Some(u) => crate::elfmod::guid_text(&u, false),
        None => "000000000000000000000000000000000".into(),
    }
}
