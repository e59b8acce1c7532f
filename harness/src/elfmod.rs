//! Modules as ELF files.
use crate::elf::*;
use crate::engine::{Rng, Src};
use crate::model::Module;

#[derive(Clone, Debug)]
pub struct ElfOpts {
    pub machine: u16,
    pub flags: u32,
    pub cpu: &'static str,
    pub build_id: Option<Vec<u8>>,
    pub soname: Option<Vec<u8>>,
    pub id_in_phdr: bool,
    pub id_in_sec: bool,
    pub etype: u16,
    pub debug: bool,
    pub symbols: bool,
    /// text sections without contents (separate debug file)
    pub nobits: bool,
    pub text_seed: u64,
    /// extra sections (.eh_frame, ...)
    pub extra: Vec<Sec>,
    /// non-executable sections
    /// type of the second and later code sections
    pub code_type: u32,
    pub data_sec: bool,
}

/// (is64, be, machine, flags, cpu)
pub const MACHINES: &[(bool, bool, u16, u32, &str)] = &[
    (true, false, 62, 0, "x86_64"),
    (true, false, 183, 0, "arm64"),
    (false, false, 3, 0, "x86"),
    (false, false, 40, 0x0500_0000, "arm"),
    (true, true, 21, 0, "ppc64"),
    (false, true, 20, 0, "ppc"),
    (true, false, 8, 0x6000_2000, "mips64"),
    (false, true, 8, 0x5000_1000, "mips"),
    (true, true, 8, 0x8000_4000, "mips64"),
    (false, false, 8, 0x7000_1000, "mips"),
];

impl ElfOpts {
    pub fn gen(s: &mut Src, m: &Module) -> ElfOpts {
        let c: Vec<_> = MACHINES.iter().filter(|x| x.0 == m.is64 && x.1 == m.be).collect();
        let c = *s.pick(&c);
        let build_id = match s.u(6) {
            0..=3 => Some(s.bytes(20)),
            4 => {
                let n = s.usr(1, 40);
                Some(s.bytes(n))
            }
            _ => None,
        };
        let soname = if s.chance(1, 4) {
            Some(s.pick(&["libfoo.so.1", "libvp.so", "lib with blank.so", "dir/libx.so"]).as_bytes().to_vec())
        } else {
            None
        };
        let id_in_phdr = s.chance(2, 3);
        ElfOpts {
            machine: c.2,
            flags: c.3,
            cpu: c.4,
            build_id,
            soname,
            id_in_phdr,
            id_in_sec: !id_in_phdr || s.chance(1, 2),
            etype: *s.pick(&[3, 2]),
            debug: true,
            symbols: true,
            nobits: false,
            text_seed: s.u(1 << 20),
            extra: vec![],
            code_type: if s.chance(1, 6) { *s.pick(&[0x7000_0001, 14, 0x6fff_fff0]) } else { PROGBITS },
            data_sec: s.chance(1, 2),
        }
    }
}

pub fn text_bytes(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| r.next() as u8).collect()
}

pub fn elf_spec(m: &Module, o: &ElfOpts) -> Elf {
    let mut secs = vec![];
    for (i, x) in m.sections.iter().enumerate() {
        let mut s = Sec::new(&x.name, if i > 0 { o.code_type } else { PROGBITS }, A | X, m.base.wrapping_add(x.rva), vec![]);
        if o.nobits {
            s.typ = NOBITS;
            s.nobits = Some(x.size);
        } else {
            s.data = text_bytes(o.text_seed + i as u64, x.size as usize);
        }
        secs.push(s);
    }
    if o.data_sec {
        secs.push(Sec::new(".data", PROGBITS, A | 1, m.base.wrapping_add(0x0080_0000), vec![1; 64]));
        secs.push(Sec::new(".comment", PROGBITS, 0, 0, b"vp\0".to_vec()));
    }
    secs.extend(o.extra.iter().cloned());
    if o.debug {
        for (n, d) in m.dwarf() {
            secs.push(Sec::new(&format!(".{n}"), PROGBITS, 0, 0, d));
        }
    }
    let conv = |dynamic: bool| -> Vec<ElfSym> {
        let mut v: Vec<ElfSym> = m
            .syms
            .iter()
            .filter(|s| s.dynamic == dynamic)
            .map(|s| ElfSym {
                name: s.name.full().into_bytes(),
                value: m.base.wrapping_add(s.rva),
                size: s.size,
                typ: if s.func { 2 } else { 1 },
                bind: if s.local { 0 } else { 1 },
                shndx: s.sec.map(|i| i as u16 + 1).unwrap_or(0xfff1),
            })
            .collect();
        // an undefined symbol never counts
        if dynamic && !v.is_empty() {
            v.push(ElfSym { name: b"imported_fn".to_vec(), value: 0, size: 0, typ: 2, bind: 1, shndx: 0 });
        }
        v
    };
    let (st, dy) = (conv(false), conv(true));
    Elf {
        is64: m.is64,
        be: m.be,
        machine: o.machine,
        flags: o.flags,
        etype: o.etype,
        base: Some(m.base),
        secs,
        symtab: if o.symbols && !st.is_empty() { Some(st) } else { None },
        dynsym: if o.symbols && !dy.is_empty() { Some(dy) } else { None },
        soname: o.soname.clone(),
        build_id: o.build_id.clone(),
        id_in_phdr: o.id_in_phdr,
        id_in_sec: o.id_in_sec,
        no_sections: false,
    }
}

pub fn elf_file(m: &Module, o: &ElfOpts) -> Vec<u8> {
    elf_spec(m, o).build()
}

/// The Breakpad debug identifier of an ELF file.
pub fn debug_id(m: &Module, o: &ElfOpts) -> Option<String> {
    let mut d = [0u8; 16];
    match &o.build_id {
        Some(b) => {
            let n = b.len().min(16);
            d[..n].copy_from_slice(&b[..n]);
        }
        None => {
            if o.nobits {
                return None;
            }
            let t = text_bytes(o.text_seed, m.sections[0].size as usize);
            for (i, x) in t.iter().take(4096).enumerate() {
                d[i % 16] ^= x;
            }
        }
    }
    Some(guid_text(&d, !m.be))
}

pub fn guid_text(d: &[u8; 16], swap: bool) -> String {
    let mut d = *d;
    if swap {
        d[0..4].reverse();
        d[4..6].reverse();
        d[6..8].reverse();
    }
    let h: String = d.iter().map(|b| format!("{b:02X}")).collect();
    format!("{h}0")
}
