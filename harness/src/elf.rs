//! ELF writer.
use crate::w::W;

#[derive(Clone, Debug, Default)]
pub struct Sec {
    pub name: Vec<u8>,
    pub typ: u32,
    pub flags: u64,
    /// absolute address (0 = not loaded)
    pub addr: u64,
    pub data: Vec<u8>,
    /// size for NOBITS
    pub nobits: Option<u64>,
    pub link: u32,
    pub info: u32,
    pub entsize: u64,
}
impl Sec {
    pub fn new(name: &str, typ: u32, flags: u64, addr: u64, data: Vec<u8>) -> Sec {
        Sec { name: name.as_bytes().to_vec(), typ, flags, addr, data, ..Default::default() }
    }
}

pub const PROGBITS: u32 = 1;
pub const SYMTAB: u32 = 2;
pub const STRTAB: u32 = 3;
pub const DYNAMIC: u32 = 6;
pub const NOTE: u32 = 7;
pub const NOBITS: u32 = 8;
pub const DYNSYM: u32 = 11;
pub const A: u64 = 2;
pub const X: u64 = 4;

#[derive(Clone)]
pub struct ElfSym {
    pub name: Vec<u8>,
    pub value: u64,
    pub size: u64,
    /// STT_*
    pub typ: u8,
    /// STB_*
    pub bind: u8,
    /// section header index (as in `Elf::secs` + 1) or 0 / 0xfff1
    pub shndx: u16,
}

#[derive(Clone, Default)]
pub struct Elf {
    pub is64: bool,
    pub be: bool,
    pub machine: u16,
    pub flags: u32,
    pub etype: u16,
    /// vaddr of the first PT_LOAD; None = no program headers
    pub base: Option<u64>,
    pub secs: Vec<Sec>,
    pub symtab: Option<Vec<ElfSym>>,
    pub dynsym: Option<Vec<ElfSym>>,
    pub soname: Option<Vec<u8>>,
    pub build_id: Option<Vec<u8>>,
    /// put the build id only in a program header / only in a section / both
    pub id_in_phdr: bool,
    pub id_in_sec: bool,
    pub no_sections: bool,
}

/// stands for a name outside of the string table
pub const BAD_NAME: &str = "<bad name>";

fn syms(list: &[ElfSym], is64: bool, be: bool) -> (Vec<u8>, Vec<u8>) {
    let mut str = W::new(be);
    str.u8(0);
    let mut w = W::new(be);
    if is64 {
        w.pad_to(24);
    } else {
        w.pad_to(16);
    }
    for s in list {
        let n = if s.name.is_empty() {
            0
        } else if s.name == BAD_NAME.as_bytes() {
            0x7fff_ff00
        } else {
            let n = str.len();
            str.cstr(&s.name);
            n
        };
        let info = (s.bind << 4) | s.typ;
        if is64 {
            w.u32(n as u32).u8(info).u8(0).u16(s.shndx).u64(s.value).u64(s.size);
        } else {
            w.u32(n as u32).u32(s.value as u32).u32(s.size as u32).u8(info).u8(0).u16(s.shndx);
        }
    }
    (w.b, str.b)
}

impl Elf {
    /// index (for st_shndx) of a section of `secs`
    pub fn build(&self) -> Vec<u8> {
        let (is64, be) = (self.is64, self.be);
        let mut secs = self.secs.clone();
        let ent = if is64 { 24 } else { 16 };
        if let Some(l) = &self.symtab {
            let (d, s) = syms(l, is64, be);
            let link = secs.len() as u32 + 2;
            secs.push(Sec { link, info: 1, entsize: ent, ..Sec::new(".symtab", SYMTAB, 0, 0, d) });
            secs.push(Sec::new(".strtab", STRTAB, 0, 0, s));
        }
        // dynamic things get addresses after everything else, inside the PT_LOAD of the file
        let mut dynstr = vec![0u8];
        let soname_off = self.soname.as_ref().map(|s| {
            let o = dynstr.len();
            dynstr.extend_from_slice(s);
            dynstr.push(0);
            o
        });
        let mut dyn_idx = None;
        if self.dynsym.is_some() || self.soname.is_some() {
            let (d, s) = syms(self.dynsym.as_deref().unwrap_or(&[]), is64, be);
            // dynsym names live in their own table following the soname
            let shift = dynstr.len();
            // rebase name offsets
            let mut d = d;
            let esz = ent as usize;
            let d_count = d.len() / esz;
            for i in 1..d_count {
                let o = i * esz;
                let mut x = [0u8; 4];
                x.copy_from_slice(&d[o..o + 4]);
                let v = if be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) };
                if v != 0 {
                    let v = v + shift as u32;
                    let x = if be { v.to_be_bytes() } else { v.to_le_bytes() };
                    d[o..o + 4].copy_from_slice(&x);
                }
            }
            dynstr.extend_from_slice(&s);
            let link = secs.len() as u32 + 2;
            secs.push(Sec { link, info: 1, entsize: ent, ..Sec::new(".dynsym", DYNSYM, A, 1, d) });
            secs.push(Sec::new(".dynstr", STRTAB, A, 1, dynstr.clone()));
            let cnt = d_count as u32;
            let mut h = W::new(be);
            h.u32(1).u32(cnt).u32(if cnt > 1 { 1 } else { 0 });
            for k in 0..cnt {
                h.u32(if k == 0 || k + 1 >= cnt { 0 } else { k + 1 });
            }
            secs.push(Sec { link: link - 1, entsize: 4, ..Sec::new(".hash", 5, A, 1, h.b) });
            dyn_idx = Some(secs.len());
            let n = if is64 { 16 } else { 8 };
            let mut dyn_sec = Sec::new(".dynamic", DYNAMIC, A, 1, vec![0; n * 8]);
            dyn_sec.link = link;
            dyn_sec.entsize = n as u64;
            secs.push(dyn_sec);
        }
        let mut note_idx = None;
        if let Some(id) = &self.build_id {
            let mut w = W::new(be);
            w.u32(4).u32(id.len() as u32).u32(3).bytes(b"GNU\0").bytes(id);
            w.align(4);
            if self.id_in_sec || !self.id_in_phdr {
                note_idx = Some(secs.len());
                secs.push(Sec::new(".note.gnu.build-id", NOTE, A, 1, w.b));
            } else {
                note_idx = Some(secs.len());
                // only reachable through the program header
                secs.push(Sec::new(".data.note", PROGBITS, A, 1, w.b));
            }
        }
        let mut shstr = vec![0u8];
        let mut names = vec![];
        for s in &secs {
            names.push(shstr.len());
            shstr.extend_from_slice(&s.name);
            shstr.push(0);
        }
        let shname = shstr.len();
        shstr.extend_from_slice(b".shstrtab\0");
        let base = self.base.unwrap_or(0);
        let phnum = match self.base {
            None => 0,
            Some(_) => 1 + 2 * dyn_idx.is_some() as usize + (note_idx.is_some() && self.id_in_phdr) as usize,
        };
        let ehsize = if is64 { 64 } else { 52 };
        let phent = if is64 { 56 } else { 32 };
        let mut off = ehsize + phent * phnum;
        let mut offs = vec![];
        // dynamic sections: virtual address = base + 0x4000_0000 + offset
        for s in secs.iter_mut() {
            off = (off + 7) & !7;
            offs.push(off);
            if s.addr == 1 {
                s.addr = if self.base.is_some() { base.wrapping_add(0x0100_0000 + off as u64) } else { 0 };
            }
            if s.nobits.is_none() {
                off += s.data.len();
            }
        }
        if let Some(i) = dyn_idx {
            let a = |k: usize| secs[k].addr;
            let mut w = W::new(be);
            let mut put = |t: u64, v: u64| {
                w.word(t, is64).word(v, is64);
            };
            if let Some(o) = soname_off {
                put(14, o as u64);
            }
            put(4, a(i - 1)); // HASH
            put(5, a(i - 2)); // STRTAB
            put(10, secs[i - 2].data.len() as u64);
            put(6, a(i - 3)); // SYMTAB
            put(11, ent);
            put(0, 0);
            let n = secs[i].data.len();
            w.pad_to(n);
            secs[i].data = w.b;
        }
        let shstr_off = off;
        let sh_off = (shstr_off + shstr.len() + 7) & !7;
        let mut w = W::new(be);
        w.bytes(&[0x7f, b'E', b'L', b'F', if is64 { 2 } else { 1 }, if be { 2 } else { 1 }, 1, 0]);
        w.pad_to(16);
        w.u16(self.etype).u16(self.machine).u32(1);
        w.word(0, is64).word(if phnum > 0 { ehsize as u64 } else { 0 }, is64);
        w.word(if self.no_sections { 0 } else { sh_off as u64 }, is64);
        w.u32(self.flags).u16(ehsize as u16).u16(phent as u16).u16(phnum as u16);
        if self.no_sections {
            w.u16(if is64 { 64 } else { 40 }).u16(0).u16(0);
        } else {
            w.u16(if is64 { 64 } else { 40 }).u16(secs.len() as u16 + 2).u16(secs.len() as u16 + 1);
        }
        let ph = |w: &mut W, typ: u32, flags: u32, off: u64, va: u64, size: u64, memsz: u64| {
            if is64 {
                w.u32(typ).u32(flags).u64(off).u64(va).u64(va).u64(size).u64(memsz).u64(8);
            } else {
                w.u32(typ).u32(off as u32).u32(va as u32).u32(va as u32).u32(size as u32).u32(memsz as u32);
                w.u32(flags).u32(8);
            }
        };
        if phnum > 0 {
            // The first load segment has the headers; the dynamic parts are found through a
            // second one mapping the whole file at base + 0x01000000.
            ph(&mut w, 1, 5, 0, base, ehsize as u64, ehsize as u64);
            if let Some(i) = dyn_idx {
                ph(&mut w, 1, 4, 0, base.wrapping_add(0x0100_0000), sh_off as u64, sh_off as u64);
                ph(&mut w, 2, 6, offs[i] as u64, secs[i].addr, secs[i].data.len() as u64, secs[i].data.len() as u64);
            }
            if let (Some(i), true) = (note_idx, self.id_in_phdr) {
                ph(&mut w, 4, 4, offs[i] as u64, secs[i].addr, secs[i].data.len() as u64, secs[i].data.len() as u64);
            }
        }
        for (s, o) in secs.iter().zip(&offs) {
            if s.nobits.is_none() {
                w.pad_to(*o);
                w.bytes(&s.data);
            }
        }
        w.pad_to(shstr_off);
        w.bytes(&shstr);
        if self.no_sections {
            return w.b;
        }
        w.pad_to(sh_off);
        let sh = |w: &mut W, name: usize, s: &Sec, off: usize, size: u64| {
            w.u32(name as u32).u32(s.typ);
            w.word(s.flags, is64).word(s.addr, is64).word(off as u64, is64).word(size, is64);
            w.u32(s.link).u32(s.info).word(8, is64).word(s.entsize, is64);
        };
        sh(&mut w, 0, &Sec::default(), 0, 0);
        for (i, s) in secs.iter().enumerate() {
            sh(&mut w, names[i], s, offs[i], s.nobits.unwrap_or(s.data.len() as u64));
        }
        sh(&mut w, shname, &Sec::new(".shstrtab", STRTAB, 0, 0, vec![]), shstr_off, shstr.len() as u64);
        w.b
    }
}
