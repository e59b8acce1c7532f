//! PE writer.
use crate::w::W;

#[derive(Clone, Debug)]
pub struct PeSec {
    pub name: String,
    pub rva: u32,
    pub data: Vec<u8>,
    pub vsize: u32,
    pub chars: u32,
}

#[derive(Clone, Debug)]
pub struct Rsds {
    pub guid: [u8; 16],
    pub age: u32,
    pub path: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Export {
    pub name: Option<String>,
    pub rva: u32,
    /// forwarder string
    pub forward: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Pe {
    pub is64: bool,
    pub machine: u16,
    pub base: u64,
    pub timestamp: u32,
    pub dll: bool,
    pub secs: Vec<PeSec>,
    pub rsds: Option<Rsds>,
    pub exports: Vec<Export>,
    pub export_name: String,
    /// (begin, end, unwind info bytes)
    pub pdata: Vec<(u32, u32, Vec<u8>)>,
    pub size_of_image: u32,
    /// rva where the generated sections (.rdata, .xdata, .pdata, .debug_*) start
    pub meta_rva: u32,
    pub debug: Vec<(&'static str, Vec<u8>)>,
}

pub const CODE: u32 = 0x6000_0020;
pub const RDATA: u32 = 0x4000_0040;

impl Pe {
    pub fn build(&self) -> Vec<u8> {
        let mut secs = self.secs.clone();
        let mut rva = self.meta_rva;
        let mut dirs = [(0u32, 0u32); 16];
        let mut rsds_patch = None;
        let mut add = |secs: &mut Vec<PeSec>, name: &str, data: Vec<u8>, chars: u32| -> u32 {
            let r = rva;
            rva += (data.len() as u32 + 0xfff) & !0xfff;
            rva = rva.max(r + 0x1000);
            secs.push(PeSec { name: name.into(), rva: r, vsize: data.len() as u32, data, chars });
            r
        };
        if !self.exports.is_empty() {
            let start = {
                // address known after add(); build with base 0 first
                let d = self.export_dir(0);
                add(&mut secs, ".edata", d, RDATA)
            };
            let d = self.export_dir(start);
            dirs[0] = (start, d.len() as u32);
            secs.last_mut().unwrap().data = d;
        }
        if let Some(r) = &self.rsds {
            let mut w = W::le();
            // debug directory entry
            w.u32(0).u32(0).u16(0).u16(0).u32(2);
            let len = 24 + r.path.len() + 1;
            w.u32(len as u32).u32(0).u32(0);
            w.bytes(b"RSDS").bytes(&r.guid).u32(r.age).cstr(&r.path);
            let a = add(&mut secs, ".rdata", w.b, RDATA);
            dirs[6] = (a, 28);
            rsds_patch = Some(secs.len() - 1);
        }
        if !self.pdata.is_empty() {
            let mut x = W::le();
            let mut offs = vec![];
            for (_, _, u) in &self.pdata {
                x.align(4);
                offs.push(x.len() as u32);
                x.bytes(u);
            }
            x.align(4);
            x.u32(0);
            let xr = add(&mut secs, ".xdata", x.b, RDATA);
            let mut p = W::le();
            for ((b, e, _), o) in self.pdata.iter().zip(offs) {
                p.u32(*b).u32(*e).u32(xr + o);
            }
            let n = p.len() as u32;
            let pr = add(&mut secs, ".pdata", p.b, RDATA);
            dirs[3] = (pr, n);
        }
        for (n, d) in &self.debug {
            add(&mut secs, &format!(".{n}"), d.clone(), 0x4210_0040);
        }
        let opt = if self.is64 { 112 } else { 96 } + 128;
        let hdr = 0x80 + 4 + 20 + opt + 40 * secs.len();
        let mut off = (hdr + 0x1ff) & !0x1ff;
        let mut offs = vec![];
        for s in &secs {
            offs.push(off as u32);
            off += (s.data.len() + 0x1ff) & !0x1ff;
        }
        let strtab = off;
        let mut str = W::le();
        str.u32(0);
        let mut names = vec![];
        for s in &secs {
            let mut n = [0u8; 8];
            if s.name.len() <= 8 {
                n[..s.name.len()].copy_from_slice(s.name.as_bytes());
            } else {
                let t = format!("/{}", str.len());
                str.cstr(s.name.as_bytes());
                n[..t.len()].copy_from_slice(t.as_bytes());
            }
            names.push(n);
        }
        let n = str.len() as u32;
        str.put32(0, n);
        if let Some(i) = rsds_patch {
            let (r, o) = (secs[i].rva, offs[i]);
            let d = &mut secs[i].data;
            d[20..24].copy_from_slice(&(r + 28).to_le_bytes());
            d[24..28].copy_from_slice(&(o + 28).to_le_bytes());
        }
        let mut w = W::le();
        w.bytes(b"MZ");
        w.pad_to(0x3c);
        w.u32(0x80);
        w.pad_to(0x80);
        w.bytes(b"PE\0\0");
        let has_long = secs.iter().any(|s| s.name.len() > 8);
        w.u16(self.machine).u16(secs.len() as u16).u32(self.timestamp);
        w.u32(if has_long { strtab as u32 } else { 0 }).u32(0).u16(opt as u16);
        w.u16(if self.dll { 0x2022 } else { 0x22 });
        w.u16(if self.is64 { 0x20b } else { 0x10b }).u8(14).u8(0);
        w.u32(0x1000).u32(0).u32(0).u32(0x1000).u32(0x1000);
        if !self.is64 {
            w.u32(0x1000);
        }
        w.word(self.base, self.is64).u32(0x1000).u32(0x200);
        w.u16(6).u16(0).u16(0).u16(0).u16(6).u16(0).u32(0);
        w.u32(self.size_of_image).u32(((hdr + 0x1ff) & !0x1ff) as u32).u32(0).u16(3).u16(0);
        for _ in 0..4 {
            w.word(0x1000, self.is64);
        }
        w.u32(0).u32(16);
        for (a, n) in dirs {
            w.u32(a).u32(n);
        }
        for (i, s) in secs.iter().enumerate() {
            w.bytes(&names[i]).u32(s.vsize).u32(s.rva);
            w.u32(((s.data.len() + 0x1ff) & !0x1ff) as u32).u32(offs[i]).u32(0).u32(0).u16(0).u16(0).u32(s.chars);
        }
        assert_eq!(w.len(), hdr);
        for (s, o) in secs.iter().zip(&offs) {
            w.pad_to(*o as usize);
            w.bytes(&s.data);
        }
        w.pad_to(strtab);
        if has_long {
            w.bytes(&str.b);
        }
        w.b
    }

    fn export_dir(&self, at: u32) -> Vec<u8> {
        let n = self.exports.len();
        let mut named: Vec<(usize, &String)> =
            self.exports.iter().enumerate().filter_map(|(i, e)| e.name.as_ref().map(|x| (i, x))).collect();
        named.sort_by(|a, b| a.1.cmp(b.1));
        let funcs = 40;
        let names = funcs + 4 * n;
        let ords = names + 4 * named.len();
        let strs = ords + 2 * named.len();
        let mut s = W::le();
        s.cstr(self.export_name.as_bytes());
        let mut w = W::le();
        w.u32(0).u32(0).u32(0).u32(at + strs as u32).u32(1).u32(n as u32).u32(named.len() as u32);
        w.u32(at + funcs as u32).u32(at + names as u32).u32(at + ords as u32);
        for e in &self.exports {
            match &e.forward {
                Some(f) => {
                    w.u32(at + strs as u32 + s.len() as u32);
                    s.cstr(f.as_bytes());
                }
                None => {
                    w.u32(e.rva);
                }
            }
        }
        for (_, nm) in &named {
            w.u32(at + strs as u32 + s.len() as u32);
            s.cstr(nm.as_bytes());
        }
        for (i, _) in &named {
            w.u16(*i as u16);
        }
        w.bytes(&s.b);
        w.b
    }
}

pub fn pe_debug_id(guid: &[u8; 16], age: u32) -> String {
    let g = crate::elfmod::guid_text(guid, true);
    format!("{}{:x}", &g[..32], age)
}
