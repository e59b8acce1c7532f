//! PDB writer (MSF 7.00 container, TPI/IPI/DBI streams, module streams with C13 line tables).
use crate::w::W;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct PSec {
    pub name: String,
    pub rva: u32,
    pub size: u32,
    pub chars: u32,
}
/// (section number from 1, offset)
pub type At = (u16, u32);

#[derive(Clone, Debug)]
pub struct Row {
    pub off: u32,
    pub file: usize,
    pub line: u32,
}
#[derive(Clone, Debug)]
pub struct Part {
    pub at: At,
    pub len: u32,
    pub rows: Vec<Row>,
}
#[derive(Clone, Debug)]
pub struct Site {
    /// index into Pdb::ids
    pub inlinee: usize,
    /// (offset from the procedure, length, file, line)
    pub segs: Vec<(u32, u32, usize, u32)>,
    pub kids: Vec<Site>,
    pub form: bool,
}
#[derive(Clone, Debug)]
pub struct Proc {
    pub name: Vec<u8>,
    pub typ: u32,
    pub local: bool,
    /// the procedure, then its separated parts
    pub parts: Vec<Part>,
    pub sites: Vec<Site>,
}
#[derive(Clone, Debug, Default)]
pub struct PMod {
    pub name: String,
    pub files: Vec<Vec<u8>>,
    pub procs: Vec<Proc>,
    /// inlinee id -> (file, line)
    pub inlinees: BTreeMap<usize, (usize, u32)>,
}
#[derive(Clone, Debug)]
pub struct Frame {
    pub start: u32,
    pub size: u32,
    pub locals: u32,
    pub params: u32,
    pub max_stack: u32,
    pub func: Vec<u8>,
    pub prolog: u16,
    pub saved: u16,
    pub flags: u32,
}
#[derive(Clone, Debug)]
pub struct Pdb {
    pub guid: [u8; 16],
    pub age: u32,
    pub info_age: u32,
    pub machine: u16,
    pub page: usize,
    pub secs: Vec<PSec>,
    pub types: Vec<(u16, Vec<u8>)>,
    pub ids: Vec<(u16, Vec<u8>)>,
    pub mods: Vec<PMod>,
    pub publics: Vec<(Vec<u8>, At, u32)>,
    pub frames: Vec<Frame>,
    /// damage: module, place in its stream (modulo the length), new byte
    pub hits: Vec<(usize, usize, u8)>,
}

/// The basic types used in argument lists: (index, text)
pub const BASIC: &[(u32, &str)] = &[(0x74, "int"), (0x75, "unsigned int"), (0x40, "float"), (0x41, "double"), (0x30, "bool"), (0x70, "char")];

pub fn arglist(t: &[u32]) -> (u16, Vec<u8>) {
    let mut w = W::le();
    w.u32(t.len() as u32);
    for x in t {
        w.u32(*x);
    }
    (0x1201, w.b)
}
pub fn procedure(ret: u32, n: u16, args: u32) -> (u16, Vec<u8>) {
    let mut w = W::le();
    w.u32(ret).u8(0).u8(0).u16(n).u32(args);
    (0x1008, w.b)
}
pub fn func_id(typ: u32, name: &[u8]) -> (u16, Vec<u8>) {
    let mut w = W::le();
    w.u32(0).u32(typ).cstr(name);
    (0x1601, w.b)
}

fn tpi(recs: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut r = W::le();
    for (k, d) in recs {
        let mut d = d.clone();
        while (d.len() + 4) % 4 != 0 {
            d.push(0xf0 + (4 - d.len() % 4) as u8);
        }
        r.u16(d.len() as u16 + 2).u16(*k).bytes(&d);
    }
    let mut w = W::le();
    w.u32(20040203).u32(56).u32(0x1000).u32(0x1000 + recs.len() as u32).u32(r.len() as u32);
    w.u16(0xffff).u16(0xffff).u32(4).u32(0x3ffff);
    for _ in 0..3 {
        w.u32(0).u32(0);
    }
    w.bytes(&r.b);
    w.b
}

fn cu(w: &mut W, v: u32) {
    if v < 0x80 {
        w.u8(v as u8);
    } else if v < 0x4000 {
        w.u8(0x80 | (v >> 8) as u8).u8(v as u8);
    } else {
        assert!(v < 0x2000_0000);
        w.u8(0xc0 | (v >> 24) as u8).u8((v >> 16) as u8).u8((v >> 8) as u8).u8(v as u8);
    }
}

struct Names {
    w: W,
    ids: BTreeMap<Vec<u8>, u32>,
}
impl Names {
    fn get(&mut self, n: &[u8]) -> u32 {
        if let Some(x) = self.ids.get(n) {
            return *x;
        }
        let o = self.w.len() as u32;
        self.w.cstr(n);
        self.ids.insert(n.to_vec(), o);
        o
    }
}

fn rec(w: &mut W, kind: u16, d: &[u8]) {
    let n = (d.len() + 2 + 2 + 3) & !3;
    w.u16(n as u16 - 2).u16(kind).bytes(d);
    w.align(4);
}

fn site(w: &mut W, s: &Site, m: &PMod, fid: &[u32]) {
    let mut d = W::le();
    d.u32(0).u32(0).u32(0x1000 + s.inlinee as u32);
    let (mut file, base) = m.inlinees.get(&s.inlinee).copied().unwrap_or((0, 0));
    let mut line = base as i64;
    let mut pos = 0u32;
    for &(off, len, f, l) in &s.segs {
        if f != file {
            cu(&mut d, 5);
            cu(&mut d, fid[f]);
            file = f;
        }
        if l as i64 != line {
            let x = l as i64 - line;
            cu(&mut d, 6);
            cu(&mut d, ((x.unsigned_abs() as u32) << 1) | (x < 0) as u32);
            line = l as i64;
        }
        if s.form {
            cu(&mut d, 12);
            cu(&mut d, len);
            cu(&mut d, off - pos);
            pos = off;
        } else {
            cu(&mut d, 3);
            cu(&mut d, off - pos);
            cu(&mut d, 4);
            cu(&mut d, len);
            pos = off + len;
        }
    }
    d.align(4);
    rec(w, 0x114d, &d.b);
    for k in &s.kids {
        site(w, k, m, fid);
    }
    rec(w, 0x114e, &[]);
}

fn module(m: &PMod, names: &mut Names) -> (Vec<u8>, u32, u32) {
    // file checksums first: ids are offsets
    let mut ck = W::le();
    let mut fid = vec![];
    for f in &m.files {
        fid.push(ck.len() as u32);
        let n = names.get(f);
        ck.u32(n).u8(16).u8(1).bytes(&[7; 16]);
        ck.align(4);
    }
    let mut w = W::le();
    w.u32(4);
    for p in &m.procs {
        let a = &p.parts[0];
        let mut d = W::le();
        d.u32(0).u32(0).u32(0).u32(a.len).u32(0).u32(a.len).u32(p.typ).u32(a.at.1).u16(a.at.0).u8(0).cstr(&p.name);
        rec(&mut w, if p.local { 0x110f } else { 0x1110 }, &d.b);
        for s in &p.sites {
            site(&mut w, s, m, &fid);
        }
        rec(&mut w, 6, &[]);
        for b in &p.parts[1..] {
            let mut d = W::le();
            d.u32(0).u32(0).u32(b.len).u32(0).u32(b.at.1).u32(a.at.1).u16(b.at.0).u16(a.at.0);
            rec(&mut w, 0x1132, &d.b);
            rec(&mut w, 6, &[]);
        }
    }
    let syms = w.len() as u32;
    let start = w.len();
    let sub = |w: &mut W, k: u32, d: &[u8]| {
        w.u32(k).u32(d.len() as u32).bytes(d);
        w.align(4);
    };
    sub(&mut w, 0xf4, &ck.b);
    for p in &m.procs {
        for b in &p.parts {
            if b.rows.is_empty() {
                continue;
            }
            let mut d = W::le();
            d.u32(b.at.1).u16(b.at.0).u16(0).u32(b.len);
            let mut i = 0;
            while i < b.rows.len() {
                let mut j = i;
                while j < b.rows.len() && b.rows[j].file == b.rows[i].file {
                    j += 1;
                }
                d.u32(fid[b.rows[i].file]).u32((j - i) as u32).u32(12 + 8 * (j - i) as u32);
                for r in &b.rows[i..j] {
                    d.u32(r.off).u32(r.line | 0x8000_0000);
                }
                i = j;
            }
            sub(&mut w, 0xf2, &d.b);
        }
    }
    if !m.inlinees.is_empty() {
        let mut d = W::le();
        d.u32(0);
        for (k, (f, l)) in &m.inlinees {
            d.u32(0x1000 + *k as u32).u32(fid[*f]).u32(*l);
        }
        sub(&mut w, 0xf6, &d.b);
    }
    let c13 = (w.len() - start) as u32;
    w.u32(0); // global refs
    (w.b, syms, c13)
}

impl Pdb {
    pub fn build(&self) -> Vec<u8> {
        let mut names = Names { w: W::le(), ids: BTreeMap::new() };
        names.w.u8(0);
        let mut mods = vec![];
        for m in &self.mods {
            mods.push(module(m, &mut names));
        }
        for (m, at, v) in &self.hits {
            let n = mods[*m].0.len();
            mods[*m].0[at % n] = *v;
        }
        let mut streams: Vec<Vec<u8>> = vec![vec![]; 8];
        let first_mod = 8;
        for m in &mods {
            streams.push(m.0.clone());
        }
        let frame_stream = if self.frames.is_empty() {
            0xffff
        } else {
            let mut w = W::le();
            for f in &self.frames {
                let n = names.get(&f.func);
                w.u32(f.start).u32(f.size).u32(f.locals).u32(f.params).u32(f.max_stack).u32(n);
                w.u16(f.prolog).u16(f.saved).u32(f.flags);
            }
            streams.push(w.b);
            streams.len() as u16 - 1
        };
        // 1: info
        let mut w = W::le();
        w.u32(20000404).u32(0x5f00_0000).u32(self.info_age).bytes(&self.guid);
        w.u32(7).bytes(b"/names\0");
        w.u32(1).u32(1).u32(1).u32(1).u32(0).u32(0).u32(5).u32(0).u32(20140508);
        streams[1] = w.b;
        streams[2] = tpi(&self.types);
        streams[4] = tpi(&self.ids);
        // 5: names
        let mut w = W::le();
        w.u32(0xEFFE_EFFE).u32(1).u32(names.w.len() as u32).bytes(&names.w.b).u32(1).u32(0).u32(0);
        streams[5] = w.b;
        // 6: symbol records
        let mut w = W::le();
        for (n, at, fl) in &self.publics {
            let mut d = W::le();
            d.u32(*fl).u32(at.1).u16(at.0).cstr(n);
            rec(&mut w, 0x110e, &d.b);
        }
        streams[6] = w.b;
        // 7: section headers
        let mut w = W::le();
        for s in &self.secs {
            let mut n = [0u8; 8];
            let l = s.name.len().min(8);
            n[..l].copy_from_slice(&s.name.as_bytes()[..l]);
            w.bytes(&n).u32(s.size).u32(s.rva).u32(s.size).u32(0x400).u32(0).u32(0).u16(0).u16(0).u32(s.chars);
        }
        streams[7] = w.b;
        // 3: DBI
        let mut ml = W::le();
        for (i, m) in self.mods.iter().enumerate() {
            ml.u32(0).u16(1).u16(0).u32(0).u32(0).u32(0x6000_0020).u16(i as u16).u16(0).u32(0).u32(0);
            ml.u16(0).u16((first_mod + i) as u16).u32(mods[i].1).u32(0).u32(mods[i].2);
            ml.u16(m.files.len() as u16).u16(0).u32(0).u32(0).u32(0);
            ml.cstr(m.name.as_bytes()).cstr(m.name.as_bytes());
            ml.align(4);
        }
        let mut dh = W::le();
        for i in 0..11 {
            dh.u16(match i {
                5 => 7,
                9 => frame_stream,
                _ => 0xffff,
            });
        }
        let mut w = W::le();
        w.u32(0xffff_ffff).u32(19990903).u32(self.age).u16(0xffff).u16(0x8e1d).u16(0xffff).u16(0).u16(6).u16(0);
        w.u32(ml.len() as u32).u32(0).u32(0).u32(0).u32(0).u32(0).u32(dh.len() as u32).u32(0);
        w.u16(0).u16(self.machine).u32(0).bytes(&ml.b).bytes(&dh.b);
        streams[3] = w.b;
        self.msf(&streams)
    }

    fn msf(&self, streams: &[Vec<u8>]) -> Vec<u8> {
        let ps = self.page;
        let mut pages: Vec<Vec<u8>> = vec![vec![0; ps]; 3]; // superblock, two free maps
        let mut put = |d: &[u8]| -> Vec<u32> {
            let mut v = vec![];
            for c in d.chunks(ps) {
                let mut p = c.to_vec();
                p.resize(ps, 0);
                v.push(pages.len() as u32);
                pages.push(p);
            }
            v
        };
        let lists: Vec<Vec<u32>> = streams.iter().map(|s| put(s)).collect();
        let mut dir = W::le();
        dir.u32(streams.len() as u32);
        for s in streams {
            dir.u32(s.len() as u32);
        }
        for l in &lists {
            for p in l {
                dir.u32(*p);
            }
        }
        let dp = put(&dir.b);
        let mut dpl = W::le();
        for p in &dp {
            dpl.u32(*p);
        }
        let lp = put(&dpl.b);
        let n = pages.len() as u32;
        let mut h = W::le();
        h.bytes(b"Microsoft C/C++ MSF 7.00\r\n\x1a\x44\x53\0\0\0");
        h.u32(ps as u32).u32(1).u32(n).u32(dir.len() as u32).u32(0);
        for p in lp {
            h.u32(p);
        }
        h.pad_to(ps);
        assert_eq!(h.len(), ps);
        pages[0] = h.b;
        let mut out: Vec<u8> = pages.concat();
        if out.len() < 4096 {
            out.resize(4096, 0);
        }
        out
    }
}
