//! DWARF encoder: DIE trees, range lists and line programs, versions 4 and 5.
use crate::w::W;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum V {
    Addr(u64),
    U1(u8),
    U2(u16),
    U4(u32),
    U8(u64),
    Udata(u64),
    /// inline string
    Str(Vec<u8>),
    /// .debug_str
    Strp(Vec<u8>),
    /// reference to a DIE by label
    Ref(u32),
    /// DW_FORM_ref_addr to a DIE (any unit)
    RefAddr(u32),
    Sec(u64),
    Flag,
}
#[derive(Clone, Debug, Default)]
pub struct Die {
    pub label: u32,
    pub tag: u16,
    pub attrs: Vec<(u16, V)>,
    pub kids: Vec<Die>,
}
impl Die {
    pub fn new(tag: u16) -> Die {
        Die { tag, ..Default::default() }
    }
    pub fn at(mut self, a: u16, v: V) -> Die {
        self.attrs.push((a, v));
        self
    }
}

pub mod c {
    pub const TAG_CU: u16 = 0x11;
    pub const TAG_SUBPROGRAM: u16 = 0x2e;
    pub const TAG_INLINED: u16 = 0x1d;
    pub const TAG_NAMESPACE: u16 = 0x39;
    pub const TAG_STRUCT: u16 = 0x13;
    pub const TAG_LEXBLOCK: u16 = 0x0b;
    pub const TAG_BASE: u16 = 0x24;
    pub const NAME: u16 = 0x03;
    pub const STMT_LIST: u16 = 0x10;
    pub const LOW_PC: u16 = 0x11;
    pub const HIGH_PC: u16 = 0x12;
    pub const LANGUAGE: u16 = 0x13;
    pub const COMP_DIR: u16 = 0x1b;
    pub const INLINE: u16 = 0x20;
    pub const PRODUCER: u16 = 0x25;
    pub const ABSTRACT_ORIGIN: u16 = 0x31;
    pub const DECLARATION: u16 = 0x3c;
    pub const EXTERNAL: u16 = 0x3f;
    pub const SPECIFICATION: u16 = 0x47;
    pub const RANGES: u16 = 0x55;
    pub const CALL_FILE: u16 = 0x58;
    pub const CALL_LINE: u16 = 0x59;
    pub const LINKAGE_NAME: u16 = 0x6e;
}

#[derive(Clone, Debug)]
pub struct LineFile {
    /// index into dirs (0 = compilation dir)
    pub dir: usize,
    pub name: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Row {
    pub addr: u64,
    /// index into `files`
    pub file: usize,
    pub line: u64,
}
#[derive(Clone, Debug, Default)]
pub struct LineProg {
    /// dirs[0] is the compilation directory
    pub dirs: Vec<Vec<u8>>,
    pub files: Vec<LineFile>,
    /// (rows in increasing address order, end address)
    pub seqs: Vec<(Vec<Row>, u64)>,
    /// use special opcodes where possible
    pub special: bool,
    /// DWARF 5 form of file names: inline, .debug_line_str, .debug_str
    pub form: u8,
}
#[derive(Clone, Debug, Default)]
pub struct UnitSpec {
    pub version: u16,
    pub root: Die,
    /// the range list ids used in the root via V::Sec are filled by `range_list`
    pub line: Option<LineProg>,
}

/// Builder of all DWARF sections.
pub struct Dwarf {
    pub is64: bool,
    pub be: bool,
    pub info: W,
    pub abbrev: W,
    pub line: W,
    pub str: W,
    pub line_str: W,
    pub ranges: W,
    pub rnglists: W,
    strs: HashMap<Vec<u8>, usize>,
    line_strs: HashMap<Vec<u8>, usize>,
    label_off: HashMap<u32, usize>,
    global_fix: Vec<(usize, u32)>,
}

impl Dwarf {
    pub fn new(is64: bool, be: bool) -> Self {
        let w = || W::new(be);
        Dwarf {
            is64,
            be,
            info: w(),
            abbrev: w(),
            line: w(),
            str: w(),
            line_str: w(),
            ranges: w(),
            rnglists: w(),
            strs: HashMap::new(),
            line_strs: HashMap::new(),
            label_off: HashMap::new(),
            global_fix: vec![],
        }
    }
    fn strp(&mut self, s: &[u8]) -> usize {
        if let Some(o) = self.strs.get(s) {
            return *o;
        }
        let o = self.str.len();
        self.str.cstr(s);
        self.strs.insert(s.to_vec(), o);
        o
    }
    fn line_strp(&mut self, s: &[u8]) -> usize {
        if let Some(o) = self.line_strs.get(s) {
            return *o;
        }
        let o = self.line_str.len();
        self.line_str.cstr(s);
        self.line_strs.insert(s.to_vec(), o);
        o
    }
    /// Adds a range list, returns the value of the DW_AT_ranges attribute.
    /// The unit must have base address 0.
    pub fn range_list(&mut self, version: u16, r: &[(u64, u64)]) -> V {
        let is64 = self.is64;
        if version < 5 {
            let o = self.ranges.len();
            for &(a, n) in r {
                self.ranges.word(a, is64).word(a + n, is64);
            }
            self.ranges.word(0, is64).word(0, is64);
            V::Sec(o as u64)
        } else {
            let be = self.be;
            let mut w = W::new(be);
            for &(a, n) in r {
                w.u8(7).word(a, is64).uleb(n);
            }
            w.u8(0);
            if self.rnglists.len() == 0 {
                // header; length patched in finish()
                self.rnglists.u32(0).u16(5).u8(if is64 { 8 } else { 4 }).u8(0).u32(0);
            }
            let o = self.rnglists.len();
            self.rnglists.bytes(&w.b);
            V::Sec(o as u64)
        }
    }
    fn form(v: &V) -> u16 {
        match v {
            V::Addr(_) => 0x01,
            V::U1(_) => 0x0b,
            V::U2(_) => 0x05,
            V::U4(_) => 0x06,
            V::U8(_) => 0x07,
            V::Udata(_) => 0x0f,
            V::Str(_) => 0x08,
            V::Strp(_) => 0x0e,
            V::Ref(_) => 0x13,
            V::RefAddr(_) => 0x10,
            V::Sec(_) => 0x17,
            V::Flag => 0x19,
        }
    }
    /// Line program; returns its offset.
    pub fn line_prog(&mut self, version: u16, p: &LineProg) -> u64 {
        let off = self.line.len();
        let (be, is64) = (self.be, self.is64);
        let mut h = W::new(be);
        // after header_length
        h.u8(1); // min inst length
        if version >= 4 {
            h.u8(1);
        }
        h.u8(1); // default is_stmt
        h.u8((-5i8) as u8).u8(14).u8(13);
        h.bytes(&[0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1]);
        if version < 5 {
            for d in p.dirs.iter().skip(1) {
                h.cstr(d);
            }
            h.u8(0);
            for f in &p.files {
                h.cstr(&f.name).uleb(f.dir as u64).uleb(0).uleb(0);
            }
            h.u8(0);
        } else {
            // directories
            h.u8(1).uleb(1).uleb(0x1f).uleb(p.dirs.len() as u64);
            for d in &p.dirs {
                let o = self.line_strp(d);
                h.u32(o as u32);
            }
            let form = [0x08, 0x1f, 0x0e][p.form as usize];
            h.u8(2).uleb(1).uleb(form).uleb(2).uleb(0x0b).uleb(p.files.len() as u64);
            for f in &p.files {
                match p.form {
                    0 => h.cstr(&f.name),
                    1 => h.u32(self.line_strp(&f.name) as u32),
                    _ => h.u32(self.strp(&f.name) as u32),
                }
                .u8(f.dir as u8);
            }
        }
        let first = if version < 5 { 1 } else { 0 };
        let mut c = W::new(be);
        for (rows, end) in &p.seqs {
            let mut file = 1u64;
            let mut line = 1i64;
            let mut pc = rows[0].addr;
            c.u8(0).uleb(1 + if is64 { 8 } else { 4 }).u8(2).word(pc, is64);
            for r in rows {
                let fi = r.file as u64 + first;
                if fi != file {
                    c.u8(4).uleb(fi);
                    file = fi;
                }
                let dl = r.line as i64 - line;
                let da = r.addr - pc;
                if p.special && (-5..9).contains(&dl) && da < 10 && (dl + 5) as u64 + 14 * da + 13 < 256 {
                    c.u8(((dl + 5) as u64 + 14 * da + 13) as u8);
                } else {
                    if dl != 0 {
                        c.u8(3).sleb(dl);
                    }
                    if da != 0 {
                        c.u8(2).uleb(da);
                    }
                    c.u8(1);
                }
                pc = r.addr;
                line = r.line as i64;
            }
            if *end > pc {
                c.u8(2).uleb(end - pc);
            }
            c.u8(0).uleb(1).u8(1);
        }
        let mut w = W::new(be);
        w.u16(version);
        if version >= 5 {
            w.u8(if is64 { 8 } else { 4 }).u8(0);
        }
        w.u32(h.len() as u32).bytes(&h.b).bytes(&c.b);
        self.line.u32(w.len() as u32).bytes(&w.b);
        off as u64
    }
    /// Adds a unit.
    pub fn unit(&mut self, version: u16, root: &Die) {
        let start = self.info.len();
        let abbrev_off = self.abbrev.len();
        let is64 = self.is64;
        self.info.u32(0).u16(version);
        if version >= 5 {
            self.info.u8(1).u8(if is64 { 8 } else { 4 }).u32(abbrev_off as u32);
        } else {
            self.info.u32(abbrev_off as u32).u8(if is64 { 8 } else { 4 });
        }
        let mut abbrevs: HashMap<Vec<u8>, u64> = HashMap::new();
        let mut fix = vec![];
        self.die(root, start, &mut abbrevs, &mut fix);
        self.abbrev.u8(0);
        for (at, label) in fix {
            let o = self.label_off[&label] - start;
            self.info.put32(at, o as u32);
        }
        let n = self.info.len() - start - 4;
        self.info.put32(start, n as u32);
    }
    fn die(&mut self, d: &Die, start: usize, abbrevs: &mut HashMap<Vec<u8>, u64>, fix: &mut Vec<(usize, u32)>) {
        let mut k = W::le();
        k.uleb(d.tag as u64).u8(!d.kids.is_empty() as u8);
        for (a, v) in &d.attrs {
            k.uleb(*a as u64).uleb(Self::form(v) as u64);
        }
        k.u8(0).u8(0);
        let n = abbrevs.len() as u64 + 1;
        let code = match abbrevs.get(&k.b) {
            Some(c) => *c,
            None => {
                self.abbrev.uleb(n).bytes(&k.b);
                abbrevs.insert(k.b, n);
                n
            }
        };
        if d.label != 0 {
            self.label_off.insert(d.label, self.info.len());
        }
        self.info.uleb(code);
        let is64 = self.is64;
        for (_, v) in &d.attrs {
            match v {
                V::Addr(a) => {
                    self.info.word(*a, is64);
                }
                V::U1(a) => {
                    self.info.u8(*a);
                }
                V::U2(a) => {
                    self.info.u16(*a);
                }
                V::U4(a) => {
                    self.info.u32(*a);
                }
                V::U8(a) => {
                    self.info.u64(*a);
                }
                V::Udata(a) => {
                    self.info.uleb(*a);
                }
                V::Str(s) => {
                    self.info.cstr(s);
                }
                V::Strp(s) => {
                    let o = self.strp(s);
                    self.info.u32(o as u32);
                }
                V::Ref(l) => {
                    fix.push((self.info.len(), *l));
                    self.info.u32(0);
                }
                V::RefAddr(l) => {
                    self.global_fix.push((self.info.len(), *l));
                    self.info.u32(0);
                }
                V::Sec(o) => {
                    self.info.u32(*o as u32);
                }
                V::Flag => {}
            }
        }
        if !d.kids.is_empty() {
            for k in &d.kids {
                self.die(k, start, abbrevs, fix);
            }
            self.info.u8(0);
        }
    }
    /// (section name without dot/underscores, data)
    pub fn finish(mut self) -> Vec<(&'static str, Vec<u8>)> {
        for (at, label) in std::mem::take(&mut self.global_fix) {
            let o = self.label_off[&label];
            self.info.put32(at, o as u32);
        }
        if self.rnglists.len() > 0 {
            let n = self.rnglists.len() - 4;
            self.rnglists.put32(0, n as u32);
        }
        let mut v = vec![
            ("debug_info", self.info.b),
            ("debug_abbrev", self.abbrev.b),
            ("debug_line", self.line.b),
            ("debug_str", self.str.b),
            ("debug_line_str", self.line_str.b),
            ("debug_ranges", self.ranges.b),
            ("debug_rnglists", self.rnglists.b),
        ];
        v.retain(|(n, d)| !d.is_empty() || *n == "debug_str");
        v
    }
}
