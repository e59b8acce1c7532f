//! Call frame information: generator, .eh_frame/.debug_frame writer and the rules expected.
use crate::engine::Src;
use crate::model::Module;
use crate::sym::Sym;
use crate::w::W;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rule {
    Same,
    Off(i64),
    ValOff(i64),
    Reg(u64),
}

#[derive(Clone, Debug)]
pub enum Op {
    Advance(u64),
    DefCfa(u64, u64),
    DefCfaReg(u64),
    DefCfaOff(u64),
    Set(u64, Rule),
    Remember,
    RestoreState,
    /// back to the rule of the CIE
    Restore(u64),
    Nop,
}

#[derive(Clone, Debug)]
pub struct Cie {
    pub code_align: u64,
    pub data_align: i64,
    pub ra: u64,
    pub init: Vec<Op>,
    pub version: u8,
    /// pointer encoding of .eh_frame FDEs
    pub enc: u8,
}

#[derive(Clone, Debug)]
pub struct Fde {
    pub cie: usize,
    pub start: u64,
    pub len: u64,
    pub ops: Vec<Op>,
    pub eh: bool,
}

pub struct ArchRegs {
    pub names: Vec<&'static str>,
    pub sp: u64,
    pub fp: u64,
    pub ra: u64,
    /// return address is in this register unless said otherwise
    pub link: bool,
    pub saved: Vec<u64>,
}

pub fn regs(cpu: &str) -> Option<ArchRegs> {
    Some(match cpu {
        "x86_64" | "x86_64h" => ArchRegs {
            names: vec![
                "$rax", "$rdx", "$rcx", "$rbx", "$rsi", "$rdi", "$rbp", "$rsp", "$r8", "$r9", "$r10", "$r11", "$r12", "$r13", "$r14", "$r15",
                "$rip",
            ],
            sp: 7,
            fp: 6,
            ra: 16,
            link: false,
            saved: vec![3, 6, 12, 13, 14, 15],
        },
        "x86" => ArchRegs {
            names: vec!["$eax", "$ecx", "$edx", "$ebx", "$esp", "$ebp", "$esi", "$edi", "$eip"],
            sp: 4,
            fp: 5,
            ra: 8,
            link: false,
            saved: vec![3, 5, 6, 7],
        },
        "arm64" | "arm64e" => ArchRegs {
            names: vec![
                "x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12", "x13", "x14", "x15", "x16", "x17", "x18",
                "x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28", "x29", "x30", "sp",
            ],
            sp: 31,
            fp: 29,
            ra: 30,
            link: true,
            saved: vec![19, 20, 21, 22, 29],
        },
        "arm" | "armv7" => ArchRegs {
            names: vec!["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr", "pc"],
            sp: 13,
            fp: 11,
            ra: 14,
            link: true,
            saved: vec![4, 5, 6, 7, 8],
        },
        _ => return None,
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub start: u64,
    pub cfa: (u64, u64),
    pub rules: BTreeMap<u64, Rule>,
    /// registers that had a rule earlier and have none now
    pub gone: BTreeSet<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Cfi {
    pub cies: Vec<Cie>,
    pub fdes: Vec<Fde>,
}

fn gen_ops(s: &mut Src, a: &ArchRegs, c: &Cie, len: u64) -> Vec<Op> {
    let mut v = vec![];
    let mut pos = 0;
    let mut depth = 0;
    let n = s.us(6);
    for _ in 0..n {
        let max = (len - 1 - pos) / c.code_align;
        if max == 0 {
            break;
        }
        let d = match s.u(4) {
            0 => 1,
            1 => 1 + s.u(max.min(62)),
            2 => max,
            _ => 1 + s.u(max),
        };
        pos += d * c.code_align;
        v.push(Op::Advance(d));
        for _ in 0..1 + s.us(3) {
            let da = c.data_align.unsigned_abs();
            let reg = *s.pick(&a.saved);
            v.push(match s.u(11) {
                0 => Op::DefCfaOff(da * s.u(64)),
                1 => Op::DefCfa(*s.pick(&[a.sp, a.fp]), da * s.u(300)),
                2 => Op::DefCfaReg(*s.pick(&[a.fp, a.sp])),
                3 | 4 => Op::Set(reg, Rule::Off(c.data_align * s.u(300) as i64)),
                5 => Op::Set(reg, Rule::Off(-c.data_align * s.u(10) as i64)),
                6 => Op::Set(reg, Rule::Same),
                7 => Op::Set(*s.pick(&[a.ra, reg]), if s.chance(1, 2) { Rule::Reg(reg) } else { Rule::ValOff(c.data_align * s.u(9) as i64) }),
                8 if depth < 2 => {
                    depth += 1;
                    Op::Remember
                }
                9 if depth > 0 => {
                    depth -= 1;
                    Op::RestoreState
                }
                8 | 9 => Op::Nop,
                _ => Op::Restore(reg),
            });
        }
    }
    v
}

impl Cfi {
    /// Random unwind tables for the code of a module.
    pub fn gen(s: &mut Src, m: &Module, cpu: &str, max: usize) -> Cfi {
        let Some(a) = regs(cpu) else { return Cfi::default() };
        let mut cies = vec![];
        for _ in 0..1 + s.us(2) {
            let word = if m.is64 { 8 } else { 4 };
            let data_align = *s.pick(&[-(word as i64), -(word as i64), -4, 1, 8]);
            let mut init = vec![Op::DefCfa(a.sp, if a.link { 0 } else { word })];
            if !a.link {
                let k = -(word as i64);
                init.push(Op::Set(a.ra, Rule::Off(if k % data_align == 0 { k } else { data_align })));
            }
            if s.chance(1, 4) {
                init.push(Op::Set(*s.pick(&a.saved), Rule::Same));
            }
            cies.push(Cie {
                code_align: *s.pick(&[1, 1, 2, 4]),
                data_align,
                ra: a.ra,
                init,
                version: *s.pick(&[1, 3]),
                enc: *s.pick(&[0x1b, 0x00, 0xff]),
            });
        }
        let mut fdes = vec![];
        for sec in &m.sections {
            let mut at = sec.rva + s.u(4);
            while at + 8 < sec.rva + sec.size && fdes.len() < max {
                let room = sec.rva + sec.size - at;
                let len = 1 + s.u(room.min(400));
                if s.chance(3, 4) {
                    let cie = s.us(cies.len());
                    let ops = gen_ops(s, &a, &cies[cie], len);
                    fdes.push(Fde { cie, start: at, len, ops, eh: s.chance(2, 3) });
                }
                at += len;
                if s.chance(1, 3) {
                    at += s.u(16);
                }
            }
        }
        Cfi { cies, fdes }
    }

    pub fn rows(&self, f: &Fde) -> Vec<Row> {
        let c = &self.cies[f.cie];
        let mut cur = Row { start: f.start, cfa: (0, 0), rules: BTreeMap::new(), gone: BTreeSet::new() };
        let mut stack: Vec<Row> = vec![];
        let mut init: Option<BTreeMap<u64, Rule>> = None;
        let mut out = vec![];
        for (k, op) in c.init.iter().chain(&f.ops).enumerate() {
            if k == c.init.len() {
                init = Some(cur.rules.clone());
            }
            match op {
                Op::Advance(n) => {
                    out.push(cur.clone());
                    cur.start += n * c.code_align;
                }
                Op::DefCfa(r, o) => cur.cfa = (*r, *o),
                Op::DefCfaReg(r) => cur.cfa.0 = *r,
                Op::DefCfaOff(o) => cur.cfa.1 = *o,
                Op::Set(r, x) => {
                    cur.rules.insert(*r, *x);
                    cur.gone.remove(r);
                }
                Op::Remember => stack.push(cur.clone()),
                Op::RestoreState => {
                    if let Some(old) = stack.pop() {
                        for r in cur.rules.keys() {
                            if !old.rules.contains_key(r) {
                                cur.gone.insert(*r);
                            }
                        }
                        let gone: BTreeSet<u64> = cur.gone.difference(&old.rules.keys().copied().collect()).copied().collect();
                        cur = Row { start: cur.start, gone, ..old };
                    }
                }
                Op::Restore(r) => match init.as_ref().and_then(|i| i.get(r)) {
                    Some(x) => {
                        cur.rules.insert(*r, *x);
                        cur.gone.remove(r);
                    }
                    None => {
                        if cur.rules.remove(r).is_some() {
                            cur.gone.insert(*r);
                        }
                    }
                },
                Op::Nop => {}
            }
        }
        out.push(cur);
        out
    }

    fn encode(w: &mut W, c: &Cie, ops: &[Op]) {
        let fact = |o: i64| o / c.data_align;
        for op in ops {
            match op {
                Op::Advance(n) if *n < 0x40 => {
                    w.u8(0x40 | *n as u8);
                }
                Op::Advance(n) if *n < 0x100 => {
                    w.u8(2).u8(*n as u8);
                }
                Op::Advance(n) if *n < 0x10000 => {
                    w.u8(3).u16(*n as u16);
                }
                Op::Advance(n) => {
                    w.u8(4).u32(*n as u32);
                }
                Op::DefCfa(r, o) => {
                    w.u8(0x0c).uleb(*r).uleb(*o);
                }
                Op::DefCfaReg(r) => {
                    w.u8(0x0d).uleb(*r);
                }
                Op::DefCfaOff(o) => {
                    w.u8(0x0e).uleb(*o);
                }
                Op::Set(r, Rule::Same) => {
                    w.u8(0x08).uleb(*r);
                }
                Op::Set(r, Rule::Off(o)) if fact(*o) >= 0 && *r < 64 => {
                    w.u8(0x80 | *r as u8).uleb(fact(*o) as u64);
                }
                Op::Set(r, Rule::Off(o)) => {
                    w.u8(0x11).uleb(*r).sleb(fact(*o));
                }
                Op::Set(r, Rule::ValOff(o)) => {
                    w.u8(0x15).uleb(*r).sleb(fact(*o));
                }
                Op::Set(r, Rule::Reg(q)) => {
                    w.u8(0x09).uleb(*r).uleb(*q);
                }
                Op::Remember => {
                    w.u8(0x0a);
                }
                Op::RestoreState => {
                    w.u8(0x0b);
                }
                Op::Restore(r) => {
                    w.u8(0xc0 | *r as u8);
                }
                Op::Nop => {
                    w.u8(0);
                }
            }
        }
    }

    fn entry(out: &mut W, body: W, align: usize) {
        let mut body = body;
        while (body.len() + 4) % align != 0 {
            body.u8(0);
        }
        out.u32(body.len() as u32);
        out.bytes(&body.b);
    }

    /// (.eh_frame at `addr`, .debug_frame); empty when there is nothing in them.
    pub fn build(&self, m: &Module, addr: u64) -> (Vec<u8>, Vec<u8>) {
        let be = m.be;
        let word = if m.is64 { 8 } else { 4 };
        let mut eh = W::new(be);
        let mut df = W::new(be);
        let mut eh_cie: BTreeMap<usize, usize> = BTreeMap::new();
        let mut df_cie: BTreeMap<usize, usize> = BTreeMap::new();
        for f in &self.fdes {
            let c = &self.cies[f.cie];
            let start = m.base.wrapping_add(f.start);
            if f.eh {
                if !eh_cie.contains_key(&f.cie) {
                    eh_cie.insert(f.cie, eh.len());
                    let mut w = W::new(be);
                    w.u32(0).u8(1).cstr(if c.enc == 0xff { b"" } else { b"zR" }).uleb(c.code_align).sleb(c.data_align).u8(c.ra as u8);
                    if c.enc != 0xff {
                        w.uleb(1).u8(c.enc);
                    }
                    Self::encode(&mut w, c, &c.init);
                    Self::entry(&mut eh, w, word);
                }
                let at = eh.len();
                let mut w = W::new(be);
                w.u32((at + 4 - eh_cie[&f.cie]) as u32);
                if c.enc == 0x1b {
                    let field = addr.wrapping_add(at as u64 + 8);
                    w.u32(start.wrapping_sub(field) as u32).u32(f.len as u32);
                } else {
                    w.word(start, m.is64).word(f.len, m.is64);
                }
                if c.enc != 0xff {
                    w.uleb(0);
                }
                Self::encode(&mut w, c, &f.ops);
                Self::entry(&mut eh, w, word);
            } else {
                if !df_cie.contains_key(&f.cie) {
                    df_cie.insert(f.cie, df.len());
                    let mut w = W::new(be);
                    w.u32(0xffff_ffff).u8(c.version).cstr(b"").uleb(c.code_align).sleb(c.data_align);
                    if c.version == 1 {
                        w.u8(c.ra as u8);
                    } else {
                        w.uleb(c.ra);
                    }
                    Self::encode(&mut w, c, &c.init);
                    Self::entry(&mut df, w, word);
                }
                let mut w = W::new(be);
                w.u32(df_cie[&f.cie] as u32).word(start, m.is64).word(f.len, m.is64);
                Self::encode(&mut w, c, &f.ops);
                Self::entry(&mut df, w, word);
            }
        }
        if !eh.b.is_empty() {
            eh.u32(0);
        }
        (eh.b, df.b)
    }

    /// Compares the STACK CFI records with the tables at every address where a rule changes and
    /// at the neighbouring ones.
    pub fn check(&self, y: &Sym, cpu: &str) -> Result<(), String> {
        let a = regs(cpu).unwrap();
        let got = parse_stack(&y.stack)?;
        let mut points: BTreeSet<u64> = BTreeSet::new();
        for f in &self.fdes {
            for p in self.rows(f).iter().map(|r| r.start).chain([f.start + f.len]) {
                points.insert(p);
                points.insert(p + 1);
                points.insert(p.wrapping_sub(1));
            }
        }
        for b in &got {
            points.insert(b.start);
            points.insert(b.start + b.len - 1);
            points.insert(b.start + b.len);
        }
        let tables: Vec<(&Fde, Vec<Row>)> = self.fdes.iter().map(|f| (f, self.rows(f))).collect();
        let name = |r: u64| a.names[r as usize].to_string();
        for p in points {
            let rules: Vec<BTreeMap<String, String>> =
                got.iter().filter(|b| p >= b.start && p < b.start + b.len).map(|b| b.at(p)).collect();
            let t = tables.iter().find(|(f, _)| p >= f.start && p < f.start + f.len);
            match (t, rules.as_slice()) {
                (None, []) => {}
                (None, r) => return Err(format!("address {p:x} is in no frame description but has the rules {r:?}")),
                (Some(_), []) => return Err(format!("address {p:x} is in a frame description but has no STACK CFI rules")),
                (Some((f, rows)), [r]) => {
                    let row = rows.iter().rev().find(|x| x.start <= p).unwrap();
                    let ra = self.cies[f.cie].ra;
                    let mut want: BTreeMap<String, String> = BTreeMap::new();
                    want.insert(".cfa".into(), format!("{} {} +", name(row.cfa.0), row.cfa.1));
                    if a.link {
                        want.insert(".ra".into(), name(ra));
                    }
                    for (reg, x) in &row.rules {
                        let key = if *reg == ra { ".ra".to_string() } else { name(*reg) };
                        let text = match x {
                            Rule::Same => name(*reg),
                            Rule::Off(o) => format!(".cfa {o} + ^"),
                            Rule::ValOff(o) => format!(".cfa {o} +"),
                            Rule::Reg(q) => name(*q),
                        };
                        want.insert(key, text);
                    }
                    let mut r = r.clone();
                    for g in &row.gone {
                        let key = if *g == ra { ".ra".to_string() } else { name(*g) };
                        r.remove(&key);
                        want.remove(&key);
                    }
                    if r != want {
                        return Err(format!("address {p:x}: unwind rules {r:?} instead of {want:?}"));
                    }
                }
                (_, r) => return Err(format!("address {p:x} has {} sets of rules", r.len())),
            }
        }
        Ok(())
    }
}

pub struct Block {
    pub start: u64,
    pub len: u64,
    pub deltas: Vec<(u64, Vec<(String, String)>)>,
}
impl Block {
    pub fn at(&self, p: u64) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        for (a, r) in &self.deltas {
            if *a <= p {
                for (k, v) in r {
                    m.insert(k.clone(), v.clone());
                }
            }
        }
        m
    }
}

fn parse_rules(t: &str) -> Result<Vec<(String, String)>, String> {
    let mut out: Vec<(String, String)> = vec![];
    for w in t.split_whitespace() {
        if let Some(k) = w.strip_suffix(':') {
            out.push((k.to_string(), String::new()));
        } else {
            let l = out.last_mut().ok_or(format!("STACK CFI rules without register: {t:?}"))?;
            if !l.1.is_empty() {
                l.1.push(' ');
            }
            l.1.push_str(w);
        }
    }
    Ok(out)
}

/// STACK CFI records by INIT block.
pub fn parse_stack(lines: &[String]) -> Result<Vec<Block>, String> {
    let mut out: Vec<Block> = vec![];
    let hex = |t: Option<&str>| -> Result<u64, String> {
        u64::from_str_radix(t.unwrap_or(""), 16).map_err(|_| "bad STACK CFI address".to_string())
    };
    for l in lines {
        let l = l.strip_prefix("STACK ").unwrap_or(l);
        let Some(r) = l.strip_prefix("CFI ") else { continue };
        if let Some(r) = r.strip_prefix("INIT ") {
            let mut it = r.splitn(3, ' ');
            let start = hex(it.next())?;
            let len = hex(it.next())?;
            let rules = parse_rules(it.next().unwrap_or(""))?;
            out.push(Block { start, len, deltas: vec![(start, rules)] });
        } else {
            let mut it = r.splitn(2, ' ');
            let a = hex(it.next())?;
            let rules = parse_rules(it.next().unwrap_or(""))?;
            let b = out.last_mut().ok_or("STACK CFI before STACK CFI INIT".to_string())?;
            if a < b.start || a >= b.start + b.len {
                return Err(format!("STACK CFI {a:x} outside its INIT range {:x}+{:x}", b.start, b.len));
            }
            b.deltas.push((a, rules));
        }
    }
    Ok(out)
}
