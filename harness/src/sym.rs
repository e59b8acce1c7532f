//! Strict parser of the Breakpad symbol file format, written from the format description
//! (independent of the code under test).

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Line {
    pub addr: u64,
    pub size: u64,
    pub line: u64,
    pub file: usize,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Inline {
    pub depth: u64,
    pub call_line: u64,
    pub call_file: usize,
    pub origin: usize,
    pub ranges: Vec<(u64, u64)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Func {
    pub multiple: bool,
    pub addr: u64,
    pub size: u64,
    pub param: u64,
    pub name: String,
    pub inlines: Vec<Inline>,
    pub lines: Vec<Line>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Public {
    pub multiple: bool,
    pub addr: u64,
    pub param: u64,
    pub name: String,
}
#[derive(Clone, Debug, Default)]
pub struct Sym {
    pub os: String,
    pub cpu: String,
    pub id: String,
    pub name: String,
    pub infos: Vec<String>,
    pub files: Vec<String>,
    pub origins: Vec<String>,
    pub funcs: Vec<Func>,
    pub publics: Vec<Public>,
    pub stack: Vec<String>,
    /// addresses of FUNC and PUBLIC records in file order
    pub order: Vec<u64>,
}

fn hex(s: &str, what: &str) -> Result<u64, String> {
    if s.is_empty() || s.len() > 16 || !s.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c)) {
        return Err(format!("{what}: bad hex field {s:?}"));
    }
    u64::from_str_radix(s, 16).map_err(|e| format!("{what}: {e}"))
}
fn dec(s: &str, what: &str) -> Result<u64, String> {
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
        return Err(format!("{what}: bad decimal field {s:?}"));
    }
    s.parse().map_err(|e| format!("{what}: {e}"))
}

/// Takes the next blank-separated token.
fn tok<'a>(s: &mut &'a str, what: &str) -> Result<&'a str, String> {
    match s.split_once(' ') {
        Some((a, b)) if !a.is_empty() => {
            *s = b;
            Ok(a)
        }
        _ => Err(format!("{what}: missing field in {s:?}")),
    }
}

pub fn parse(data: &[u8]) -> Result<Sym, String> {
    let text = std::str::from_utf8(data).map_err(|e| format!("output is not UTF-8: {e}"))?;
    if text.is_empty() {
        return Err("output is empty".into());
    }
    if !text.ends_with('\n') {
        return Err("output does not end with a line break (truncated?)".into());
    }
    let mut sym = Sym::default();
    // sections in order
    const MODULE: u8 = 0;
    const INFO: u8 = 1;
    const FILE: u8 = 2;
    const ORIGIN: u8 = 3;
    const RECS: u8 = 4;
    const STACK: u8 = 5;
    let mut section = MODULE;
    let mut in_func = false;
    let mut seen_line = false;
    for (n, l) in text.split_terminator('\n').enumerate() {
        let at = |m: String| format!("line {}: {m}: {l:?}", n + 1);
        if let Some(c) = l.chars().find(|c| c.is_ascii_control()) {
            return Err(at(format!("control character {c:?} inside a record")));
        }
        let mut go = |s: u8| -> Result<(), String> {
            if s < section || (s == MODULE && n != 0) || (s != MODULE && n == 0) {
                return Err(format!("line {}: record out of place: {l:?}", n + 1));
            }
            section = s;
            Ok(())
        };
        if let Some(mut r) = l.strip_prefix("MODULE ") {
            go(MODULE)?;
            sym.os = tok(&mut r, "MODULE").map_err(at)?.into();
            sym.cpu = tok(&mut r, "MODULE").map_err(at)?.into();
            sym.id = tok(&mut r, "MODULE").map_err(at)?.into();
            if !["Linux", "Mac", "windows"].contains(&sym.os.as_str()) {
                return Err(at("unknown OS".into()));
            }
            if !(33..=40).contains(&sym.id.len())
                || !sym.id.bytes().all(|c| c.is_ascii_digit() || (b'A'..=b'F').contains(&c) || (b'a'..=b'f').contains(&c))
                || !sym.id[..32].bytes().all(|c| !c.is_ascii_lowercase())
            {
                return Err(at("bad debug identifier".into()));
            }
            if r.is_empty() {
                return Err(at("MODULE without name".into()));
            }
            sym.name = r.into();
        } else if let Some(r) = l.strip_prefix("INFO ") {
            go(INFO)?;
            if r.is_empty() {
                return Err(at("empty INFO".into()));
            }
            sym.infos.push(r.into());
        } else if let Some(mut r) = l.strip_prefix("FILE ") {
            go(FILE)?;
            let id = dec(tok(&mut r, "FILE").map_err(at)?, "FILE").map_err(at)?;
            if id != sym.files.len() as u64 {
                return Err(at(format!("FILE number should be {}", sym.files.len())));
            }
            if r.is_empty() {
                return Err(at("FILE without path".into()));
            }
            sym.files.push(r.into());
        } else if let Some(mut r) = l.strip_prefix("INLINE_ORIGIN ") {
            go(ORIGIN)?;
            let id = dec(tok(&mut r, "INLINE_ORIGIN").map_err(at)?, "INLINE_ORIGIN").map_err(at)?;
            if id != sym.origins.len() as u64 {
                return Err(at(format!("INLINE_ORIGIN number should be {}", sym.origins.len())));
            }
            if r.trim().is_empty() {
                return Err(at("INLINE_ORIGIN without name".into()));
            }
            sym.origins.push(r.into());
        } else if let Some(mut r) = l.strip_prefix("FUNC ") {
            go(RECS)?;
            in_func = true;
            seen_line = false;
            let mut multiple = false;
            if let Some(x) = r.strip_prefix("m ") {
                multiple = true;
                r = x;
            }
            let addr = hex(tok(&mut r, "FUNC").map_err(at)?, "address").map_err(at)?;
            let size = hex(tok(&mut r, "FUNC").map_err(at)?, "size").map_err(at)?;
            let param = hex(tok(&mut r, "FUNC").map_err(at)?, "parameter size").map_err(at)?;
            if r.trim().is_empty() {
                return Err(at("FUNC without name".into()));
            }
            sym.order.push(addr);
            sym.funcs.push(Func { multiple, addr, size, param, name: r.into(), inlines: vec![], lines: vec![] });
        } else if let Some(mut r) = l.strip_prefix("PUBLIC ") {
            go(RECS)?;
            in_func = false;
            let mut multiple = false;
            if let Some(x) = r.strip_prefix("m ") {
                multiple = true;
                r = x;
            }
            let addr = hex(tok(&mut r, "PUBLIC").map_err(at)?, "address").map_err(at)?;
            let param = hex(tok(&mut r, "PUBLIC").map_err(at)?, "parameter size").map_err(at)?;
            if r.trim().is_empty() {
                return Err(at("PUBLIC without name".into()));
            }
            sym.order.push(addr);
            sym.publics.push(Public { multiple, addr, param, name: r.into() });
        } else if let Some(r) = l.strip_prefix("INLINE ") {
            go(RECS)?;
            if !in_func {
                return Err(at("INLINE outside FUNC".into()));
            }
            if seen_line {
                return Err(at("INLINE after line records".into()));
            }
            let f: Vec<&str> = r.split(' ').collect();
            if f.len() < 6 || f.len() % 2 != 0 {
                return Err(at("bad number of INLINE fields".into()));
            }
            let mut ranges = Vec::new();
            for c in f[4..].chunks(2) {
                ranges.push((hex(c[0], "INLINE").map_err(at)?, hex(c[1], "INLINE").map_err(at)?));
            }
            sym.funcs.last_mut().unwrap().inlines.push(Inline {
                depth: dec(f[0], "INLINE").map_err(at)?,
                call_line: dec(f[1], "INLINE").map_err(at)?,
                call_file: dec(f[2], "INLINE").map_err(at)? as usize,
                origin: dec(f[3], "INLINE").map_err(at)? as usize,
                ranges,
            });
        } else if let Some(r) = l.strip_prefix("STACK ") {
            go(STACK)?;
            check_stack(r).map_err(at)?;
            sym.stack.push(r.into());
        } else {
            // a line record
            go(RECS)?;
            let f: Vec<&str> = l.split(' ').collect();
            if f.len() != 4 {
                return Err(at("unknown record".into()));
            }
            if !in_func {
                return Err(at("line record outside FUNC".into()));
            }
            seen_line = true;
            sym.funcs.last_mut().unwrap().lines.push(Line {
                addr: hex(f[0], "line").map_err(at)?,
                size: hex(f[1], "line").map_err(at)?,
                line: dec(f[2], "line").map_err(at)?,
                file: dec(f[3], "line").map_err(at)? as usize,
            });
        }
    }
    if sym.os.is_empty() {
        return Err("no MODULE record".into());
    }
    Ok(sym)
}

fn check_stack(r: &str) -> Result<(), String> {
    if let Some(x) = r.strip_prefix("CFI INIT ") {
        let f: Vec<&str> = x.split(' ').collect();
        if f.len() < 4 {
            return Err("short STACK CFI INIT".into());
        }
        hex(f[0], "STACK")?;
        hex(f[1], "STACK")?;
        Ok(())
    } else if let Some(x) = r.strip_prefix("CFI ") {
        let f: Vec<&str> = x.split(' ').collect();
        if f.len() < 3 {
            return Err("short STACK CFI".into());
        }
        hex(f[0], "STACK")?;
        Ok(())
    } else if let Some(x) = r.strip_prefix("WIN ") {
        if x.split(' ').count() < 11 {
            return Err("short STACK WIN".into());
        }
        Ok(())
    } else {
        Err("unknown STACK record".into())
    }
}

impl Sym {
    /// Referential integrity (C07).
    pub fn integrity(&self, mapped: bool, merged: bool) -> Result<(), String> {
        self.integrity_of(mapped, merged, false)
    }
    /// loose: the input itself has positions outside of the functions they belong to
    pub fn integrity_of(&self, mapped: bool, merged: bool, loose: bool) -> Result<(), String> {
        let mut fu = vec![false; self.files.len()];
        let mut ou = vec![false; self.origins.len()];
        for f in &self.funcs {
            let end = f.addr + f.size;
            for l in &f.lines {
                *fu.get_mut(l.file).ok_or(format!("FUNC {:x}: undeclared file {}", f.addr, l.file))? = true;
                if !loose && (l.addr < f.addr || l.addr + l.size > end || l.addr >= end) {
                    return Err(format!("line record {:x}+{:x} outside FUNC {:x}+{:x}", l.addr, l.size, f.addr, f.size));
                }
            }
            for i in &f.inlines {
                *fu.get_mut(i.call_file)
                    .ok_or(format!("FUNC {:x}: undeclared call file {}", f.addr, i.call_file))? = true;
                *ou.get_mut(i.origin).ok_or(format!("FUNC {:x}: undeclared origin {}", f.addr, i.origin))? = true;
                for &(a, s) in &i.ranges {
                    if !loose && (a < f.addr || a + s > end || s == 0) {
                        return Err(format!("INLINE range {a:x}+{s:x} outside FUNC {:x}+{:x}", f.addr, f.size));
                    }
                }
            }
        }
        if let Some(i) = fu.iter().position(|u| !u).filter(|_| !merged) {
            return Err(format!("FILE {i} {:?} is not used by any record", self.files[i]));
        }
        if let Some(i) = ou.iter().position(|u| !u).filter(|_| !merged) {
            return Err(format!("INLINE_ORIGIN {i} {:?} is not used by any record", self.origins[i]));
        }
        if !mapped {
            let mut s: Vec<&String> = self.files.iter().collect();
            s.sort();
            if let Some(w) = s.windows(2).find(|w| w[0] == w[1]) {
                return Err(format!("two FILE records for {:?}", w[0]));
            }
        }
        self.ordered()
    }
    pub fn ordered(&self) -> Result<(), String> {
        match self.order.windows(2).find(|w| w[0] >= w[1]) {
            Some(w) => Err(format!("records not in increasing address order: {:x} then {:x}", w[0], w[1])),
            None => Ok(()),
        }
    }
    pub fn func(&self, addr: u64) -> Option<&Func> {
        self.funcs.iter().find(|f| f.addr == addr)
    }
    pub fn file(&self, i: usize) -> &str {
        self.files.get(i).map(|s| s.as_str()).unwrap_or("<undeclared file>")
    }
    pub fn origin(&self, i: usize) -> &str {
        self.origins.get(i).map(|s| s.as_str()).unwrap_or("<undeclared origin>")
    }
}

impl Func {
    /// (line, file) at an address.
    pub fn line_at(&self, a: u64) -> Vec<&Line> {
        self.lines.iter().filter(|l| a >= l.addr && a < l.addr + l.size).collect()
    }
    pub fn inlines_at(&self, a: u64) -> Vec<&Inline> {
        let mut v: Vec<&Inline> =
            self.inlines.iter().filter(|i| i.ranges.iter().any(|&(s, n)| a >= s && a < s + n)).collect();
        v.sort_by_key(|i| i.depth);
        v
    }
}
