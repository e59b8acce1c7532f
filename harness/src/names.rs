//! Constructive names: every generated symbol name comes with the text it stands for.
use crate::engine::Src;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lang {
    C,
    Cpp,
    Rust,
    /// a language dump_syms has to guess
    Other,
}
impl Lang {
    pub fn pick(s: &mut Src) -> Lang {
        *s.pick(&[Lang::Cpp, Lang::C, Lang::Rust, Lang::Other])
    }
    /// DW_LANG_* constants
    pub fn dw(self, s: &mut Src) -> u16 {
        match self {
            Lang::C => *s.pick(&[0x0c, 0x01, 0x02, 0x1d]),
            Lang::Cpp => *s.pick(&[0x04, 0x19, 0x1a, 0x21]),
            Lang::Rust => 0x1c,
            Lang::Other => *s.pick(&[0x8001, 0x2b, 0x2a]),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scheme {
    Plain,
    Itanium,
    Msvc,
    Rust,
    /// looks mangled but is not
    Broken,
}

#[derive(Clone, Debug)]
pub struct Nm {
    /// the name in symbol tables and DW_AT_linkage_name
    pub raw: String,
    /// what it stands for
    pub shown: String,
    /// clone suffixes at the end of raw
    pub suffix: String,
    pub scheme: Scheme,
    /// Windows C decoration: parameter size
    pub param: Option<u32>,
}

impl Nm {
    pub fn full(&self) -> String {
        format!("{}{}", self.raw, self.suffix)
    }
    /// Text expected for a mangled name (symbol table or linkage name) in a unit of language l.
    pub fn in_func(&self, l: Lang) -> String {
        let raw = anon(&self.raw);
        match (self.scheme, l) {
            (_, Lang::C) => raw,
            (Scheme::Plain | Scheme::Broken, _) => raw,
            (Scheme::Itanium | Scheme::Msvc, Lang::Cpp | Lang::Other) => self.shown.clone(),
            (Scheme::Rust, Lang::Rust | Lang::Other) => self.shown.clone(),
            (Scheme::Itanium | Scheme::Msvc, Lang::Rust) => raw,
            // a legacy Rust name is an Itanium name with a hash as last component
            (Scheme::Rust, Lang::Cpp) => match raw.rfind("17h") {
                Some(i) if raw.trim_start_matches("_").starts_with("ZN") && raw.starts_with("_") => format!("{}::{}", self.shown, raw[i + 2..].trim_end_matches('E')),
                _ => raw,
            },
        }
    }
    /// Text expected in a PUBLIC record of an ELF or Mach-O file.
    pub fn in_public(&self) -> String {
        match self.scheme {
            Scheme::Plain if self.shown == "<name omitted>" => self.shown.clone(),
            Scheme::Plain => self.full(),
            Scheme::Broken => anon(&self.raw),
            _ => self.shown.clone(),
        }
    }
    /// Text and parameter size expected from a Windows symbol.
    pub fn in_win(&self) -> (String, Option<u32>) {
        (self.shown.clone(), self.param)
    }
    pub fn plain(s: &str) -> Nm {
        Nm { raw: s.into(), shown: s.into(), suffix: String::new(), scheme: Scheme::Plain, param: None }
    }
}

pub fn anon(s: &str) -> String {
    s.replace("`anonymous namespace'", "(anonymous namespace)")
}

const IDS: &[&str] = &[
    "foo", "bar", "a", "Widget", "draw", "main", "x1", "get_id", "Run", "handler", "Qt5Core", "operatorX", "cold",
    "part", "str_len", "llvm", "FUNCX", "m", "nsWindow", "JS",
];

pub fn ident(s: &mut Src) -> String {
    let b = s.pick(IDS).to_string();
    match s.u(4) {
        0 | 1 => b,
        2 => format!("{b}{}", s.u(100)),
        _ => format!("{b}_{}", s.u(10)),
    }
}

/// Itanium parameter type: (mangled, text)
fn ity(s: &mut Src, depth: u32) -> (String, String) {
    const B: &[(&str, &str)] = &[
        ("i", "int"),
        ("c", "char"),
        ("b", "bool"),
        ("j", "unsigned int"),
        ("l", "long"),
        ("m", "unsigned long"),
        ("d", "double"),
        ("f", "float"),
        ("x", "long long"),
        ("h", "unsigned char"),
        ("s", "short"),
    ];
    match s.u(if depth > 2 { 2 } else { 6 }) {
        0 | 1 => {
            let (m, t) = s.pick(B);
            (m.to_string(), t.to_string())
        }
        2 => {
            let (m, t) = ity(s, depth + 3);
            (format!("P{m}"), format!("{t}*"))
        }
        3 => {
            let (m, t) = ity(s, depth + 3);
            (format!("RK{m}"), format!("{t} const&"))
        }
        4 => {
            let id = ident(s);
            (format!("{}{id}", id.len()), id)
        }
        _ => {
            let (a, b) = (ident(s), ident(s));
            let (m, t) = ity(s, depth + 3);
            (format!("PN{}{a}{}{b}I{m}EE", a.len(), b.len()), format!("{a}::{b}<{t}>*"))
        }
    }
}
fn params(s: &mut Src) -> (String, String) {
    let n = s.us(4);
    if n == 0 {
        return ("v".into(), "()".into());
    }
    let p: Vec<_> = (0..n).map(|_| ity(s, 0)).collect();
    (
        p.iter().map(|x| x.0.as_str()).collect::<String>(),
        format!("({})", p.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(", ")),
    )
}
pub fn itanium(s: &mut Src) -> Nm {
    let (pm, pt) = params(s);
    let sn = |i: &str| format!("{}{i}", i.len());
    let (raw, shown) = match s.u(9) {
        0 | 1 => {
            let a = ident(s);
            (format!("_Z{}{pm}", sn(&a)), format!("{a}{pt}"))
        }
        2 | 3 => {
            let n = 2 + s.us(3);
            let ids: Vec<_> = (0..n).map(|_| ident(s)).collect();
            let k = s.chance(1, 3);
            (
                format!(
                    "_ZN{}{}E{pm}",
                    if k { "K" } else { "" },
                    ids.iter().map(|i| sn(i)).collect::<String>()
                ),
                format!("{}{pt}{}", ids.join("::"), if k { " const" } else { "" }),
            )
        }
        4 => {
            let a = ident(s);
            if s.chance(1, 2) {
                (format!("_ZN{}C{}E{pm}", sn(&a), 1 + s.u(2)), format!("{a}::{a}{pt}"))
            } else {
                (format!("_ZN{}D{}Ev", sn(&a), s.u(3)), format!("{a}::~{a}()"))
            }
        }
        5 => {
            // template function: the return type is encoded and must not be shown
            let a = ident(s);
            let (tm, tt) = ity(s, 1);
            let (rm, _) = ity(s, 3);
            let tt = if tt.ends_with('>') { format!("{tt} ") } else { tt };
            (format!("_Z{}I{tm}E{rm}{pm}", sn(&a)), format!("{a}<{tt}>{pt}"))
        }
        6 => {
            let a = ident(s);
            let (m, t) = *s.pick(&[("cl", "operator()"), ("pl", "operator+"), ("eq", "operator=="), ("ix", "operator[]")]);
            (format!("_ZN{}{m}E{pm}", sn(&a)), format!("{a}::{t}{pt}"))
        }
        7 => {
            let a = ident(s);
            (format!("_ZN12_GLOBAL__N_1{}E{pm}", sn(&a)), format!("(anonymous namespace)::{a}{pt}"))
        }
        _ => {
            let a = ident(s);
            (format!("_ZSt{}{pm}", sn(&a)), format!("std::{a}{pt}"))
        }
    };
    Nm { raw, shown, suffix: String::new(), scheme: Scheme::Itanium, param: None }
}

pub fn rust(s: &mut Src) -> Nm {
    let n = 1 + s.us(3);
    let ids: Vec<String> = (0..n + 1).map(|_| ident(s)).collect();
    let (raw, shown) = if s.chance(1, 2) {
        // v0: crate, then modules, then function
        let mut m = format!("C{}{}{}", if s.chance(1, 2) { "s1x9_" } else { "" }, ids[0].len(), ids[0]);
        for (i, id) in ids.iter().enumerate().skip(1) {
            let ns = if i + 1 == ids.len() { "v" } else { "t" };
            m = format!("N{ns}{m}{}{id}", id.len());
        }
        (format!("_R{m}"), ids.join("::"))
    } else {
        let p: String = ids.iter().map(|i| format!("{}{i}", i.len())).collect();
        let h: String = (0..16).map(|_| char::from_digit(s.u(16) as u32, 16).unwrap()).collect();
        // the hash needs some variety to count as one
        let h = format!("0123456789a{}", &h[..5]);
        (format!("_ZN{p}17h{h}E"), ids.join("::"))
    };
    Nm { raw, shown, suffix: String::new(), scheme: Scheme::Rust, param: None }
}

fn mty(s: &mut Src, depth: u32) -> (String, String) {
    const B: &[(&str, &str)] = &[
        ("H", "int"),
        ("D", "char"),
        ("I", "unsigned int"),
        ("M", "float"),
        ("N", "double"),
        ("_N", "bool"),
        ("J", "long"),
        ("F", "short"),
    ];
    match s.u(if depth > 0 { 2 } else { 4 }) {
        0 | 1 => {
            let (m, t) = s.pick(B);
            (m.to_string(), t.to_string())
        }
        2 => {
            let (m, t) = mty(s, 1);
            (format!("PEA{m}"), format!("{t}*"))
        }
        _ => {
            let (m, t) = mty(s, 1);
            (format!("PEB{m}"), format!("{t} const*"))
        }
    }
}

/// An MSVC name of a function. Identifiers are distinct and so are the parameter types: back references are not needed.
pub fn msvc(s: &mut Src) -> Nm {
    let n = s.us(3);
    let mut ty: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let t = mty(s, 0);
        if !ty.iter().any(|x| x.0 == t.0) {
            ty.push(t);
        }
    }
    let pm: String = if ty.is_empty() { "X".into() } else { ty.iter().map(|t| t.0.as_str()).collect::<String>() + "@" };
    let pt = if ty.is_empty() {
        "(void)".to_string()
    } else {
        format!("({})", ty.iter().map(|t| t.1.as_str()).collect::<Vec<_>>().join(", "))
    };
    let k = 1 + s.us(3);
    let mut ids: Vec<String> = vec![];
    while ids.len() < k {
        let i = format!("{}{}", ident(s), ["", "q", "z"][ids.len() % 3]);
        if !ids.contains(&i) {
            ids.push(i);
        } else {
            ids.push(format!("{i}u{}", ids.len()));
        }
    }
    let rev: String = ids.iter().rev().map(|i| format!("{i}@")).collect();
    let (_r, _) = (0, 0);
    let path = ids.join("::");
    let (raw, shown) = match s.u(4) {
        0 | 1 => {
            let r = *s.pick(&["X", "H", "D"]);
            (format!("?{rev}@YA{r}{pm}Z"), format!("{path}{pt}"))
        }
        2 if ids.len() > 1 => {
            let (r, acc) = (*s.pick(&["X", "H"]), *s.pick(&["QEAA", "AEAA", "IEAA"]));
            (format!("?{rev}@{acc}{r}{pm}Z"), format!("{path}{pt}"))
        }
        2 => (format!("?{rev}@YAH{pm}Z"), format!("{path}{pt}")),
        _ => {
            // anonymous namespace
            let a = ids[0].clone();
            let n = 1 + s.chance(1, 3) as usize;
            let q: String = (0..n).map(|_| format!("?A0x{:08x}@", s.u(1 << 31))).collect();
            (format!("?{a}@{q}@YAX{pm}Z"), format!("{}{a}{pt}", "(anonymous namespace)::".repeat(n)))
        }
    };
    Nm { raw, shown, suffix: String::new(), scheme: Scheme::Msvc, param: None }
}

pub fn plain(s: &mut Src) -> Nm {
    let mut i = ident(s);
    if s.chance(1, 6) {
        i = format!("{}{i}", s.pick(&["__", "_"]));
    }
    if s.chance(1, 12) {
        // nothing that would be a clone suffix
        i = format!(
            "{i}{}",
            s.pick(&[
                ".part.0.x", ".cold.y", ".colder", ".llvm.12ab", ".isra.", ".cold.0.0", ".Cold", ".constpro", "[clone .cold]z", "cold",
                ".lto_private.0", ".str.x.1", ".part.-1", "..cold0", ".localalias7"
            ])
        );
    } else if s.chance(1, 12) {
        i = format!("{i}{}", s.pick(&["@plt", "@@GLIBC_2.2.5", ".0", "é", "日本", " with blank", "<T>"]));
    }
    Nm::plain(&i)
}

pub fn broken(s: &mut Src) -> Nm {
    let i = ident(s);
    let raw = match s.u(4) {
        0 => format!("_Z999{i}"),
        1 => format!("_ZN{}{i}", i.len() + 5),
        2 => format!("_ZN!{i}E"),
        _ => format!("_Z!!{i}"),
    };
    Nm { shown: raw.clone(), raw, suffix: String::new(), scheme: Scheme::Broken, param: None }
}

pub fn suffix(s: &mut Src) -> String {
    let n = 1 + s.us(3);
    let mut r = String::new();
    for _ in 0..n {
        if s.chance(1, 5) {
            r += s.pick(&[" [clone .cold]", " [clone .isra.0]", "[clone foo bar]"]);
        } else {
            let k = *s.pick(&["cold", "constprop", "llvm", "localalias", "lto_priv", "isra", "part", "str"]);
            r += &match s.u(7) {
                0 | 1 => format!(".{k}"),
                2 | 3 => format!(".{k}.{}", s.u(10)),
                4 => format!(".{k}.{}", s.u(1 << 60) as u128 * 0x1_0000_0000_0000),
                _ => format!(".{k}.{}", s.u(1 << 60)),
            };
        }
    }
    r
}

/// A name fit for a unit of language l.
pub fn any(s: &mut Src, l: Lang) -> Nm {
    let mut n = match s.u(10) {
        0..=3 => plain(s),
        4..=7 => match l {
            Lang::Cpp => itanium(s),
            Lang::Rust => rust(s),
            Lang::C => plain(s),
            Lang::Other => {
                if s.chance(1, 2) {
                    itanium(s)
                } else {
                    rust(s)
                }
            }
        },
        8 => itanium(s),
        _ => {
            if s.chance(1, 3) {
                msvc(s)
            } else if s.chance(1, 4) {
                broken(s)
            } else {
                plain(s)
            }
        }
    };
    if s.chance(1, 6) {
        n.suffix = suffix(s);
        if n.scheme == Scheme::Rust && n.suffix.contains('[') {
            n.suffix = ".cold".into();
        }
    }
    n
}

/// Symbols of constants, which are not listed.
pub fn skipped(n: &str) -> bool {
    ["??_C", "__real@", "__xmm@", "__ymm@"].iter().any(|p| n.starts_with(p))
}

/// A symbol of a Windows module: C decorations and MSVC names.
pub fn win(s: &mut Src, rich: bool) -> Nm {
    let i = ident(s);
    let mk = |raw: String, shown: String, param: Option<u32>| Nm { raw, shown, suffix: String::new(), scheme: Scheme::Plain, param };
    if !rich {
        return mk(i.clone(), i, None);
    }
    let n = match s.u(4) {
        0 => 0,
        1 => 4 * s.u(8) as u32,
        2 => 4 * s.u(64) as u32,
        _ => s.u(1 << 32) as u32,
    };
    match s.u(15) {
        0 | 1 => mk(i.clone(), i, None),
        14 => {
            let n = format!("{}{i}", s.pick(&["é", "日本", "ß_", "😀"]));
            mk(n.clone(), n, None)
        }
        2 | 3 => mk(format!("_{i}"), i, None),
        4 | 5 => mk(format!("_{i}@{n}"), i, Some(n)),
        6 => mk(format!("@{i}@{n}"), i, Some(n)),
        7 => match s.u(4) {
            0 => mk(format!("{i}@@b@@{n}"), format!("{i}@@b"), Some(n)),
            1 => mk(format!("_{i}@b@{n}"), format!("{i}@b"), Some(n)),
            _ => mk(format!("{i}@@{n}"), i, Some(n)),
        },
        8 => {
            // almost decorated
            match s.u(6) {
                0 => mk(format!("_{i}@x{n}"), format!("{i}@x{n}"), None),
                1 => mk(format!("{i}@{n}"), format!("{i}@{n}"), None),
                2 => mk(format!("@{i}"), format!("@{i}"), None),
                3 => match s.u(2) {
                    0 => mk(format!("_{i}<T>"), format!("{i}<T>"), None),
                    _ => mk(format!("__{i}"), format!("_{i}"), None),
                },
                4 => mk(format!("_{i}@99999999999"), format!("{i}@99999999999"), None),
                _ => mk(format!("_{i}@@{n}"), format!("_{i}"), Some(n)),
            }
        }
        9 => {
            // not decorated at all
            let t = match s.u(4) {
                0 => format!("_{i}::{i}"),
                1 => format!("{i}::{i}@@{n}"),
                2 => format!("_{i}(int)@4"),
                _ => format!("{i}::{i}(int)"),
            };
            mk(t.clone(), t, None)
        }
        10 => {
            // MinGW, 32 bit: one more underscore (without it Itanium names are a known finding)
            let mut n = if s.chance(1, 3) { rust(s) } else { itanium(s) };
            if n.scheme == Scheme::Itanium || s.chance(1, 2) {
                n.raw = format!("_{}", n.raw);
            }
            if n.scheme == Scheme::Itanium && s.chance(1, 4) {
                n.suffix = suffix(s);
            }
            n
        }
        _ => msvc(s),
    }
}
