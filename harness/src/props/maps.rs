//! C09, C19: path mappings, compressed mini debug information.
use super::core::{check_publics, describe, label_module};
use super::ident::{header, small, tree, write};
use crate::elf::{Sec, PROGBITS};
use crate::elfmod::{elf_file, ElfOpts};
use crate::engine::*;
use crate::fmt::*;
use crate::model::*;
use crate::names;
use crate::run::Cmd;
use crate::sym;
use serde_json::json;
use sha2::{Digest, Sha512};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug)]
enum Piece {
    Lit(String),
    Group(usize),
    Digest(bool),
}

/// A template as the statement defines it; None: it has an unknown placeholder.
fn compile(t: &str, vars: &BTreeMap<String, String>) -> Option<Vec<Piece>> {
    let mut out = vec![Piece::Lit(String::new())];
    let mut rest = t;
    loop {
        let lit = |out: &mut Vec<Piece>, x: &str| match out.last_mut() {
            Some(Piece::Lit(l)) => l.push_str(x),
            _ => out.push(Piece::Lit(x.to_string())),
        };
        let Some(i) = rest.find('{') else {
            lit(&mut out, rest);
            return Some(out);
        };
        lit(&mut out, &rest[..i]);
        let after = &rest[i + 1..];
        match after.find(['{', '}']) {
            Some(j) if after.as_bytes()[j] == b'}' => {
                let name = &after[..j];
                match name {
                    "digest" => out.push(Piece::Digest(false)),
                    "DIGEST" => out.push(Piece::Digest(true)),
                    _ => match (vars.get(name), name.parse::<usize>()) {
                        (Some(v), _) => lit(&mut out, v),
                        (None, Ok(n)) => out.push(Piece::Group(n)),
                        _ => return None,
                    },
                }
                rest = &after[j + 1..];
            }
            _ => {
                lit(&mut out, "{");
                rest = after;
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Rule {
    source: String,
    dest: String,
    files: BTreeSet<String>,
}

struct Compiled {
    re: regex::Regex,
    dest: Vec<Piece>,
    files: BTreeSet<String>,
}

/// None: not decided by the statement.
fn map_path(rules: &[Compiled], path: &str, contents: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for r in rules {
        if !r.files.is_empty() && !r.files.contains(path) {
            continue;
        }
        let Some(c) = r.re.captures(path) else { continue };
        let mut out = String::new();
        let (mut no_group, mut no_digest) = (false, false);
        for p in &r.dest {
            match p {
                Piece::Lit(t) => out.push_str(t),
                Piece::Group(n) => match c.get(*n) {
                    Some(g) => out.push_str(g.as_str()),
                    None => no_group = true,
                },
                Piece::Digest(upper) => match contents.get(path) {
                    Some(d) => {
                        let h: String = Sha512::digest(d).iter().map(|b| if *upper { format!("{b:02X}") } else { format!("{b:02x}") }).collect();
                        out.push_str(&h);
                    }
                    None => no_digest = true,
                },
            }
        }
        match (no_group, no_digest) {
            (true, true) => return None,
            (true, false) => continue,
            (false, true) => return Some(path.to_string()),
            (false, false) => return Some(out),
        }
    }
    Some(path.to_string())
}

/// More than nine groups
const MANY: &str = "^(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)";

fn gen_source(s: &mut Src, paths: &[String]) -> String {
    let p = s.pick(paths).clone();
    let cut = |s: &mut Src| {
        let v: Vec<usize> = p.char_indices().map(|x| x.0).chain([p.len()]).collect();
        *s.pick(&v)
    };
    let e = |x: &str| regex::escape(x);
    let k = cut(s);
    let (a, b) = (&p[..k], &p[k..]);
    match s.u(14) {
        0 => format!("{}(.*)", e(a)),
        1 => format!("^{}(.*)$", e(a)),
        2 => format!("^{}$", e(&p)),
        3 => "^(.*)[/\\\\]([^/\\\\]*)$".into(),
        4 => e(b),
        5 => format!("(zzz)?{}(.+)?", e(a)),
        6 => format!("({})|(nothing/like/that)", e(a)),
        7 => "(nothing)|(.*)\\.(h|cpp)$".into(),
        8 => ".*".into(),
        9 => format!("(?i){}(?P<rest>.*)", e(a)).to_uppercase().replace("(?I)", "(?i)").replace("(?P<REST>", "(?P<rest>"),
        10 => "nothing like that".into(),
        11 => format!("(({}).)(.*)", e(a)),
        12 => format!("{}(.*)", MANY),
        _ => "([a-z]+)".into(),
    }
}

fn gen_template(s: &mut Src, vars: &BTreeMap<String, String>, digest: bool, invalid: bool) -> String {
    let mut t = s.pick(&["https://x.org/", "m:", "/mapped/", "é/", "s3://b:"]).to_string();
    let n = s.count(0, 5);
    let bad = s.us(n + 1);
    for i in 0..=n {
        if invalid && i == bad {
            t += s.pick(&["{unknown}", "{}", "{-1}", "{ 1}", "{1 }", "{DIgest}", "{revx}", "{1.0}", "{rest}"]);
            continue;
        }
        if i == n {
            break;
        }
        match s.u(9) {
            0..=2 => t += &format!("{{{}}}", s.pick(&[1, 1, 2, 3, 0, 9])),
            3 | 4 => {
                let v: Vec<&String> = vars.keys().collect();
                if !v.is_empty() {
                    t += &format!("{{{}}}", s.pick(&v));
                }
            }
            5 if digest => t += s.pick(&["{digest}", "{DIGEST}"]),
            6 => t += s.pick(&["}", "{", "{{1}", "{a{1}", "}}", "$1", "\\1", "%20", "${1}"]),
            _ => t += s.pick(&["/", "-", "a b", "rev", "ü", ":", "#L", "a", "."]),
        }
    }
    if s.chance(3, 4) {
        t += "!";
    }
    t
}

fn gen_vars(s: &mut Src) -> BTreeMap<String, String> {
    let mut v = BTreeMap::new();
    for _ in 0..s.count(0, 3) {
        let k = s.pick(&["rev", "x-y", "VCS", "é", "rev2", "a b"]).to_string();
        let x = s.pick(&["123abc", "", "a=b", "{1}", "{rev}", "h g", "ß", "\\1", "}"]).to_string();
        v.insert(k, x);
    }
    v
}

/// Puts some files of the module on disk.
pub fn on_disk(s: &mut Src, ctx: &Ctx, case: &mut Case, m: &mut Module, tag: &str, contents: &mut BTreeMap<String, Vec<u8>>) {
    let base = ctx.dir.join("srcs");
    let base = base.to_str().unwrap().to_string();
    let mut k = 0;
    for u in &mut m.units {
        let mut used = false;
        let n = u.dirs.len();
        for f in &mut u.files {
            if !s.chance(1, 2) {
                continue;
            }
            k += 1;
            let name = if s.chance(1, 4) { "shared.h".to_string() } else { format!("{}{tag}{k}.{}", s.pick(&["", "", "", "é", "日本 ", "Up", "a b"]), s.pick(&["c", "h", "cpp"])) };
            let path = format!("{base}/{name}");
            if m.kind == Kind::Pdb {
                f.name = path.clone().into_bytes();
            } else {
                f.dir = n;
                f.name = name.clone().into_bytes();
                used = true;
            }
            f.path = path.clone();
            if s.chance(3, 4) && !contents.contains_key(&path) {
                let n = *s.pick(&[0, 1, 20, 300]);
                let mut d = s.bytes(n);
                if s.chance(1, 8) {
                    let h = *s.pick(&[&b"\xef\xbb\xbf"[..], b"\xff\xfe", b"#!/bin/sh\n", b"\r\n", b"\0", b" ", b"MSCF"]);
                    d.splice(0..0, h.iter().copied());
                }
                if s.chance(1, 8) {
                    d.extend_from_slice(*s.pick(&[&b"\n"[..], b"\r\n", b"\n\n", b"\x1a", b"\0", b" "]));
                }
                write(ctx, case, &format!("srcs/{name}"), &d);
                contents.insert(path, d);
            }
        }
        if used {
            u.dirs.push(base.clone().into_bytes());
        }
    }
}

fn c09(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let two = s.chance(1, 5);
    let mut mods: Vec<(Module, Fmt, String)> = vec![];
    let mut contents = BTreeMap::new();
    for i in 0..1 + two as usize {
        let kind = *s.pick(&[Kind::Elf, Kind::Elf, Kind::Mach, Kind::Pdb]);
        let mut m = generate(s, &GenCfg { kind, max_funcs: 4, units: 2, names: false, dup: false, partial: kind != Kind::Pdb, ..Default::default() });
        on_disk(s, ctx, case, &mut m, &format!("f{i}_"), &mut contents);
        let f = Fmt::gen(s, &m);
        let p = format!("in{i}/{}", f.name());
        write(ctx, case, &p, &f.build(&m));
        label_module(&m, case);
        let p = super::core::input_of(s, ctx, case, &m, &f, &p);
        mods.push((m, f, p));
    }
    if two && header(&mods[0].0, &mods[0].1, "").2 == header(&mods[1].0, &mods[1].1, "").2 {
        mods.truncate(1);
    }
    let two = mods.len() == 2;
    let mut paths: Vec<String> = mods.iter().flat_map(|m| m.0.units.iter().flat_map(|u| u.files.iter().map(|f| f.path.clone()))).collect();
    paths.sort();
    paths.dedup();
    if paths.is_empty() {
        paths.push("/nothing".into());
    }
    let cli_vars = gen_vars(s);
    let file_vars = gen_vars(s);
    let invalid = if s.chance(1, 5) { 1 + s.u(8) } else { 0 };
    let digest = s.chance(1, 2);
    let with_file = s.chance(1, 2) || matches!(invalid, 2 | 4);
    let mut all_vars = file_vars.clone();
    all_vars.extend(cli_vars.clone());
    let ncli = s.count(if matches!(invalid, 1 | 3) { 1 } else { 0 }, 4);
    let mut cli: Vec<Rule> = vec![];
    for i in 0..ncli {
        let source = gen_source(s, &paths);
        let mut dest = gen_template(s, &cli_vars, digest, invalid == 1 && i == ncli - 1);
        if source.starts_with(MANY) && s.chance(3, 4) {
            dest += s.pick(&["{10}", "{11}", "{12}", "{012}", "{13}", "{4}"]);
        }
        cli.push(Rule { source, dest, files: BTreeSet::new() });
    }
    let mut file: Vec<Rule> = vec![];
    if with_file {
        let n = s.count(if matches!(invalid, 2 | 4) { 1 } else { 0 }, 4);
        for i in 0..n {
            let source = gen_source(s, &paths);
            let mut dest = gen_template(s, &all_vars, digest, invalid == 2 && i == 0);
            if source.starts_with(MANY) && s.chance(3, 4) {
                dest += s.pick(&["{10}", "{11}", "{12}", "{012}", "{13}", "{4}"]);
            }
            let mut files = BTreeSet::new();
            if s.chance(1, 2) {
                for _ in 0..1 + s.us(3) {
                    files.insert(if s.chance(3, 4) { s.pick(&paths).clone() } else { "/elsewhere/x.c".into() });
                }
            }
            file.push(Rule { source, dest, files });
        }
    }
    let bad_re = *s.pick(&["(", "[a", "a{2,1}", "\\", "(?P<>x)", "*"]);
    match invalid {
        3 => cli.last_mut().unwrap().source = bad_re.into(),
        4 => {
            let k = s.us(file.len());
            file[k].source = bad_re.into();
        }
        _ => {}
    }
    let mut args: Vec<String> = vec![];
    let mut opts: Vec<Vec<String>> = vec![];
    for (k, v) in &cli_vars {
        opts.push(vec![format!("--mapping-var={k}={v}")]);
    }
    for r in &cli {
        opts.push(vec![format!("--mapping-src={}", r.source), format!("--mapping-dest={}", r.dest)]);
    }
    if with_file {
        let v = json!({
            "variables": file_vars,
            "mappings": file.iter().map(|r| json!({"source": r.source, "destination": r.dest, "files": r.files})).collect::<Vec<_>>(),
        });
        let mut text = serde_json::to_string_pretty(&v).unwrap().into_bytes();
        if invalid == 5 {
            text.truncate(text.len() / 2);
        }
        write(ctx, case, "map.json", &text);
        opts.push(vec![if s.chance(1, 2) { "--mapping-file=map.json".into() } else { format!("--mapping-file={}", ctx.dir.join("map.json").display()) }]);
    }
    let mut is_invalid = invalid != 0;
    match invalid {
        5 if !with_file => opts.push(vec!["--mapping-file=missing.json".into()]),
        6 => opts.push(vec![s.pick(&["--mapping-src=abc", "--mapping-dest=abc"]).to_string()]),
        7 => opts.push(vec![format!("--mapping-var={}", s.pick(&["rev", "123", "a b"]))]),
        8 if !with_file => {
            let t = *s.pick(&["{}", "[]", "", "{\"variables\":{}}", "{\"mappings\":[]}", "{\"variables\":{},\"mappings\":[{\"source\":\"a\"}]}", "\u{feff}{"]);
            write(ctx, case, "bad.json", t.as_bytes());
            opts.push(vec!["--mapping-file=bad.json".into()]);
        }
        8 => is_invalid = false,
        _ => {}
    }
    // the order of rules among each other is kept
    args.extend(opts.concat());
    let inl = s.chance(1, 2);
    if inl {
        args.push("--inlines".into());
    }
    case.note(&format!(
        "{}; paths {paths:?}; {args:?}; file rules {file:?} variables {file_vars:?}",
        mods.iter().map(|m| describe(&m.0)).collect::<Vec<_>>().join(" | ")
    ));
    case.label_if(is_invalid, "invalid configuration");
    case.label_if(with_file, "mapping file");
    case.label_if(two, "two modules");
    case.label_if(!cli.is_empty() && !file.is_empty(), "rules from both");
    let cmd = Cmd::new(ctx).args(mods.iter().map(|m| &m.2)).args(&args);
    let cmd = if two { cmd } else { cmd.noise(s) };
    if is_invalid {
        case.nontrivial = true;
        let before = tree(&ctx.dir);
        let o = match s.u(3) {
            0 if !two => cmd.run(),
            1 => cmd.args(["-o", "out.sym"]).run(),
            _ => cmd.args(["--store", "st"]).run(),
        };
        if o.ok() || o.code.is_none() {
            return Err(format!("invalid mapping configuration: {}", o.describe()));
        }
        if tree(&ctx.dir) != before || !o.stdout.is_empty() {
            return Err("output was written in spite of an invalid mapping configuration".into());
        }
        return Ok(());
    }
    // the rules in their order
    let comp = |r: &Rule, vars: &BTreeMap<String, String>| -> Result<Compiled, String> {
        Ok(Compiled {
            re: regex::Regex::new(&r.source).map_err(|e| format!("harness: bad expression {:?}: {e}", r.source))?,
            dest: compile(&r.dest, vars).ok_or(())
                .map_err(|_| format!("accidental unknown placeholder in {:?}", r.dest))?,
            files: r.files.clone(),
        })
    };
    let mut rules = vec![];
    let mut undecided = false;
    for (r, v) in file
        .iter()
        .filter(|r| !r.files.is_empty())
        .chain(file.iter().filter(|r| r.files.is_empty()))
        .map(|r| (r, &all_vars))
        .chain(cli.iter().map(|r| (r, &cli_vars)))
    {
        match comp(r, v) {
            Ok(c) => rules.push(c),
            Err(_) => undecided = true,
        }
    }
    if undecided {
        // literal braces made up a placeholder
        case.label("accidental placeholder");
        let o = cmd.args(["--store", "st"]).run();
        return if o.ok() { Err(format!("unknown placeholder accepted in {args:?} {file:?}")) } else { Ok(()) };
    }
    let mut changed = 0;
    for (m, ..) in &mut mods {
        for u in &mut m.units {
            for f in &mut u.files {
                match map_path(&rules, &f.path, &contents) {
                    Some(p) => {
                        changed += (p != f.path) as usize;
                        f.path = p;
                    }
                    None => {
                        case.label("undecided");
                        return Ok(());
                    }
                }
            }
        }
    }
    case.label_if(changed > 0, "path rewritten");
    case.label_if(digest && changed > 0, "digest");
    case.nontrivial = changed > 0;
    let mut dumps: Vec<sym::Sym> = vec![];
    if two {
        let o = cmd.args(["--store", "st", "-j", "2"]).run();
        if !o.ok() {
            return Err(format!("dump failed: {}", o.describe()));
        }
        for (p, d) in tree(&ctx.dir) {
            if p.starts_with("st/") {
                dumps.push(sym::parse(&d).map_err(|e| format!("{p}: {e}"))?);
            }
        }
    } else {
        let o = cmd.run();
        if !o.ok() {
            return Err(format!("dump failed: {}", o.describe()));
        }
        dumps.push(sym::parse(&o.stdout)?);
    }
    for (m, f, p) in &mods {
        let id = header(m, f, "").2;
        let y = dumps.iter().find(|y| y.id == id).ok_or(format!("no symbols for {p}"))?;
        check_lines(m, y, inl)?;
        if inl {
            check_inlines(m, y)?;
        }
        let known: BTreeSet<&str> = m.units.iter().flat_map(|u| u.files.iter().map(|f| f.path.as_str())).collect();
        for n in &y.files {
            if !known.contains(n.as_str()) {
                return Err(format!("FILE {n:?} is none of {known:?}"));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn xz(s: &mut Src, ctx: &Ctx, data: &[u8], case: &mut Case) -> Vec<u8> {
    let stored = |data: &[u8]| {
        let mut out = vec![];
        lzma_rs::xz_compress(&mut &data[..], &mut out).unwrap();
        out
    };
    if s.chance(1, 3) {
        case.label("stored LZMA2 chunks");
        return stored(data);
    }
    let p = ctx.dir.join(".outxz");
    std::fs::write(&p, data).unwrap();
    let mut c = std::process::Command::new("xz");
    c.arg("-c").arg(format!("-{}", s.u(10))).arg(format!("--check={}", s.pick(&["crc64", "crc32", "none"]))).arg("-T1");
    if s.chance(1, 4) {
        c.arg("-e");
    }
    if s.chance(1, 4) {
        c.arg(format!("--lzma2=preset=1,lc={},lp={},pb={},dict=4096,mode=fast", s.u(3), s.u(3), s.u(3)));
    }
    match c.arg(&p).output() {
        Ok(o) if o.status.success() => {
            case.label("compressed by xz");
            o.stdout
        }
        _ => stored(data),
    }
}

/// Changes the offset and size of a section header.
fn patch_section(file: &mut [u8], m: &Module, k: usize, off: Option<u64>, size: Option<u64>) {
    let get = |f: &[u8], a: usize| -> usize {
        let b = &f[a..a + if m.is64 { 8 } else { 4 }];
        let v = b.iter().enumerate().map(|(i, x)| (*x as usize) << (8 * if m.be { b.len() - 1 - i } else { i })).sum();
        v
    };
    let (shoff, ent) = if m.is64 { (get(file, 0x28), 64) } else { (get(file, 0x20), 40) };
    let h = shoff + k * ent;
    for (v, a) in [(off, if m.is64 { 24 } else { 16 }), (size, if m.is64 { 32 } else { 20 })] {
        let Some(v) = v else { continue };
        let n = if m.is64 { 8 } else { 4 };
        for i in 0..n {
            file[h + a + i] = (v >> (8 * if m.be { n - 1 - i } else { i })) as u8;
        }
    }
}

fn c19(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let dwarf = s.chance(1, 2);
    let mut m = generate(s, &GenCfg { kind: Kind::Elf, max_funcs: 4, units: 2, inlines: false, symtab: false, dup: false, ..Default::default() });
    m.syms = gen_syms(s, &m, 6, true);
    let mut inner = m.clone();
    inner.syms = gen_syms(s, &m, 12, true);
    // some symbols are in both
    for y in &m.syms {
        if s.chance(1, 5) {
            inner.syms.push(y.clone());
        }
    }
    let mut o = ElfOpts::gen(s, &m);
    o.debug = dwarf;
    if !dwarf {
        m.units.clear();
    }
    let mut io = ElfOpts { nobits: s.chance(3, 4), debug: s.chance(1, 4), soname: None, ..o.clone() };
    if s.chance(1, 4) {
        io.build_id = None;
    }
    // an object of several blocks of compressed data
    if s.chance(1, 6) {
        let n = *s.pick(&[70_000, 300_000]);
        let d = (0..n).map(|i: u32| (i.wrapping_mul(2_654_435_761) >> 24) as u8).collect();
        io.extra.push(Sec::new(".pad", PROGBITS, 0, 0, d));
    }
    let inner_file = elf_file(&inner, &io);
    let plain = elf_file(&m, &o);
    let damage = if s.chance(1, 3) { 1 + s.u(8) } else { 0 };
    let mut sec = xz(s, ctx, if damage == 4 { b"just some text that is no object file" } else { &inner_file }, case);
    match damage {
        1 => {
            let n = s.us(sec.len().saturating_sub(40).max(1));
            sec.truncate(n);
        }
        2 => sec = s.bytes(200),
        3 => sec.clear(),
        5 => {
            for _ in 0..1 + s.us(3) {
                let k = s.us(sec.len());
                sec[k] ^= 1 << s.u(8);
            }
        }
        6 => {
            // the object inside is cut
            let n = s.us(60.min(inner_file.len()));
            sec = xz(s, ctx, &inner_file[..n], case);
        }
        7 => sec = inner_file.clone(),
        _ => {}
    }
    let mut with = o.clone();
    let at = s.us(with.extra.len() + 1);
    with.extra.insert(at, Sec::new(".gnu_debugdata", PROGBITS, 0, 0, sec));
    // sections of similar names are none
    let mut before = 0;
    if s.chance(1, 4) {
        let mut other = m.clone();
        other.syms = gen_syms(s, &m, 12, true);
        let x = xz(s, ctx, &elf_file(&other, &io), case);
        let k = s.us(with.extra.len() + 1);
        before = (k <= at) as usize;
        let name = *s.pick(&[".gnu_debugdata2", "x.gnu_debugdata", ".gnu_debugdat", ".GNU_DEBUGDATA", ".debugdata"]);
        with.extra.insert(k, Sec::new(name, PROGBITS, 0, 0, x));
        case.label("section of a similar name");
    }
    let mut file = elf_file(&m, &with);
    if damage == 8 {
        // the section lies outside of the file
        let k = 1 + m.sections.len() + if o.data_sec { 2 } else { 0 } + at + before;
        let (off, size) = match s.u(3) {
            0 => (None, Some(file.len() as u64 + s.u(1 << 20))),
            1 => (Some(file.len() as u64 + s.u(1 << 20)), None),
            _ => (Some(0xffff_fff0), Some(0x7fff_ffff)),
        };
        patch_section(&mut file, &m, k, off, size);
    }
    write(ctx, case, "a/mod.so", &plain);
    write(ctx, case, "b/mod.so", &file);
    case.artifact("inner.elf", &inner_file);
    case.note(&format!(
        "{}; damage {damage}; outer {:x?} inner {:x?}",
        describe(&m),
        m.syms.iter().map(|y| (y.rva, y.size, y.name.full(), y.func, y.dynamic)).collect::<Vec<_>>(),
        inner.syms.iter().map(|y| (y.rva, y.size, y.name.full(), y.func, y.dynamic)).collect::<Vec<_>>()
    ));
    label_module(&m, case);
    case.label_if(damage > 0, "damaged section");
    case.label_if(dwarf, "with DWARF");
    let args: &[&str] = if s.chance(1, 3) { &["--inlines"] } else { &[] };
    let a = Cmd::new(ctx).arg("a/mod.so").args(args).run();
    let b = Cmd::new(ctx).arg("b/mod.so").args(args).run();
    if !a.ok() {
        return Err(format!("dump failed: {}", a.describe()));
    }
    if !b.ok() {
        return Err(format!("dump with .gnu_debugdata failed: {}", b.describe()));
    }
    let rest = |o: &[u8]| -> Vec<String> { String::from_utf8_lossy(o).lines().filter(|l| !l.starts_with("PUBLIC")).map(|l| l.to_string()).collect() };
    if rest(&a.stdout) != rest(&b.stdout) {
        return Err("the section changes records other than PUBLIC".into());
    }
    if damage == 5 {
        // whatever could be recovered from it
        return Ok(());
    }
    if damage > 0 {
        case.nontrivial = true;
        if a.stdout != b.stdout {
            return Err("an unusable section changes the dump".into());
        }
        return Ok(());
    }
    let y = sym::parse(&b.stdout)?;
    y.ordered()?;
    let funcs: Vec<(u64, u64)> = m.expected_funcs().values().map(|e| (e.addr, e.size)).collect();
    let syms: Vec<(u64, u64, String, u64)> = m
        .func_syms()
        .iter()
        .chain(inner.func_syms().iter())
        .filter(|y| !names::skipped(&y.name.full()))
        .map(|y| (y.rva, y.size, y.name.in_public(), 0))
        .collect();
    let mut e = expect_publics(&funcs, &syms);
    for x in &m.sections {
        if !funcs.iter().any(|f| f.0 == x.rva) {
            e.must.entry(x.rva).or_insert((format!("<{} ELF section in mod.so>", x.name), false, 0));
        }
    }
    let own = expected_publics(&m, &Fmt::Elf(o.clone()), "mod.so").must.len();
    case.label_if(e.must.len() > own, "symbol only in the section");
    case.nontrivial = e.must.len() > own;
    check_publics(&y, &e)
}

pub fn props() -> Vec<Prop> {
    let _ = small;
    vec![
        Prop { id: "C09", quick: 8000, thorough: 300_000,
            rule: "random modules (ELF, Mach-O, PDB, sometimes two at once) with source files partly on disk, random rules on the command line and in a mapping file (sources made from the paths, templates of groups, variables, digests, literal and stray braces; file lists), or one defect in the configuration; FILE records behind every line and inlined call compared with a reference rewriting; non-trivial: some path is rewritten or the configuration is invalid",
            assumptions: &["the regex crate decides what an expression matches", "variables named like a number or a digest, variables of the mapping file in command-line rules, and the same variable given twice are not generated", "a rule lacking both a group and a digest is not judged"],
            run: c09, expect: &[("path rewritten", 500), ("invalid configuration", 500), ("mapping file", 500), ("digest", 300)], workers: 0 },
        Prop { id: "C19", quick: 5000, thorough: 200_000,
            rule: "a random ELF file with an xz-compressed ELF of other and common symbols in .gnu_debugdata (xz presets and checks, stored chunks) compared with the model and with the file without the section; or a damaged section (cut, garbage, empty, no object inside, uncompressed, outside of the file); non-trivial: the section adds a PUBLIC record or is damaged",
            assumptions: &["for random bit flips only the records other than PUBLIC are compared", "the embedded object has the load address of the outer one"],
            run: c19, expect: &[("symbol only in the section", 500), ("damaged section", 300), ("compressed by xz", 300), ("stored LZMA2 chunks", 300)], workers: 0 },
    ]
}
