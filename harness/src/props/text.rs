//! C07, C08, C18: form of the symbol file, source paths, names.
use super::core::{describe, label_module};
use super::ident::write;
use super::multi::split;
use crate::engine::*;
use crate::fmt::*;
use crate::model::*;
use crate::run::Cmd;
use crate::sym;
use std::collections::BTreeSet;

// ---------------------------------------------------------------- C07

/// Replaces every occurrence of a placeholder by other bytes of the same length.
fn substitute(data: &mut [u8], subst: &[(Vec<u8>, Vec<u8>)]) {
    let mut i = 0;
    while i + 8 <= data.len() {
        if data[i] != b'V' || !data[i..].starts_with(b"VPQ") {
            i += 1;
            continue;
        }
        let k = std::str::from_utf8(&data[i + 3..i + 8]).ok().and_then(|x| x.parse::<usize>().ok());
        match k.and_then(|k| subst.get(k.wrapping_sub(1))) {
            Some((from, to)) if data[i..].starts_with(from) => {
                assert_eq!(from.len(), to.len());
                data[i..i + to.len()].copy_from_slice(to);
                i += to.len();
            }
            _ => i += 1,
        }
    }
}

/// Bytes no well-behaved name has (no NUL: names end there).
fn nasty(s: &mut Src, case: &mut Case) -> Vec<u8> {
    const BITS: &[&[u8]] = &[
        b"\n", b"\r\n", b"\r", b"\t", b"\x01", b"\x1b[31m", b"\x7f", b"\x0b", b"\x0c", b" ", b"  ", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98\x80",
        b"\xc2\x85", b"\xe2\x80\xa8", b"\xed\xa0\x80", b"FUNC 1 2 3 x", b"\nFUNC 10 1 0 evil\n", b"\nSTACK CFI INIT 0 1 x", b"_Z", b"?x@@", b"_R", b"a",
        b"name", b"(", b"<", b"\"", b"\\", b"@4", b"_ZN3fooE", b"m ", b"\xef\xbb\xbf", b"%s", b"{0}", b"'", b"`anonymous namespace'", b".cold", b"[clone ", b"::",
    ];
    let n = 1 + s.us(6);
    let mut v = vec![];
    for _ in 0..n {
        v.extend_from_slice(s.pick(BITS));
    }
    case.label("unusual string");
    case.label_if(v.contains(&b'\n'), "line break in a string");
    case.label_if(std::str::from_utf8(&v).is_err(), "string is not UTF-8");
    v
}

struct Twist {
    subst: Vec<(Vec<u8>, Vec<u8>)>,
    n: usize,
    /// paths may become equal
    paths: bool,
}
impl Twist {
    /// A replacement text, or None to leave the string alone.
    fn text(&mut self, s: &mut Src, case: &mut Case, empty: bool) -> Option<String> {
        match s.u(8) {
            0..=3 => None,
            4 if empty => {
                case.label("empty string");
                Some(String::new())
            }
            5 => {
                case.label("long string");
                let n = 1usize << s.us(17);
                Some(s.pick(&["x", "ab", "é", "_Z3foov", "<", "a::"]).repeat(n))
            }
            _ => {
                let mut b = nasty(s, case);
                while b.len() < 9 {
                    b.push(b'z');
                }
                self.n += 1;
                let mut ph = format!("VPQ{:05}", self.n).into_bytes();
                ph.resize(b.len(), b'q');
                let t = String::from_utf8(ph.clone()).unwrap();
                self.subst.push((ph, b));
                Some(t)
            }
        }
    }
    fn bytes(&mut self, s: &mut Src, case: &mut Case, v: &mut Vec<u8>, empty: bool) {
        if let Some(t) = self.text(s, case, empty) {
            *v = t.into_bytes();
        }
    }
    fn name(&mut self, s: &mut Src, case: &mut Case, n: &mut NameSrc) {
        if let Some(l) = &mut n.linkage {
            if let Some(t) = self.text(s, case, true) {
                l.raw = t;
            }
        }
        if let Some(d) = &mut n.dw {
            if let Some(t) = self.text(s, case, true) {
                *d = t;
            }
        }
    }
}

fn widen(s: &mut Src, i: &mut [Inl]) {
    for x in i {
        for r in &mut x.ranges {
            if s.chance(1, 3) {
                r.1 += s.u(100);
            }
            if s.chance(1, 6) {
                r.0 = r.0.saturating_sub(s.u(100));
            }
            if s.chance(1, 10) {
                r.1 = 0;
            }
        }
        widen(s, &mut x.kids);
    }
}

fn c07(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = Kind::all(s);
    let mut m = generate(s, &GenCfg { kind, partial: kind != Kind::Pdb, dup: kind != Kind::Pdb, ..Default::default() });
    let mut t = Twist { subst: vec![], n: 0, paths: false };
    let twist = s.chance(4, 5);
    if twist {
        for u in &mut m.units {
            for n in u.abs.iter_mut().chain(u.subs.iter_mut().map(|f| &mut f.name)) {
                t.name(s, case, n);
            }
            if s.chance(1, 2) {
                t.paths = true;
                // an empty string would end the table of DWARF 4
                let e = u.version > 4 || kind == Kind::Pdb;
                for f in &mut u.files {
                    t.bytes(s, case, &mut f.name, e);
                }
                for d in &mut u.dirs {
                    t.bytes(s, case, d, e);
                }
                if let Some(c) = &mut u.comp_dir {
                    t.bytes(s, case, c, true);
                }
            }
        }
        for y in &mut m.syms {
            if let Some(x) = t.text(s, case, true) {
                y.name.raw = x;
            }
        }
        for x in m.sections.iter_mut().skip(if kind == Kind::Elf { 0 } else { 1 }) {
            if kind == Kind::Elf {
                if let Some(n) = t.text(s, case, true) {
                    // (the ELF reader cuts off the first character)
                    x.name = format!(".{n}");
                }
            }
        }
    }
    // information that reaches beyond the functions it belongs to
    let mut loose = false;
    if kind != Kind::Pdb && s.chance(1, 3) {
        loose = true;
        case.label("inlined code beyond its function");
        for u in &mut m.units {
            for f in &mut u.subs {
                widen(s, &mut f.inl);
            }
            for q in &mut u.seqs {
                q.1 += s.u(20);
            }
        }
    }
    let stem = match s.u(6) {
        0 => "a\nb".to_string(),
        1 => " ".to_string(),
        2 => String::from_utf8_lossy(&nasty(s, case)).replace('/', "_"),
        _ => "mod".into(),
    };
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let merged = s.chance(1, 4);
    if merged {
        let n = 2 + s.us(2);
        for p in split(s, &m, "p", n, false) {
            files.push((p.file, p.data));
        }
    } else {
        let mut f = Fmt::gen(s, &m);
        if twist {
            match &mut f {
                Fmt::Elf(o) => {
                    if let Some(x) = &mut o.soname {
                        t.bytes(s, case, x, true);
                    }
                }
                Fmt::Mach(o) => {
                    // (a file whose install name is not UTF-8 is refused)
                    if let Some(x) = &mut o.install_name {
                        let k = t.subst.len();
                        t.bytes(s, case, x, true);
                        for (_, b) in &mut t.subst[k..] {
                            b.iter_mut().filter(|c| !c.is_ascii()).for_each(|c| *c = b'\t');
                        }
                    }
                }
                Fmt::Pe(o) => {
                    if let Some(r) = &mut o.rsds {
                        t.bytes(s, case, &mut r.path, true);
                    }
                }
                Fmt::Pdb(_) => {}
            }
        }
        files.push((format!("{stem}{}", f.name().strip_prefix("mod").unwrap()), f.build(&m)));
    }
    for (n, d) in &mut files {
        substitute(d, &t.subst);
        write(ctx, case, n, d);
    }
    case.note(&describe(&m).chars().take(4000).collect::<String>());
    label_module(&m, case);
    case.label_if(merged, "several files");
    case.nontrivial = twist;
    let inl = s.chance(2, 3);
    let mapped = s.chance(1, 8);
    let mut c = Cmd::new(ctx).noise(s);
    if inl {
        c = c.arg("--inlines");
    }
    if mapped {
        c = c.args(["--mapping-src", ".*/([^/\\\\]+)$", "--mapping-dest", "m:{1}"]);
    }
    c = c.args(["-o", "out.sym"]);
    for (n, _) in &files {
        c = c.arg(format!("./{n}"));
    }
    let o = c.run();
    if !o.ok() {
        return Err(format!("dump failed: {}", o.describe()));
    }
    let text = std::fs::read(ctx.dir.join("out.sym")).map_err(|e| format!("no output: {e}"))?;
    let y = sym::parse(&text)?;
    y.integrity_of(mapped || t.paths, merged, loose)
}

// ---------------------------------------------------------------- C08

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn win_abs(p: &str) -> bool {
    let first = p.split(['/', '\\']).next().unwrap_or("");
    first.is_empty() || first.ends_with(':')
}

/// The path of a file as the statement of C08 defines it (before looking at the file system).
fn path_of(kind: Kind, comp: &[u8], dir: &[u8], name: &[u8]) -> String {
    let comp = String::from_utf8(comp.to_vec()).unwrap_or_else(|_| comp.iter().map(|c| *c as char).collect());
    let (dir, name) = (lossy(dir), lossy(name));
    let win = kind.win();
    let abs = |p: &str| if win { win_abs(p) } else { p.starts_with('/') };
    let join = |a: &str, b: &str| {
        if !win {
            format!("{}/{}", a.trim_end_matches('/'), b.trim_start_matches('/'))
        } else {
            let a = a.trim_end_matches(['/', '\\']);
            let sep = if a.starts_with('/') { '/' } else { '\\' };
            format!("{a}{sep}{}", b.trim_start_matches(['/', '\\']))
        }
    };
    if abs(&name) {
        return name;
    }
    let dir = if !abs(&dir) && !comp.is_empty() { join(&comp, &dir) } else { dir };
    join(&dir, &name)
}

fn part(s: &mut Src, case: &mut Case) -> Vec<u8> {
    const P: &[&str] = &["src", "a", "b", "inc", "..", ".", "d e", "é", "日本", "x.y", "C", "lib", "Proj", "...", "a..b", "~"];
    let mut v = s.pick(P).as_bytes().to_vec();
    if s.chance(1, 6) {
        case.label("bytes that are not UTF-8");
        v.extend_from_slice(s.pick(&[&b"\xff"[..], b"\xfe", b"\xe9", b"\xc3", b"\xe8x", b"\xf0\x90"]));
    }
    v
}
fn parts(s: &mut Src, case: &mut Case, lo: usize, hi: usize, sep: &[u8]) -> Vec<u8> {
    let n = s.usr(lo, hi);
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            v.extend_from_slice(sep);
            if s.chance(1, 10) {
                v.extend_from_slice(sep);
            }
        }
        v.extend(part(s, case));
    }
    v
}

/// Files and links below the scratch directory; returns the names of directories that lead to them.
fn real_tree(s: &mut Src, ctx: &Ctx) -> (Vec<String>, Vec<&'static str>) {
    let d = ctx.dir.join("real");
    for x in ["a/b/c", "a/src", "z"] {
        std::fs::create_dir_all(d.join(x)).unwrap();
    }
    let names = vec!["x.c", "y.h", "l.c", "gone.c"];
    for x in ["x.c", "a/x.c", "a/b/x.c", "a/b/c/y.h", "z/y.h", "z/x.c", "a/src/x.c"] {
        std::fs::write(d.join(x), "x").unwrap();
    }
    let link = |to: &str, at: &str| std::os::unix::fs::symlink(to, d.join(at)).unwrap();
    link("a/b/c", "deep");
    link("../z", "a/toz");
    link("/vpnx/dangling", "dang");
    link("a/b/x.c", "l.c");
    link("../../z/y.h", "a/b/l.c");
    let root = d.to_str().unwrap().to_string();
    let all = ["", "/a", "/a/b", "/deep", "/deep/..", "/a/toz", "/a/toz/..", "/a/../a/b", "/dang", "/deep/../../src", "/./a//b", "/a/nothing/..", "/a/b/c/../../src/.."];
    let mut dirs = vec![];
    for _ in 0..4 {
        dirs.push(format!("{root}{}", s.pick(&all)));
    }
    (dirs, names)
}

fn c08(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = *s.pick(&[Kind::Elf, Kind::Elf, Kind::Pe, Kind::Mach, Kind::Pdb]);
    let mut m = generate(s, &GenCfg { kind, names: false, symtab: false, dup: false, line0: false, partial: false, ..Default::default() });
    let (rdirs, rnames) = if s.chance(1, 2) && kind != Kind::Pdb { real_tree(s, ctx) } else { (vec![], vec![]) };
    // shared between the units of the module
    let mut pool: Vec<Vec<u8>> = vec![];
    for _ in 0..4 {
        let mut n = parts(s, case, 1, 1, b"/");
        n.extend_from_slice(s.pick(&[&b".c"[..], b".h", b"", b".cpp"]));
        if n == b"." || n == b".." {
            n = b"x.c".to_vec();
        }
        pool.push(n);
    }
    let mut dpool: Vec<Vec<u8>> = vec![];
    for _ in 0..4 {
        dpool.push(match (kind.win(), s.u(4)) {
            (false, 0) => [b"/vpnx/".to_vec(), parts(s, case, 1, 3, b"/")].concat(),
            (false, 1) => [b"/vpnx".to_vec(), b"/".to_vec(), parts(s, case, 1, 2, b"/"), b"/".to_vec()].concat(),
            (false, _) => parts(s, case, 1, 3, b"/"),
            (true, 0) => [b"/vpnx/".to_vec(), parts(s, case, 1, 3, b"/")].concat(),
            (true, 1) => [s.pick(&[&b"C:\\"[..], b"\\\\srv\\share\\", b"d:/", b"\\root\\"]).to_vec(), parts(s, case, 1, 3, b"\\")].concat(),
            (true, 2) => match s.u(4) {
                0 => [b"a:b\\".to_vec(), parts(s, case, 1, 2, b"\\")].concat(),
                1 => s.pick(&[&b"D:"[..], b"a:b", b"x:/"]).to_vec(),
                _ => parts(s, case, 1, 3, b"\\"),
            },
            (true, _) => [parts(s, case, 1, 2, b"/"), b"\\".to_vec()].concat(),
        });
    }
    for u in &mut m.units {
        let n = u.files.len() + s.us(6);
        let mut files = vec![];
        if kind == Kind::Pdb {
            for _ in 0..n {
                let (d, f) = (s.pick(&dpool).clone(), s.pick(&pool).clone());
                let d: Vec<u8> = match d.iter().rposition(|c| !b"/\\".contains(c)) {
                    Some(i) => d[..=i].to_vec(),
                    None => b"C:\\q".to_vec(),
                };
                let sep = *s.pick(&[b'\\', b'/']);
                let name = [d.clone(), vec![sep], f.clone()].concat();
                files.push(FileM { dir: 0, path: path_of(kind, b"", &d, &f), name });
            }
        } else {
            let mut comp: Vec<u8> = match s.u(6) {
                0 | 1 if !kind.win() => [b"/vpnx/".to_vec(), parts(s, case, 1, 3, b"/")].concat(),
                0 | 1 => [s.pick(&[&b"C:\\"[..], b"/vpnx/", b"\\\\srv\\x\\"]).to_vec(), parts(s, case, 1, 2, b"\\")].concat(),
                2 => s.pick(&dpool).clone(),
                3 if !rdirs.is_empty() => s.pick(&rdirs).clone().into_bytes(),
                4 => [b"/vpnx/".to_vec(), b"\xe9\xff".to_vec()].concat(),
                _ => s.pick(&[b"/vpnx/build", b"/vpnx/guild"]).to_vec(),
            };
            if s.chance(1, 4) {
                comp.extend_from_slice(if kind.win() { *s.pick(&[&b"/"[..], b"\\", b"//", b"\\/", b"/\\"]) } else { *s.pick(&[&b"/"[..], b"//"]) });
            }
            let mut dirs = vec![comp.clone()];
            for _ in 0..s.us(5) {
                let d = match s.u(6) {
                    0 if !rdirs.is_empty() => s.pick(&rdirs).clone().into_bytes(),
                    1 if !rdirs.is_empty() => s.pick(&[&b"a"[..], b"b", b"..", b"deep", b"a/toz/.."]).to_vec(),
                    2 if u.version > 4 && !kind.win() => vec![],
                    3 if !kind.win() => b"/".to_vec(),
                    4 => [s.pick(&dpool).clone(), if kind.win() { s.pick(&[&b"/"[..], b"\\/", b"//"]).to_vec() } else { b"//".to_vec() }].concat(),
                    _ => s.pick(&dpool).clone(),
                };
                dirs.push(d);
            }
            for _ in 0..n {
                let dir = s.us(dirs.len());
                let name: Vec<u8> = match s.u(8) {
                    0..=3 if !rnames.is_empty() => s.pick(&rnames).as_bytes().to_vec(),
                    4 if !rdirs.is_empty() => {
                        case.label("absolute file name");
                        format!("{}/{}", s.pick(&rdirs), s.pick(&rnames)).into_bytes()
                    }
                    5 => {
                        let d = s.pick(&dpool).clone();
                        let sep = if kind.win() { &b"\\"[..] } else { b"/" };
                        [d, sep.to_vec(), s.pick(&pool).clone()].concat()
                    }
                    _ => s.pick(&pool).clone(),
                };
                let mut path = path_of(kind, &comp, &dirs[dir], &name);
                if kind == Kind::Elf {
                    path = match std::fs::canonicalize(ctx.dir.join(&path)) {
                        Ok(p) => {
                            case.label("file on disk");
                            p.to_string_lossy().into_owned()
                        }
                        Err(_) => normalise(&path),
                    };
                }
                files.push(FileM { dir, name, path });
            }
            u.comp_dir = Some(comp);
            u.dirs = dirs;
        }
        case.note(&format!(
            "comp dir {:?} dirs {:?} files {:?}",
            u.comp_dir.as_ref().map(|c| lossy(c)),
            u.dirs.iter().map(|d| lossy(d)).collect::<Vec<_>>(),
            files.iter().map(|f| (f.dir, lossy(&f.name), &f.path)).collect::<Vec<_>>()
        ));
        u.files = files;
        for r in u.seqs.iter_mut().flat_map(|q| q.0.iter_mut()) {
            r.file = s.us(n);
        }
        fn calls(s: &mut Src, i: &mut [Inl], n: usize) {
            for x in i {
                x.call_file = s.us(n);
                calls(s, &mut x.kids, n);
            }
        }
        for f in &mut u.subs {
            calls(s, &mut f.inl, n);
        }
    }
    let f = Fmt::gen(s, &m);
    write(ctx, case, f.name(), &f.build(&m));
    label_module(&m, case);
    let paths: BTreeSet<&String> = m.units.iter().flat_map(|u| u.files.iter().map(|f| &f.path)).collect();
    case.nontrivial = paths.len() > 1;
    let inl = s.chance(1, 2) && kind != Kind::Pe;
    let mut c = Cmd::new(ctx).arg(f.name()).noise(s);
    if inl {
        c = c.arg("--inlines");
    }
    let o = c.run();
    if !o.ok() {
        return Err(format!("dump failed: {}", o.describe()));
    }
    let y = sym::parse(&o.stdout)?;
    for p in &y.files {
        if !paths.contains(p) {
            return Err(format!("FILE {p:?} is none of {paths:?}"));
        }
    }
    check_lines(&m, &y, inl)?;
    if inl {
        check_inlines(&m, &y)?;
    }
    let mut seen = BTreeSet::new();
    if let Some(d) = y.files.iter().find(|p| !seen.insert(p.as_str())) {
        return Err(format!("two FILE records for {d:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

fn c18(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = Kind::all(s);
    let mut cfg = GenCfg { kind, max_funcs: 10, dup: false, partial: false, ..Default::default() };
    cfg.symtab = false;
    let mut m = generate(s, &cfg);
    if s.chance(3, 4) {
        m.syms = gen_syms(s, &m, 12, true);
    }
    let f = Fmt::gen(s, &m);
    // what the underscore of an Itanium name being taken for a decoration leaves of it: a known finding
    let mut cut: Option<String> = None;
    if kind.win() && s.chance(1, 20) {
        let pubs = expected_publics(&m, &f, f.name());
        let lone: Vec<usize> =
            (0..m.syms.len()).filter(|i| pubs.must.contains_key(&m.syms[*i].rva) && m.syms.iter().filter(|x| x.rva == m.syms[*i].rva).count() == 1).collect();
        if !lone.is_empty() {
            let n = crate::names::itanium(s);
            cut = Some(n.full()[1..].to_string());
            m.syms[*s.pick(&lone)].name = n;
        }
    }
    let data = f.build(&m);
    write(ctx, case, f.name(), &data);
    case.note(&describe(&m));
    case.note(&format!("{:?}", m.syms.iter().map(|s| (s.rva, s.name.full())).collect::<Vec<_>>()));
    label_module(&m, case);
    let mut c = Cmd::new(ctx).arg(f.name()).noise(s);
    let inl = s.chance(2, 3);
    if inl {
        c = c.arg("--inlines");
    }
    let o = c.run();
    if !o.ok() {
        return Err(format!("dump failed: {}", o.describe()));
    }
    let y = sym::parse(&o.stdout)?;
    let exp = m.expected_funcs();
    let mut seen = 0;
    for g in &y.funcs {
        let Some(e) = exp.get(&g.addr) else { continue };
        seen += 1;
        if !e.names.contains(&g.name) {
            return Err(format!("FUNC {:x} is called {:?} instead of {:?}", g.addr, g.name, e.names));
        }
        if g.param != e.param {
            return Err(format!("FUNC {:x} {:?}: parameter size {:x} instead of {:x}", g.addr, g.name, g.param, e.param));
        }
    }
    let pubs = expected_publics(&m, &f, f.name());
    let mut known = None;
    for p in &y.publics {
        if pubs.may.contains(&p.addr) {
            continue;
        }
        if let Some((n, _, param)) = pubs.must.get(&p.addr) {
            seen += 1;
            if *n != p.name && Some(&p.name) == cut.as_ref() {
                known = Some(format!("known(itanium-underscore): PUBLIC {:x} is {:?} instead of {n:?}", p.addr, p.name));
                continue;
            }
            if *n != p.name || *param != p.param {
                return Err(format!("PUBLIC {:x} is {:?} (parameter size {:x}) instead of {n:?} ({param:x})", p.addr, p.name, p.param));
            }
        }
    }
    if inl && kind != Kind::Pe {
        fn used<'a>(i: &'a [Inl], u: &'a Unit, out: &mut BTreeSet<String>) {
            for x in i {
                out.insert(u.abs[x.origin].shown(u.lang));
                used(&x.kids, u, out);
            }
        }
        let (mut want, mut may) = (BTreeSet::new(), BTreeSet::new());
        for u in &m.units {
            for g in &u.subs {
                used(&g.inl, u, &mut may);
                // nothing is dumped at address 0
                if g.ranges.iter().all(|r| r.0 != 0) {
                    used(&g.inl, u, &mut want);
                }
            }
        }
        for n in &y.origins {
            if !may.contains(n) {
                return Err(format!("INLINE_ORIGIN {n:?} is none of the inlined functions {want:?}"));
            }
        }
        if let Some(n) = want.iter().find(|n| !y.origins.contains(n)) {
            return Err(format!("no INLINE_ORIGIN {n:?}"));
        }
        seen += want.len();
    }
    case.nontrivial = seen >= 3;
    known.map_or(Ok(()), Err)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C07", quick: 8000, thorough: 400_000,
            rule: "a random module of every format (alone or split over several files) in which names, paths, section names, sonames and file names are replaced at random by empty, very long, control-character, non-UTF-8 and record-like strings, and inlined code and line rows may reach beyond their function; the output must parse strictly and refer only to what it declares; non-trivial: strings were replaced",
            assumptions: &["the strict parser of the harness accepts exactly the Breakpad format"], run: c07, expect: &[("line break in a string", 500)], workers: 0 },
        Prop { id: "C08", quick: 8000, thorough: 300_000,
            rule: "a random module of every format with random compilation directories, directories and file names (absolute, relative, dotted, empty, non-UTF-8, shared between units), partly leading to real files and symbolic links; FILE paths must be those of a reference join; non-trivial: at least two different paths",
            assumptions: &["realpath of the running system resolves links", "a missing directory without compilation directory is not generated"], run: c08, expect: &[("file on disk", 200)], workers: 0 },
        Prop { id: "C18", quick: 8000, thorough: 400_000,
            rule: "names built from the Itanium, MSVC and Rust grammars together with their meaning, clone suffixes, Windows decorations, in all record kinds and languages; non-trivial: at least three judged names",
            assumptions: &["the generated part of the mangling grammars stands for all of them"], run: c18, expect: &[], workers: 0 },
    ]
}
