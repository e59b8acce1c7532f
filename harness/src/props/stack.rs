//! C06: unwind information and --check-cfi.
use super::core::{describe, label_module};
use super::ident::{pair_pe, tree, write};
use crate::cfi::{parse_stack, Cfi};
use crate::elf::{Sec, A, PROGBITS};
use crate::engine::*;
use crate::fmt::*;
use crate::model::*;
use crate::pdb;
use crate::run::Cmd;
use crate::sym::{self, Sym};
use crate::w::W;
use std::collections::BTreeMap;

const X64: [&str; 16] =
    ["$rax", "$rcx", "$rdx", "$rbx", "$rsp", "$rbp", "$rsi", "$rdi", "$r8", "$r9", "$r10", "$r11", "$r12", "$r13", "$r14", "$r15"];

pub type Init = (u64, u64, BTreeMap<String, String>);

/// Unwind info of one x86_64 function: (bytes, rules).
fn unwind(s: &mut Src) -> (Vec<u8>, BTreeMap<String, String>) {
    let mut codes: Vec<Vec<u8>> = vec![];
    let mut rules: Vec<(String, String)> = vec![];
    let mut stack = 8i64;
    let mut cfa = None;
    let (freg, foff) = if s.chance(1, 3) { (*s.pick(&[5u8, 3, 13]), s.u(16) as u8) } else { (0, 0) };
    let mut off = 0u8;
    for _ in 0..s.us(6) {
        off += 1 + s.u(8) as u8;
        match s.u(6) {
            0 | 1 => {
                let r = *s.pick(&[3u8, 5, 6, 7, 12, 13, 14, 15]);
                codes.push(vec![off, r << 4]);
                stack += 8;
                rules.push((X64[r as usize].into(), format!(".cfa {stack} - ^")));
            }
            2 => {
                let n = s.u(16) as u8;
                codes.push(vec![off, 2 | n << 4]);
                stack += n as i64 * 8 + 8;
            }
            3 => {
                let n = s.u(60000) as u16;
                codes.push([&[off, 1][..], &n.to_le_bytes()].concat());
                stack += n as i64 * 8;
            }
            4 => {
                let n = s.u(1 << 20) as u32 * 8;
                codes.push([&[off, 0x11][..], &n.to_le_bytes()].concat());
                stack += n as i64;
            }
            _ if freg != 0 && cfa.is_none() => {
                codes.push(vec![off, 3]);
                cfa = Some(format!("{} {} +", X64[freg as usize], stack - foff as i64 * 16));
            }
            _ if freg == 0 => {
                let r = *s.pick(&[3u8, 6, 7, 12]);
                let n = s.u(1000) as u16;
                codes.push([&[off, 4 | r << 4][..], &n.to_le_bytes()].concat());
                rules.push((X64[r as usize].into(), format!(".cfa {} - ^", stack - n as i64 * 8)));
            }
            _ => {
                // xmm save: no rule
                codes.push([&[off, 8 | 6 << 4][..], &(s.u(100) as u16).to_le_bytes()].concat());
            }
        }
    }
    let n: usize = codes.iter().map(|c| c.len() / 2).sum();
    let mut w = W::le();
    w.u8(1).u8(off).u8(n as u8).u8(freg | foff << 4);
    for c in codes.iter().rev() {
        w.bytes(c);
    }
    if n % 2 == 1 {
        w.u16(0);
    }
    rules.push((".ra".into(), ".cfa 8 - ^".into()));
    rules.push((".cfa".into(), cfa.unwrap_or(format!("$rsp {stack} +"))));
    (w.b, rules.into_iter().collect())
}

pub fn pdata(s: &mut Src, m: &Module, max: usize) -> (Vec<(u32, u32, Vec<u8>)>, Vec<Init>) {
    let mut out = vec![];
    let mut exp = vec![];
    for x in &m.sections {
        let mut a = x.rva + s.u(16);
        while a < x.rva + x.size && out.len() < max {
            let n = 1 + s.u((x.rva + x.size - a).min(300));
            let (b, r) = unwind(s);
            if s.chance(1, 12) {
                // inverted entry: no record
                out.push((a as u32 + n as u32, a as u32, b));
            } else {
                out.push((a as u32, (a + n) as u32, b));
                exp.push((a, n, r));
            }
            a += n + s.u(16);
        }
    }
    (out, exp)
}

pub fn check_inits(y: &Sym, exp: &[Init]) -> Verdict {
    let got = parse_stack(&y.stack)?;
    if let Some(b) = got.iter().find(|b| b.deltas.len() != 1) {
        return Err(format!("unexpected STACK CFI after INIT {:x}", b.start));
    }
    let mut g: Vec<Init> = got.iter().map(|b| (b.start, b.len, b.at(b.start))).collect();
    let mut e = exp.to_vec();
    g.sort();
    e.sort();
    for x in &e {
        match g.iter().find(|y| y.0 == x.0) {
            None => return Err(format!("no STACK CFI INIT for the function at {:x}", x.0)),
            Some(y) if y != x => return Err(format!("STACK CFI INIT {y:x?} instead of {x:x?}")),
            _ => {}
        }
    }
    if g != e {
        return Err(format!("{} STACK CFI INIT records instead of {}", g.len(), e.len()));
    }
    if y.stack.iter().any(|l| l.starts_with("WIN")) {
        return Err("STACK WIN records for a 64-bit module".into());
    }
    Ok(())
}

fn gen_frames(s: &mut Src, m: &Module) -> (Vec<pdb::Frame>, Vec<String>) {
    let mut fr = vec![];
    let mut exp = vec![];
    for x in &m.sections {
        let mut a = x.rva + s.u(16);
        while a + 4 < x.rva + x.size && fr.len() < 12 {
            let n = 2 + s.u((x.rva + x.size - a - 2).min(300));
            let f = pdb::Frame {
                start: a as u32,
                size: n as u32,
                locals: s.u(1 << 20) as u32,
                params: s.u(500) as u32,
                max_stack: s.u(1 << 16) as u32,
                func: s
                    .pick(&[
                        "$T0 $ebp = $eip $T0 4 + ^ = $ebp $T0 ^ = $esp $T0 8 + =",
                        "$T0 .raSearch = $eip $T0 ^ = $esp $T0 4 + =",
                        "$eip .raSearch ^ =",
                    ])
                    .as_bytes()
                    .to_vec(),
                prolog: 1 + s.u((n - 1).min(200)) as u16,
                saved: s.u(100) as u16,
                flags: s.u(8) as u32,
            };
            let f = pdb::Frame { prolog: (f.prolog as u32).min(f.size - 1) as u16, ..f };
            exp.push(format!(
                "WIN 4 {:x} {:x} {:x} 0 {:x} {:x} {:x} {:x} 1 {}",
                f.start,
                f.size,
                f.prolog,
                f.params,
                f.saved,
                f.locals,
                f.max_stack,
                String::from_utf8_lossy(&f.func)
            ));
            a += n + s.u(16);
            fr.push(f);
        }
    }
    (fr, exp)
}

fn same_stack(y: &Sym, exp: &[String]) -> Verdict {
    let mut g: Vec<&String> = y.stack.iter().collect();
    let mut e: Vec<&String> = exp.iter().collect();
    g.sort();
    e.sort();
    if let Some(x) = e.iter().find(|x| !g.contains(x)) {
        return Err(format!("missing record STACK {x}"));
    }
    if let Some(x) = g.iter().find(|x| !e.contains(x)) {
        return Err(format!("unexpected record STACK {x}"));
    }
    if g.len() != e.len() {
        return Err("repeated STACK records".into());
    }
    Ok(())
}

/// Random unwind tables put into ELF or Mach-O options.
pub fn add_cfi(s: &mut Src, m: &Module, f: &mut Fmt, max: usize) -> Cfi {
    let cfi = Cfi::gen(s, m, f.cpu(), max);
    let addr = m.base.wrapping_add(0x90_0000);
    let (eh, df) = cfi.build(m, addr);
    match f {
        Fmt::Elf(o) => {
            if !eh.is_empty() {
                o.extra.push(Sec::new(".eh_frame", PROGBITS, A, addr, eh));
            }
            if !df.is_empty() {
                o.extra.push(Sec::new(".debug_frame", PROGBITS, 0, 0, df));
            }
        }
        Fmt::Mach(o) => {
            if !eh.is_empty() {
                o.extra.push(("__eh_frame".into(), addr, eh));
            }
            if !df.is_empty() {
                o.extra.push(("__debug_frame".into(), addr + 0x8_0000, df));
            }
        }
        _ => {}
    }
    cfi
}

fn c06(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let kind = *s.pick(&[Kind::Elf, Kind::Elf, Kind::Mach, Kind::Pe, Kind::Pdb]);
    let plain_class = s.chance(1, 2);
    let m = generate(s, &GenCfg { kind, max_funcs: 5, units: 2, partial: kind != Kind::Pdb, plain_class, ..Default::default() });
    let mut f = Fmt::gen(s, &m);
    let none = s.chance(1, 8);
    // (expected records, is there any)
    enum Exp {
        Cfi(Cfi, &'static str),
        Inits(Vec<Init>),
        Win(Vec<String>),
        Nothing,
    }
    let mut exp = Exp::Nothing;
    let name = f.name();
    let mut data = None;
    let mut companion = false;
    match &mut f {
        Fmt::Elf(_) | Fmt::Mach(_) => {
            if !none {
                let max = *s.pick(&[12, 3, 40]);
                let cfi = add_cfi(s, &m, &mut f, max);
                if !cfi.fdes.is_empty() {
                    case.label_if(cfi.fdes.iter().any(|f| f.ops.len() > 4), "long frame program");
                    exp = Exp::Cfi(cfi, f.cpu());
                }
            }
        }
        Fmt::Pe(o) => {
            if !none && o.machine == 0x8664 {
                let (p, e) = pdata(s, &m, 12);
                o.pdata = p;
                if !e.is_empty() {
                    exp = Exp::Inits(e);
                }
            }
        }
        Fmt::Pdb(o) => {
            let mut spec = pdb_spec(&m, o);
            if o.machine == 0x14c && !none {
                let (fr, e) = gen_frames(s, &m);
                spec.frames = fr;
                if !e.is_empty() {
                    exp = Exp::Win(e);
                }
            }
            data = Some(spec.build());
            if s.chance(2, 3) {
                companion = true;
                let (pm, mut po) = pair_pe(s, &m, o, b"vpnx.pdb");
                if o.machine == 0x8664 && !none {
                    let (p, e) = pdata(s, &m, 12);
                    po.pdata = p;
                    if !e.is_empty() {
                        exp = Exp::Inits(e);
                    }
                }
                write(ctx, case, "mod.dll", &pe_spec(&pm, &po).build());
            }
        }
    }
    let data = data.unwrap_or_else(|| f.build(&m));
    write(ctx, case, name, &data);
    case.note(&format!("{} companion {companion}", describe(&m)));
    label_module(&m, case);
    case.label_if(companion, "PDB with PE");
    case.label(match &exp {
        Exp::Cfi(..) => "DWARF CFI",
        Exp::Inits(_) => "PE exception data",
        Exp::Win(_) => "STACK WIN",
        Exp::Nothing => "no unwind information",
    });
    case.nontrivial = !matches!(exp, Exp::Nothing);
    let mut base: Vec<&str> = vec![];
    if s.chance(1, 3) {
        base.push("--inlines");
    }
    let o = Cmd::new(ctx).arg(name).args(&base).noise(s).run();
    if !o.ok() {
        return Err(format!("dump failed: {}", o.describe()));
    }
    let y = sym::parse(&o.stdout)?;
    match &exp {
        Exp::Cfi(c, cpu) => {
            c.check(&y, cpu)?;
            if y.stack.iter().any(|l| !l.starts_with("CFI")) {
                return Err("STACK WIN records for a DWARF module".into());
            }
        }
        Exp::Inits(e) => check_inits(&y, e)?,
        Exp::Win(e) => same_stack(&y, e)?,
        Exp::Nothing => same_stack(&y, &[])?,
    }
    // --check-cfi
    let mut args: Vec<String> = base.iter().map(|x| x.to_string()).collect();
    args.push("--check-cfi".into());
    let mode = s.u(5);
    let mut both = false;
    let out = match mode {
        0 => None,
        4 => {
            args.extend(["-o".into(), "out.sym".into(), "--store".into(), "st".into()]);
            both = true;
            Some(format!("st/{}", super::ident::store_path(&y.name, &y.id)))
        }
        1 => {
            args.extend(["-o".into(), "out.sym".into()]);
            Some("out.sym".to_string())
        }
        _ => {
            args.extend(["--store".into(), "st".into()]);
            Some(format!("st/{}", super::ident::store_path(&y.name, &y.id)))
        }
    };
    if let (Some(p), true) = (&out, s.chance(1, 2)) {
        write(ctx, case, p, b"earlier contents\n");
    }
    let mut want = tree(&ctx.dir);
    let c = Cmd::new(ctx).arg(name).args(&args).noise(s).run();
    let mut stdout: &[u8] = b"";
    if matches!(exp, Exp::Nothing) {
        if c.ok() || c.code.is_none() {
            return Err(format!("{args:?} on a module without unwind information: {}", c.describe()));
        }
    } else {
        if !c.ok() {
            return Err(format!("{args:?} on a module with unwind information: {}", c.describe()));
        }
        match out {
            Some(p) => {
                want.insert(p, o.stdout.clone());
                if both {
                    want.insert("out.sym".into(), o.stdout.clone());
                }
            }
            None => stdout = &o.stdout,
        }
    }
    if c.stdout != stdout {
        return Err(format!("{args:?}: {} bytes on standard output instead of {}", c.stdout.len(), stdout.len()));
    }
    let got = tree(&ctx.dir);
    if got != want {
        let k = got.keys().chain(want.keys()).find(|k| got.get(*k) != want.get(*k));
        return Err(format!("{args:?}: file {k:?} differs from the expectation"));
    }
    // among several files
    if s.chance(1, 8) {
        // of the same module
        write(ctx, case, &format!("copy/{name}"), &data);
        let c = Cmd::new(ctx).args([name, &format!("copy/{name}")]).args(&base).args(["--check-cfi", "--store", "st3"]).run();
        let has = !matches!(exp, Exp::Nothing);
        if c.ok() != has || c.code.is_none() || ctx.dir.join(format!("st3/{}", super::ident::store_path(&y.name, &y.id))).exists() != has {
            return Err(format!("--check-cfi on two copies, unwind information: {has}: {}", c.describe()));
        }
    } else if s.chance(1, 4) {
        let m2 = generate(s, &GenCfg { kind: Kind::Elf, max_funcs: 2, units: 1, plain_class: true, ..Default::default() });
        let mut f2 = Fmt::gen(s, &m2);
        if let Fmt::Elf(o) = &mut f2 {
            o.build_id = Some(vec![0xb6; 20]);
        }
        let with = add_cfi(s, &m2, &mut f2, 4);
        write(ctx, case, "other/second.so", &f2.build(&m2));
        let one = Cmd::new(ctx).arg("other/second.so").args(&base).run();
        if !one.ok() {
            return Err(format!("dumping second.so: {}", one.describe()));
        }
        let z = sym::parse(&one.stdout)?;
        let mut inputs = [name, "other/second.so"];
        if s.chance(1, 2) {
            inputs.reverse();
        }
        let j = s.pick(&["1", "2", "5"]).to_string();
        case.label("--check-cfi on several files");
        let c = Cmd::new(ctx).args(inputs).args(&base).args(["--check-cfi", "--store", "st2", "-j", &j]).run();
        let has = [!matches!(exp, Exp::Nothing), !with.fdes.is_empty()];
        if c.ok() != (has[0] && has[1]) || c.code.is_none() {
            return Err(format!("--check-cfi on {inputs:?} of which those with unwind information are {has:?}: {}", c.describe()));
        }
        let got = tree(&ctx.dir);
        for (has, y, o) in [(has[0], &y, &o), (has[1], &z, &one)] {
            let p = format!("st2/{}", super::ident::store_path(&y.name, &y.id));
            match got.get(&p) {
                Some(d) if has && *d == o.stdout => {}
                None if !has => {}
                d => return Err(format!("--check-cfi on {inputs:?}: {p:?} is {}, unwind information: {has}", if d.is_some() { "there (other contents)" } else { "missing" })),
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C06", quick: 6000, thorough: 250_000,
        rule: "random call frame programs in .eh_frame/.debug_frame of ELF and Mach-O (x86, x86_64, arm, arm64), random x86_64 unwind codes in PEs alone and next to a PDB, random frame data in x86 PDBs, or no unwind information; each dumped without and with --check-cfi; non-trivial: there is unwind information",
        assumptions: &["a rule taken back by DW_CFA_restore(_state) without replacement is not judged (STACK CFI has no way to say it)", "chained unwind info and machine frames are not generated"],
        run: c06, expect: &[("DWARF CFI", 100), ("PE exception data", 100), ("STACK WIN", 50), ("no unwind information", 100)], workers: 0,
    }]
}
