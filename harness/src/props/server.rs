//! C13: symbol servers and caches, over histories of runs against HTTP servers on the loopback interface.
use super::core::describe;
use super::ident::{pair_pe, pe_code_id, small, tree, win_id};
use super::win::{cabinet, completed};
use crate::engine::*;
use crate::fmt::*;
use crate::model::*;
use crate::run::{Cmd, Out};
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Good { chunked: bool, redirect: bool },
    /// this status to HEAD, the file to GET
    HeadStatus(u16),
    HeadDrop,
    /// 200 to HEAD, this status with the file as body to GET
    GetStatus(u16),
    GetDrop,
    Truncated(usize),
    TruncatedChunked(usize),
    Empty,
    NotFoundText,
}

impl Answer {
    fn offered(&self) -> bool {
        !matches!(self, Answer::HeadStatus(_) | Answer::HeadDrop)
    }
    fn good(&self) -> bool {
        matches!(self, Answer::Good { .. })
    }
}

type Files = Arc<Mutex<HashMap<String, (Answer, Arc<Vec<u8>>)>>>;

struct Server {
    port: u16,
    files: Files,
    stop: Arc<AtomicBool>,
    requests: Arc<AtomicUsize>,
    thread: Option<std::thread::JoinHandle<()>>,
}

fn decode(p: &str) -> String {
    let b = p.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let h = (b[i] == b'%').then(|| p.get(i + 1..i + 3)).flatten().and_then(|h| u8::from_str_radix(h, 16).ok());
        match h {
            Some(v) => {
                o.push(v);
                i += 3;
            }
            None => {
                o.push(b[i]);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

fn serve(mut c: TcpStream, files: &Files) -> std::io::Result<()> {
    c.set_read_timeout(Some(Duration::from_secs(10)))?;
    let mut req = vec![];
    let mut buf = [0u8; 4096];
    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = c.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        req.extend_from_slice(&buf[..n]);
    }
    let text = String::from_utf8_lossy(&req).into_owned();
    let mut w = text.split(' ');
    let (method, raw) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
    let head = method == "HEAD";
    let (path, blob) = match decode(raw).strip_prefix("/blob") {
        Some(p) => (p.to_string(), true),
        None => (decode(raw), false),
    };
    let entry = files.lock().unwrap().get(&path).cloned();
    let plain = |c: &mut TcpStream, status: u16, body: &[u8], announced: usize| -> std::io::Result<()> {
        write!(c, "HTTP/1.1 {status} X\r\nContent-Length: {announced}\r\nConnection: close\r\n\r\n")?;
        if !head {
            c.write_all(body)?;
        }
        c.flush()
    };
    let (a, body) = match entry {
        Some((a, b)) if head || method == "GET" => (a, b),
        _ => return plain(&mut c, 404, b"Symbol Not Found", 16),
    };
    match a {
        Answer::Good { redirect: true, .. } if !blob => {
            write!(c, "HTTP/1.1 302 Found\r\nLocation: /blob{raw}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
        }
        Answer::HeadStatus(st) if head => plain(&mut c, st, b"", if st == 204 { 0 } else { body.len() }),
        Answer::HeadDrop if head => Ok(()),
        Answer::GetStatus(st) if !head => plain(&mut c, st, &body, body.len()),
        Answer::GetDrop if !head => Ok(()),
        Answer::Truncated(n) if !head => {
            let n = n % body.len().max(1);
            plain(&mut c, 200, &body[..n], body.len())
        }
        Answer::Good { chunked: true, .. } | Answer::TruncatedChunked(_) => {
            write!(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")?;
            if head {
                return Ok(());
            }
            let end = match a {
                Answer::TruncatedChunked(n) => n % body.len().max(1),
                _ => body.len(),
            };
            for k in body[..end].chunks(5000) {
                write!(c, "{:x}\r\n", k.len())?;
                c.write_all(k)?;
                c.write_all(b"\r\n")?;
            }
            if a.good() {
                c.write_all(b"0\r\n\r\n")?;
            }
            c.flush()
        }
        Answer::Empty if !head => plain(&mut c, 200, b"", 0),
        Answer::NotFoundText if !head => {
            let t = b"Symbol Not Found: no such thing here";
            plain(&mut c, 200, t, t.len())
        }
        _ => plain(&mut c, 200, &body, body.len()),
    }
}

impl Server {
    fn start() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let files: Files = Default::default();
        let stop = Arc::new(AtomicBool::new(false));
        let requests = Arc::new(AtomicUsize::new(0));
        let (f, st, rq) = (files.clone(), stop.clone(), requests.clone());
        let thread = std::thread::spawn(move || {
            let mut hs = vec![];
            for c in l.incoming() {
                if st.load(Ordering::SeqCst) {
                    break;
                }
                rq.fetch_add(1, Ordering::SeqCst);
                let Ok(c) = c else { continue };
                let f = f.clone();
                hs.push(std::thread::spawn(move || {
                    let _ = serve(c, &f);
                }));
            }
            for h in hs {
                let _ = h.join();
            }
        });
        Server { port, files, stop, requests, thread: Some(thread) }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

/// Contents a server or a cache can have.
#[derive(Clone)]
struct Body {
    what: String,
    raw: Arc<Vec<u8>>,
    /// the same file not in a cabinet
    inner: Arc<Vec<u8>>,
}

/// An entry of the server list.
#[derive(Clone, Debug)]
struct Entry {
    /// index of a server; None: nothing listens there
    server: Option<usize>,
    prefix: String,
    /// as in tree(); None: no cache
    cache: Option<String>,
}

/// Something that is looked up.
struct Thing {
    name: String,
    id: String,
    bodies: Vec<Body>,
}

/// The directory of a name in caches.
fn base(name: &str) -> String {
    let l = name.to_lowercase();
    for (a, b) in [(".pd_", ".pdb"), (".ex_", ".exe"), (".dl_", ".dll")] {
        if l.ends_with(a) {
            return format!("{}{b}", &name[..name.len() - a.len()]);
        }
    }
    name.to_string()
}

type Tree = BTreeMap<String, Vec<u8>>;

/// What a lookup can end with: the raw file, and what it adds to the caches.
#[derive(Clone)]
struct Found {
    raw: Option<Vec<u8>>,
    cached: Option<(String, Vec<u8>)>,
}

fn urls(e: &Entry, t: &Thing) -> Vec<String> {
    let mut v = vec![format!("{}/{}/{}/{}", e.prefix, t.name, t.id, t.name)];
    let mut n = t.name.clone();
    if n.pop() != Some('_') {
        v.push(format!("{}/{}/{}/{n}_", e.prefix, t.name, t.id));
    }
    v
}

fn lookup(t: &Thing, entries: &[Entry], servers: &[Server], files: &Tree) -> Vec<Found> {
    let at = |c: &String| format!("{c}/{}/{}/{}", base(&t.name), t.id, t.name);
    for c in entries.iter().filter_map(|e| e.cache.as_ref()) {
        if let Some(d) = files.get(&at(c)) {
            return vec![Found { raw: Some(d.clone()), cached: None }];
        }
    }
    let mut v = vec![];
    for e in entries {
        let Some(k) = e.server else { continue };
        for u in urls(e, t) {
            if let Some((a, d)) = servers[k].files.lock().unwrap().get(&u) {
                if a.offered() {
                    v.push(if a.good() && !d.is_empty() && !d.starts_with(b"Symbol Not Found") {
                        Found { raw: Some(d.to_vec()), cached: e.cache.as_ref().map(|c| (at(c), d.to_vec())) }
                    } else {
                        Found { raw: None, cached: None }
                    });
                }
            }
        }
    }
    if v.is_empty() {
        v.push(Found { raw: None, cached: None });
    }
    v
}

fn answer(s: &mut Src) -> Answer {
    match s.u(12) {
        0..=4 => Answer::Good { chunked: s.chance(1, 3), redirect: s.chance(1, 4) },
        5 => Answer::HeadStatus(*s.pick(&[404, 403, 500, 204, 410, 503])),
        6 => Answer::HeadDrop,
        7 => Answer::GetStatus(*s.pick(&[404, 500, 403, 503])),
        8 => Answer::GetDrop,
        9 => Answer::Truncated(s.us(1 << 16)),
        10 => Answer::TruncatedChunked(s.us(1 << 16)),
        _ => {
            if s.chance(1, 2) {
                Answer::Empty
            } else {
                Answer::NotFoundText
            }
        }
    }
}

fn wrap(s: &mut Src, name: &str, what: &str, data: Vec<u8>) -> Body {
    let inner = Arc::new(data);
    if s.chance(1, 3) || name.ends_with('_') {
        let mut m = vec![(completed(name), inner.to_vec())];
        if s.chance(1, 3) {
            m.insert(0, ("readme.txt".into(), b"hello".to_vec()));
        }
        Body { what: format!("{what} in cabinet"), raw: Arc::new(cabinet(&[(s.chance(2, 3), m)])), inner }
    } else {
        Body { what: what.into(), raw: inner.clone(), inner }
    }
}

fn hex_id(s: &mut Src) -> String {
    let n = s.usr(1, 33);
    (0..n).map(|_| *s.pick(b"0123456789ABCDEFabcdef") as char).collect()
}

/// Dump a file from disk in a directory of its own, without any server.
fn reference(ctx: &Ctx, memo: &mut HashMap<u64, Out>, files: &[(&str, &[u8])], arg: &str, args: &[&str]) -> Out {
    let mut key = hash_bytes(format!("{arg}{args:?}").as_bytes());
    for (n, d) in files {
        key = key.rotate_left(9) ^ hash_bytes(n.as_bytes()) ^ hash_bytes(d).rotate_left(3);
    }
    if let Some(o) = memo.get(&key) {
        return o.clone();
    }
    let dir = ctx.dir.join("ref");
    reset_dir(&dir);
    for (n, d) in files {
        std::fs::write(dir.join(n), d).unwrap();
    }
    let mut c = Cmd::new(ctx).cwd(&dir).arg(arg).args(args);
    c.home = ctx.dir.join("nohome");
    let o = c.run();
    let _ = std::fs::remove_dir_all(&dir);
    memo.insert(key, o.clone());
    o
}

fn c13(s: &mut Src, ctx: &Ctx, case: &mut Case) -> Verdict {
    let servers: Vec<Server> = (0..s.usr(1, 4)).map(|_| Server::start()).collect();
    let here = ctx.dir.to_str().unwrap().to_string();
    std::fs::create_dir_all(ctx.dir.join("home")).unwrap();
    std::fs::create_dir_all(ctx.dir.join("work")).unwrap();
    // what is looked up
    let kind = *s.pick(&[Kind::Pdb, Kind::Pdb, Kind::Pe, Kind::Pe, Kind::Elf]);
    let m = small(s, kind);
    let m2 = small(s, if kind == Kind::Pe { Kind::Pdb } else { kind });
    let mut things: Vec<Thing> = vec![];
    let mut pe_on_disk: Option<(String, Vec<u8>)> = None;
    let mut wrong: Vec<u8> = vec![];
    match kind {
        Kind::Pe => {
            // a PE and its PDB
            let pdbm = small(s, Kind::Pdb);
            let po = PdbOpts::gen(s, &pdbm);
            let stem = *s.pick(&["mod", "a b", "näme", "A.B"]);
            let pdb_name = format!("{stem}.{}", s.pick(&["pdb", "PDB", "pdb"]));
            let (pm, peo) = pair_pe(s, &pdbm, &po, format!("C:\\vpnx\\{pdb_name}").as_bytes());
            let pe_name = format!("prog.{}", s.pick(&["dll", "exe"]));
            let pe = pe_spec(&pm, &peo).build();
            let good = Fmt::Pdb(po.clone()).build(&pdbm);
            let good2 = {
                let mut z = m2.clone();
                z.is64 = pdbm.is64;
                Fmt::Pdb(po.clone()).build(&z)
            };
            let mut wo = po.clone();
            wo.guid[3] ^= 0x10;
            wrong = Fmt::Pdb(wo).build(&m2);
            let bodies = vec![
                wrap(s, &pdb_name, "PDB 1", good.clone()),
                wrap(s, &pdb_name, "PDB 1", good),
                wrap(s, &pdb_name, "PDB 2", good2),
                wrap(s, &pdb_name, "PDB of another build", wrong.clone()),
            ];
            things.push(Thing { name: pdb_name, id: win_id(&po.guid, po.real_age()), bodies });
            let bodies = vec![wrap(s, &pe_name, "PE", pe.clone())];
            things.push(Thing { name: pe_name.clone(), id: pe_code_id(&peo), bodies });
            pe_on_disk = Some((pe_name, pe));
        }
        _ => {
            let mut f = Fmt::gen(s, &m);
            let mut f2 = Fmt::gen(s, &m2);
            if let (Fmt::Elf(o), Fmt::Elf(p)) = (&mut f, &mut f2) {
                o.soname = None;
                p.soname = None;
            }
            let stem = *s.pick(&["mod", "a b", "näme", "A.B"]);
            let name = match kind {
                Kind::Pdb => format!("{stem}.{}", s.pick(&["pdb", "PDB", "pd_", "Pd_", "PD_", "pdb"])),
                _ => format!("{stem}{}", s.pick(&[".so", "", ".so.1", "é"])),
            };
            let mut bodies = vec![
                wrap(s, &name, "file 1", f.build(&m)),
                wrap(s, &name, "file 1", f.build(&m)),
                wrap(s, &name, "file 2", f2.build(&m2)),
            ];
            let g = Arc::new(b"not a symbol file".to_vec());
            bodies.push(Body { what: "garbage".into(), raw: g.clone(), inner: g });
            let g = Arc::new(cabinet(&[(true, vec![("other.txt".into(), b"x".to_vec())])]));
            bodies.push(Body { what: "cabinet without it".into(), raw: g.clone(), inner: g });
            things.push(Thing { name, id: hex_id(s), bodies });
        }
    }
    // the server list
    let cache_texts = [
        (format!("{here}/c0"), "c0".to_string()),
        (format!("{here}/c1/deep"), "c1/deep".into()),
        ("~/c2".into(), "home/c2".into()),
        ("~".into(), "home".into()),
        ("rel".into(), "work/rel".into()),
    ];
    let dead = {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        l.local_addr().unwrap().port()
    };
    let gen_entries = |s: &mut Src| -> (Vec<Entry>, String) {
        let mut v = vec![];
        let mut text = String::new();
        for i in 0..s.usr(1, 4) {
            let cache = if s.chance(4, 5) { Some(s.pick(&cache_texts).clone()) } else { None };
            let server = if s.chance(1, 10) { None } else { Some(s.us(servers.len())) };
            let port = server.map_or(dead, |k| servers[k].port);
            let prefix = s.pick(&["", "/sym/v1", "/x"]).to_string();
            if i > 0 || s.chance(1, 5) {
                text.push_str(s.pick(&[";", "\n", ";;", " ; "]));
            }
            if s.chance(1, 6) {
                // nothing but SRV entries counts, even where a server is named
                let live = servers[s.us(servers.len())].port;
                let px = s.pick(&["", "/sym/v1", "/x"]).to_string();
                let url = format!("http://127.0.0.1:{live}{px}");
                match s.u(4) {
                    0 => text.push_str(&format!("cache*{here}/junk*{url};")),
                    1 => text.push_str(&format!("SRV*a*{here}/junk*{url};")),
                    2 => text.push_str(&format!("{url};SYMSRV*{url};")),
                    _ => {}
                }
                text.push_str(s.pick(&["cache*c:\\x;", "c:\\symbols;", "SRV*a*b*http://127.0.0.1:1/;", "#\n", "SYMSRV*http://127.0.0.1:1;"]));
            }
            let pad = *s.pick(&["", "", " "]);
            text.push_str(s.pick(&["SRV", "srv", "Srv", "sRv"]));
            text.push('*');
            if let Some(c) = &cache {
                text.push_str(&format!("{pad}{}{pad}*", c.0));
            }
            text.push_str(&format!("{pad}http://127.0.0.1:{port}{prefix}"));
            if s.chance(1, 4) {
                text.push_str(s.pick(&[" ", ";", "\n"]));
            }
            v.push(Entry { server, prefix, cache: cache.map(|c| c.1) });
        }
        (v, text)
    };
    let (conf_entries, conf_text) = gen_entries(s);
    let has_conf = s.chance(1, 2);
    if has_conf {
        std::fs::create_dir_all(ctx.dir.join("home/.dump_syms")).unwrap();
        std::fs::write(ctx.dir.join("home/.dump_syms/config"), &conf_text).unwrap();
    }
    let (cli_entries, cli_text) = gen_entries(s);
    if let Some((n, d)) = &pe_on_disk {
        std::fs::create_dir_all(ctx.dir.join("p")).unwrap();
        std::fs::create_dir_all(ctx.dir.join("q")).unwrap();
        std::fs::write(ctx.dir.join("p").join(n), d).unwrap();
        std::fs::write(ctx.dir.join("q").join(n), d).unwrap();
    }
    for t in &things {
        for (i, b) in t.bodies.iter().enumerate() {
            case.artifact(&format!("{} {} {i}", t.name, b.what), &b.raw);
        }
    }
    case.note(&format!("{} {:?}; config {conf_text:?} ({has_conf}); --symbol-server {cli_text:?}", describe(&m), things.iter().map(|t| (&t.name, &t.id)).collect::<Vec<_>>()));
    let mut memo: HashMap<u64, Out> = HashMap::new();
    let mut tried = 0;
    for step in 0..s.usr(1, 5) {
        // the world changes
        let (entries, cli) = match s.u(4) {
            0 | 1 => (cli_entries.clone(), true),
            _ if has_conf => (conf_entries.clone(), false),
            2 => (cli_entries.clone(), true),
            _ => (vec![], false),
        };
        let mut changes = vec![];
        for t in &things {
            for e in cli_entries.iter().chain(&conf_entries) {
                let Some(k) = e.server else { continue };
                for u in urls(e, t) {
                    let mut files = servers[k].files.lock().unwrap();
                    match s.u(6) {
                        0 | 1 if step > 0 => {}
                        0 | 1 => {
                            let a = answer(s);
                            let b = s.pick(&t.bodies);
                            changes.push(format!("server {k} {u}: {a:?} {}", b.what));
                            files.insert(u, (a, b.raw.clone()));
                        }
                        2 => {
                            let b = s.pick(&t.bodies);
                            let a = if s.chance(1, 2) { Answer::Good { chunked: false, redirect: false } } else { answer(s) };
                            changes.push(format!("server {k} {u}: {a:?} {}", b.what));
                            files.insert(u, (a, b.raw.clone()));
                        }
                        3 => {
                            if files.remove(&u).is_some() {
                                changes.push(format!("server {k} {u}: removed"));
                            }
                        }
                        _ => {}
                    }
                }
            }
            for c in cli_entries.iter().chain(&conf_entries).filter_map(|e| e.cache.as_ref()) {
                let p = ctx.dir.join(c).join(base(&t.name)).join(&t.id).join(&t.name);
                match s.u(12) {
                    0 => {
                        let b = s.pick(&t.bodies);
                        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                        std::fs::write(&p, &*b.raw).unwrap();
                        changes.push(format!("cache {c}: {} is {}", t.name, b.what));
                    }
                    1 | 2 => {
                        if std::fs::remove_file(&p).is_ok() {
                            changes.push(format!("cache {c}: {} removed", t.name));
                        }
                    }
                    3 => {
                        // near misses
                        let other = ctx.dir.join(c).join(base(&t.name)).join(format!("{}0", t.id)).join(&t.name);
                        std::fs::create_dir_all(other.parent().unwrap()).unwrap();
                        std::fs::write(other, &*t.bodies[0].raw).unwrap();
                    }
                    _ => {}
                }
            }
        }
        // and a file is looked up
        let mut args: Vec<String> = vec![];
        // an option without any server keeps the file from being used, too
        let (entries, junk) = if cli && s.chance(1, 8) { (vec![], *s.pick(&["", "c:\\symbols", "cache*x", "SRV*a*b*c;;", "symsrv*x*http://127.0.0.1:1"])) } else { (entries, "-") };
        if cli {
            args.extend(["--symbol-server".into(), if junk == "-" { cli_text.clone() } else { junk.into() }]);
        }
        case.label_if(junk != "-" && has_conf, "option without servers");
        let k = s.us(things.len() + pe_on_disk.is_some() as usize * 2);
        let by_id = k < things.len();
        let twice = k > things.len();
        let fsize = if !twice && s.chance(1, 10) { Some(s.u(things[0].bodies[0].raw.len() as u64 + 2000)) } else { None };
        let mut refargs: Vec<&str> = vec![];
        if s.chance(1, 3) {
            refargs.push("--inlines");
        }
        let before = tree(&ctx.dir);
        let n_req: usize = servers.iter().map(|x| x.requests.load(Ordering::SeqCst)).sum();
        // (Some(output) or None for failure, additions to the caches)
        let mut outcomes: Vec<(Option<Vec<u8>>, Vec<(String, Vec<u8>)>)> = vec![];
        let find_body = |t: &Thing, raw: &[u8]| -> Vec<u8> { t.bodies.iter().find(|b| **b.raw == *raw).map(|b| b.inner.to_vec()).unwrap_or_default() };
        // the outcomes of dumping a PE whose PDB has to be looked up
        let pe_outcomes = |ctx: &Ctx, memo: &mut HashMap<u64, Out>, pe: &[u8], before: &Tree| {
            let t = &things[0];
            let (pe_name, _) = pe_on_disk.as_ref().unwrap();
            let mut v = vec![];
            for f in lookup(t, &entries, &servers, before) {
                let mut files: Vec<(&str, &[u8])> = vec![(pe_name, pe)];
                let inner = f.raw.as_ref().map(|r| find_body(t, r)).filter(|i| *i != wrong);
                if let Some(i) = &inner {
                    files.push((&t.name, i));
                }
                let o = reference(ctx, memo, &files, pe_name, &refargs);
                v.push((o.ok().then_some(o.stdout), f.cached));
            }
            v
        };
        let mut cmd = Cmd::new(ctx).cwd(ctx.dir.join("work"));
        if by_id {
            let t = &things[k];
            let how = *s.pick(&["--debug-id", "--code-id"]);
            args.extend([how.to_string(), t.id.clone()]);
            if how == "--debug-id" && s.chance(1, 6) {
                // the debug id counts
                args.extend(["--code-id".into(), things[s.us(things.len())].id.clone() + s.pick(&["", "0"])]);
            }
            args.push(format!("{}{}", s.pick(&["", "no/where/", "/vpnx/"]), t.name));
            for f in lookup(t, &entries, &servers, &before) {
                match &f.raw {
                    None => outcomes.push((None, vec![])),
                    Some(r) if k == 1 => {
                        let mut b2 = before.clone();
                        b2.extend(f.cached.clone());
                        for (o, c) in pe_outcomes(ctx, &mut memo, &find_body(t, r), &b2) {
                            outcomes.push((o, f.cached.iter().cloned().chain(c).collect()));
                        }
                    }
                    Some(r) => {
                        let o = reference(ctx, &mut memo, &[(&t.name, r)], &t.name, &refargs);
                        outcomes.push((o.ok().then_some(o.stdout), f.cached.into_iter().collect()));
                    }
                }
            }
            case.label_if(!cli && entries.is_empty(), "no configuration");
        } else {
            let (n, d) = pe_on_disk.as_ref().unwrap();
            args.push(format!("../p/{n}"));
            if twice {
                args.push(format!("../q/{n}"));
                args.extend(["-j".into(), s.range(1, 4).to_string()]);
            }
            for (o, c) in pe_outcomes(ctx, &mut memo, d, &before) {
                outcomes.push((o, c.into_iter().collect()));
            }
        }
        cmd = cmd.args(&args).args(&refargs);
        cmd.fsize_limit = fsize;
        let o = cmd.run();
        let after = tree(&ctx.dir);
        let n_req2: usize = servers.iter().map(|x| x.requests.load(Ordering::SeqCst)).sum();
        case.note(&format!("step {step}: {changes:?} run {args:?} limit {fsize:?} -> {:?}", o.code));
        let why = format!("step {step} ({changes:?}; {args:?}): ");
        if o.code.is_none() {
            return Err(format!("{why}{}", o.describe()));
        }
        tried += 1;
        let cached = |v: &Vec<(String, Vec<u8>)>| {
            let mut t = before.clone();
            t.extend(v.iter().cloned());
            t
        };
        case.label(if by_id { "lookup by id" } else if twice { "two PEs" } else { "PDB of a PE" });
        case.label_if(n_req2 == n_req, "no request");
        case.label_if(outcomes.len() > 1, "several offers");
        case.label_if(outcomes.iter().any(|x| !x.1.is_empty()), "download to cache");
        case.label_if(outcomes.iter().all(|x| x.0.is_none()), "must fail");
        case.label_if(n_req2 == n_req && outcomes.iter().any(|x| x.0.is_some()) && by_id, "from cache");
        case.label_if(fsize.is_some(), "limited file size");
        let accept = |x: &(Option<Vec<u8>>, Vec<(String, Vec<u8>)>)| -> bool {
            let want = cached(&x.1);
            match (&x.0, o.ok()) {
                (Some(_), true) if twice => after == want,
                (Some(d), true) => o.stdout == *d && (after == want || (fsize.is_some() && after == before)),
                (None, false) => o.stdout.is_empty() && (after == want || (fsize.is_some() && after == before)),
                // what cannot be cached or printed may fail
                (Some(_), false) => fsize.is_some() && (after == want || after == before || x.1.iter().any(|c| after == cached(&vec![c.clone()]))),
                _ => false,
            }
        };
        if twice {
            // both lookups are free to choose
            if outcomes.len() > 1 {
                if !o.ok() {
                    return Err(format!("{why}dumping two PEs failed: {}", o.describe()));
                }
                for (p, d) in &after {
                    let known = before.get(p) == Some(d) || outcomes.iter().any(|x| x.1.iter().any(|c| c.0 == *p && c.1 == *d));
                    if !known {
                        return Err(format!("{why}{p} has {} bytes no server offers", d.len()));
                    }
                }
                continue;
            }
            let x = &outcomes[0];
            if let Some(d) = &x.0 {
                let text = |b: &[u8]| String::from_utf8_lossy(b).lines().filter(|l| l.starts_with("FILE") || l.starts_with("MODULE")).map(String::from).collect::<Vec<_>>();
                if o.ok() && text(d) != text(&o.stdout) {
                    return Err(format!("{why}two PEs with one PDB: files {:?} instead of {:?}", text(&o.stdout), text(d)));
                }
            }
        }
        if !outcomes.iter().any(accept) {
            let diff: Vec<String> = after
                .iter()
                .filter(|(p, d)| before.get(*p) != Some(d))
                .map(|(p, d)| format!("{p} ({} bytes)", d.len()))
                .chain(before.keys().filter(|p| !after.contains_key(*p)).map(|p| format!("{p} gone")))
                .collect();
            let want: Vec<String> = outcomes
                .iter()
                .map(|x| {
                    let c: Vec<_> = x.1.iter().map(|c| format!("{} ({} bytes)", c.0, c.1.len())).collect();
                    format!("{} caching {c:?}", x.0.as_ref().map_or("failure".into(), |d| format!("{} bytes of symbols", d.len())))
                })
                .collect();
            return Err(format!("{why}got {} bytes of symbols, new files {diff:?}, {}; expected {want:?}", o.stdout.len(), o.describe()));
        }
    }
    case.nontrivial = tried > 1;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        quick: 1500,
        thorough: 40_000,
        rule: "at least two runs in the history",
        assumptions: &["HTTP/1.1 servers on the loopback interface stand for symbol servers", "names have no '#', '?' or '%'"],
        run: c13,
        expect: &[("lookup by id", 50), ("PDB of a PE", 50), ("two PEs", 20), ("from cache", 20), ("download to cache", 50), ("must fail", 50), ("limited file size", 10)],
        workers: 8,
    }]
}
