//! Runs the dump_syms executable under supervision.

use std::collections::HashMap;
use std::ffi::{OsStr, OsString};
use std::fs::File;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    /// None, or why the supervisor killed it
    pub killed: Option<String>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn describe(&self) -> String {
        format!(
            "exit {:?} signal {:?} {} stderr: {}",
            self.code,
            self.signal,
            self.killed.as_deref().unwrap_or(""),
            self.stderr.chars().take(600).collect::<String>()
        )
    }
}

struct Watch {
    start: Instant,
    last_change: Instant,
    last: (u64, bool),
    last_awake: Instant,
    reason: Option<String>,
    hang_after: Duration,
    cpu_limit: f64,
}

fn watched() -> &'static Mutex<HashMap<i32, Watch>> {
    static W: OnceLock<Mutex<HashMap<i32, Watch>>> = OnceLock::new();
    W.get_or_init(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(200));
            let mut w = watched().lock().unwrap();
            for (pid, w) in w.iter_mut() {
                // memory really used, for every program watched
                if let Some(rss) = std::fs::read_to_string(format!("/proc/{pid}/statm")).ok().and_then(|t| t.split(' ').nth(1)?.parse::<u64>().ok()) {
                    if rss * 4096 > 2 << 30 && w.reason.is_none() {
                        w.reason = Some(format!("memory exhaustion: {} MB in use", rss >> 8));
                        unsafe { libc::kill(*pid, libc::SIGKILL) };
                    }
                }
                if w.reason.is_some() || w.start.elapsed() < Duration::from_millis(500) {
                    continue;
                }
                let (sw, cpu, all_sleeping) = match progress(*pid) {
                    Some(p) => p,
                    None => continue,
                };
                if (sw, all_sleeping) != w.last || !all_sleeping {
                    w.last = (sw, all_sleeping);
                    w.last_change = Instant::now();
                } else if w.last_change.elapsed() > w.hang_after {
                    w.reason = Some(format!(
                        "hang: every thread asleep and none scheduled for {:?}",
                        w.hang_after
                    ));
                }
                // waking up only to go to sleep again is no progress either
                if !all_sleeping {
                    w.last_awake = Instant::now();
                } else if w.last_awake.elapsed() > 8 * w.hang_after && w.reason.is_none() {
                    w.reason = Some(format!("hang: every thread found asleep for {:?}", 8 * w.hang_after));
                }
                if cpu > w.cpu_limit {
                    w.reason = Some(format!("endless loop: {cpu:.0}s of CPU time used"));
                }
                if w.reason.is_some() {
                    unsafe { libc::kill(*pid, libc::SIGKILL) };
                }
            }
        });
        Mutex::new(HashMap::new())
    })
}

/// (context switches, cpu seconds, all threads sleeping)
fn progress(pid: i32) -> Option<(u64, f64, bool)> {
    let mut sw = 0u64;
    let mut ticks = 0u64;
    let mut sleeping = true;
    for e in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let p = e.ok()?.path();
        let status = std::fs::read_to_string(p.join("status")).ok()?;
        for l in status.lines() {
            if let Some(x) = l.strip_prefix("voluntary_ctxt_switches:") {
                sw += x.trim().parse::<u64>().unwrap_or(0);
            } else if let Some(x) = l.strip_prefix("nonvoluntary_ctxt_switches:") {
                sw += x.trim().parse::<u64>().unwrap_or(0);
            }
        }
        let stat = std::fs::read_to_string(p.join("stat")).ok()?;
        let rest = stat.rsplit_once(')')?.1;
        let f: Vec<&str> = rest.split_whitespace().collect();
        if f[0] != "S" {
            sleeping = false;
        }
        ticks += f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
    }
    Some((sw, ticks as f64 / 100.0, sleeping))
}

pub struct Cmd {
    pub bin: PathBuf,
    pub args: Vec<OsString>,
    pub cwd: PathBuf,
    pub home: PathBuf,
    pub stdout_to: Option<PathBuf>,
    pub hang_after: Duration,
    pub cpu_limit: f64,
    pub mem_limit: Option<u64>,
    pub fsize_limit: Option<u64>,
    pub closed_stdout: bool,
    /// standard output is a pipe nobody reads
    pub broken_pipe: bool,
    pub nofile: Option<u64>,
}

static SEQ: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

impl Cmd {
    pub fn new(ctx: &crate::engine::Ctx) -> Self {
        Cmd {
            bin: ctx.bin.clone(),
            args: vec![],
            cwd: ctx.dir.clone(),
            home: ctx.dir.join("home"),
            stdout_to: None,
            hang_after: Duration::from_secs(5),
            cpu_limit: 60.0,
            mem_limit: None,
            fsize_limit: None,
            closed_stdout: false,
            broken_pipe: false,
            nofile: None,
        }
    }
    pub fn arg<S: AsRef<OsStr>>(mut self, s: S) -> Self {
        self.args.push(s.as_ref().to_owned());
        self
    }
    pub fn args<S: AsRef<OsStr>, I: IntoIterator<Item = S>>(mut self, it: I) -> Self {
        for s in it {
            self.args.push(s.as_ref().to_owned());
        }
        self
    }
    /// Options that make no difference for a dump of one file (that is not fat).
    pub fn noise(mut self, s: &mut crate::engine::Src) -> Self {
        if !s.chance(1, 3) {
            return self;
        }
        let mut o: Vec<String> = vec![];
        for _ in 0..1 + s.u(2) {
            let v: [String; 2] = match s.u(4) {
                0 => ["--verbose".into(), s.pick(&["off", "error", "warn", "info", "debug", "trace"]).to_string()],
                1 => ["-j".into(), s.pick(&["1", "2", "7"]).to_string()],
                2 => ["--arch".into(), s.pick(&["x86", "arm64", "x86_64", "arm"]).to_string()],
                _ => ["--symbol-server".into(), s.pick(&["SRV*http://127.0.0.1:9", ""]).to_string()],
            };
            if !o.contains(&v[0]) && !self.args.iter().any(|a| a.to_str() == Some(&v[0])) {
                o.extend(v);
            }
        }
        let at = if s.chance(1, 2) { 0 } else { self.args.len() };
        self.args.splice(at..at, o.into_iter().map(OsString::from));
        self
    }
    pub fn cwd<P: AsRef<Path>>(mut self, p: P) -> Self {
        self.cwd = p.as_ref().to_path_buf();
        self
    }
    pub fn start(&self) -> Running {
        let n = SEQ.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let base = self.home.parent().unwrap_or(Path::new("/tmp")).to_path_buf();
        let out = base.join(format!(".out{n}"));
        let err = base.join(format!(".err{n}"));
        let mut c = Command::new(&self.bin);
        c.args(&self.args)
            .current_dir(&self.cwd)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &self.home)
            .env("NO_PROXY", "127.0.0.1,localhost")
            .stdin(Stdio::null())
            .stderr(File::create(&err).unwrap());
        match &self.stdout_to {
            Some(p) => c.stdout(std::fs::OpenOptions::new().write(true).open(p).unwrap()),
            None => c.stdout(File::create(&out).unwrap()),
        };
        if self.broken_pipe {
            let (r, w) = std::io::pipe().unwrap();
            drop(r);
            c.stdout(w);
        }
        let (mem, fsize, closed, nofile) = (self.mem_limit, self.fsize_limit, self.closed_stdout, self.nofile);
        unsafe {
            c.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let set = |r, v: u64| {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                    libc::setrlimit(r, &l);
                };
                set(libc::RLIMIT_CORE, 0);
                if let Some(m) = mem {
                    set(libc::RLIMIT_AS, m);
                }
                // endless output ends by a signal
                set(libc::RLIMIT_FSIZE, fsize.unwrap_or(512 << 20));
                if fsize.is_some() {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                }
                if let Some(m) = nofile {
                    set(libc::RLIMIT_NOFILE, m);
                }
                if closed {
                    libc::close(1);
                }
                Ok(())
            });
        }
        let mut child = c.spawn();
        for _ in 0..50 {
            if child.is_ok() {
                break;
            }
            std::thread::sleep(Duration::from_millis(100));
            child = c.spawn();
        }
        let child = child.expect("cannot start dump_syms");
        let now = Instant::now();
        watched().lock().unwrap().insert(
            child.id() as i32,
            Watch {
                start: now,
                last_change: now,
                last: (0, false),
                last_awake: now,
                reason: None,
                hang_after: self.hang_after,
                cpu_limit: self.cpu_limit,
            },
        );
        Running { child, out, err, has_stdout: self.stdout_to.is_none() }
    }
    pub fn run(&self) -> Out {
        self.start().wait()
    }
}

pub struct Running {
    child: std::process::Child,
    out: PathBuf,
    err: PathBuf,
    has_stdout: bool,
}

impl Running {
    pub fn pid(&self) -> i32 {
        self.child.id() as i32
    }
    pub fn finished(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(Some(_)))
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
    }
    pub fn wait(mut self) -> Out {
        let st = self.child.wait().unwrap();
        let w = watched().lock().unwrap().remove(&(self.child.id() as i32));
        let stdout = if self.has_stdout { std::fs::read(&self.out).unwrap_or_default() } else { vec![] };
        let stderr = String::from_utf8_lossy(&std::fs::read(&self.err).unwrap_or_default()).into_owned();
        let _ = std::fs::remove_file(&self.out);
        let _ = std::fs::remove_file(&self.err);
        Out {
            code: st.code(),
            signal: st.signal(),
            killed: w.and_then(|w| w.reason),
            stdout,
            stderr,
        }
    }
}
