//! Running the command line tools in scratch directories.
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::engine::R;

#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    /// panic or signal
    pub fn crashed(&self) -> bool {
        self.signal.is_some() || self.code == Some(101) || self.stderr.contains("panicked at") || self.stderr.contains("has overflowed its stack")
    }
    pub fn brief(&self) -> String {
        let cut = |s: &str| s.chars().take(600).collect::<String>();
        format!("exit {:?} signal {:?} stdout {:?} stderr {:?}", self.code, self.signal, cut(&self.out()), cut(&self.stderr))
    }
    pub fn clean_failure(&self) -> bool {
        !self.crashed() && self.code != Some(0)
    }
}

/// processor time a tool may use, a thousand times what it needs
const CPU_SECS: u64 = 10;
/// wall clock limit: inconclusive
pub const TIMEOUT: Duration = Duration::from_secs(300);

pub struct Run<'a> {
    pub cwd: &'a Path,
    pub stdin: &'a [u8],
    pub fsize: Option<u64>,
    pub env: &'a [(&'a str, &'a str)],
}

fn cpu_used_up(s: &std::process::ExitStatus) -> bool {
    s.signal() == Some(libc::SIGXCPU)
}

/// the name as the system sees it: the characters f780-f7ff stand for bytes that are no UTF-8
pub fn os(name: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = vec![];
    for c in name.chars() {
        match c as u32 {
            n @ 0xf780..=0xf7ff => v.push(n as u8),
            _ => v.extend(c.encode_utf8(&mut [0; 4]).bytes()),
        }
    }
    std::ffi::OsString::from_vec(v)
}

/// how messages show the name
pub fn shown(name: &str) -> String {
    os(name).to_string_lossy().into_owned()
}

/// a way to name files that is not usual, or the usual one; `raw`: not all names need be text
pub fn naming(t: &mut crate::engine::Tape, raw: bool) -> impl Fn(&str) -> String {
    let how = if t.chance(1, 8) { 1 + t.below(if raw { 10 } else { 9 }) } else { 0 };
    move |n: &str| match how {
        1 => format!("a b {n}"),
        2 => format!("sub/{n}"),
        3 => format!("\u{fe}\u{5b57}/\u{fe}{n}"),
        4 => format!("{n}.v1.2"),
        5 => format!("{}{n}", "long".repeat(50)),
        6 => format!(".{n}"),
        7 => n.replace('.', "-"),
        8 => format!("./-{n}"),
        9 => format!("./sub/.././{n}"),
        10 => format!("\u{f7ff}{n}\u{f780}"),
        _ => n.to_string(),
    }
}

/// the name of the assembler's output for a source
pub fn object_of(source: &str) -> String {
    let at = source.rfind('/').map_or(0, |i| i + 1);
    match source[at..].rfind('.') {
        Some(i) if i > 0 => format!("{}.to", &source[..at + i]),
        _ => format!("{source}.to"),
    }
}

/// the file, in a directory that is there
pub fn file(dir: &Path, name: &str) -> std::path::PathBuf {
    let p = dir.join(os(name));
    if name.contains('/') {
        if name.contains("sub/") {
            std::fs::create_dir_all(dir.join("sub")).unwrap();
        }
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    }
    p
}

/// `Err` if the tool did not terminate
pub fn run_with(bin: &Path, args: &[&str], r: Run) -> R<Out> {
    let mut c = Command::new(bin);
    c.args(args.iter().map(|a| os(a))).current_dir(r.cwd).stdin(if r.stdin.is_empty() { Stdio::null() } else { Stdio::piped() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.env_clear().env("PATH", "/usr/bin:/bin").env("RUST_BACKTRACE", "0").envs(r.env.iter().copied());
    let fsize = r.fsize;
    unsafe {
        c.pre_exec(move || {
            // never let a runaway tool fill the disk or memory
            let lim = |what, v: u64| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                libc::setrlimit(what, &l)
            };
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            lim(libc::RLIMIT_FSIZE, fsize.unwrap_or(64 << 20));
            lim(libc::RLIMIT_AS, 4 << 30);
            lim(libc::RLIMIT_CORE, 0);
            // what normally takes milliseconds and uses this much CPU time does not terminate
            // soft limit below the hard one, so that the signal tells
            libc::setrlimit(libc::RLIMIT_CPU, &libc::rlimit { rlim_cur: CPU_SECS, rlim_max: CPU_SECS + 5 });
            Ok(())
        });
    }
    let mut ch = c.spawn().unwrap_or_else(|e| crate::engine::harness_error(&format!("cannot run {}: {e}", bin.display())));
    let pid = ch.id() as i32;
    let mut si = ch.stdin.take();
    let data = r.stdin.to_vec();
    let wr = si.take().map(|mut si| {
        std::thread::spawn(move || {
            let _ = si.write_all(&data);
        })
    });
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let read_all = |r: &mut dyn Read| {
        // keep what fits, drain the rest
        let mut v = Vec::new();
        let mut buf = [0u8; 8192];
        loop {
            match r.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(n) => {
                    if v.len() < 64 << 20 {
                        v.extend_from_slice(&buf[..n]);
                    }
                }
            }
        }
        v
    };
    // a killer thread enforces the time limit
    let done = std::sync::Arc::new((std::sync::Mutex::new(false), std::sync::Condvar::new()));
    let d2 = done.clone();
    let start = Instant::now();
    let killer = std::thread::spawn(move || {
        let (m, cv) = &*d2;
        let mut g = m.lock().unwrap();
        while !*g {
            let left = TIMEOUT.saturating_sub(start.elapsed());
            if left.is_zero() {
                unsafe { libc::kill(pid, libc::SIGKILL) };
                return true;
            }
            g = cv.wait_timeout(g, left).unwrap().0;
        }
        false
    });
    let eh = std::thread::spawn(move || read_all(&mut se));
    let stdout = read_all(&mut so);
    let stderr = eh.join().unwrap_or_default();
    let status = ch.wait().expect("wait");
    {
        let (m, cv) = &*done;
        *m.lock().unwrap() = true;
        cv.notify_all();
    }
    let killed = killer.join().unwrap();
    if let Some(w) = wr {
        let _ = w.join();
    }
    if killed && status.signal() == Some(libc::SIGKILL) {
        if cpu_used_up(&status) {
            return Err(format!("{} {} did not terminate ({CPU_SECS} s of processor time)", bin.display(), args.join(" ")));
        }
        crate::engine::harness_error(&format!("{} {} did not finish within {} s of wall clock time", bin.display(), args.join(" "), TIMEOUT.as_secs()));
    }
    if cpu_used_up(&status) {
        return Err(format!("{} {} did not terminate ({CPU_SECS} s of processor time)", bin.display(), args.join(" ")));
    }
    Ok(Out { code: status.code(), signal: status.signal(), stdout, stderr: String::from_utf8_lossy(&stderr).into_owned() })
}

pub fn run(bindir: &Path, tool: &str, cwd: &Path, args: &[&str]) -> R<Out> {
    run_with(&bindir.join(tool), args, Run { cwd, stdin: &[], fsize: None, env: &[] })
}
pub fn run_in(bindir: &Path, tool: &str, cwd: &Path, args: &[&str], stdin: &[u8]) -> R<Out> {
    run_with(&bindir.join(tool), args, Run { cwd, stdin, fsize: None, env: &[] })
}
