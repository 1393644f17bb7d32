//! Running the built command-line program.
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, ExitStatus, Stdio};

pub struct Out {
    pub status: ExitStatus,
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
impl Out {
    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.err).into_owned()
    }
}

pub fn program() -> PathBuf {
    PathBuf::from(std::env::var("MON_CLI").unwrap_or_else(|_| "/verif/build/cli/debug/seiren".into()))
}

/// The program with its address space, CPU time and backtraces limited.
pub fn command() -> Command {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(program());
    c.env("RUST_BACKTRACE", "0");
    unsafe {
        c.pre_exec(|| {
            crate::sys::limit_cpu(60);
            Ok(())
        });
    }
    c
}

/// Run with `input` on standard input, collecting everything.
pub fn run(mut c: Command, input: &[u8]) -> Result<Out, String> {
    let mut ch = c
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("harness: cannot run {:?}: {}", program(), e));
    let mut si = ch.stdin.take().unwrap();
    let data = input.to_vec();
    let t = std::thread::spawn(move || {
        let _ = si.write_all(&data);
    });
    let o = ch.wait_with_output().map_err(|e| format!("wait: {}", e))?;
    let _ = t.join();
    Ok(Out { status: o.status, code: o.status.code(), out: o.stdout, err: o.stderr })
}

pub fn cli_stdin(src: &str) -> Result<Out, String> {
    run(command(), src.as_bytes())
}
pub fn cli_file(path: &std::path::Path) -> Result<Out, String> {
    let mut c = command();
    c.arg(path);
    run(c, b"")
}

/// The program with `shim.so` preloaded, which notes its lookups in `log` and
/// obeys the `MON_` variables given.
pub fn shimmed(log: &std::path::Path, vars: &[(&str, String)]) -> Command {
    use std::os::unix::process::CommandExt;
    let lib = std::env::var("MON_SHIM").unwrap_or_else(|_| "/verif/build/shim.so".into());
    assert!(std::path::Path::new(&lib).exists(), "harness: {} is missing", lib);
    let mut c = command();
    c.env("LD_PRELOAD", lib).env("MON_LOG_FD", "19");
    for (k, v) in vars {
        c.env(k, v);
    }
    let f = std::fs::File::create(log).expect("log");
    unsafe {
        c.pre_exec(move || {
            crate::sys::dup2(std::os::fd::AsRawFd::as_raw_fd(&f), 19);
            Ok(())
        });
    }
    c
}
/// Names of the environment variables in a log; panics if the shim was not there.
pub fn looked_up(log: &std::path::Path) -> Vec<String> {
    let t = std::fs::read_to_string(log).unwrap_or_default();
    assert!(t.contains("loaded shim"), "harness: the shim was not loaded");
    let mut v: Vec<String> = t.lines().filter_map(|l| l.strip_prefix("env ")).map(|s| s.to_string()).collect();
    v.sort();
    v.dedup();
    v
}
