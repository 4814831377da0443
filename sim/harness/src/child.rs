//! Every run executes in a forked child: crashes, aborts and hangs of the library are outcomes.
use crate::rep::{Rep, Viol};
use serde_json::Value as J;
use std::io::Read;
use std::os::fd::FromRawFd;

pub enum End {
    Report(Rep),
    /// the candidate is not a scenario
    Invalid,
    /// the harness itself failed
    Harness(String),
}

pub fn run_isolated(prop: &str, scn: &J) -> End {
    isolated(|| {
        let mut rep = Rep::default();
        crate::worlds::run(prop, scn, &mut rep).map(|_| rep)
    })
}

pub fn isolated(body: impl FnOnce() -> Option<Rep>) -> End {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            // CPU time for loops, wall time (generous: the machine may be busy) for deadlocks
            let cpu = libc::rlimit { rlim_cur: 30, rlim_max: 35 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            libc::alarm(120);
            simrt::tell_aborts();
            let code = match body() {
                Some(rep) => {
                    let s = serde_json::to_vec(&rep).unwrap();
                    let mut off = 0;
                    while off < s.len() {
                        let n = libc::write(fds[1], s[off..].as_ptr() as *const _, s.len() - off);
                        if n <= 0 {
                            libc::_exit(95);
                        }
                        off += n as usize;
                    }
                    0
                }
                None => 94,
            };
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let _ = f.read_to_end(&mut out);
        drop(f);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        let fail = |class: &str, msg: String| {
            End::Report(Rep { viol: Some(Viol { class: class.into(), msg, step: 0 }), ..Default::default() })
        };
        if libc::WIFSIGNALED(status) {
            return match libc::WTERMSIG(status) {
                libc::SIGXCPU => fail("hang", "no progress within 30 s of CPU time".into()),
                libc::SIGALRM => fail("hang", "no progress within 120 s".into()),
                libc::SIGKILL => End::Harness("killed".into()),
                s => fail(&format!("crash-{s}"), format!("the process was ended by signal {s}")),
            };
        }
        match libc::WEXITSTATUS(status) {
            0 => match serde_json::from_slice::<Rep>(&out) {
                Ok(r) => End::Report(r),
                Err(e) => End::Harness(format!("bad report: {e}")),
            },
            94 => End::Invalid,
            simrt::ABORTED => {
                let mut rep = Rep { fired: 1, ..Default::default() };
                rep.count("fault:allocation refused, process aborted");
                End::Report(rep)
            }
            96 => fail("deadlock", "all threads are blocked".into()),
            c => End::Harness(format!("exit status {c}")),
        }
    }
}
