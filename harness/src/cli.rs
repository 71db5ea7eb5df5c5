//! Command line: sharded exploration, replay, crash capture.
use crate::engine::{self, hash_str, mix, run_replay, shrink, src, CaseFn, Choices, Report};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

pub fn suites() -> Vec<(&'static str, CaseFn)> {
    let mut v: Vec<(&'static str, CaseFn)> = vec![
        ("seqq", crate::q::seqq),
        ("seqq_panic", crate::q::seqq_panic),
        ("concq", crate::q::concq),
        ("concq_weak", crate::q::concq_weak),
        ("concq_freeze", crate::q::concq_freeze),
    ];
    crate::more_suites(&mut v);
    v
}

fn find(name: &str) -> CaseFn {
    suites()
        .into_iter()
        .find(|s| s.0 == name)
        .unwrap_or_else(|| panic!("no suite {name}"))
        .1
}

// --- crash capture --------------------------------------------------------------

static mut CRASH_PATH: [u8; 512] = [0; 512];
static mut CRASH_SUITE: &str = "";
pub static mut PROGRESS: u64 = 0;
static mut SEEN: u64 = u64::MAX;
static mut STUCK: u32 = 0;
static mut FORKED: bool = false;

struct Fd(i32);
impl std::fmt::Write for Fd {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        unsafe { libc::write(self.0, s.as_ptr() as *const _, s.len()) };
        Ok(())
    }
}

extern "C" fn on_signal(sig: i32) {
    unsafe {
        if FORKED {
            libc::_exit(77);
        }
        dump("crash", format_args!("the process received signal {}", sig));
        libc::_exit(77);
    }
}

/// Writes the choices made so far in this case.
unsafe fn dump(kind: &str, msg: std::fmt::Arguments) {
        if CRASH_PATH[0] != 0 {
            let fd = libc::open(
                CRASH_PATH.as_ptr() as *const _,
                libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC,
                0o644,
            );
            let mut o = Fd(fd);
            let _ = write!(o, "suite {}\nkind {}\nmsg {}\n", CRASH_SUITE, kind, msg);
            for s in 0..2 {
                let _ = write!(o, "s{}", s);
                for v in &src().rec.s[s] {
                    let _ = write!(o, " {}", v);
                }
                let _ = o.write_str("\n");
            }
            libc::close(fd);
        }
}

extern "C" fn on_alarm(_: i32) {
    unsafe {
        if SEEN == PROGRESS {
            STUCK += 1;
            if STUCK >= 4 {
                dump("stuck", format_args!("the case does not end"));
                libc::_exit(77);
            }
        } else {
            SEEN = PROGRESS;
            STUCK = 0;
        }
        libc::alarm(15);
    }
}

fn install_signals() {
    unsafe {
        let size = 256 * 1024;
        let st = libc::stack_t {
            ss_sp: libc::malloc(size),
            ss_flags: 0,
            ss_size: size,
        };
        libc::sigaltstack(&st, core::ptr::null_mut());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            let mut sa: libc::sigaction = core::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_RESETHAND;
            libc::sigaction(s, &sa, core::ptr::null_mut());
        }
        let mut sa: libc::sigaction = core::mem::zeroed();
        sa.sa_sigaction = on_alarm as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_RESTART;
        libc::sigaction(libc::SIGALRM, &sa, core::ptr::null_mut());
        libc::alarm(15);
    }
}

// --- replay files ----------------------------------------------------------------

fn write_replay(path: &str, suite: &str, c: &Choices, r: &Report, kind: &str, msg: &str) {
    let mut s = String::new();
    let _ = writeln!(s, "suite {suite}");
    let _ = writeln!(s, "kind {kind}");
    let d = unsafe { (*(&raw const crate::rt::DECIDED)).clone() };
    if let Some(d) = d {
        let _ = writeln!(s, "kinds {}", d.join(","));
    }
    let _ = writeln!(s, "msg {}", msg.replace('\n', " "));
    for i in 0..2 {
        let _ = write!(s, "s{i}");
        for v in &c.s[i] {
            let _ = write!(s, " {v}");
        }
        s.push('\n');
    }
    let _ = writeln!(s, "---\n{}", r.desc);
    std::fs::write(path, s).unwrap();
}

fn read_replay(path: &str) -> (String, String, Choices) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut suite = String::new();
    let mut kind = String::new();
    let mut c = Choices::default();
    for l in t.lines() {
        if l == "---" {
            break;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "suite" => suite = v.into(),
            "kind" => kind = v.into(),
            "kinds" => unsafe { crate::rt::DECIDED = Some(v.split(',').map(String::from).collect()) },
            "s0" => c.s[0] = v.split_whitespace().map(|x| x.parse().unwrap()).collect(),
            "s1" => c.s[1] = v.split_whitespace().map(|x| x.parse().unwrap()).collect(),
            _ => {}
        }
    }
    (suite, kind, c)
}

/// Runs a case in a child process with a limit on its processor time: it crashed, did not end.
fn in_child(f: CaseFn, c: &Choices, cpu: u64) -> (bool, bool) {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            FORKED = true;
            libc::alarm(0);
            libc::signal(libc::SIGXCPU, libc::SIG_DFL);
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            run_replay(f, c, false);
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let stuck = libc::WIFSIGNALED(st) && (libc::WTERMSIG(st) == libc::SIGXCPU || libc::WTERMSIG(st) == libc::SIGKILL);
        (libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 77 || libc::WIFSIGNALED(st) && !stuck, stuck)
    }
}

fn crashes(f: CaseFn, c: &Choices) -> bool {
    in_child(f, c, 20).0
}

fn shrink_crash(f: CaseFn, c: Choices, budget: Duration, crashes: fn(CaseFn, &Choices) -> bool) -> Choices {
    let end = Instant::now() + budget;
    let mut best = c;
    let mut improved = true;
    while improved && Instant::now() < end {
        improved = false;
        for st in [1, 0] {
            let mut chunk = (best.s[st].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.s[st].len() && Instant::now() < end {
                    let e = (i + chunk).min(best.s[st].len());
                    let mut cand = best.clone();
                    cand.s[st].drain(i..e);
                    if crashes(f, &cand) {
                        best = cand;
                        improved = true;
                    } else {
                        i = e;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
    }
    best
}

// --- commands ---------------------------------------------------------------------

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).map(|s| s.parse().unwrap()).unwrap_or(d)
}

fn case_seed(seed: u64, suite: &str, i: u64) -> u64 {
    mix(mix(seed, hash_str(suite)), i)
}

fn worker() -> i32 {
    let suite = arg("--suite").unwrap();
    let seed = num("--seed", 1);
    let (start, step, cases) = (num("--start", 0), num("--step", 1), num("--cases", 1000));
    let kinds: HashSet<String> = arg("--kinds").unwrap_or_default().split(',').map(String::from).collect();
    unsafe { crate::rt::DECIDED = Some(kinds.iter().cloned().collect()) };
    let out = arg("--out").unwrap();
    let f = find(&suite);
    unsafe {
        let p = format!("{out}.replay");
        CRASH_PATH[..p.len()].copy_from_slice(p.as_bytes());
        CRASH_SUITE = Box::leak(suite.clone().into_boxed_str());
    }
    install_signals();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut others: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut other_msg = String::new();
    let (mut n, mut nontriv) = (0u64, 0u64);
    let mut i = start;
    let mut code = 0;
    while i < cases {
        unsafe { PROGRESS += 1 };
        src().start_random(case_seed(seed, &suite, i));
        unsafe { crate::rt::NOTED = None };
        let mut r = f(false);
        if r.failure.is_none() {
            r.failure = unsafe { (*(&raw mut crate::rt::NOTED)).take() };
        }
        n += 1;
        if let Some(fl) = &r.failure {
            if kinds.contains(fl.kind) || kinds.contains("all") {
                let c = src().rec.clone();
                let (again, c2) = run_replay(f, &c, true);
                let path = format!("{out}.replay");
                match &again.failure {
                    Some(fl2) if fl2.kind == fl.kind => {
                        // a replay of the unshrunk case first, in case shrinking crashes
                        write_replay(&path, &suite, &c2, &again, fl2.kind, &fl2.msg);
                        unsafe {
                            let p = format!("{out}.crash\0");
                            CRASH_PATH[..p.len()].copy_from_slice(p.as_bytes());
                        }
                        let (best, rep) = shrink(f, fl.kind, c2, Duration::from_secs(num("--shrink", 15)));
                        if let Some(f3) = &rep.failure {
                            write_replay(&path, &suite, &best, &rep, f3.kind, &f3.msg);
                        }
                    }
                    _ => write_replay(
                        &path,
                        &suite,
                        &c,
                        &again,
                        fl.kind,
                        &format!("{} (seen once: seed {seed} case {i})", fl.msg),
                    ),
                }
                code = 1;
                break;
            }
            if other_msg.is_empty() {
                other_msg = format!("case {i}: {}: {}", fl.kind, fl.msg.chars().take(300).collect::<String>());
            }
            *others.entry(fl.kind).or_default() += 1;
        }
        if r.nontrivial {
            nontriv += 1;
            sigs.insert(r.sig);
        }
        for l in &r.labels {
            *labels.entry(l).or_default() += 1;
        }
        i += step;
    }
    let mut o = std::fs::File::create(format!("{out}.stat")).unwrap();
    let _ = writeln!(o, "n {n}\nnontrivial {nontriv}");
    for (k, v) in labels {
        let _ = writeln!(o, "label {} {v}", k.replace(' ', "-"));
    }
    for (k, v) in others {
        let _ = writeln!(o, "other {k} {v}");
    }
    if !other_msg.is_empty() {
        let _ = writeln!(o, "othermsg {}", other_msg.replace('\n', " "));
    }
    let bytes: Vec<u8> = sigs.iter().flat_map(|s| s.to_le_bytes()).collect();
    std::fs::write(format!("{out}.sigs"), bytes).unwrap();
    code
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `vh run --plan suite:cases,... --seed S --kinds k1,k2 --jobs 8 --dir D`
/// prints a JSON summary; exit 0 quiet, 1 violation, 2 error.
fn run() -> i32 {
    let plan = arg("--plan").unwrap();
    let seed = num("--seed", 1);
    let kinds = arg("--kinds").unwrap();
    let jobs = num("--jobs", 8);
    let dir = arg("--dir").unwrap();
    let me = std::env::current_exe().unwrap();
    std::fs::create_dir_all(&dir).unwrap();
    let mut js: Vec<String> = Vec::new();
    let mut violation: Option<(String, String)> = None;
    let mut error: Option<String> = None;
    let t0 = Instant::now();
    'plan: for item in plan.split(',') {
        let (suite, cases) = item.split_once(':').unwrap();
        let cases: u64 = cases.parse().unwrap();
        let t1 = Instant::now();
        let mut kids = Vec::new();
        for j in 0..jobs {
            let out = format!("{dir}/{suite}.{j}");
            for e in ["replay", "crash", "stat", "sigs"] {
                let _ = std::fs::remove_file(format!("{out}.{e}"));
            }
            let ch = std::process::Command::new(&me)
                .args(["worker", "--suite", suite])
                .args(["--seed", &seed.to_string()])
                .args(["--start", &j.to_string(), "--step", &jobs.to_string()])
                .args(["--cases", &cases.to_string()])
                .args(["--kinds", &kinds, "--out", &out])
                .spawn()
                .expect("spawn");
            kids.push((out, Some(ch)));
        }
        let mut live = kids.len();
        while live > 0 {
            std::thread::sleep(Duration::from_millis(10));
            for k in 0..kids.len() {
                let st = match &mut kids[k].1 {
                    Some(ch) => ch.try_wait().unwrap(),
                    None => None,
                };
                let Some(st) = st else { continue };
                kids[k].1 = None;
                live -= 1;
                let replay = format!("{}.replay", kids[k].0);
                match st.code() {
                    Some(0) => {}
                    Some(1) => violation = Some((suite.into(), replay)),
                    Some(77) => {
                        if std::path::Path::new(&replay).exists() {
                            let (s, kind, c) = read_replay(&replay);
                            if kind == "crash" {
                                let f = find(&s);
                                let best = if crashes(f, &c) {
                                    shrink_crash(f, c.clone(), Duration::from_secs(15), crashes)
                                } else {
                                    c.clone()
                                };
                                let mut r = Report::default();
                                r.desc = "(no trace: the process dies)".into();
                                write_replay(&replay, &s, &best, &r, "crash", "the process is killed by a signal (invalid memory access or abort)");
                            }
                            if kind == "stuck" {
                                let f = find(&s);
                                if !in_child(f, &c, 20).1 {
                                    error = Some(format!("{suite}: worker stuck, not reproduced"));
                                } else {
                                    let best = shrink_crash(f, c, Duration::from_secs(40), |f, c| in_child(f, c, 2).1);
                                    let mut r = Report::default();
                                    r.desc = "(no trace: the case does not end)".into();
                                    write_replay(&replay, &s, &best, &r, "stuck", "an operation loops for ever without any step another thread could influence");
                                }
                            }
                            if error.is_none() {
                                violation = Some((suite.into(), replay));
                            }
                        } else {
                            error = Some(format!("{suite}: worker died without a replay file"));
                        }
                    }
                    c => error = Some(format!("{suite}: worker ended with {c:?} ({st})")),
                }
                if violation.is_some() || error.is_some() {
                    for (_, ch) in kids.iter_mut() {
                        if let Some(ch) = ch {
                            let _ = ch.kill();
                            let _ = ch.wait();
                        }
                    }
                    break 'plan;
                }
            }
        }
        let (mut n, mut nt) = (0u64, 0u64);
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut others: BTreeMap<String, u64> = BTreeMap::new();
        let mut om = String::new();
        let mut sigs: Vec<u64> = Vec::new();
        for (out, _) in &kids {
            let t = std::fs::read_to_string(format!("{out}.stat")).unwrap_or_default();
            for l in t.lines() {
                let p: Vec<&str> = l.splitn(3, ' ').collect();
                match p[0] {
                    "n" => n += p[1].parse::<u64>().unwrap(),
                    "nontrivial" => nt += p[1].parse::<u64>().unwrap(),
                    "label" => *labels.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                    "other" => *others.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                    "othermsg" => om = l[9..].into(),
                    _ => {}
                }
            }
            let b = std::fs::read(format!("{out}.sigs")).unwrap_or_default();
            sigs.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            for e in ["stat", "sigs"] {
                let _ = std::fs::remove_file(format!("{out}.{e}"));
            }
        }
        sigs.sort_unstable();
        sigs.dedup();
        // samples
        let f = find(suite);
        let mut samples = Vec::new();
        let mut i = 0;
        while samples.len() < 3 && i < cases.min(400) {
            src().start_random(case_seed(seed, suite, i));
            let r = f(true);
            if r.nontrivial && r.failure.is_none() {
                samples.push(r.desc.chars().take(1500).collect::<String>());
            }
            i += 1;
        }
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"suite\":{},\"cases\":{n},\"nontrivial\":{nt},\"distinct\":{},\"secs\":{:.2},\"labels\":{{{}}},\"other_kinds\":{{{}}},\"other_msg\":{},\"samples\":[{}]}}",
            esc(suite),
            sigs.len(),
            t1.elapsed().as_secs_f64(),
            labels.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","),
            others.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","),
            esc(&om),
            samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        );
        js.push(s);
    }
    let v = match &violation {
        Some((s, p)) => format!("{{\"suite\":{},\"replay\":{}}}", esc(s), esc(p)),
        None => "null".into(),
    };
    println!(
        "{{\"secs\":{:.2},\"suites\":[{}],\"violation\":{v},\"error\":{}}}",
        t0.elapsed().as_secs_f64(),
        js.join(","),
        error.as_ref().map(|e| esc(e)).unwrap_or("null".into())
    );
    if error.is_some() {
        2
    } else if violation.is_some() {
        1
    } else {
        0
    }
}

fn replay() -> i32 {
    let path = std::env::args().nth(2).expect("path");
    let (suite, kind, c) = read_replay(&path);
    let f = find(&suite);
    if kind == "crash" {
        let b = crashes(f, &c);
        println!("suite {suite}: {}", if b { "crashes" } else { "does not crash" });
        return b as i32;
    }
    if kind == "stuck" {
        let b = in_child(f, &c, 20).1;
        println!("suite {suite}: {}", if b { "FAILS: does not end" } else { "ends" });
        return b as i32;
    }
    let (r, _) = run_replay(f, &c, true);
    println!("{}", r.desc);
    match r.failure {
        Some(fl) => {
            println!("FAILS: {}: {}", fl.kind, fl.msg);
            1
        }
        None => {
            println!("passes");
            0
        }
    }
}

fn case() -> i32 {
    let suite = arg("--suite").unwrap();
    let f = find(&suite);
    src().start_random(case_seed(num("--seed", 1), &suite, num("--case", 0)));
    let r = f(true);
    println!("{}", r.desc);
    println!("nontrivial={} labels={:?} failure={:?}", r.nontrivial, r.labels, r.failure);
    0
}

pub fn main() -> i32 {
    let _ = engine::PROG;
    match std::env::args().nth(1).as_deref() {
        Some("worker") => worker(),
        Some("run") => run(),
        Some("replay") => replay(),
        Some("case") => case(),
        Some("list") => {
            for s in suites() {
                println!("{}", s.0);
            }
            0
        }
        _ => {
            eprintln!("usage: vh run|replay|case|list");
            2
        }
    }
}
