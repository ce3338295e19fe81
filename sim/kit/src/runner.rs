//! Executes runs in forked children (so that every run starts from the same pristine process state and
//! a crash, abort or hang is an observation, not the end of the check), finds the first failing run,
//! minimises it, writes and verifies the replay file, and writes the evidence.
use crate::ctx::{guard, install_panic_hook, last_panic, Ctx, Viol};
use crate::rng::Rng;
use crate::seams::say;
use crate::trace::{Step, Trace};
use crate::{cov, Prop};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct RunResult {
    pub class: Option<String>,
    pub msg: String,
    pub counts: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub sim_ms: u64,
    pub log: u64,
    pub events: u64,
    pub checks: u64,
    pub nontrivial: u64,
    pub blocks: u64,
    pub sample: Option<String>,
    pub known_hit: BTreeMap<String, u64>,
}
#[derive(Serialize, Deserialize, Default)]
struct Agg {
    runs: u64,
    counts: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    states_capped: bool,
    logs: BTreeSet<u64>,
    nontrivial_logs: BTreeSet<u64>,
    sim_ms: u64,
    events: u64,
    checks: u64,
    blocks: u64,
    blocks_max: u64,
    samples: Vec<String>,
    known_hit: BTreeMap<String, u64>,
    runs_with: BTreeMap<String, u64>,
    fail: Option<(u64, String, String)>,
    timed_out: bool,
}

static mut RESULT_FD: i32 = -1;

/// Ends the run from inside a callback with a violation (hang, deadlock).
pub fn abort_run(class: &str, msg: &str) -> ! {
    unsafe {
        if RESULT_FD < 0 {
            say(&format!("{}: {}\n", class, msg));
            libc::_exit(3);
        }
        let r = RunResult { class: Some(class.into()), msg: msg.into(), ..Default::default() };
        send(RESULT_FD, &serde_json::to_vec(&r).unwrap());
        libc::_exit(0);
    }
}
unsafe fn send(fd: i32, b: &[u8]) {
    let mut off = 0;
    while off < b.len() {
        let r = crate::seams::raw_syscall(libc::SYS_write, [fd as usize, b[off..].as_ptr() as usize, b.len() - off, 0, 0, 0]);
        if r > 0 {
            off += r as usize
        } else if r != -(libc::EINTR as isize) {
            break;
        }
    }
}
fn read_all(fd: i32, timeout: Duration) -> Option<Vec<u8>> {
    let start = Instant::now();
    let mut out = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let left = timeout.checked_sub(start.elapsed()).unwrap_or(Duration::from_secs(0));
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, left.as_millis() as i32) };
        if r == 0 {
            return None;
        }
        if r < 0 {
            continue;
        }
        let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n > 0 {
            out.extend_from_slice(&buf[..n as usize]);
        } else if n == 0 {
            return Some(out);
        }
    }
}
const STUCK: Duration = Duration::from_secs(90);

/// Forks, runs `f` in the child and returns the bytes it sends; Err describes an abnormal end.
pub fn in_child(timeout: Duration, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, (String, String)> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            RESULT_FD = fds[1];
            let b = f();
            send(fds[1], &b);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let got = read_all(fds[0], timeout);
        libc::close(fds[0]);
        let stuck = got.is_none();
        if stuck {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if stuck {
            return Err(("stuck".into(), format!("the run made no progress for {} s", timeout.as_secs())));
        }
        if libc::WIFSIGNALED(st) {
            return Err(("process-killed".into(), format!("the process died of signal {}", libc::WTERMSIG(st))));
        }
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            return Err(("process-exit".into(), format!("the process exited with {}", libc::WEXITSTATUS(st))));
        }
        Ok(got.unwrap())
    }
}
/// Basic blocks after which a long-lived process is not given more histories.
const LONG: u64 = 100_000_000;
/// The steps of a run. Now and then the process lives long and goes through many histories, or many times through one.
fn scenario(p: &Prop, r: &mut Rng, thorough: bool) -> Vec<crate::Step> {
    let mut v = (p.gen)(r, thorough);
    if p.again > 0 && r.chance(1, p.again) {
        let bits = r.range(3, if thorough { 13 } else { 11 });
        // a few of them very long
        let far = if r.chance(1, 8) { 3 } else { 0 };
        let seed = if r.chance(1, 3) { 0 } else { r.next() >> 16 };
        v.push(crate::Step::new("again", &[((1 << bits) + r.below(1 << bits)) << far, far, seed]));
    }
    v
}
/// The body of one run, in the current process.
fn body(p: &Prop, steps: &[Step], verbose: bool, known: &[(String, String)]) -> RunResult {
    let mut c = Ctx::new(verbose);
    c.known = known.to_vec();
    cov::start(p.step_budget);
    let again = steps.iter().find(|s| s.k == "again");
    let times = again.map_or(1, |s| 1 + s.arg(0) % 100_000);
    let enough = (LONG << again.map_or(0, |s| s.arg(1) % 4)).min(p.step_budget / 4);
    if times > 1 {
        // what is not given back runs out
        let l = libc::rlimit { rlim_cur: 64, rlim_max: 64 };
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &l) };
    }
    let r = guard(|| {
        for i in 0..times {
            if i > 0 && cov::steps() > enough {
                break;
            }
            // the same history again, or others and now and then the same again
            let seed = again.map_or(0, |s| s.arg(2));
            if i == 0 || seed == 0 || i % 4 == 3 {
                (p.exec)(steps, &mut c)?;
            } else {
                let other = (p.gen)(&mut Rng::for_run(seed, p.id, i), false);
                (p.exec)(&other, &mut c).map_err(|mut e| {
                    e.msg = format!("{} (history {} of generator {})", e.msg, i, seed);
                    e
                })?;
            }
            if i > 0 {
                c.count("histories_lived_again");
            }
        }
        Ok(())
    });
    let blocks = cov::steps();
    cov::start(u64::MAX);
    crate::seams::set(None);
    let v = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(m) => Some(Viol { class: "unexpected-panic".into(), msg: m }),
    };
    // a violation listed as known ends the run quietly
    let v = match v {
        Some(v) if known.iter().any(|(k, _)| *k == v.class) => {
            *c.known_hit.entry(v.class).or_insert(0) += 1;
            None
        }
        v => v,
    };
    let (class, msg) = match v {
        Some(v) => (Some(v.class), v.msg),
        None => (None, String::new()),
    };
    RunResult {
        class,
        msg,
        counts: c.counts,
        states: c.states.into_iter().collect(),
        sim_ms: c.sim_ms,
        log: c.log,
        events: c.events,
        checks: c.checks,
        nontrivial: c.nontrivial,
        blocks,
        sample: c.sample,
        known_hit: c.known_hit,
    }
}
pub fn exec_isolated(p: &Prop, steps: &[Step], verbose: bool, known: &[(String, String)]) -> RunResult {
    match in_child(STUCK, || serde_json::to_vec(&body(p, steps, verbose, known)).unwrap()) {
        Ok(b) => match serde_json::from_slice(&b) {
            Ok(r) => r,
            Err(_) => RunResult {
                class: Some("process-exit".into()),
                msg: "the process ended without finishing the run".into(),
                ..Default::default()
            },
        },
        Err((class, msg)) => RunResult { class: Some(class), msg, ..Default::default() },
    }
}
struct Opts {
    seed: u64,
    thorough: bool,
    runs: u64,
    from: u64,
    workers: u64,
    cap: Duration,
    root: String,
    known: Vec<(String, String)>,
}
fn worker(p: &Prop, o: &Opts, j: u64, min_fail: &AtomicU64, deadline: Instant) -> Agg {
    let mut a = Agg::default();
    let mut i = o.from + j;
    while i < o.from + o.runs {
        if i > min_fail.load(SeqCst) {
            break;
        }
        if Instant::now() > deadline {
            a.timed_out = true;
            break;
        }
        let mut rng = Rng::for_run(o.seed, p.id, i);
        let steps = scenario(p, &mut rng, o.thorough);
        let r = exec_isolated(p, &steps, false, &o.known);
        a.runs += 1;
        for (k, v) in &r.counts {
            *a.counts.entry(k.clone()).or_insert(0) += v;
            *a.runs_with.entry(k.clone()).or_insert(0) += 1;
        }
        for (k, v) in &r.known_hit {
            *a.known_hit.entry(k.clone()).or_insert(0) += v;
        }
        if a.states.len() < 400_000 {
            a.states.extend(r.states.iter());
        } else {
            a.states_capped = true;
        }
        a.logs.insert(r.log);
        if r.nontrivial > 0 {
            a.nontrivial_logs.insert(r.log);
        }
        a.sim_ms += r.sim_ms;
        a.events += r.events;
        a.checks += r.checks;
        a.blocks += r.blocks;
        a.blocks_max = a.blocks_max.max(r.blocks);
        if a.samples.len() < 2 {
            if let Some(s) = r.sample {
                a.samples.push(format!("run {}: {}", i, s));
            }
        }
        if let Some(c) = r.class {
            a.fail = Some((i, c, r.msg));
            min_fail.fetch_min(i, SeqCst);
            break;
        }
        i += o.workers;
    }
    a
}
fn shared_u64(init: u64) -> &'static AtomicU64 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let a = &*(p as *const AtomicU64);
        a.store(init, SeqCst);
        a
    }
}
/// Delta debugging over steps, then shrinking of arguments and data, same violation class throughout.
fn minimise(p: &Prop, steps: Vec<Step>, class: &str, known: &[(String, String)], budget: Duration) -> (Vec<Step>, u64) {
    let start = Instant::now();
    let mut tries = 0u64;
    let mut cur = steps;
    let mut test = |s: &[Step]| -> bool {
        tries += 1;
        exec_isolated(p, s, false, known).class.as_deref() == Some(class)
    };
    let mut n = 2usize;
    loop {
        let deletable: Vec<usize> = (0..cur.len()).filter(|i| !cur[*i].k.starts_with('!')).collect();
        if deletable.is_empty() || start.elapsed() > budget {
            break;
        }
        n = n.min(deletable.len());
        let size = (deletable.len() + n - 1) / n;
        let mut reduced = false;
        for ch in deletable.chunks(size) {
            let cand: Vec<Step> =
                cur.iter().enumerate().filter(|(i, _)| !ch.contains(i)).map(|(_, s)| s.clone()).collect();
            if test(&cand) {
                cur = cand;
                reduced = true;
                break;
            }
            if start.elapsed() > budget {
                break;
            }
        }
        if reduced {
            n = 2.max(n - 1);
        } else if size == 1 {
            break;
        } else {
            n = (n * 2).min(deletable.len());
        }
    }
    let mut changed = true;
    while changed && start.elapsed() < budget {
        changed = false;
        for i in 0..cur.len() {
            for j in 0..cur[i].a.len() {
                let v = cur[i].a[j];
                for c in [0, v / 2, v.wrapping_sub(1)] {
                    if v == 0 || c >= v || start.elapsed() > budget {
                        continue;
                    }
                    let mut cand = cur.clone();
                    cand[i].a[j] = c;
                    if test(&cand) {
                        cur = cand;
                        changed = true;
                        break;
                    }
                }
            }
            for j in 0..cur[i].d.len() {
                let v = cur[i].d[j].clone();
                let mut cands = vec![];
                if !v.is_empty() {
                    cands.push(vec![]);
                    cands.push(v[..v.len() / 2].to_vec());
                    cands.push(v[..v.len() - 1].to_vec());
                    if v.iter().any(|x| *x != 0) {
                        cands.push(vec![0; v.len()]);
                        let nz = v.iter().position(|x| *x != 0).unwrap();
                        let mut w = v.clone();
                        w[nz] = 0;
                        cands.push(w);
                    }
                }
                for c in cands {
                    if start.elapsed() > budget {
                        break;
                    }
                    let mut cand = cur.clone();
                    cand[i].d[j] = c;
                    if test(&cand) {
                        cur = cand;
                        changed = true;
                        break;
                    }
                }
            }
        }
    }
    (cur, tries)
}
fn known_findings(root: &str, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let l = l.trim();
        if let Some(rest) = l.strip_prefix("known:") {
            let mut it = rest.trim().splitn(3, ' ');
            let (p, c, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={}", id) {
                if let Some(c) = c.strip_prefix("class=") {
                    v.push((c.to_string(), w.to_string()));
                }
            }
        }
    }
    v
}
fn check(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    say(&format!(
        "check {} seed {} tier {} runs {} workers {}\n",
        p.id,
        o.seed,
        if o.thorough { "thorough" } else { "quick" },
        o.runs,
        o.workers
    ));
    for (_, w) in &o.known {
        say(&format!("KNOWN-FINDING: property={} {}\n", p.id, w));
    }
    cov::init_map();
    let min_fail = shared_u64(u64::MAX);
    let deadline = t0 + o.cap;
    let mut kids = vec![];
    for j in 0..o.workers {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                let a = guard(|| worker(p, o, j, min_fail, deadline));
                match a {
                    Ok(a) => {
                        send(fds[1], &serde_json::to_vec(&a).unwrap());
                        libc::_exit(0)
                    }
                    Err(m) => {
                        say(&format!("worker failed: {}\n", m));
                        libc::_exit(9)
                    }
                }
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
    }
    let mut all = Agg::default();
    for (pid, fd) in kids {
        let b = read_all(fd, o.cap + STUCK + Duration::from_secs(120)).unwrap_or_default();
        unsafe {
            libc::close(fd);
            if b.is_empty() {
                libc::kill(pid, libc::SIGKILL);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        let a: Agg = match serde_json::from_slice(&b) {
            Ok(a) => a,
            Err(_) => {
                say("ERROR: a worker of the simulator failed\n");
                return 2;
            }
        };
        all.runs += a.runs;
        for (k, v) in a.counts {
            *all.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in a.runs_with {
            *all.runs_with.entry(k).or_insert(0) += v;
        }
        for (k, v) in a.known_hit {
            *all.known_hit.entry(k).or_insert(0) += v;
        }
        all.states.extend(a.states);
        all.states_capped |= a.states_capped;
        all.logs.extend(a.logs);
        all.nontrivial_logs.extend(a.nontrivial_logs);
        all.sim_ms += a.sim_ms;
        all.events += a.events;
        all.checks += a.checks;
        all.blocks += a.blocks;
        all.blocks_max = all.blocks_max.max(a.blocks_max);
        all.samples.extend(a.samples);
        all.timed_out |= a.timed_out;
        if let Some(f) = a.fail {
            if all.fail.as_ref().map_or(true, |g| f.0 < g.0) {
                all.fail = Some(f);
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let code = match &all.fail {
        None => 0,
        Some((i, c, m)) => report(p, o, *i, c, m),
    };
    if let Err(e) = evidence(p, o, &all, wall, code == 1) {
        say(&format!("ERROR: cannot write the evidence: {}\n", e));
        return 2;
    }
    say(&format!(
        "{}: {} runs, {} checks, {} events, {} distinct states, {} edges of {}, {:.1} s\n",
        p.id,
        all.runs,
        all.checks,
        all.events,
        all.states.len(),
        cov::edges_hit(),
        cov::edges(),
        wall
    ));
    code
}
fn report(p: &Prop, o: &Opts, run: u64, class: &str, msg: &str) -> i32 {
    say(&format!("run {} fails: [{}] {}\n", run, class, msg));
    let mut rng = Rng::for_run(o.seed, p.id, run);
    let steps = scenario(p, &mut rng, o.thorough);
    let mut again = None;
    for _ in 0..3 {
        let r = exec_isolated(p, &steps, false, &o.known);
        if let Some(c) = r.class {
            again = Some((c, r.msg));
            break;
        }
    }
    let (class, msg) = match again {
        Some(x) => x,
        None if class == "stuck" => {
            say("ERROR: the run got stuck once and does not again\n");
            return 2;
        }
        None => (class.to_string(), format!("{} (not reproduced when run again: the code under test is itself nondeterministic)", msg)),
    };
    let budget = if class == "stuck" || class == "hang" { 120 } else { 60 };
    let n0 = steps.len();
    let (min, tries) = minimise(p, steps, &class, &o.known, Duration::from_secs(budget));
    let last = exec_isolated(p, &min, false, &o.known);
    let t = Trace {
        property: p.id.into(),
        seed: o.seed,
        run,
        class: class.clone(),
        message: if last.class.is_some() { last.msg } else { msg },
        steps: min,
    };
    let dir = format!("{}/replays", o.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-s{}-r{}.json", dir, p.id, o.seed, run);
    if std::fs::write(&path, serde_json::to_vec_pretty(&t).unwrap()).is_err() {
        say("ERROR: cannot write the replay file\n");
        return 2;
    }
    say(&format!("minimised {} steps to {} in {} executions\n", n0, t.steps.len(), tries));
    for s in &t.steps {
        let l = serde_json::to_string(s).unwrap();
        let cut = if l.len() > 700 { format!("{}... ({} characters)", &l[..700], l.len()) } else { l };
        say(&format!("  {}\n", cut));
    }
    say(&format!("[{}] {}\n", t.class, t.message));
    // the replay must fail the same way in a fresh process
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).arg("--quiet").output();
    match out {
        Ok(x) if x.status.code() == Some(1) => say("replay in a fresh process: reproduced\n"),
        _ => say("replay in a fresh process: NOT reproduced\n"),
    }
    say(&format!("VIOLATION property={} replay={}\n", p.id, path));
    1
}
fn evidence(p: &Prop, o: &Opts, a: &Agg, wall: f64, violated: bool) -> std::io::Result<()> {
    let faults: BTreeMap<_, _> = a
        .counts
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("fault.").map(|f| (f, serde_json::json!({"fired": v, "runs": a.runs_with[k]}))))
        .collect();
    let probes: BTreeMap<_, _> = a.counts.iter().filter_map(|(k, v)| k.strip_prefix("probe.").map(|f| (f, v))).collect();
    let other: BTreeMap<_, _> =
        a.counts.iter().filter(|(k, _)| !k.starts_with("fault.") && !k.starts_with("probe.")).collect();
    let mut samples = a.samples.clone();
    samples.truncate(4);
    if samples.is_empty() {
        let mut rng = Rng::for_run(o.seed, p.id, o.from);
        let s = scenario(p, &mut rng, o.thorough);
        let mut t = serde_json::to_string(&s).unwrap();
        t.truncate(1500);
        samples.push(format!("run {}: {}", o.from, t));
    }
    let j = serde_json::json!({
        "property": p.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial_logs.len(),
            "rule": p.rule,
            "samples": samples,
            "distinct_event_logs": a.logs.len(),
            "distinct_states": a.states.len(),
            "distinct_states_capped": a.states_capped,
            "checks": a.checks,
            "events": a.events,
            "simulated_ms": a.sim_ms,
            "basic_blocks_executed": a.blocks,
            "longest_run_basic_blocks": a.blocks_max,
            "edges_of_code_under_test": {"hit": cov::edges_hit(), "instrumented": cov::edges()},
            "runs_per_hour": (a.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (a.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "faults_injected": faults,
            "rare_conditions": probes,
            "workload": other,
            "real_components": p.real,
            "stubbed_components": p.stubs,
            "stopped_by_time_cap": a.timed_out,
            "known_findings_hit": a.known_hit,
            "workers": o.workers,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": if violated { 1 } else { 0 },
    });
    let dir = format!("{}/evidence", o.root);
    std::fs::create_dir_all(&dir)?;
    std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_vec_pretty(&j).unwrap())
}
fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|v| v.parse().ok())
}
pub fn main(props: &[Prop], selftest: fn() -> Result<(), String>) -> i32 {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let flag = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let root = flag("--root").unwrap_or_else(|| std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let cmd = args.get(1).map(|s| &s[..]).unwrap_or("");
    match cmd {
        "list" => {
            for p in props {
                say(&format!("{}\n", p.id));
            }
            0
        }
        "selftest" => match guard(selftest) {
            Ok(Ok(())) => {
                say("selftest ok\n");
                0
            }
            Ok(Err(e)) | Err(e) => {
                say(&format!("selftest failed: {}\n", e));
                2
            }
        },
        "check" | "logs" => {
            let p = match args.get(2).and_then(|i| find(i)) {
                Some(p) => p,
                None => {
                    say("ERROR: no such property\n");
                    return 2;
                }
            };
            if let Err(e) = guard(selftest).unwrap_or_else(Err) {
                say(&format!("ERROR: reference models are wrong: {}\n", e));
                return 2;
            }
            let tier = flag("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default();
            let thorough = tier == "thorough";
            let num = |n: &str| flag(n).and_then(|v| v.parse().ok());
            let o = Opts {
                seed: num("--seed").or(env_u64("VERIF_SEED")).unwrap_or(1),
                thorough,
                runs: num("--runs").unwrap_or(if thorough { p.thorough_runs } else { p.quick_runs }),
                from: num("--from").unwrap_or(0),
                workers: num("--workers").unwrap_or(8),
                cap: Duration::from_secs(num("--cap").unwrap_or(if thorough { 560 } else { 240 })),
                known: known_findings(&root, p.id),
                root,
            };
            if cmd == "check" {
                return check(p, &o);
            }
            cov::init_map();
            for i in o.from..o.from + o.runs {
                let mut rng = Rng::for_run(o.seed, p.id, i);
                let steps = scenario(p, &mut rng, o.thorough);
                let r = exec_isolated(p, &steps, false, &o.known);
                say(&format!(
                    "{} {} log {:016x} events {} checks {} blocks {} states {} {:?}\n",
                    p.id, i, r.log, r.events, r.checks, r.blocks, r.states.len(), r.class
                ));
            }
            0
        }
        "gen" => {
            let p = find(&args[2]).unwrap();
            let mut rng = Rng::for_run(env_u64("VERIF_SEED").unwrap_or(1), p.id, args[3].parse().unwrap());
            for s in (p.gen)(&mut rng, false) {
                say(&format!("{}\n", serde_json::to_string(&s).unwrap()));
            }
            0
        }
        "replay" => {
            let text = match args.get(2).and_then(|f| std::fs::read(f).ok()) {
                Some(t) => t,
                None => {
                    say("ERROR: cannot read the replay file\n");
                    return 2;
                }
            };
            let t: Trace = match serde_json::from_slice(&text) {
                Ok(t) => t,
                Err(e) => {
                    say(&format!("ERROR: bad replay file: {}\n", e));
                    return 2;
                }
            };
            let p = match find(&t.property) {
                Some(p) => p,
                None => return 2,
            };
            let quiet = args.iter().any(|a| a == "--quiet");
            cov::init_map();
            let r = exec_isolated(p, &t.steps, !quiet, &known_findings(&root, p.id));
            match r.class {
                Some(c) if c == t.class => {
                    say(&format!("[{}] {}\nVIOLATION property={} replay={}\n", c, r.msg, p.id, args[2]));
                    1
                }
                Some(c) => {
                    say(&format!("fails differently: [{}] {}\n", c, r.msg));
                    3
                }
                None => {
                    say("no violation\n");
                    0
                }
            }
        }
        _ => {
            say("usage: sim check ID [--seed N --runs N --tier T] | replay FILE | logs ID | gen ID RUN | selftest | list\n");
            let _ = last_panic();
            2
        }
    }
}
