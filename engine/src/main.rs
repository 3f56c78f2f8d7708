//! sx: symbolic execution of a linked LLVM module.
//!   sx <module.ll> <cases> <out.json> [--threads N] [--deadline S] [--stop-after N] [--steps N] [--slow-ms N]
//! cases: lines "case <label> <function> <p0> <p1> ..."
mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Case {
    label: String,
    func: usize,
    fname: String,
    params: Vec<u64>,
}

#[derive(Default)]
struct CaseRes {
    stats: Stats,
    violations: Vec<Violation>,
    samples: Vec<Vec<u64>>,
    errors: Vec<String>,
    secs: f64,
    reach: u64,
    wall: f64,
}

struct Shared {
    queue: VecDeque<(usize, Vec<u32>)>,
    idle: usize,
    done: bool,
    res: Vec<CaseRes>,
    total_viol: usize,
    first_viol: Option<Instant>,
    cut: bool,
}
impl Shared {
    fn violated(&mut self, n: usize, stop_after: usize, grace: Duration) -> bool {
        self.total_viol += n;
        if self.total_viol > 0 {
            let t = *self.first_viol.get_or_insert_with(Instant::now);
            if self.total_viol >= stop_after || t.elapsed() > grace {
                self.done = true;
                self.cut = true;
            }
        }
        self.done
    }
}

#[derive(Default)]
struct Solver {
    queries: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    time: f64,
    max: f64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut deadline = 600.0f64;
    let mut stop_after = 40usize;
    let mut steps = 60_000_000u64;
    let mut slow_ms = 25_000u32;
    let mut grace = 45.0f64;
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--threads" => threads = args[i + 1].parse().unwrap(),
            "--deadline" => deadline = args[i + 1].parse().unwrap(),
            "--stop-after" => stop_after = args[i + 1].parse().unwrap(),
            "--steps" => steps = args[i + 1].parse().unwrap(),
            "--grace" => grace = args[i + 1].parse().unwrap(),
            "--slow-ms" => slow_ms = args[i + 1].parse().unwrap(),
            _ => {
                pos.push(args[i].clone());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    if pos.len() < 3 {
        eprintln!("usage: sx module.ll cases out.json");
        std::process::exit(2);
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&pos[0]).expect("module");
    let prog = Arc::new(load(&text));
    drop(text);
    let mut cases = vec![];
    for l in std::fs::read_to_string(&pos[1]).expect("cases").lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0] != "case" {
            continue;
        }
        let func = *prog.m.fidx.get(w[2]).unwrap_or_else(|| {
            eprintln!("no entry {}", w[2]);
            std::process::exit(2)
        });
        cases.push(Case {
            label: w[1].into(),
            func,
            fname: w[2].into(),
            params: w[3..]
                .iter()
                .map(|x| if let Some(h) = x.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { x.parse().unwrap() })
                .collect(),
        });
    }
    let load_s = t0.elapsed().as_secs_f64();
    let cases = Arc::new(cases);
    let shared = Arc::new((
        Mutex::new(Shared {
            queue: (0..cases.len()).map(|i| (i, vec![])).collect(),
            idle: 0,
            done: cases.is_empty(),
            res: (0..cases.len()).map(|_| CaseRes::default()).collect(),
            total_viol: 0,
            first_viol: None,
            cut: false,
        }),
        Condvar::new(),
    ));
    let end = t0 + Duration::from_secs_f64(deadline);
    // once something is wrong, the rest of the search only adds detail
    let grace = Duration::from_secs_f64(grace);
    let nfuncs = prog.m.funcs.len();
    let mut hs = vec![];
    for _ in 0..threads {
        let (prog, cases, shared) = (prog.clone(), cases.clone(), shared.clone());
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let mut hit = vec![false; nfuncs];
                let mut sol = Solver::default();
                let mut cur: Option<Exec> = None;
                let retire = |x: Exec, hit: &mut Vec<bool>, sol: &mut Solver| {
                    for (i, b) in x.funcs_hit.iter().enumerate() {
                        hit[i] |= *b;
                    }
                    sol.queries += x.z.queries;
                    sol.sat += x.z.sat;
                    sol.unsat += x.z.unsat;
                    sol.unknown += x.z.unknown;
                    sol.time += x.z.time.as_secs_f64();
                    sol.max = sol.max.max(x.z.max_time.as_secs_f64());
                };
                loop {
                    let job = {
                        let (m, cv) = &*shared;
                        let mut g = m.lock().unwrap();
                        loop {
                            if g.done {
                                break None;
                            }
                            if let Some(j) = g.queue.pop_front() {
                                break Some(j);
                            }
                            g.idle += 1;
                            if g.idle == threads {
                                g.done = true;
                                cv.notify_all();
                                break None;
                            }
                            g = cv.wait(g).unwrap();
                            if !g.done {
                                g.idle -= 1;
                            }
                        }
                    };
                    let (ci, prefix) = match job {
                        None => break,
                        Some(j) => j,
                    };
                    let c = &cases[ci];
                    if cur.as_ref().map(|x| x.a.nodes.len() > 3_000_000).unwrap_or(false) {
                        retire(cur.take().unwrap(), &mut hit, &mut sol);
                    }
                    if cur.is_none() {
                        let mut x = Exec::new(prog.clone());
                        x.step_limit = steps;
                        x.z.slow_ms = slow_ms;
                        cur = Some(x);
                    }
                    let x = cur.as_mut().unwrap();
                    let jt = Instant::now();
                    x.params = c.params.clone();
                    x.stats = Stats::default();
                    x.seen_fail.clear();
                    let st = x.initial(c.func, vec![], prefix);
                    x.pending.push(st);
                    while let Some(s) = x.pending.pop() {
                        x.run(s);
                        if !x.errors.is_empty() {
                            x.pending.clear();
                            break;
                        }
                        if Instant::now() > end {
                            if !x.pending.is_empty() {
                                x.errors.push("deadline".into());
                                    x.pending.clear();
                            }
                            break;
                        }
                        let (m, cv) = &*shared;
                        let mut g = m.lock().unwrap();
                        let nv = x.violations.len();
                        g.res[ci].violations.append(&mut x.violations);
                        if g.violated(nv, stop_after, grace) {
                            cv.notify_all();
                        }
                        if g.done {
                            if !x.pending.is_empty() {
                                g.cut = true;
                            }
                            x.pending.clear();
                            break;
                        }
                        if g.idle > 0 && g.queue.len() < g.idle && !x.pending.is_empty() {
                            let k = ((x.pending.len() + 1) / 2).min(g.idle);
                            for s in x.pending.drain(..k) {
                                g.queue.push_back((ci, s.log.clone()));
                            }
                            cv.notify_all();
                        }
                    }
                    let (m, cv) = &*shared;
                    let mut g = m.lock().unwrap();
                    let r = &mut g.res[ci];
                    for v in x.samples.drain(..) {
                        if r.samples.len() < 6 {
                            r.samples.push(v);
                        }
                    }
                    let s = &x.stats;
                    r.stats.paths += s.paths;
                    r.stats.killed += s.killed;
                    r.stats.asserts += s.asserts;
                    r.stats.asserts_folded += s.asserts_folded;
                    r.stats.asserts_solver += s.asserts_solver;
                    r.stats.forks += s.forks;
                    r.stats.steps += s.steps;
                    r.stats.unary += s.unary;
                    r.stats.outside += s.outside;
                    r.stats.unary_checked += s.unary_checked;
                    r.stats.canon += s.canon;
                    r.stats.summaries += s.summaries;
                    r.stats.max_inputs = r.stats.max_inputs.max(s.max_inputs);
                    r.stats.longest_path = r.stats.longest_path.max(s.longest_path);
                    r.reach |= s.reach;
                    r.secs += jt.elapsed().as_secs_f64();
                    r.wall = t0.elapsed().as_secs_f64();
                    let nv = x.violations.len();
                    r.violations.append(&mut x.violations);
                    r.errors.append(&mut x.errors);
                    if g.violated(nv, stop_after, grace) {
                        cv.notify_all();
                    }
                    if Instant::now() > end && !g.queue.is_empty() {
                        let left: Vec<usize> = g.queue.drain(..).map(|q| q.0).collect();
                        for ci in left {
                            g.res[ci].errors.push("deadline".into());
                        }
                        g.done = true;
                        g.cut = true;
                        cv.notify_all();
                    }
                }
                if let Some(x) = cur.take() {
                    retire(x, &mut hit, &mut sol);
                }
                (hit, sol)
            })
            .unwrap();
        hs.push(h);
    }
    let mut hit = vec![false; nfuncs];
    let mut sol = Solver::default();
    let mut crashed = false;
    for h in hs {
        match h.join() {
            Ok((h, s)) => {
                for (i, b) in h.iter().enumerate() {
                    hit[i] |= *b;
                }
                sol.queries += s.queries;
                sol.sat += s.sat;
                sol.unsat += s.unsat;
                sol.unknown += s.unknown;
                sol.time += s.time;
                sol.max = sol.max.max(s.max);
            }
            Err(_) => {
                crashed = true;
            }
        }
    }
    let g = shared.0.lock().unwrap();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"z3\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"threads\":{},\"crashed\":{},\"cut\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"cases\":[",
        js(&z3::version()),
        load_s,
        t0.elapsed().as_secs_f64(),
        threads,
        crashed,
        g.cut,
        sol.queries,
        sol.sat,
        sol.unsat,
        sol.unknown,
        sol.time,
        sol.max
    );
    for (i, c) in cases.iter().enumerate() {
        let r = &g.res[i];
        let s = &r.stats;
        if i > 0 {
            o.push(',');
        }
        let _ = write!(
            o,
            "\n{{\"label\":{},\"func\":{},\"params\":{:?},\"paths\":{},\"killed\":{},\"asserts\":{},\"asserts_folded\":{},\"asserts_solver\":{},\"forks\":{},\"steps\":{},\"outside\":{},\"unary\":{},\"unary_checked\":{},\"linear\":{},\"summaries\":{},\"max_inputs\":{},\"longest_path\":{},\"reach\":{},\"secs\":{:.2},\"wall\":{:.2},\"errors\":[",
            js(&c.label), js(&c.fname), c.params, s.paths, s.killed, s.asserts, s.asserts_folded, s.asserts_solver, s.forks, s.steps, s.outside, s.unary, s.unary_checked, s.canon, s.summaries, s.max_inputs, s.longest_path, r.reach, r.secs, r.wall
        );
        for (k, e) in r.errors.iter().take(5).enumerate() {
            if k > 0 {
                o.push(',');
            }
            o.push_str(&js(e));
        }
        o.push_str("],\"violations\":[");
        for (k, v) in r.violations.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"kind\":{},\"id\":{},\"msg\":{},\"vals\":{:?},\"stack\":[{}]}}", js(&v.kind), v.id, js(&v.msg), v.vals, v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        }
        let _ = write!(o, "],\"samples\":{:?}}}", r.samples);
    }
    o.push_str("\n],\"functions\":[");
    let mut first = true;
    for (i, h) in hit.iter().enumerate() {
        if *h {
            if !first {
                o.push(',');
            }
            first = false;
            let f = &prog.m.funcs[i];
            let _ = write!(o, "[{},{}]", js(&f.name), f.lines);
        }
    }
    o.push_str("]}\n");
    std::fs::write(&pos[2], o).unwrap();
}
