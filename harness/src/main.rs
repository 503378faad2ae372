#![allow(dead_code)]

mod alloc;
mod bits;
mod core;
mod craft;
mod drive;
mod gen;
mod model;
mod p_decode;
mod p_io;
mod p_far;
mod p_lazy;
mod p_mem;
mod p_meta;
mod p_robust;
mod p_views;
mod rng;
mod src;
mod stats;
mod watch;

use crate::core::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn props() -> Vec<fn() -> Prop> {
    vec![
        p_decode::c01,
        p_robust::c02,
        p_decode::c03,
        p_decode::c04,
        p_decode::c05,
        p_io::c06,
        p_io::c07,
        p_mem::c08,
        p_meta::c09,
        p_meta::c10,
        p_meta::c11,
        p_meta::c12,
        p_mem::c13,
        p_views::c14,
        p_views::c15,
        p_io::c16,
        p_io::c17,
        p_robust::c18,
        p_views::c19,
        p_robust::c20,
        p_lazy::c21,
        p_lazy::c22,
    ]
}

fn find(id: &str) -> Prop {
    for p in props() {
        let p = p();
        if p.id == id {
            return p;
        }
    }
    eprintln!("no property {}", id);
    std::process::exit(2)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    pos: Vec<String>,
    opt: BTreeMap<String, String>,
}

fn args() -> Args {
    let mut pos = Vec::new();
    let mut opt = BTreeMap::new();
    let mut it = std::env::args().skip(1).peekable();
    while let Some(a) = it.next() {
        if let Some(n) = a.strip_prefix("--") {
            let v = match it.peek() {
                Some(v) if !v.starts_with("--") => it.next().unwrap(),
                _ => "1".to_string(),
            };
            opt.insert(n.to_string(), v);
        } else {
            pos.push(a);
        }
    }
    Args { pos, opt }
}

impl Args {
    fn num<T: std::str::FromStr>(&self, n: &str, d: T) -> T {
        self.opt.get(n).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn main() {
    install_hook();
    let a = args();
    let cmd = a.pos.first().map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for p in props() {
                let p = p();
                println!("{}", p.id);
                for s in &p.stages {
                    println!("  {} quick {} thorough {}", s.name, s.quick, s.thorough);
                }
            }
        }
        "run" => run_cmd(&a),
        "replay" => replay_cmd(&a),
        "fresh" => {
            watch::start(Vec::new(), true);
            if let Err(Bad(m)) = p_views::fresh(a.pos[1].parse().unwrap()) {
                println!("{}", m);
                std::process::exit(3)
            }
        }
        _ => {
            eprintln!("usage: vh run PROP [--tier quick|thorough] [--seed N] [--variant V] [--scale X] [--threads N] [--cap S] [--only a,b] [--out FILE]\n       vh replay PROP STAGE IDX [--seed N] [--tier T]\n       vh list");
            std::process::exit(2)
        }
    }
}

fn replay_cmd(a: &Args) {
    let prop = find(&a.pos[1]);
    let st = match prop.stages.iter().position(|s| s.name == a.pos[2]) {
        Some(s) => s,
        None => {
            eprintln!("no stage {}", a.pos[2]);
            std::process::exit(2)
        }
    };
    let idx: u64 = a.pos[3].parse().unwrap();
    let seed = a.num("seed", 1u64);
    watch::start(prop.stages.iter().map(|s| s.name).collect(), !a.opt.contains_key("nolimit"));
    let n = a.num("times", 1u64);
    for _ in 0..n {
        let mut cx = Ctx {
            rng: case_rng(seed, prop.id, prop.stages[st].name, idx),
            stats: Default::default(),
            thorough: a.opt.get("tier").map(|t| t == "thorough").unwrap_or(false),
            idx,
            want_sample: true,
            verbose: true,
        };
        WORKER.with(|c| c.set(0));
        watch::register(0);
        CUR_IDX[0].store(idx, std::sync::atomic::Ordering::Relaxed);
        CUR_STAGE[0].store(st as u64, std::sync::atomic::Ordering::Relaxed);
        watch::begin(0);
        match (prop.stages[st].f)(&mut cx) {
            Ok(()) => println!("replay: held"),
            Err(Bad(m)) => {
                println!("replay: violated: {}", m);
                std::process::exit(1)
            }
        }
    }
}

fn run_cmd(a: &Args) {
    let prop = find(&a.pos[1]);
    let thorough = a.opt.get("tier").map(|t| t == "thorough").unwrap_or(false);
    let variant = a.opt.get("variant").cloned().unwrap_or_else(|| "checked".into());
    let cfg = RunCfg {
        seed: a.num("seed", 1u64),
        thorough,
        variant: variant.clone(),
        scale: a.num("scale", 1.0f64),
        threads: a.num("threads", 8usize),
        cap: Duration::from_secs_f64(a.num("cap", 100_000.0f64)),
        only: a
            .opt
            .get("only")
            .map(|s| s.split(',').map(|x| x.to_string()).collect())
            .unwrap_or_default(),
        verbose: false,
        trace: a.opt.contains_key("trace"),
        stage_cap: Duration::from_secs_f64(a.num("stage-cap", 100_000.0f64)),
    };
    watch::start(prop.stages.iter().map(|s| s.name).collect(), !a.opt.contains_key("nolimit"));
    let t0 = Instant::now();
    let r = run(&prop, &cfg);
    let wall = t0.elapsed().as_secs_f64();
    let mut missing = Vec::new();
    if cfg.only.is_empty() && cfg.scale >= 1.0 && r.capped.is_empty() && r.violation.is_none() {
        for &(f, n) in &prop.required {
            let got = r.stats.hist.distinct(f);
            if got < n {
                missing.push(format!("{}: {} of {}", f, got, n));
            }
        }
    }
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"property\": {},\n \"variant\": {},\n", js(prop.id), js(&variant)));
    o.push_str(&format!(" \"rule\": {},\n", js(prop.rule)));
    o.push_str(&format!(" \"evaluations\": {},\n", r.stats.evals));
    o.push_str(&format!(" \"distinct\": {},\n", r.stats.distinct.len()));
    o.push_str(&format!(" \"wall_s\": {:.3},\n", wall));
    let stages: Vec<String> = r
        .stage_counts
        .iter()
        .map(|(n, c, s)| format!("{{\"stage\": {}, \"cases\": {}, \"wall_s\": {:.3}}}", js(n), c, s))
        .collect();
    o.push_str(&format!(" \"stages\": [{}],\n", stages.join(", ")));
    let capped: Vec<String> =
        r.capped.iter().map(|(n, c, t)| js(&format!("{}: {} of {} cases", n, c, t))).collect();
    o.push_str(&format!(" \"capped\": [{}],\n", capped.join(", ")));
    let mut samples = r.stats.samples.clone();
    samples.truncate(12);
    let samples: Vec<String> = samples
        .iter()
        .map(|s| {
            let s: String = s.chars().take(600).collect();
            js(&s)
        })
        .collect();
    o.push_str(&format!(" \"samples\": [{}],\n", samples.join(",\n  ")));
    let mut hist = Vec::new();
    for (n, m) in r.stats.hist.sorted() {
        let total: u64 = m.values().sum();
        let vals: Vec<String> = if m.len() <= 72 {
            m.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect()
        } else {
            Vec::new()
        };
        hist.push(format!(
            "{}: {{\"total\": {}, \"distinct\": {}, \"values\": {{{}}}}}",
            js(n),
            total,
            m.len(),
            vals.join(", ")
        ));
    }
    o.push_str(&format!(" \"observed\": {{{}}},\n", hist.join(",\n  ")));
    let miss: Vec<String> = missing.iter().map(|m| js(m)).collect();
    o.push_str(&format!(" \"missing\": [{}],\n", miss.join(", ")));
    o.push_str(&format!(
        " \"harness_error\": {},\n",
        r.harness_error.as_ref().map(|e| js(e)).unwrap_or("null".into())
    ));
    o.push_str(&format!(
        " \"violation\": {}\n}}\n",
        r.violation
            .as_ref()
            .map(|v| format!("{{\"stage\": {}, \"idx\": {}, \"msg\": {}}}", js(v.stage), v.idx, js(&v.msg)))
            .unwrap_or("null".into())
    ));
    match a.opt.get("out") {
        Some(f) => std::fs::write(f, &o).unwrap(),
        None => print!("{}", o),
    }
    if let Some(v) = &r.violation {
        println!("violated: stage={} idx={} {}", v.stage, v.idx, v.msg);
        std::process::exit(1);
    }
    if let Some(e) = &r.harness_error {
        println!("harness error: {}", e);
        std::process::exit(2);
    }
    if !missing.is_empty() {
        println!("inconclusive, the run did not observe enough: {}", missing.join("; "));
        std::process::exit(2);
    }
}
