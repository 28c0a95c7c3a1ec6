//! symx: symbolic execution of whole-program LLVM IR (rustc, fat LTO) with Z3.
mod exec;
mod expr;
mod ir;
mod solver;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn nums(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn main() {
    // deep recursion in expression evaluation needs a large stack
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let rc = h.join().unwrap_or(3);
    std::process::exit(rc);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: f64| get(k).map(|v| v.parse::<f64>().expect("number")).unwrap_or(d);
    let ll = a[0].clone();
    let entry = a[1].clone();
    let t0 = std::time::Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    let load_s = t0.elapsed().as_secs_f64();
    let mut s = solver::Solver::new(num("--query-ms", 20000.0) as u32);
    if let Some(d) = get("--dump") {
        s.dump_dir = Some(d);
        s.dump_left = num("--dump-n", 20.0) as u32;
    }
    let shard = get("--shard").map(|s| {
        let (x, y) = s.split_once('/').unwrap();
        (x.parse().unwrap(), y.parse().unwrap())
    });
    let lim = exec::Limits {
        time: num("--time", 600.0),
        steps: num("--steps", 30e6) as u64,
        depth: num("--depth", 4000.0) as usize,
        max_viol: num("--max-viol", 12.0) as usize,
        shard: shard.unwrap_or((0, 1)),
        samples: num("--samples", 20.0) as usize,
        max_paths: num("--max-paths", 1e12) as u64,
        max_mem_mb: num("--mem-mb", 6000.0) as u64,
        utf8: !a.iter().any(|x| x == "--no-utf8-summary"),
    };
    let mut x = exec::Exec::new(m, s, lim);
    x.run(&entry);
    let st = x.solver.stats.clone();
    let mut o = String::new();
    o.push_str("{\n");
    let kv = |k: &str, v: String| format!(" \"{k}\": {v},\n");
    o.push_str(&kv("entry", format!("\"{}\"", esc(&entry))));
    o.push_str(&kv("load_s", format!("{load_s:.3}")));
    o.push_str(&kv("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64())));
    o.push_str(&kv("paths", x.paths.to_string()));
    o.push_str(&kv("pruned", x.pruned.to_string()));
    o.push_str(&kv("unknown", x.unknown.to_string()));
    o.push_str(&kv("steps", x.steps.to_string()));
    o.push_str(&kv("max_path_steps", x.max_steps().to_string()));
    o.push_str(&kv("forks", x.forks.to_string()));
    o.push_str(&kv("branches", x.branches.to_string()));
    o.push_str(&kv("z3_queries", st.z3_queries.to_string()));
    o.push_str(&kv("z3_sat", st.z3_sat.to_string()));
    o.push_str(&kv("z3_unsat", st.z3_unsat.to_string()));
    o.push_str(&kv("z3_time_s", format!("{:.3}", st.z3_time)));
    o.push_str(&kv("max_query_s", format!("{:.3}", st.max_query_s)));
    o.push_str(&kv("cache_hits", st.cache_hits.to_string()));
    o.push_str(&kv("model_hits", st.model_hits.to_string()));
    o.push_str(&kv("domain_decided", st.dom_decided.to_string()));
    o.push_str(&kv("domain_confirmed_by_z3", st.dom_confirmed.to_string()));
    o.push_str(&kv("exprs", expr::interner_size().to_string()));
    o.push_str(&kv("rss_mb", exec::rss_mb().to_string()));
    o.push_str(&kv("incomplete", x.incomplete.as_ref().map(|s| format!("\"{}\"", esc(s))).unwrap_or("null".into())));
    o.push_str(&kv(
        "unsupported",
        format!("{{{}}}", x.unsup.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", ")),
    ));
    o.push_str(&kv(
        "checks",
        format!("{{{}}}", x.checks.iter().map(|(k, v)| format!("\"{}\": [{}, {}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(", ")),
    ));
    o.push_str(&kv("reach", format!("{{{}}}", x.reach.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", "))));
    let mut fns: Vec<String> = x.funcs.iter().map(|f| exec::demangle(&m.funcs[*f as usize].name)).collect();
    fns.sort();
    fns.dedup();
    o.push_str(&kv("functions", format!("[{}]", fns.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(", "))));
    o.push_str(&kv(
        "samples",
        format!(
            "[{}]",
            x.samples
                .iter()
                .map(|s| format!("{{\"choices\": [{}], \"bytes\": \"{}\", \"digest\": \"{:016x}\"}}", nums(&s.choices), hex(&s.bytes), s.digest))
                .collect::<Vec<_>>()
                .join(",\n  ")
        ),
    ));
    o.push_str(&format!(
        " \"violations\": [{}]\n}}\n",
        x.viols
            .iter()
            .map(|v| format!(
                "{{\"kind\": \"{}\", \"id\": \"{}\", \"choices\": [{}], \"bytes\": \"{}\", \"stack\": [{}]}}",
                esc(&v.kind),
                esc(&v.id),
                nums(&v.choices),
                hex(&v.bytes),
                v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ")
            ))
            .collect::<Vec<_>>()
            .join(",\n  ")
    ));
    match get("--out") {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{o}"),
    }
    0
}
