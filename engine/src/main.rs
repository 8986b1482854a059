mod exec;
mod ir;
mod term;
mod z3;
use exec::{Cfg, Eng};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

/// engine FILE.ll ENTRY [--out F] [--steps N] [--seconds S] [--paths N] [--enum N] [--z3ms N]
/// exit: 0 all paths explored, no violation; 1 violation; 2 not everything explored; 3 failure
fn real() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    let cfg = Cfg {
        steps: opt("--steps", "30000000").parse().unwrap(),
        seconds: opt("--seconds", "600").parse().unwrap(),
        paths: opt("--paths", "100000000").parse().unwrap(),
        enum_limit: opt("--enum", "600").parse().unwrap(),
        trace: false,
        shard: {
            let s = opt("--shard", "0/1");
            let (a, b) = s.split_once('/').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        },
        thorough: opt("--tier", "quick") == "thorough",
        samples: opt("--samples", "0").parse().unwrap(),
    };
    let t0 = std::time::Instant::now();
    let text = std::fs::read(&a[1]).unwrap();
    let m = ir::parse(&text);
    let t1 = t0.elapsed().as_secs_f64();
    let mut e = Eng::new(m, cfg, opt("--z3ms", "60000").parse().unwrap());
    if let Err(x) = e.run(&a[2]) {
        eprintln!("engine: {}", x);
        return 3;
    }
    let wall = t0.elapsed().as_secs_f64();
    let status = if !e.viol.is_empty() {
        "violation"
    } else if !e.gave_up.is_empty() {
        "incomplete"
    } else {
        "holds"
    };
    let names = e.seen_names();
    let brom: Vec<String> = names.iter().filter(|n| n.contains("bromine")).cloned().collect();
    let mut o = String::new();
    o += &format!("{{\"status\":{},\"entry\":{},\n", js(status), js(&a[2]));
    o += &format!(
        " \"paths\":{},\"assumed_away\":{},\"unexplored\":{},\"instructions\":{},\"forks\":{},\"max_depth\":{},\"max_steps\":{},\"max_symbolic_bytes\":{},\n",
        e.paths, e.assumed_away, e.left, e.instrs, e.forks, e.max_depth, e.max_steps, e.max_inputs
    );
    o += &format!(
        " \"checks\":{},\"checks_symbolic\":{},\"queries\":{},\"queries_cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"slowest_query_s\":{:.3},\"terms\":{},\n",
        e.checks, e.checks_sym, e.z.queries, e.z.cached, e.z.sat, e.z.unsat, e.z.unknown, e.z.time, e.z.slowest, e.ts.len()
    );
    o += &format!(" \"parse_s\":{:.2},\"wall_s\":{:.2},\"functions\":{},\n", t1, wall, names.len());
    o += &format!(" \"reach\":{{{}}},\n", e.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o += &format!(" \"gave_up\":{{{}}},\n", e.gave_up.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o += &format!(" \"bromine_functions\":{},\n", list(&brom));
    let hex = |l: &Vec<Vec<u8>>| list(&l.iter().map(|g| g.iter().map(|b| format!("{:02x}", b)).collect::<String>()).collect::<Vec<_>>());
    o += &format!(" \"samples\":[{}],\n", e.samples.iter().map(|x| hex(x)).collect::<Vec<_>>().join(","));
    let mut vs = Vec::new();
    for v in &e.viol {
        vs.push(format!(
            "{{\"kind\":{},\"msg\":{},\"at\":{},\"notes\":{},\"inputs\":{}}}",
            js(&v.kind),
            js(&v.msg),
            list(&v.at),
            list(&v.notes),
            list(&v.inputs.iter().map(|g| g.iter().map(|b| format!("{:02x}", b)).collect::<String>()).collect::<Vec<_>>())
        ));
    }
    o += &format!(" \"violations\":[{}]}}\n", vs.join(","));
    let f = opt("--out", "");
    if f.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&f, o).unwrap();
    }
    match status {
        "holds" => 0,
        "violation" => 1,
        _ => 2,
    }
}
