mod dict;
mod gen;
mod geod;
mod p_geod;
mod p_crs;
mod p_math;
mod p_pure;
mod p_tool;
mod p_ub;
mod p_ell;
mod p_geom;
mod mon;
mod p_angle;
mod p_axes;
mod p_proj;
mod cplx;
mod p_conv;
mod refs;
mod rng;
mod vec3;

use mon::{Opts, Property};

fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(p_conv::props());
    v.extend(p_geod::props());
    v.extend(p_crs::props());
    v.extend(p_math::props());
    v.extend(p_pure::props());
    v.extend(p_ell::props());
    v.extend(p_tool::props());
    v.extend(p_ub::props());
    v.extend(p_geom::props());
    v.extend(p_proj::props());
    v.extend(p_axes::props());
    v.extend(p_angle::props());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    mon::install_panic_hook();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let seed = env("VERIF_SEED", "1").trim().parse::<u64>().unwrap_or(1);
    let thorough = env("VERIF_TIER", "quick") == "thorough";
    let o = Opts {
        seed,
        thorough,
        verif: env("VERIF_DIR", "/verif"),
        scale: env("GK_SCALE", "1").parse().unwrap_or(1.0),
        only: std::env::var("GK_ONLY").ok(),
        plain: std::env::var("GK_PLAIN").is_ok(),
        threads: env("GK_THREADS", "0")
            .parse::<usize>()
            .ok()
            .filter(|n| *n > 0)
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
    };
    dict::load();
    let props = all();
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        // the numbers and texts of the sources, for baseline_literals.txt
        Some("literals") => {
            dict::print();
            0
        }
        // validation of the geodesic reference on the GeographicLib test set (from stdin)
        Some("c30child") => p_pure::child(args[1].parse().unwrap(), args[2].parse().unwrap()),
        // soak <executions per stream> <seed> <threads> <only these streams, or -> <part> <parts>
        Some("soak") => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            mon::soak(&props, n(1), n(2), n(3) as usize, &args[4], n(5) as usize, n(6) as usize)
        }
        Some("geodtest") => geod::selftest(),
        Some(id) => match props.iter().find(|p| p.id == id) {
            None => {
                eprintln!("unknown property {id}");
                2
            }
            Some(p) => match (args.get(1).map(|s| s.as_str()), args.get(2), args.get(3)) {
                (Some("replay"), Some(s), Some(i)) => mon::replay(p, s, i.parse().unwrap(), &o),
                _ => mon::run(p, &o),
            },
        },
        None => {
            eprintln!("usage: gkmon <property> [replay <stream> <idx>] | list");
            2
        }
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
