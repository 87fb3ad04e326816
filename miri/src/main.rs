//! kmiri <workload> <seed> <cases>: the programs of prog.rs under Miri.
mod prog;
use prog::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let what = a.get(1).map(|x| x.as_str()).unwrap_or("");
    let seed: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let cases: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
    let secs: u64 = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(3600);
    let t0 = std::time::Instant::now();
    let mut s = Seen::new();
    for i in 0..cases {
        if t0.elapsed().as_secs() > secs {
            break;
        }
        let sd = seed.wrapping_mul(1_000_003).wrapping_add(i);
        println!("CASE {} {}", what, sd);
        let r = match what {
            "tree" => tree(sd, 8, &mut s),
            "files" => files(sd, &mut s),
            "values" => values(sd, &mut s),
            "overlap-search" => overlap("search"),
            "overlap-iter" => overlap("iter"),
            "noop" => Ok(()),
            _ => Err("workload?".into()),
        };
        if let Err(e) = r {
            println!("V {}", e);
            std::process::exit(1);
        }
        *s.entry("cases").or_insert(0) += 1;
    }
    for (k, v) in &s {
        println!("C {} {}", v, k);
    }
    println!("DONE");
}
