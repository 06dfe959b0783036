#![allow(clippy::all, deprecated)]
mod alloc;
mod common;
mod caps;
mod client;
mod codec;
mod maps;
mod modes;
mod nicks;
mod vclock;
mod msg;
mod queue;
mod reg;
mod sasl;
mod strs;
#[global_allocator]
static A: alloc::Guarded = alloc::Guarded;
use common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, seed, out) = (a[1].clone(), a[2].clone(), a[3].parse::<u64>().unwrap_or(1), a[4].clone());
    let thorough = tier == "thorough";
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) { prev(i) }
    }));
    crash_handler(out.clone(), prop.clone());
    watchdog(out.clone(), prop.clone(), 60);
    let budget = std::env::var("VZH_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 400.0 } else { 45.0 });
    let mut c = Ctx { rng: Rng::new(seed), thorough, seed, evals: 0, distinct: Default::default(), nontrivial_over: 0, samples: vec![], labels: Default::default(), failures: vec![], out, prop: prop.clone(), t0: std::time::Instant::now(), budget };
    match prop.as_str() {
        "C01" => msg::c01(&mut c),
        "C02" => msg::c02(&mut c),
        "C08" => msg::c08(&mut c),
        "C09" => msg::c09(&mut c),
        "C03" => strs::c03(&mut c),
        "C04" => strs::c04(&mut c),
        "C05" => maps::c05(&mut c),
        "C06" => strs::c06(&mut c),
        "C07" => strs::c07(&mut c),
        "C10" => codec::c10(&mut c),
        "C11" => strs::c11(&mut c),
        "C12" => strs::c12(&mut c),
        "C13" => strs::c13(&mut c),
        "C14" => strs::c14(&mut c),
        "C15" => modes::c15(&mut c),
        "C16" => strs::c16(&mut c),
        "C25" => strs::c25(&mut c),
        "C17" => queue::c17(&mut c),
        "C19" => nicks::c19(&mut c),
        "C21" => sasl::c21(&mut c),
        "C22" => reg::c22(&mut c),
        "C27" => reg::c27(&mut c),
        "C20" => caps::c20(&mut c),
        "C18" => client::c18(&mut c),
        "C23" => client::c23(&mut c),
        "C24" => {
            msg::c24(&mut c);
            client::c24(&mut c);
        }
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2) }
    }
    c.write().unwrap();
    if let Some(f) = c.failures.first() {
        println!("FAIL {} | {} | {}", f.label, f.input, f.why);
        std::process::exit(1);
    }
    println!("OK {} evaluations, {} distinct non-trivial, {:.1} s", c.evals, c.distinct.len(), c.t0.elapsed().as_secs_f64());
}
