//! Conformance driver: `vh <driver> --seed N --n N --out FILE [...]` runs the real code and records a trace.
mod accum;
mod asm;
mod author;
mod chain;
mod codec;
mod crypto;
mod func;
mod gossip;
mod pool;
mod pvm;
mod refine;
mod session;
mod store;
mod world;
use world::*;

#[global_allocator]
static ALLOC: codec::Counting = codec::Counting;

pub struct Args {
    pub seed: u64,
    pub n: usize,
    pub out: String,
    pub inp: String,
    pub mode: String,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string());
    let args = Args {
        seed: get("--seed", "1").parse().unwrap(),
        n: get("--n", "10").parse().unwrap(),
        out: get("--out", "/dev/null"),
        inp: get("--in", ""),
        mode: get("--mode", ""),
    };
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VH_VERBOSE").is_ok() {
            eprintln!("panic: {i}");
        }
    }));
    watchdog(get("--stall", "150").parse().unwrap());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    // Half of the runs draw where accesses to the state give way to other tasks.
    let mix = args.seed.wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let drawn = mix >> 62 & 1 == 1;
    if drawn || args.mode == "turns" {
        fr_state::schedule::set_seed(mix | 1);
    }
    match a[1].as_str() {
        "clock" => author::clock(&args),
        "sched" => tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(author::sched(&args)),
        "author" => rt.block_on(author::run(&args)),
        // on one thread, the parallel parts of a block take turns exactly as drawn
        "chain" if drawn || args.mode == "turns" => tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(chain::run(&args)),
        "chain" => rt.block_on(chain::run(&args)),
        "store" => rt.block_on(store::run(&args)),
        "pressure" => rt.block_on(store::pressure(args.n)),
        "session" => rt.block_on(session::run(&args)),
        "func" => rt.block_on(func::run(&args)),
        "pvm" => rt.block_on(pvm::run(&args)),
        "crypto" => rt.block_on(crypto::run(&args)),
        "codec" => rt.block_on(codec::run(&args)),
        "refine" => rt.block_on(refine::run(&args)),
        "gossip" => rt.block_on(gossip::run(&args)),
        "pool" => pool::run(&args),
        "accum" => rt.block_on(accum::run(&args)),
        "bench" => rt.block_on(bench(&args)),
        x => panic!("unknown driver {x}"),
    }
}

async fn bench(args: &Args) {
    let t = std::time::Instant::now();
    let k = Keys::new(12);
    println!("keys {:?}", t.elapsed());
    let mut r = rng(args.seed);
    let t = std::time::Instant::now();
    let ss = base_states(&k, &mut r, 100);
    println!("base {:?}", t.elapsed());
    let t = std::time::Instant::now();
    let ch = Chain::new(ss, genesis_header(100, b"x"), |_| async {}).await;
    println!("chain {:?}", t.elapsed());
    for slot in [101, 102, 109, 120, 133, 134] {
        let s = ch.snap().await;
        let t = std::time::Instant::now();
        let b = build(&k, &ch.head(), &ch.root().await, &s, slot, Default::default(), &[]).unwrap();
        let t1 = t.elapsed();
        let t = std::time::Instant::now();
        let i = ch.import(&b.block).await;
        println!("slot {slot}: build {t1:?} import {:?} {}", t.elapsed(), i.res());
    }
}
