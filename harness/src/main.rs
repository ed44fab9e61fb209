#![cfg_attr(feature = "nightly", feature(generic_const_exprs))]
#![allow(incomplete_features)]
mod ctx;
mod cxx;
mod d_deque;
mod d_fvec;
mod d_glob;
mod d_hash;
mod d_hf;
mod d_list;
mod d_pool;
mod d_str;
mod d_tree;
mod d_vec;
mod d_vmap;
mod led;
mod talloc;
use ctx::*;
use led::Fk;
use std::io::{BufRead, BufReader, BufWriter, Write};

#[global_allocator]
static GLOBAL: d_glob::Glob = d_glob::Glob;

#[repr(C)]
struct TimeVal {
    s: i64,
    u: i64,
}
extern "C" {
    fn setitimer(which: i32, new: *const [TimeVal; 2], old: *mut [TimeVal; 2]) -> i32;
}
fn watchdog(secs: i64) {
    // ITIMER_PROF: SIGPROF kills the process when one trace burns too much CPU
    unsafe {
        setitimer(2, &[TimeVal { s: 0, u: 0 }, TimeVal { s: secs, u: 0 }], std::ptr::null_mut());
    }
}

fn parse_step(l: &str) -> Step {
    let mut t = l.split_ascii_whitespace().peekable();
    let mut fault = None;
    if let Some(f) = t.peek() {
        if let Some(f) = f.strip_prefix('!') {
            let (k, n) = f.split_once(':').unwrap();
            let k = match k {
                "clone" => Fk::Clone,
                "drop" => Fk::Drop,
                "eq" => Fk::Eq,
                "cmp" => Fk::Cmp,
                "hash" => Fk::Hash,
                "closure" => Fk::Closure,
                "iter" => Fk::Iter,
                _ => panic!("fault {k}"),
            };
            fault = Some((k, n.parse().unwrap()));
            t.next();
        }
    }
    let op = t.next().unwrap().to_string();
    let a = t.map(|x| x.parse().unwrap()).collect();
    Step { op, a, fault }
}

fn run_trace(c: &mut Ctx, tid: i64, kind: &str, steps: &[Step]) {
    c.nsteps = steps.len();
    c.begin(tid, kind);
    let p = c.geti("es", 4);
    macro_rules! es {
        ($m:ident) => { es!($m::run) };
        ($m:ident :: $f:ident) => {
            match p {
                #[cfg(feature = "tiny")]
                1 => $m::$f::<0>(c, steps),
                #[cfg(feature = "tiny")]
                2 => $m::$f::<1>(c, steps),
                #[cfg(feature = "tiny")]
                3 => $m::$f::<2>(c, steps),
                #[cfg(feature = "tiny")]
                5 => $m::$f::<4>(c, steps),
                #[cfg(feature = "tiny")]
                6 => $m::$f::<5>(c, steps),
                #[cfg(feature = "tiny")]
                24 => $m::$f::<23>(c, steps),
                #[cfg(feature = "tiny")]
                64 => $m::$f::<63>(c, steps),
                #[cfg(feature = "tiny")]
                300 => $m::$f::<299>(c, steps),
                #[cfg(not(feature = "tiny"))]
                4 => $m::$f::<0>(c, steps),
                #[cfg(not(feature = "tiny"))]
                8 => $m::$f::<1>(c, steps),
                #[cfg(not(feature = "tiny"))]
                12 => $m::$f::<2>(c, steps),
                #[cfg(not(feature = "tiny"))]
                16 => $m::$f::<3>(c, steps),
                #[cfg(not(feature = "tiny"))]
                20 => $m::$f::<4>(c, steps),
                #[cfg(not(feature = "tiny"))]
                32 => $m::$f::<7>(c, steps),
                #[cfg(not(feature = "tiny"))]
                40 => $m::$f::<9>(c, steps),
                _ => panic!("element size"),
            }
        };
    }
    match kind {
        "vec" => es!(d_vec),
        "deq" => es!(d_deque),
        "que" => es!(d_deque::run_queue),
        "lst" => es!(d_list),
        "hm" => es!(d_hash::run_map),
        "hg" => d_hash::run_grow(c, steps),
        "vm" => es!(d_vmap),
        "str" => d_str::run(c, steps),
        "pool" => d_pool::run(c, steps),
        "hs" => es!(d_hash::run_set),
        "fv" => es!(d_fvec),
        "tree" => d_tree::run(c, steps),
        "hf" => d_hf::run(c, steps),
        "glob" => d_glob::run(c, steps),
        "fls" => es!(d_list::run_fixed),
        _ => panic!("kind {kind}"),
    }
    c.end_trace();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let script = &args[1];
    let out = &args[2];
    let from: i64 = args.get(3).map_or(0, |x| x.parse().unwrap());
    let only = args.get(4).map(|x| x == "only").unwrap_or(false);
    let app = std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap();
    let w: Box<dyn Write> = Box::new(BufWriter::with_capacity(1 << 20, app));
    let mut c = Ctx::new(w, only);
    std::panic::set_hook(Box::new(|_| {}));
    let f = BufReader::new(std::fs::File::open(script).unwrap());
    let mut cur: Option<(i64, String)> = None;
    let mut steps: Vec<Step> = vec![];
    let mut cfg = std::collections::HashMap::new();
    let done = std::path::PathBuf::from(format!("{out}.done"));
    let mut run = |cur: &Option<(i64, String)>, steps: &[Step], cfg: &std::collections::HashMap<String, String>| {
        if let Some((tid, kind)) = cur {
            if *tid < from || (only && *tid > from) {
                return;
            }
            c.cfg = cfg.clone();
            watchdog(c.geti("cpu", 10));
            run_trace(&mut c, *tid, kind, steps);
            watchdog(0);
            if *tid % 16 == 0 || only {
                c.w.flush().unwrap();
            }
        }
    };
    for line in f.lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        if let Some(h) = line.strip_prefix("T ") {
            run(&cur, &steps, &cfg);
            steps.clear();
            let mut t = h.split_ascii_whitespace();
            let tid = t.next().unwrap().parse().unwrap();
            let kind = t.next().unwrap().to_string();
            cfg = t.map(|kv| kv.split_once('=').unwrap()).map(|(k, v)| (k.to_string(), v.to_string())).collect();
            cur = Some((tid, kind));
        } else {
            steps.push(parse_step(&line));
        }
    }
    run(&cur, &steps, &cfg);
    c.w.flush().unwrap();
    std::fs::write(done, "ok").unwrap();
    // skip destructors of leaked state
    std::process::exit(0);
}
