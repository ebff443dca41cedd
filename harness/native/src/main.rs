#[path = "../../common/env_native.rs"]
pub mod env;
#[path = "../../common/gram.rs"]
pub mod gram;
#[path = "../../common/props.rs"]
pub mod props;
#[path = "../../common/props2.rs"]
pub mod props2;
#[path = "../../common/props3.rs"]
pub mod props3;

macro_rules! entries {
    ($($m:ident: $($n:ident)*;)*) => {
        fn run(name: &str) {
            match name {
                $($(stringify!($n) => $m::$n(),)*)*
                _ => { eprintln!("no such harness: {}", name); std::process::exit(3) }
            }
        }
    };
}
include!("../../common/entries.rs");

/// Input, one case per line: NAME p,p,p  class:hex class:hex ...
/// Output, one line per case: outcome, number, reached labels, message.
fn main() {
    let file = std::env::args().nth(1).expect("file");
    let verbose = std::env::args().nth(2).is_some();
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::fs::read_to_string(file).unwrap().lines() {
        let mut w = line.split_whitespace();
        let name = match w.next() {
            Some(n) => n.to_string(),
            None => continue,
        };
        let params: Vec<u32> = w.next().unwrap().split(',').map(|x| x.parse().unwrap()).collect();
        let vals: Vec<(u8, Vec<u8>)> = w
            .map(|x| {
                let (c, h) = x.split_once(':').unwrap();
                let mut b: Vec<u8> =
                    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                b.reverse();
                (c.parse().unwrap(), b)
            })
            .collect();
        let r = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                env::VALS.with(|v| *v.borrow_mut() = (vals, 0));
                env::PARAMS.with(|v| *v.borrow_mut() = params);
                let r = std::panic::catch_unwind(|| run(&name));
                let mode = env::MODE.with(|m| m.get());
                let reach: Vec<String> = env::REACH.with(|r| r.borrow().iter().map(|x| x.to_string()).collect());
                let (outcome, num, msg) = match r {
                    Ok(()) => ("ok", 0, String::new()),
                    Err(e) => {
                        if let Some(v) = e.downcast_ref::<env::Violation>() {
                            ("assert", v.0, String::new())
                        } else if let Some(v) = e.downcast_ref::<env::Infeasible>() {
                            ("infeasible", 0, v.0.clone())
                        } else {
                            let m = if let Some(s) = e.downcast_ref::<&str>() {
                                s.to_string()
                            } else if let Some(s) = e.downcast_ref::<String>() {
                                s.clone()
                            } else {
                                "panic".into()
                            };
                            if mode == 0 {
                                ("panic", 0, m)
                            } else {
                                ("panicked", mode, m)
                            }
                        }
                    }
                };
                (outcome, num, reach.join(","), msg, env::take_log())
            })
            .unwrap()
            .join()
            .unwrap();
        println!("{}\t{}\t{}\t{}", r.0, r.1, r.2, r.3.replace('\n', " ").replace('\t', " "));
        if verbose {
            println!("{}", r.4);
        }
    }
}
