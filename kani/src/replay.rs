//! Runs one harness on the concrete values of a counterexample, natively.
//! usage: replay HARNESS VALUES   (VALUES: one line per value, its bytes in hex)
use std::collections::VecDeque;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[2]).unwrap_or_default();
    let vals: VecDeque<Vec<u8>> = text
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| (0..l.trim().len() / 2).map(|i| u8::from_str_radix(&l.trim()[2 * i..2 * i + 2], 16).unwrap()).collect())
        .collect();
    vk::nd::set_values(vals);
    let all = vk::all();
    let f = all.iter().find(|(n, _)| *n == args[1]).expect("no such harness").1;
    match std::panic::catch_unwind(f) {
        Ok(()) => println!("NOT-REPRODUCED"),
        Err(_) => {
            if vk::all_refusals().iter().any(|(n, _)| *n == args[1]) {
                println!("NOT-REPRODUCED: refused, as it should be");
            } else {
                println!("REPRODUCED: {} panicked", args[1]);
                std::process::exit(101);
            }
        }
    }
}
