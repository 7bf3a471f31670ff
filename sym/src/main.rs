#[macro_use]
mod common;
mod sym;

macro_rules! modules {
    ($($m:ident $c:literal)*) => {
        $(#[cfg(any(vs = "all", vs = $c))] mod $m;)*
        fn all() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(#[cfg(any(vs = "all", vs = $c))] v.extend_from_slice($m::LIST);)*
            v
        }
    };
}
modules! {
    c08 "c08"
    c09 "c09"
    c10 "c10"
    c11 "c11"
    c12 "c12"
    c13 "c13"
    c14 "c14"
    c15 "c15"
    c16 "c16"
    c17 "c17"
    c18 "c18"
    c19 "c19"
    c20 "c20"
    c21 "c21"
    c27 "c27"
    c28 "c28"
    c29 "c29"
}

fn esc(s: &str) -> String {
    s.chars().map(|c| match c { '"' => "'".to_string(), '\\' => "/".to_string(), '\n' => " ".to_string(), c if (c as u32) < 32 => " ".into(), c => c.to_string() }).collect()
}

/// vs list | vs run NAME SECONDS TRACEFILE | vs replay NAME "vars;keys;choices"
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" {
        for (n, _) in all() { println!("{}", n); }
        return;
    }
    let f = all().into_iter().find(|(n, _)| *n == a[2]).expect("no such scenario").1;
    if a[1] == "replay" {
        let p: Vec<&str> = a[3].split(';').collect();
        let nums = |s: &str| -> Vec<i128> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
        let vars = p[0].split(',').filter(|x| !x.is_empty()).map(|x| { let (n, d) = x.split_once('/').unwrap(); (n.parse().unwrap(), d.parse().unwrap()) }).collect();
        // A deep recursion in the code under test is to end the run, not to be caught.
        let m = sym::Model { vars, keys: nums(p[1]), choices: nums(p[2]).into_iter().map(|x| x as usize).collect() };
        sym::replay(f, m);
        return;
    }
    let secs: f64 = a[3].parse().unwrap();
    let (v, s, sample) = sym::explore(f, secs, a.get(4).map(|x| x.as_str()));
    let (verdict, what, model) = match v {
        sym::Verdict::Pass => ("pass", String::new(), String::new()),
        sym::Verdict::Undecided(w) => ("undecided", w, String::new()),
        sym::Verdict::Violation(f) => ("violation", f.what, match f.model {
            None => String::new(),
            Some(m) => format!("{};{};{}",
                m.vars.iter().map(|(n, d)| format!("{}/{}", n, d)).collect::<Vec<_>>().join(","),
                m.keys.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(","),
                m.choices.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",")),
        }),
    };
    println!("{{\"scenario\":\"{}\",\"verdict\":\"{}\",\"what\":\"{}\",\"model\":\"{}\",\"paths\":{},\"obligations\":{},\"queries\":{},\"solver_s\":{:.3},\"unknown_branches\":{},\"sample\":\"{}\"}}",
        a[2], verdict, esc(&what), model, s.paths, s.obligations, s.queries, s.solver_s, s.undecided, esc(&sample));
}
