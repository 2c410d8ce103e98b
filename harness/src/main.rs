mod checks;
mod earley;
mod engine;
mod gram;
mod lr;
mod re;
mod tsread;

use checks::*;

fn main() {
    let mut a = engine::Args { check: String::new(), thorough: false, seed: 1, shard: 0, nshards: 1, only: None, out: String::new(), case_ms: 30_000 };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("value");
        match k.as_str() {
            "--check" => a.check = v(),
            "--tier" => a.thorough = v() == "thorough",
            "--seed" => a.seed = v().parse().unwrap(),
            "--shard" => {
                let s = v();
                let (i, n) = s.split_once('/').unwrap();
                a.shard = i.parse().unwrap();
                a.nshards = n.parse().unwrap();
            }
            "--only" => a.only = Some(v().parse().unwrap()),
            "--out" => a.out = v(),
            "--case-ms" => a.case_ms = v().parse().unwrap(),
            k => panic!("argument {}", k),
        }
    }
    lexer::set_thorough(a.thorough);
    let f: fn(&mut engine::Ctx) = match a.check.as_str() {
        "C01" => lexer::c01,
        "C02" => lexer::c02,
        "C03" => lexer::c03,
        "C04" => lexer::c04,
        "C05" => lexer::c05,
        "C06" => lexer::c06,
        "C07" => lexer::c07,
        "C08" => notation::c08,
        "C09" => notation::c09,
        "C10" => tables::c10,
        "C11" => tables::c11,
        "C12" => tables::c12,
        "C13" => tables::c13,
        "C14" => tables::c14,
        "C15" => tables::c15,
        "C16" => types::c16,
        "C17" => types::c17,
        "C18" => types::c18,
        "C19" => types::c19,
        "C20" => types::c20,
        "C21" => support::c21,
        "C22" => support::c22,
        "C23" => support::c23,
        "C25" => tables::c25,
        "C26" => tables::c26,
        "C27" => types::c27,
        "C24" => tables::c24,
        c => {
            eprintln!("no check {}", c);
            std::process::exit(99)
        }
    };
    engine::run(a, f);
}
