// Line-protocol driver of the Rust binding: disc SEED BITS | prove SEED BITS X T | verifyn DISC X BLOB T DEPTH
#[path = "LIBRS"]
mod chiavdf;
use std::io::{BufRead, Write};
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn main() {
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split(' ').collect();
        let out = match t[0] {
            "disc" => {
                let mut r = vec![0u8; t[2].parse::<usize>().unwrap() / 8];
                if chiavdf::create_discriminant(&unhex(t[1]), &mut r) { hex(&r) } else { "reject".into() }
            }
            "prove" => match chiavdf::prove(&unhex(t[1]), &unhex(t[3]), t[2].parse().unwrap(), t[4].parse().unwrap()) {
                Some(v) => hex(&v),
                None => "reject".into(),
            },
            "verifyn" => if chiavdf::verify_n_wesolowski(&unhex(t[1]), &unhex(t[2]), &unhex(t[3]), t[4].parse().unwrap(), t[5].parse().unwrap()) { "1".into() } else { "0".into() },
            _ => "badop".to_string(),
        };
        println!("{}", out);
        std::io::stdout().flush().unwrap();
    }
}
