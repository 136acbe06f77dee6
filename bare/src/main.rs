//! The parser core without the standard library features: one line of hex in, one line of debug output out.

#[path = "../../harness/src/probe.rs"]
mod probe;

use std::io::{BufRead, Write};

fn main() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        let h = line.split(' ').next().unwrap_or("");
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
        let d = probe::dump(&b);
        if writeln!(out, "{d:?}").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
