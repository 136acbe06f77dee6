//! Telegrams of the repository's fixtures, used as mutation seeds.
use std::sync::OnceLock;

pub fn frames() -> &'static [(String, Vec<u8>)] {
    static F: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    F.get_or_init(|| {
        include_str!("../../corpus/frames.txt")
            .lines()
            .filter_map(|l| {
                let (n, h) = l.split_once(' ')?;
                Some((n.to_string(), crate::engine::unhex(h)?))
            })
            .collect()
    })
}
