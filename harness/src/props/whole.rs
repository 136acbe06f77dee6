//! Development aid: the whole document against the model.

use super::common::*;
use crate::engine::*;

pub struct Whole;

impl Monitor for Whole {
    fn id(&self) -> &'static str {
        "C00"
    }
    fn rule(&self) -> &'static str {
        "distinct documents"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(200_000, 2_000_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        telegram(idx, rng)
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        if let Some(p) = both(case, obs)? {
            obs.feature(&p.got.to_string());
            obs.count(p.got["decode_state"].as_str().unwrap_or("?"));
            same("", &p.want.doc, &p.got, case)?;
        } else {
            obs.count("rejected");
        }
        Ok(())
    }
}
