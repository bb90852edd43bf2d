#[path = "../rules.rs"]
mod rules;
use vx_harness::*;
fn main() {
    let mut h = H::new();
    while h.more() {
        let c = rules::gen(&mut h.rng);
        let top = h.rng.range(0, c.intents.len() + 1);
        let nt = c.matching(None).len() > 1;
        h.case(&format!("top {} of {}", top, c.describe()), nt, || {
            let (d, l) = c.parsers()?;
            let f = c.filter();
            let want = c.matching(c.filter.as_ref());
            for (which, got) in vec![("deterministic", d.parse_top_intents(&c.input, top, f.as_ref().map(|f| &f[..]))), ("lookup", l.parse_top_intents(&c.input, top, f.as_ref().map(|f| &f[..])))] {
                let got = got.map_err(|e| e.to_string())?;
                let want: Vec<&(String, Vec<usize>)> = want.iter().filter(|w| which == "deterministic" || c.in_lookup(&w.0)).collect();
                expect_eq(&format!("{} parser: number of results", which), got.len(), want.len().min(top))?;
                let weight = |w: &(String, Vec<usize>)| 1.0 / (1.0 + w.1.len() as f32);
                let total: f32 = want.iter().map(|w| weight(w)).sum();
                let mut seen = std::collections::HashSet::new();
                for r in &got {
                    let name = r.intent.intent_name.clone().ok_or("a result without intent")?;
                    ensure(seen.insert(name.clone()), format!("{} parser: two results for {}", which, name))?;
                    let w = want.iter().find(|w| w.0 == name).ok_or(format!("{} parser: {} does not match", which, name))?;
                    let exp = weight(w) / total;
                    ensure((r.intent.confidence_score - exp).abs() < 1e-5, format!("{} parser: confidence of {} is {}, expected {}", which, name, r.intent.confidence_score, exp))?;
                    expect_eq(&format!("{} parser: slots of {}", which, name), r.slots.len(), w.1.len())?;
                }
                ensure(got.windows(2).all(|w| w[0].intent.confidence_score >= w[1].intent.confidence_score), format!("{} parser: confidences are not in decreasing order", which))?;
                let worst = got.last().map(|r| r.intent.confidence_score).unwrap_or(1.0);
                for w in &want { ensure(seen.contains(&w.0) || weight(w) / total <= worst + 1e-5, format!("{} parser: {} left out for a worse intent", which, w.0))?; }
            }
            Ok(())
        });
    }
    h.finish("random deterministic and lookup parsers over the same intents, whose patterns are made from the input itself (matching) or from another sentence; non-trivial: at least two matching intents");
}
