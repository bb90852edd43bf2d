#[path = "../rules.rs"]
mod rules;
use snips_nlu_lib::intent_parser::IntentParser;
use vx_harness::*;
fn main() {
    let mut h = H::new();
    while h.more() {
        let c = rules::gen(&mut h.rng);
        let nt = !c.matching(None).is_empty();
        h.case(&c.describe(), nt, || {
            let (d, l) = c.parsers()?;
            let f = c.filter();
            let ps: Vec<(&str, Box<dyn IntentParser>)> = vec![("deterministic", Box::new(d)), ("lookup", Box::new(l))];
            for (which, p) in &ps {
                let all: Vec<(String, Vec<usize>)> = c.matching(None).into_iter().filter(|w| *which == "deterministic" || c.in_lookup(&w.0)).collect();
                let want: Vec<&(String, Vec<usize>)> = all.iter().filter(|w| c.allowed(&w.0)).collect();
                let weight = |w: &(String, Vec<usize>)| 1.0 / (1.0 + w.1.len() as f32);
                let conf = |ws: &[&(String, Vec<usize>)], w: &(String, Vec<usize>)| weight(w) / ws.iter().map(|w| weight(w)).sum::<f32>();
                // ---- parse
                let got = p.parse(&c.input, f.as_ref().map(|f| &f[..])).map_err(|e| e.to_string())?;
                let best = want.iter().map(|w| conf(&want, w)).fold(0.0f32, f32::max);
                if (best - 0.5).abs() > 1e-5 {
                    if best > 0.5 {
                        let w = want.iter().find(|w| conf(&want, w) == best).unwrap();
                        expect_eq(&format!("{}: intent", which), got.intent.intent_name.clone(), Some(w.0.clone()))?;
                        ensure((got.intent.confidence_score - best).abs() < 1e-5, format!("{}: confidence {} expected {}", which, got.intent.confidence_score, best))?;
                        expect_eq(&format!("{}: slots", which), rules::spans(&got.slots), c.spans(w))?;
                    } else {
                        expect_eq(&format!("{}: intent", which), (got.intent.intent_name, got.intent.confidence_score, got.slots.len()), (None, 1.0, 0))?;
                    }
                } else if got.intent.intent_name.is_none() { expect_eq(&format!("{}: absence of intent", which), (got.intent.confidence_score, got.slots.len()), (1.0, 0))?; }
                else { ensure(got.intent.confidence_score > 0.5, format!("{}: intent with confidence {}", which, got.intent.confidence_score))?; }
                // two intents with as many slots each are exactly ambiguous
                if want.len() == 2 && want[0].1.len() == want[1].1.len() { ensure(p.parse(&c.input, f.as_ref().map(|f| &f[..])).unwrap().intent.intent_name.is_none(), format!("{}: an ambiguous intent is returned", which))?; }
                // ---- listing
                let list = p.get_intents(&c.input).map_err(|e| e.to_string())?;
                expect_eq(&format!("{}: number of intents listed", which), list.len(), c.intents.len() + 1)?;
                expect_eq(&format!("{}: last of the list", which), list.last().map(|r| (r.intent_name.clone(), r.confidence_score)), Some((None, 0.0)))?;
                ensure(list.windows(2).all(|w| w[0].confidence_score >= w[1].confidence_score), format!("{}: the list is not in decreasing order", which))?;
                let refs: Vec<&(String, Vec<usize>)> = all.iter().collect();
                for i in &c.intents {
                    let e: Vec<_> = list.iter().filter(|r| r.intent_name.as_ref() == Some(&i.name)).collect();
                    expect_eq(&format!("{}: entries of {}", which, i.name), e.len(), 1)?;
                    let exp = all.iter().find(|w| w.0 == i.name).map(|w| conf(&refs, w)).unwrap_or(0.0);
                    ensure((e[0].confidence_score - exp).abs() < 1e-5, format!("{}: score of {} is {}, expected {}", which, i.name, e[0].confidence_score, exp))?;
                }
                // ---- slots of one intent
                for i in &c.intents {
                    let s = p.get_slots(&c.input, &i.name).map_err(|e| e.to_string())?;
                    let exp = all.iter().find(|w| w.0 == i.name).map(|w| c.spans(w)).unwrap_or_default();
                    expect_eq(&format!("{}: slots of {}", which, i.name), rules::spans(&s), exp)?;
                }
                ensure(p.get_slots(&c.input, "unknown intent").is_err(), format!("{}: slots of an unknown intent", which))?;
            }
            Ok(())
        });
    }
    h.finish("random deterministic and lookup parsers over the same intents, whose patterns are made from the input itself (matching) or from another sentence; non-trivial: at least one matching intent");
}
