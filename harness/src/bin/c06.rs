use std::collections::HashSet;
use std::sync::Arc;
use vx_harness::*;
fn main() {
    let mut h = H::new();
    while h.more() {
        let text = eng::text(&mut h.rng);
        let log: eng::Log = Default::default();
        let parsers = eng::mocks(&mut h.rng, &text, &log);
        let known = eng::INTENTS;
        let w: Option<Vec<&str>> = if h.rng.chance(1, 2) { None } else { Some(known.iter().cloned().filter(|_| h.rng.chance(2, 3)).collect()) };
        let b: Option<Vec<&str>> = if h.rng.chance(2, 3) { None } else { Some(known.iter().cloned().filter(|_| h.rng.chance(1, 3)).collect()) };
        let n = h.rng.below(8); let k = h.rng.below(4);
        h.case(&format!("text {:?} whitelist {:?} blacklist {:?} {} alternatives, {} slot alternatives, parsers {:?}", text, w, b, n, k, parsers), parsers.len() > 0 && n > 0, || {
            let (bp, cp) = (Arc::new(res::builtin_numbers()), Arc::new(res::custom_dict(eng::dict())));
            let e = eng::engine(eng::metadata(eng::MAPPINGS, eng::CUSTOMS), parsers.clone(), bp.clone(), cp.clone());
            let allowed = |i: &str| w.as_ref().map(|w| w.contains(&i)).unwrap_or(true) && !b.as_ref().map(|b| b.contains(&i)).unwrap_or(false);
            let base = e.parse_with_alternatives(&text, w.clone(), b.clone(), 0, k);
            let got = e.parse_with_alternatives(&text, w.clone(), b.clone(), n, k);
            let base = match base { Err(_) => return ensure(got.is_err(), "the main parsing fails, but not with alternatives"), Ok(b) => b };
            ensure(base.alternatives.is_empty(), "alternatives without asking for any")?;
            let listing_fails = n > 0 && parsers.iter().any(|p| p.intents_err);
            let got = match got {
                Err(x) => return ensure(listing_fails || (n > 0 && parsers.iter().any(|p| p.slots_err)), format!("unexpected error {}", x)),
                Ok(g) => g,
            };
            ensure(!listing_fails, "the error of a parser was swallowed")?;
            expect_eq("main intent", &got.intent, &base.intent)?;
            expect_eq("main slots", &got.slots, &base.slots)?;
            expect_eq("echoed input", &got.input, &text)?;
            let mut rest: Vec<(Option<String>, f32, bool)> = oracle::ranking(&parsers).into_iter().map(|(i, (s, must))| (i, s, must)).filter(|(i, _, _)| i.as_ref().map(|i| allowed(i)).unwrap_or(true) && *i != got.intent.intent_name).collect();
            rest.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
            let (must, may) = (rest.iter().filter(|r| r.2).count().min(n), rest.len().min(n));
            ensure(must <= got.alternatives.len() && got.alternatives.len() <= may, format!("{} alternatives, between {} and {} expected", got.alternatives.len(), must, may))?;
            let scores: Vec<f32> = got.alternatives.iter().map(|a| a.intent.confidence_score).collect();
            expect_eq("scores of the alternatives", &scores, &rest.iter().take(scores.len()).map(|r| r.1).collect())?;
            let mut seen = HashSet::new();
            for a in &got.alternatives {
                ensure(rest.iter().any(|(i, s, _)| *i == a.intent.intent_name && *s == a.intent.confidence_score), format!("alternative {:?} is not a remaining permitted intent of the ranking", a.intent))?;
                ensure(seen.insert(a.intent.intent_name.clone()), format!("alternative {:?} is repeated", a.intent))?;
                match &a.intent.intent_name {
                    None => ensure(a.slots.is_empty(), "slots for the absence of intent")?,
                    Some(i) => {
                        let s = oracle::slots(&parsers, i).map_err(|_| "the error of a parser was swallowed".to_string())?;
                        expect_eq("slots of an alternative", &a.slots, &oracle::resolve(&text, &s, eng::CUSTOMS, &*bp, &*cp, k))?;
                    }
                }
            }
            Ok(())
        });
    }
    h.finish("random engines of 0 to 3 parsers whose rankings may disagree with what parse finds, random filters and numbers of alternatives; non-trivial: a parser and alternatives asked for");
}
