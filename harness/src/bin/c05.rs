use snips_nlu_ontology::*;
use std::sync::Arc;
use vx_harness::*;
fn main() {
    let mut h = H::new();
    while h.more() {
        let text = eng::text(&mut h.rng);
        let log: eng::Log = Default::default();
        let parsers = eng::mocks(&mut h.rng, &text, &log);
        let known = eng::INTENTS;
        let w: Option<Vec<&str>> = if h.rng.chance(1, 2) { None } else { Some(known.iter().cloned().filter(|_| h.rng.chance(1, 2)).collect()) };
        let b: Option<Vec<&str>> = if h.rng.chance(2, 3) { None } else { Some(known.iter().cloned().filter(|_| h.rng.chance(1, 3)).collect()) };
        let k = h.rng.below(3);
        h.case(&format!("text {:?} whitelist {:?} blacklist {:?} slot alternatives {} parsers {:?}", text, w, b, k, parsers), parsers.len() > 0, || {
            let (bp, cp) = res::in_context(res::builtin_numbers(), res::custom_dict(eng::dict()));
            let (bp, cp) = (Arc::new(bp), Arc::new(cp));
            let e = eng::engine(eng::metadata(eng::MAPPINGS, eng::CUSTOMS), parsers.clone(), bp.clone(), cp.clone());
            let got = if k == 0 { e.parse(&text, w.clone(), b.clone()) } else { e.parse_with_alternatives(&text, w.clone(), b.clone(), 0, k) };
            let allowed = |i: &str| w.as_ref().map(|w| w.contains(&i)).unwrap_or(true) && !b.as_ref().map(|b| b.contains(&i)).unwrap_or(false);
            let filter = if w.is_none() && b.is_none() { None } else { Some(known.iter().filter(|i| allowed(i)).collect::<std::collections::BTreeSet<_>>()) };
            let mut want_log = vec![];
            for p in &parsers {
                want_log.push(format!("parse {} {:?} {:?}", p.id, text, filter));
                if p.parse_err || p.finds.iter().any(|(i, _)| allowed(i)) { break; }
            }
            let l = log.lock().unwrap().clone();
            expect_eq("parsers consulted", l, want_log)?;
            match oracle::cascade(&parsers, &allowed) {
                Err(()) => ensure(got.is_err(), "the error of a parser was swallowed"),
                Ok((i, s, slots)) => {
                    let want = IntentParserResult { input: text.clone(), intent: eng::ires(i, s), slots: oracle::resolve(&text, &slots, eng::CUSTOMS, &*bp, &*cp, k), alternatives: vec![] };
                    expect_eq("result", got.map_err(|e| e.to_string()), Ok(want))
                }
            }
        });
    }
    h.finish("random engines of 0 to 3 recording parsers (also failing ones), random filters and texts; non-trivial: at least one parser");
}
