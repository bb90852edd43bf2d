use std::collections::HashMap;
use std::sync::Arc;
use vx_harness::*;
fn main() {
    let mut h = H::new();
    while h.more() {
        let text = eng::text(&mut h.rng);
        let log: eng::Log = Default::default();
        let mut parsers = eng::mocks(&mut h.rng, &text, &log);
        for p in parsers.iter_mut() { if h.rng.chance(1, 3) { for i in p.intents.iter_mut() { i.1 = h.rng.f01(); } h.rng.shuffle(&mut p.intents); } if h.rng.chance(1, 12) { p.intents.clear(); } }
        h.case(&format!("parsers {:?}", parsers.iter().map(|p| (&p.intents, p.intents_err)).collect::<Vec<_>>()), parsers.len() > 1, || {
            let e = eng::engine(eng::metadata(eng::MAPPINGS, eng::CUSTOMS), parsers.clone(), Arc::new(res::builtin_numbers()), Arc::new(res::custom_dict(vec![])));
            let got = e.get_intents(&text);
            if parsers.iter().any(|p| p.intents_err) { return ensure(got.is_err(), "the error of a parser was swallowed"); }
            let got = got.map_err(|e| e.to_string())?;
            for p in got.windows(2) { ensure(p[0].confidence_score >= p[1].confidence_score, format!("not in decreasing order: {:?}", got))?; }
            let as_map: HashMap<_, _> = got.iter().map(|r| (r.intent_name.clone(), r.confidence_score)).collect();
            ensure(as_map.len() == got.len(), format!("an intent is listed twice: {:?}", got))?;
            let want = oracle::ranking(&parsers);
            for (i, s) in &as_map { ensure(want.get(i).map(|w| w.0) == Some(*s), format!("{:?} listed with score {}, the parsers report {:?}", i, s, want.get(i)))?; }
            for (i, (s, must)) in &want { ensure(!must || as_map.contains_key(i), format!("{:?} with score {} is missing", i, s))?; }
            Ok(())
        });
    }
    h.finish("random engines of 0 to 3 parsers listing up to six intents in any order; non-trivial: at least two parsers");
}
