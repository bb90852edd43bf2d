use std::sync::Arc;
use vx_harness::*;
fn main() {
    let mut h = H::new();
    while h.more() {
        let text = eng::text(&mut h.rng);
        let log: eng::Log = Default::default();
        let parsers = eng::mocks(&mut h.rng, &text, &log);
        let intent: &&str = h.rng.pick(eng::INTENTS);
        let k = if h.rng.chance(1, 12) { h.rng.range(4, 40) } else { h.rng.below(4) };
        // "snips/musicArtist" declared custom by the dataset in some cases
        let declared = h.rng.chance(1, 3);
        let mut customs = eng::CUSTOMS.to_vec();
        if declared { customs.push(("snips/musicArtist", h.rng.chance(1, 2))); }
        let e_err = h.rng.chance(1, 20);
        h.case(&format!("text {:?} intent {:?} slot alternatives {} customs {:?} parsers {:?}", text, intent, k, customs, parsers.iter().map(|p| (&p.slots, p.slots_err)).collect::<Vec<_>>()), parsers.iter().any(|p| p.slots.contains_key(*intent)), || {
            let (bp, cp) = res::in_context(res::builtin_numbers(), res::custom_dict(eng::dict()));
            let (bp, cp) = (Arc::new(bp), Arc::new(cp));
            let e = eng::engine(eng::metadata(eng::MAPPINGS, &customs), parsers.clone(), if e_err { Arc::new(res::Builtin(Box::new(|_, _, _, _| Err(failure::err_msg("x"))))) } else { bp.clone() }, cp.clone());
            let got = if k == 0 { e.get_slots(&text, intent) } else { e.get_slots_with_alternatives(&text, intent, k) };
            let mut want_log = vec![];
            for p in &parsers { want_log.push(format!("slots {} {:?} {}", p.id, text, intent)); if p.slots_err || p.slots.get(*intent).map(|s| !s.is_empty()).unwrap_or(false) { break; } }
            let l = log.lock().unwrap().clone();
            expect_eq("parsers consulted", l, want_log)?;
            match oracle::slots(&parsers, intent) {
                Err(()) => ensure(got.is_err(), "the error of a parser was swallowed"),
                Ok(s) if e_err && !s.is_empty() => ensure(got.is_err(), "the error of the entity parser was swallowed"),
                Ok(s) => expect_eq("slots", got.map_err(|e| e.to_string()), Ok(oracle::resolve(&text, &s, &customs, &*bp, &*cp, k))),
            }
        });
    }
    h.finish("random engines of 0 to 3 parsers with random slots; non-trivial: a parser has slots for the intent");
}
