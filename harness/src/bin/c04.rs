use snips_nlu_lib::utils::IterOps;
use std::collections::BTreeSet;
use vx_harness::*;
fn main() {
    let mut h = H::new();
    let words = ["MakeTea", "MakeCoffee", "PlayMusic", "turnLightOn", "é"];
    while h.more() {
        let known: Vec<&str> = words.iter().cloned().filter(|_| h.rng.chance(4, 5)).collect();
        let unknown = ["maketea", "MakeTe", "", "MakeTea ", "Nope"];
        let gen = |r: &mut Rng| -> Option<Vec<&'static str>> {
            if r.chance(1, 3) { return None; }
            let pool: Vec<&'static str> = words.iter().cloned().filter(|_| r.chance(1, 2)).collect();
            let mut v = pool;
            if !v.is_empty() && r.chance(1, 5) { let x = *r.pick(&v); v.push(x); }
            if r.chance(1, 5) { let x: &&'static str = r.pick(&unknown); v.push(x); }
            r.shuffle(&mut v);
            Some(v)
        };
        let w = gen(&mut h.rng); let b = gen(&mut h.rng);
        let text = eng::text(&mut h.rng);
        let log: eng::Log = Default::default();
        let parsers = eng::mocks(&mut h.rng, &text, &log);
        h.case(&format!("known {:?} whitelist {:?} blacklist {:?}", known, w, b), w.is_some() || b.is_some(), || {
            let meta = eng::metadata(&known.iter().map(|i| (*i, &[] as &[(&str, &str)])).collect::<Vec<_>>(), &[]);
            let mut quiet = parsers.clone();
            for p in quiet.iter_mut() { p.parse_err = false; p.slots.clear(); }
            let e = eng::engine(meta, quiet.clone(), std::sync::Arc::new(res::builtin_numbers()), std::sync::Arc::new(res::custom_dict(vec![])));
            let bad = w.iter().chain(b.iter()).flatten().any(|i| !known.contains(i));
            let got = e.get_intents_whitelist(w.clone(), b.clone());
            let want: Option<BTreeSet<&str>> = match (&w, &b) {
                (None, None) => None,
                _ => Some(known.iter().cloned().filter(|i| w.as_ref().map(|w| w.contains(i)).unwrap_or(true) && !b.as_ref().map(|b| b.contains(i)).unwrap_or(false)).collect()),
            };
            if bad {
                ensure(got.is_err(), format!("a filter with an unknown intent was accepted: {:?}", got))?;
                ensure(e.parse(&text, w.clone(), b.clone()).is_err(), "parse accepted a filter with an unknown intent")?;
                ensure(e.parse_with_alternatives(&text, w.clone(), b.clone(), 2, 1).is_err(), "parse_with_alternatives accepted a filter with an unknown intent")?;
                let l = log.lock().unwrap().clone();
                return ensure(l.is_empty(), format!("parsers were consulted before the filter was rejected: {:?}", l));
            }
            let got = got.map_err(|e| e.to_string())?;
            let set = got.as_ref().map(|g| g.iter().cloned().collect::<BTreeSet<_>>());
            expect_eq("filter", set, want.clone())?;
            // every parser is handed exactly this filter
            e.parse(&text, w.clone(), b.clone()).map_err(|e| e.to_string())?;
            for l in log.lock().unwrap().iter() {
                let id: usize = l.split(' ').nth(1).unwrap().parse().unwrap();
                expect_eq("what a parser was asked", l.clone(), format!("parse {} {:?} {:?}", id, text, want))?;
            }
            Ok(())
        });
        let a: Vec<u8> = (0..h.rng.range(0, 6)).map(|_| h.rng.below(5) as u8).collect();
        let c: Vec<u8> = (0..h.rng.range(0, 6)).map(|_| h.rng.below(5) as u8).collect();
        h.case(&format!("{:?} intersect {:?}", a, c), true, || {
            let got = a.clone().intersect(c.clone());
            expect_eq("intersection as a set", got.iter().cloned().collect::<BTreeSet<u8>>(), a.iter().cloned().filter(|x| c.contains(x)).collect())
        });
    }
    h.finish("random known intents, whitelists and blacklists with duplicates and unknown names; recording parsers");
}
