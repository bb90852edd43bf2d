use snips_nlu_lib::entity_parser::builtin_entity_parser::*;
use snips_nlu_lib::entity_parser::custom_entity_parser::*;
use snips_nlu_lib::entity_parser::utils::Cache;
use snips_nlu_ontology::*;
use snips_nlu_parsers::GazetteerParser;
use snips_nlu_utils::{language::Language as L, token::tokenize};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use vx_harness::*;

fn fb(s: &str, k: Option<&[BuiltinEntityKind]>, n: usize) -> Vec<BuiltinEntity> {
    let len = char_len(s);
    (0..(len + n) % 3).map(|i| BuiltinEntity { value: format!("{}|{:?}|{}|{}", s, k, n, i), range: 0..len, entity: SlotValue::Number(NumberValue { value: i as f64 }), alternatives: vec![], entity_kind: BuiltinEntityKind::Number }).collect()
}
fn fc(s: &str, k: Option<&[String]>, n: usize) -> Vec<CustomEntity> {
    let len = char_len(s);
    if len == 0 { return vec![]; }
    (0..1 + (len + n) % 2).map(|i| CustomEntity { value: format!("{}|{:?}|{}|{}", s, k, n, i), range: 0..len, entity_identifier: "e".into(), resolved_value: "r".into(), alternative_resolved_values: vec![] }).collect()
}
fn main() {
    let mut h = H::new();
    let texts = ["", "make tea", "Make TEA", "make  tea", "make, tea", "two", "TWO", "ÉTÉ", "été", "x", "make tea two", "日本", "make tea ", " make tea", "maketea", "make-tea", "ete", "make tea\t", "two words"];
    let kinds: Vec<Option<Vec<BuiltinEntityKind>>> = vec![None, Some(vec![]), Some(vec![BuiltinEntityKind::Number]), Some(vec![BuiltinEntityKind::Ordinal]), Some(vec![BuiltinEntityKind::Number, BuiltinEntityKind::Ordinal])];
    let names: Vec<Option<Vec<String>>> = vec![None, Some(vec![]), Some(vec!["a".into()]), Some(vec!["b".into()]), Some(vec!["a".into(), "b".into()])];
    while h.more() {
        let cap = *h.rng.pick(&[0usize, 1, 2, 3, 5, 1000]);
        let steps: Vec<(usize, usize, bool, usize, bool)> = (0..h.rng.range(2, 40)).map(|_| (h.rng.below(texts.len()), h.rng.below(5), h.rng.chance(4, 5), h.rng.below(4), h.rng.chance(1, 6))).collect();
        let few = h.rng.chance(1, 2);
        let few_t = [h.rng.below(texts.len()), h.rng.below(texts.len()), h.rng.below(texts.len())];
        let steps: Vec<_> = steps.into_iter().map(|(t, k, c, n, e)| if few { (few_t[t % 3], k % 3, c, n % 2, e) } else { (t, k, c, n, e) }).collect();
        h.case(&format!("capacity {} queries (text, scope, use_cache, alternatives, fails) {:?}", cap, steps), steps.len() > 3, || {
            let fail = Arc::new(AtomicBool::new(false));
            let (f1, f2) = (fail.clone(), fail.clone());
            let bp = CachingBuiltinEntityParser { parser: snips_nlu_parsers::BuiltinEntityParser { hook: Some(Box::new(move |s, k, n| if f1.load(SeqCst) { Err(failure::err_msg("x")) } else { Ok(fb(s, k, n)) })) }, cache: Mutex::new(Cache::new(cap)) };
            let cp = CachingCustomEntityParser { language: L::EN, parser: GazetteerParser { entries: vec![], hook: Some(Box::new(move |s, k, n| if f2.load(SeqCst) { Err(failure::err_msg("x")) } else { Ok(fc(s, k, n)) })) }, cache: Mutex::new(Cache::new(cap)) };
            for (q, (t, k, c, n, e)) in steps.iter().enumerate() {
                let s = texts[*t]; let low = s.to_lowercase();
                fail.store(*e, SeqCst);
                let got = bp.extract_entities(s, kinds[*k].as_ref().map(|v| &**v), *c, *n);
                match got {
                    Ok(v) => { if *e && !*c { return Err(format!("query {}: uncached builtin extraction swallowed an error", q)); } expect_eq(&format!("query {} builtin", q), v, fb(&low, kinds[*k].as_ref().map(|v| &**v), *n))? }
                    Err(_) => ensure(*e, format!("query {}: builtin extraction gives an error the parser did not raise", q))?,
                }
                let toks = tokenize(&low, L::EN);
                let joined = toks.iter().map(|t| t.value.clone()).collect::<Vec<_>>().join(" ");
                let mut want = fc(&joined, names[*k].as_ref().map(|v| &**v), *n);
                for w in want.iter_mut() { w.range = toks[0].char_range.start..toks[toks.len() - 1].char_range.end; }
                match cp.extract_entities(s, names[*k].as_ref().map(|v| &**v), *n) {
                    Ok(v) => expect_eq(&format!("query {} custom", q), v, want)?,
                    Err(_) => ensure(*e, format!("query {}: custom extraction gives an error the parser did not raise", q))?,
                }
            }
            // the cache itself: errors are reported and not kept
            let mut cache: Cache<String, usize> = Cache::new(cap);
            for (q, (t, _, _, n, e)) in steps.iter().enumerate() {
                let key = texts[*t].to_string();
                let v = t * 100;
                let called = Mutex::new(0);
                let r = cache.try_cache(&key, |k| { *called.lock().unwrap() += 1; if *k != key { return Err(failure::err_msg("wrong key")); } if *e { Err(failure::err_msg("x")) } else { Ok(v) } });
                let c = *called.lock().unwrap();
                match r { Ok(x) => { expect_eq(&format!("cache query {}", q), x, v)?; ensure(!*e || c == 0, "an error was swallowed")? } Err(_) => ensure(*e && c > 0, format!("cache query {}: unexpected error (alternatives {})", q, n))? }
            }
            Ok(())
        });
    }
    h.finish("random histories of queries over few texts, scopes, alternatives, cache capacities and failing parsers; non-trivial: more than 3 queries");
}
