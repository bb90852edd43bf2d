use snips_nlu_lib::entity_parser::custom_entity_parser::*;
use snips_nlu_lib::entity_parser::utils::Cache;
use snips_nlu_parsers::{GazetteerEntityMatch, GazetteerParser};
use snips_nlu_utils::{language::Language as L, token::tokenize};
use std::sync::{Arc, Mutex};
use vx_harness::*;

fn main() {
    let mut h = H::new();
    while h.more() {
        let text = if h.rng.chance(1, 10) { let t = gen_text(&mut h.rng, 6); let mut s = String::new(); for _ in 0..h.rng.range(1, 5) { s.push_str("  - "); s.push_str(&t); } s } else { gen_text(&mut h.rng, 8) };
        let cached = h.rng.chance(1, 2);
        let sentence = if cached { text.to_lowercase() } else { text.clone() };
        let toks = tokenize(&sentence, L::EN);
        // spans over characters of the joined sentence: first and last character belong to tokens
        let mut pos = vec![]; // joined position -> position in the sentence (None: separating space)
        for (i, t) in toks.iter().enumerate() { if i > 0 { pos.push(None); } for c in t.char_range.clone() { pos.push(Some(c)); } }
        let spans: Vec<(usize, usize)> = if pos.is_empty() { vec![] } else {
            (0..h.rng.range(0, 5)).filter_map(|_| {
                let starts: Vec<usize> = (0..pos.len()).filter(|i| pos[*i].is_some() && (*i == 0 || pos[*i - 1].is_none())).collect();
                let a = if h.rng.chance(5, 6) { *h.rng.pick(&starts) } else { h.rng.below(pos.len()) };
                let ends: Vec<usize> = (a..pos.len()).filter(|i| pos[*i].is_some() && (*i + 1 == pos.len() || pos[*i + 1].is_none())).collect();
                let b = if ends.is_empty() { return None } else if h.rng.chance(5, 6) { *h.rng.pick(&ends) } else { h.rng.range(a, pos.len() - 1) };
                if pos[a].is_some() && pos[b].is_some() { Some((a, b + 1)) } else { None }
            }).collect() };
        let n = h.rng.below(4);
        let scope: Option<Vec<String>> = h.rng.pick(&[None, Some(vec![]), Some(vec!["a".to_string()])]).clone();
        let err = h.rng.chance(1, 30);
        h.case(&format!("sentence {:?} matches in the joined tokens {:?} through the cache {} scope {:?} alternatives {} error {}", sentence, spans, cached, scope, n, err), !spans.is_empty() && sentence.contains("  "), || {
            let log = Arc::new(Mutex::new(vec![]));
            let (l, sp) = (log.clone(), spans.clone());
            let joined = toks.iter().map(|t| t.value.clone()).collect::<Vec<_>>().join(" ");
            let j2 = joined.clone();
            let mk = move |j: &str, i: usize, a: usize, b: usize| GazetteerEntityMatch { value: char_sub(j, a, b), range: a..b, entity_identifier: format!("e{}", i), resolved_value: format!("R{}", i), alternative_resolved_values: vec![format!("A{}", i)] };
            let mk2 = mk.clone();
            let cp = CachingCustomEntityParser { language: L::EN, parser: GazetteerParser { entries: vec![], hook: Some(Box::new(move |s: &str, k: Option<&[String]>, n| { l.lock().unwrap().push(format!("{:?} {:?} {}", s, k, n)); if err { return Err(failure::err_msg("x")); } Ok(sp.iter().enumerate().map(|(i, (a, b))| mk2(&j2, i, *a, *b)).collect()) })) }, cache: Mutex::new(Cache::new(10)) };
            let got = if cached { cp.extract_entities(&text, scope.as_ref().map(|v| &**v), n) } else { cp._extract_entities(&sentence, scope.as_ref().map(|v| &**v), n) };
            let asked = log.lock().unwrap().clone();
            expect_eq("the parser was asked", asked, vec![format!("{:?} {:?} {}", joined, scope, n)])?;
            if err { return ensure(got.is_err(), "the error of the parser was swallowed"); }
            let got = got.map_err(|e| e.to_string())?;
            let want: Vec<CustomEntity> = spans.iter().enumerate().map(|(i, (a, b))| { let mut m = mk(&joined, i, *a, *b); m.range = pos[*a].unwrap()..pos[*b - 1].unwrap() + 1; m }).collect();
            expect_eq("matches", got, want)
        });
    }
    h.finish("random sentences with irregular spacing and punctuation, random matches on token characters; non-trivial: matches in a sentence with irregular spacing");
}
