use snips_nlu_lib::entity_parser::CustomEntity;
use snips_nlu_lib::resources::stemmer::Stemmer;
use snips_nlu_lib::slot_filler::crf_utils::TaggingScheme;
use snips_nlu_lib::slot_filler::feature_processor::*;
use snips_nlu_lib::slot_filler::features::*;
use snips_nlu_lib::slot_filler::features_utils::*;
use snips_nlu_ontology::*;
use snips_nlu_utils::{language::Language as L, string::normalize, token::{tokenize, Token}};
use std::ops::Range;
use std::sync::{Arc, Mutex};
use vx_harness::*;

struct Stem;
impl Stemmer for Stem { fn stem(&self, v: &str) -> String { if v == "of" { "often".into() } else { v.trim_end_matches('s').to_string() } } }
fn overlap(a: &Range<usize>, b: &Range<usize>) -> bool { a.start < b.end && b.start < a.end }
fn prefix(scheme: usize, i: usize, idx: &[usize]) -> String {
    let (f, l) = (idx[0], idx[idx.len() - 1]);
    match scheme { 0 => "I-", 1 => if i == f { "B-" } else { "I-" }, _ => if idx.len() == 1 { "U-" } else if i == f { "B-" } else if i == l { "L-" } else { "I-" } }.to_string()
}
fn layout(tokens: &[Token]) -> String {
    let n = tokens.iter().map(|t| t.char_range.end).max().unwrap_or(0);
    let mut c = vec![' '; n];
    for t in tokens { for (k, x) in t.value.chars().enumerate() { c[t.char_range.start + k] = x; } }
    c.into_iter().collect()
}
fn main() {
    let mut h = H::new();
    while h.more() {
        let text = gen_text(&mut h.rng, 8);
        let tokens = tokenize(&text, L::EN);
        if tokens.is_empty() { continue; }
        let st = h.rng.below(3); // no stemmer, stemmer
        let scheme = h.rng.below(3);
        let i = h.rng.below(tokens.len());
        let lens: Vec<usize> = tokens.iter().map(|t| char_len(&if st > 0 { Stem.stem(&normalize(&t.value)) } else { normalize(&t.value) })).collect();
        let norm_len: usize = lens.iter().sum::<usize>() + lens.len() - 1;
        let raw_len = tokens.last().unwrap().char_range.end;
        let mut spans = |m: usize| -> Vec<(usize, usize)> { let mut v = vec![]; let mut cur = 0; while cur < m && v.len() < 4 { let a = h.rng.range(cur, m); let b = h.rng.range(a, m.min(a + 9)); if b > a { v.push((a, b)); } cur = b + 1; } v };
        let (cs, bs) = (spans(norm_len), spans(raw_len));
        let err = h.rng.chance(1, 25);
        h.case(&format!("token {} of {:?} stemmer {} scheme {} custom entities {:?} builtin entities {:?} error {}", i, text, st > 0, scheme, cs, bs, err), !cs.is_empty() || !bs.is_empty(), || {
            // ---- layout
            let stemmer: Option<Arc<dyn Stemmer>> = if st > 0 { Some(Arc::new(Stem)) } else { None };
            let t = transform_tokens(&tokens, stemmer.clone());
            expect_eq("number of tokens", t.len(), tokens.len())?;
            let (mut c, mut b) = (0, 0);
            for (k, x) in t.iter().enumerate() {
                let v = if st > 0 { Stem.stem(&normalize(&tokens[k].value)) } else { normalize(&tokens[k].value) };
                expect_eq("normalised token", x.value.clone(), v.clone())?;
                expect_eq("character range", x.char_range.clone(), c..c + char_len(&v))?;
                expect_eq("byte range", x.range.clone(), b..b + v.len())?;
                c += char_len(&v) + 1; b += v.len() + 1;
            }
            expect_eq("text rebuilt", initial_string_from_tokens(&tokens), layout(&tokens))?;
            expect_eq("normalised text", initial_string_from_tokens(&t), t.iter().map(|x| x.value.clone()).collect::<Vec<_>>().join(" "))?;
            // ---- matches
            let sch = || match scheme { 0 => TaggingScheme::IO, 1 => TaggingScheme::BIO, _ => TaggingScheme::BILOU };
            let log = Arc::new(Mutex::new(Vec::<String>::new()));
            let (l1, l2, cs2, bs2) = (log.clone(), log.clone(), cs.clone(), bs.clone());
            let cp = res::Custom(Box::new(move |s, k, n| { l1.lock().unwrap().push(format!("{:?} {:?} {}", s, k, n)); if err { return Err(failure::err_msg("x")); } Ok(cs2.iter().map(|(a, b)| CustomEntity { value: "v".into(), range: *a..*b, entity_identifier: "room".into(), resolved_value: "r".into(), alternative_resolved_values: vec![] }).collect()) }));
            let bp = res::Builtin(Box::new(move |s, k, _, n| { l2.lock().unwrap().push(format!("{:?} {:?} {}", s, k, n)); if err { return Err(failure::err_msg("x")); } Ok(bs2.iter().map(|(a, b)| BuiltinEntity { value: "v".into(), range: *a..*b, entity: SlotValue::Number(NumberValue { value: 1.0 }), alternatives: vec![], entity_kind: BuiltinEntityKind::Number }).collect()) }));
            let cf = CustomEntityMatchFeature { entity_name: "room".into(), tagging_scheme: sch(), opt_stemmer: stemmer, custom_entity_parser: Arc::new(cp) };
            let bf = BuiltinEntityMatchFeature { tagging_scheme: sch(), builtin_entity_kind: BuiltinEntityKind::Number, builtin_entity_parser: Arc::new(bp) };
            for (what, got, spans, toks, scope) in vec![("custom", cf.compute(&tokens, i), &cs, &t, format!("{:?}", Some(vec!["room"]))), ("builtin", bf.compute(&tokens, i), &bs, &tokens, format!("{:?}", Some(vec![BuiltinEntityKind::Number])))] {
                let q = log.lock().unwrap()[if what == "custom" { 0 } else { 1 }].clone();
                ensure(q.starts_with(&format!("{:?} {} ", layout(toks), scope)), format!("{} entities asked for {}", what, q))?;
                if err { ensure(got.is_err(), "the error of the entity parser was swallowed")?; continue; }
                let got = got.map_err(|e| e.to_string())?;
                let opts: Vec<String> = spans.iter().map(|(a, b)| *a..*b).filter(|r| overlap(r, &toks[i].char_range)).map(|r| { let idx: Vec<usize> = (0..toks.len()).filter(|k| overlap(&toks[*k].char_range, &r)).collect(); prefix(scheme, i, &idx) }).collect();
                match got { None => ensure(opts.is_empty(), format!("{}: no feature although an entity overlaps the token", what))?, Some(p) => ensure(opts.contains(&p), format!("{}: feature {:?}, expected one of {:?}", what, p, opts))? }
            }
            Ok(())
        });
    }
    h.finish("random texts, token positions, schemes and entity spans; non-trivial: at least one entity");
}
