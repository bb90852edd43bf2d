use snips_nlu_lib::intent_classifier::CooccurrenceVectorizer;
use snips_nlu_lib::models::*;
use snips_nlu_utils::{language::Language as L, token::tokenize_light};
use std::collections::HashSet;
use vx_harness::*;

fn pairs(tokens: &[String], stop: Option<&[&str]>, unknown: &Option<String>, window: Option<usize>, keep: bool) -> HashSet<(String, String)> {
    let kept: Vec<&String> = tokens.iter().filter(|t| !stop.map(|s| s.contains(&&***t)).unwrap_or(false) && Some(*t) != unknown.as_ref()).collect();
    let mut out = HashSet::new();
    for i in 0..kept.len() { for j in i + 1..kept.len() {
        if window.map(|w| j - i <= w).unwrap_or(true) { let (a, b) = (kept[i].clone(), kept[j].clone()); out.insert(if keep || a <= b { (a, b) } else { (b, a) }); }
    } }
    out
}
fn main() {
    let mut h = H::new();
    let ws = ["tea", "make", "of", "the", "Zoo", "été", "UNK", "two", "日本", "a"];
    while h.more() {
        let tokens: Vec<String> = (0..h.rng.range(0, 9)).map(|_| h.rng.pick(&ws).to_string()).collect();
        let stop: Vec<&str> = ["of", "the", "a"].iter().cloned().filter(|_| h.rng.chance(2, 3)).collect();
        let filter = h.rng.chance(1, 2);
        let unknown = if h.rng.chance(1, 2) { Some("UNK".to_string()) } else { None };
        let window = if h.rng.chance(2, 3) { Some(if h.rng.chance(1, 12) { std::usize::MAX - h.rng.below(3) } else { h.rng.range(0, 5) }) } else { None };
        let keep = h.rng.chance(1, 2);
        let mut text = gen_text(&mut h.rng, 7);
        if h.rng.chance(1, 2) { text.push_str(" hot light the tea"); }
        // known pairs: some of the extracted ones, some others
        let ext: Vec<(String, String)> = { let mut v: Vec<_> = pairs(&tokenize_light(&enriched(&text), L::EN), if filter { Some(&stop) } else { None }, &unknown, window, keep).into_iter().collect(); v.sort(); v };
        let mut known: Vec<(String, String)> = ext.into_iter().filter(|_| h.rng.chance(1, 2)).collect();
        known.push(("tea".into(), "zzz".into())); known.push(("of".into(), "the".into())); known.sort(); known.dedup();
        h.rng.shuffle(&mut known);
        // an index beyond the number of pairs
        let beyond = if h.rng.chance(1, 20) { Some(known.len() + 1 + h.rng.below(2)) } else { None };
        h.case(&format!("tokens {:?} text {:?} stop words {:?} ({}) unknown {:?} window {:?} keep order {} known pairs {:?} an index beyond {:?}", tokens, text, stop, filter, unknown, window, keep, known, beyond), tokens.len() > 1, || {
            let model = CooccurrenceVectorizerModel { language_code: "en".into(), builtin_entity_scope: vec!["snips/number".into()], word_pairs: known.iter().cloned().enumerate().chain(beyond.map(|k| (k, ("beyond".to_string(), "zzz".to_string())))).collect(), config: CooccurrenceVectorizerConfiguration { window_size: window, filter_stop_words: filter, keep_order: keep, unknown_words_replacement_string: unknown.clone() } };
            let v = CooccurrenceVectorizer::new(model, res::shared(res::builtin_numbers(), res::custom_dict(dict()), &stop));
            if beyond.is_some() { return ensure(v.is_err(), "a pair whose index is beyond the vector was accepted"); }
            let v = v.map_err(|e| e.to_string())?;
            let sw = if filter { Some(&stop[..]) } else { None };
            let got = v.extract_word_pairs(tokens.clone());
            let want = pairs(&tokens, sw, &unknown, window, keep);
            ensure(got == want, format!("pairs {:?}, expected {:?}", got, want))?;
            let ext = pairs(&tokenize_light(&enriched(&text), L::EN), sw, &unknown, window, keep);
            let want: Vec<f32> = known.iter().map(|p| if ext.contains(p) { 1.0 } else { 0.0 }).collect();
            expect_eq("feature vector", v.transform(&text).map_err(|e| e.to_string())?, want)
        });
    }
    h.finish("random token lists, texts, windows, orders, stop words and known pairs; non-trivial: at least two tokens");
}
fn dict() -> Vec<(String, String, String)> { vec![("temp".into(), "hot".into(), "H".into()), ("room".into(), "light".into(), "L".into())] }
/// entities replaced by their upper-case names
fn enriched(text: &str) -> String {
    let mut ents = vec![];
    for w in &["two", "42", "7", "twenty"] { for r in res::find_words(text, w) { ents.push((r, "SNIPSNUMBER")); } }
    for (e, w) in &[("TEMP", "hot"), ("ROOM", "light")] { for r in res::find_words(text, w) { ents.push((r, *e)); } }
    ents.sort();
    let c: Vec<char> = text.chars().collect();
    let (mut out, mut cur) = (String::new(), 0);
    for ((a, b), e) in ents { out.extend(&c[cur..a]); out.push_str(e); cur = b; }
    out.extend(&c[cur..]);
    out
}
