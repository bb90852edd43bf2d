use snips_nlu_lib::slot_filler::crf_slot_filler::*;
use snips_nlu_lib::slot_filler::crf_utils::*;
use snips_nlu_lib::slot_filler::feature_processor::ProbabilisticFeatureProcessor;
use snips_nlu_lib::slot_filler::SlotFiller;
use snips_nlu_ontology::Language;
use snips_nlu_utils::{language::Language as L, token::tokenize};
use std::collections::HashMap;
use std::sync::Mutex;
use vx_harness::*;

/// RFC 4648, written independently of the code under test and of the base64 stand-in
fn b64(bytes: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in bytes.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { if i <= c.len() { o.push(A[(n >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') } }
    }
    o
}
const TAGS: &[&str] = &["O", "B-room", "I-room", "L-room", "U-room", "B-été", "I-日本", "B-🙂", "", "o", "O ", "B-a b", "I-O", "\u{1}x", "B-rooms"];
fn main() {
    let mut h = H::new();
    while h.more() {
        let label: String = if h.rng.chance(1, 2) { let s: &&str = h.rng.pick(TAGS); s.to_string() } else { gen_text(&mut h.rng, 5) };
        h.case(&format!("label {:?}", label), true, || {
            expect_eq("encoded label", encode_tag(&label), b64(label.as_bytes()))?;
            expect_eq("decoded encoded label", decode_tag(&encode_tag(&label)).map_err(|e| e.to_string()), Ok(label.clone()))
        });
        let bad = match h.rng.below(4) { 0 => "a".to_string(), 1 => format!("{}*", b64(label.as_bytes())), 2 => b64(&[0xff, 0xfe, h.rng.below(256) as u8]), _ => b64(&[b'B', b'-', 0xc3]) };
        h.case(&format!("malformed encoded label {:?}", bad), true, || {
            match decode_tag(&bad) { Err(_) => Ok(()), Ok(x) => Err(format!("decoded to {:?} instead of an error", x)) }
        });
        // probability of a tag sequence
        let mut labels: Vec<String> = TAGS.iter().filter(|_| h.rng.chance(1, 3)).map(|s| s.to_string()).collect();
        h.rng.shuffle(&mut labels);
        if labels.is_empty() { labels.push("B-z".into()); }
        let n = h.rng.range(0, 6);
        let text: String = (0..n).map(|_| "word ").collect();
        let tags: Vec<String> = (0..n).map(|_| { let s: &&str = h.rng.pick(TAGS); if h.rng.chance(1, 2) && !labels.is_empty() { h.rng.pick(&labels).clone() } else { s.to_string() } }).collect();
        let with_tagger = h.rng.chance(3, 4);
        let all_out = h.rng.chance(1, 3);
        let tags = if all_out { tags.iter().map(|_| "O".to_string()).collect() } else { tags };
        let proba = h.rng.f01() as f64;
        let bad_label = with_tagger && h.rng.chance(1, 12);
        h.case(&format!("tagger {} labels {:?}{} tags {:?}", with_tagger, labels, if bad_label { " and a malformed one" } else { "" }, tags), n > 0, || {
            let sr = res::shared(res::builtin_numbers(), res::custom_dict(vec![]), &[]);
            let mut tagger = crfsuite::Tagger::default();
            tagger.labels = labels.iter().map(|l| b64(l.as_bytes())).collect();
            if bad_label { tagger.labels.push("****".into()); }
            let sf = CRFSlotFiller { language: Language::EN, tagging_scheme: TaggingScheme::BIO, tagger: if with_tagger { Some(Mutex::new(tagger)) } else { None },
                feature_processor: if with_tagger { Some(ProbabilisticFeatureProcessor::new(&[], sr).map_err(|e| e.to_string())?) } else { None }, slot_name_mapping: HashMap::new() };
            crfsuite::PROBA.with(|p| p.set(proba));
            crfsuite::PROBED.with(|p| p.borrow_mut().clear());
            let tokens = tokenize(&text, L::EN);
            let got = sf.get_sequence_probability(&tokens, tags.clone()).map_err(|e| e.to_string());
            if !with_tagger { return expect_eq("probability without tagger", got, Ok(if tags.iter().all(|t| t == "O") { 1.0 } else { 0.0 })); }
            if bad_label { return ensure(got.is_err(), format!("a malformed label of the tagger gave {:?}", got)); }
            expect_eq("probability", got, Ok(proba))?;
            let sub = if labels.iter().any(|l| l == "O") { "O".to_string() } else { labels[0].clone() };
            let want: Vec<String> = tags.iter().map(|t| b64(if labels.contains(t) { t } else { &sub }.as_bytes())).collect();
            expect_eq("tags sent to the tagger", crfsuite::PROBED.with(|p| p.borrow().clone()), want)?;
            let refs: Vec<&str> = labels.iter().map(|s| &**s).collect();
            expect_eq("substitution label", get_substitution_label(&refs).to_string(), sub)
        });
        // decoding of what the tagger answers
        let preset: Vec<String> = (0..3).map(|_| { let s: &&str = h.rng.pick(&["O", "B-room", "I-room", "B-été"]); s.to_string() }).collect();
        let bad = h.rng.chance(1, 8);
        h.case(&format!("tagger answers {:?}{}", preset, if bad { " and a malformed tag" } else { "" }), true, || {
            let sr = res::shared(res::builtin_numbers(), res::custom_dict(vec![]), &[]);
            let mut m = HashMap::new(); m.insert("room".to_string(), "room_e".to_string()); m.insert("été".to_string(), "ete".to_string());
            let sf = CRFSlotFiller { language: Language::EN, tagging_scheme: TaggingScheme::BIO, tagger: Some(Mutex::new(crfsuite::Tagger::default())), feature_processor: Some(ProbabilisticFeatureProcessor::new(&[], sr).map_err(|e| e.to_string())?), slot_name_mapping: m.clone() };
            crfsuite::PRESET.with(|p| { let mut v: Vec<String> = preset.iter().map(|t| b64(t.as_bytes())).collect(); if bad { v[1] = "!!".into(); } *p.borrow_mut() = v; });
            let r = sf.get_slots("aa bb cc").map_err(|e| e.to_string());
            if bad { return ensure(r.is_err(), format!("a malformed tag gave {:?}", r)); }
            let want = tags_to_slots("aa bb cc", &tokenize("aa bb cc", L::EN), &preset, TaggingScheme::BIO, &m).map_err(|e| e.to_string())?;
            expect_eq("slots", r, Ok(want))
        });
    }
    h.finish("random labels and malformed encodings, and tag sequences sent to a recording tagger with random label sets");
}
