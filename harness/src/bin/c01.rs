use snips_nlu_lib::slot_filler::crf_utils::*;
use snips_nlu_utils::language::Language;
use snips_nlu_utils::token::tokenize;
use std::collections::HashMap;
use snips_nlu_lib::slot_filler::crf_slot_filler::CRFSlotFiller;
use snips_nlu_lib::slot_filler::feature_processor::ProbabilisticFeatureProcessor;
use snips_nlu_lib::slot_filler::SlotFiller;
use std::sync::Mutex;
use vx_harness::*;
fn b64(bytes: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in bytes.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { if i <= c.len() { o.push(A[(n >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') } }
    }
    o
}

const NAMES: &[&str] = &["a", "color", "é", "B-x", "O", "U-", "I-L-", ""];
pub fn scheme(k: usize) -> TaggingScheme { TaggingScheme::from_u8(k as u8).unwrap() }

/// reference decoding, from the definition of the schemes
fn segments(k: usize, tags: &[String]) -> Vec<(usize, usize)> {
    let tagged = |i: usize| tags[i] != "O";
    let boundary = |i: usize| match k {
        0 => false,
        1 => tags[i].starts_with("B-"),
        _ => tags[i].starts_with("B-") || tags[i].starts_with("U-") || tags[i - 1].starts_with("L-") || tags[i - 1].starts_with("U-"),
    };
    let mut out: Vec<(usize, usize)> = vec![];
    for i in 0..tags.len() {
        if !tagged(i) { continue; }
        if i > 0 && tagged(i - 1) && !boundary(i) { let n = out.len(); out[n - 1].1 = i; } else { out.push((i, i)); }
    }
    out
}
fn check(k: usize, text: &str, tags: &[String], mapping: &HashMap<String, String>) -> Result<(), String> {
    let tokens = tokenize(text, Language::EN);
    let got = tags_to_slots(text, &tokens, tags, scheme(k), mapping);
    let mut want = vec![];
    let mut missing = false;
    for (a, b) in segments(k, tags) {
        let name: String = tags[b].chars().skip(2).collect();
        match mapping.get(&name) {
            Some(e) => want.push((text[tokens[a].range.start..tokens[b].range.end].to_string(), tokens[a].char_range.start..tokens[b].char_range.end, e.clone(), name)),
            None => missing = true,
        }
    }
    let ranges: Vec<_> = tags_to_slot_ranges(&tokens, tags, scheme(k)).into_iter().map(|s| (s.range, s.char_range)).collect();
    let wr: Vec<_> = segments(k, tags).into_iter().map(|(a, b)| (tokens[a].range.start..tokens[b].range.end, tokens[a].char_range.start..tokens[b].char_range.end)).collect();
    expect_eq("tags_to_slot_ranges", ranges, wr)?;
    match got {
        Err(_) => ensure(missing, "error although every slot name has an entity mapping"),
        Ok(v) => {
            ensure(!missing, "no error although a slot name has no entity mapping")?;
            let g: Vec<_> = v.into_iter().map(|s| (s.value, s.char_range, s.entity, s.slot_name)).collect();
            expect_eq("tags_to_slots", g, want)
        }
    }
}
/// the same through the slot filler, the tagger answering these tags
fn filler(k: usize, text: &str, tags: &[String], mapping: &HashMap<String, String>) -> Result<(), String> {
    let tokens = tokenize(text, Language::EN);
    let fp = ProbabilisticFeatureProcessor::new(&[], res::shared(res::builtin_numbers(), res::custom_dict(vec![]), &[])).map_err(|e| e.to_string())?;
    let sf = CRFSlotFiller { language: snips_nlu_ontology::Language::EN, tagging_scheme: scheme(k), tagger: Some(Mutex::new(crfsuite::Tagger::default())), feature_processor: Some(fp), slot_name_mapping: mapping.clone() };
    crfsuite::PRESET.with(|p| *p.borrow_mut() = tags.iter().map(|t| b64(t.as_bytes())).collect());
    let got = sf.get_slots(text);
    let segs = segments(k, tags);
    if segs.iter().any(|&(_, b)| !mapping.contains_key(&tags[b].chars().skip(2).collect::<String>())) { return ensure(got.is_err(), "no error although a slot name has no entity mapping"); }
    let want: Vec<_> = segs.into_iter().map(|(a, b)| { let name: String = tags[b].chars().skip(2).collect(); (text[tokens[a].range.start..tokens[b].range.end].to_string(), tokens[a].char_range.start..tokens[b].char_range.end, mapping[&name].clone(), name) }).collect();
    expect_eq("slots of the CRF slot filler", got.map(|v| v.into_iter().map(|s| (s.value, s.char_range, s.entity, s.slot_name)).collect::<Vec<_>>()).map_err(|e| e.to_string()), Ok(want))
}
fn main() {
    let mut h = H::new();
    // every tag sequence up to length 4 over two slot names
    let text = "aé  bb, c 日";
    let n_tok = tokenize(text, Language::EN).len();
    let mapping: HashMap<String, String> = NAMES.iter().map(|n| (n.to_string(), format!("entity {}", n))).collect();
    for k in 0..3 {
        let prefixes: &[&str] = match k { 0 => &["I-"], 1 => &["B-", "I-"], _ => &["B-", "I-", "L-", "U-"] };
        let mut alphabet = vec!["O".to_string()];
        for p in prefixes { for n in &["a", "é"] { alphabet.push(format!("{}{}", p, n)); } }
        for len in 0..=n_tok.min(4) {
            let total = alphabet.len().pow(len as u32);
            let text: String = if len == n_tok { text.to_string() } else { let t = tokenize(text, Language::EN); if len == 0 { String::new() } else { text[..t[len - 1].range.end].to_string() } };
            for c in 0..total {
                if !h.within(0.6) { break; }
                let mut x = c;
                let tags: Vec<String> = (0..len).map(|_| { let t = alphabet[x % alphabet.len()].clone(); x /= alphabet.len(); t }).collect();
                h.case(&format!("scheme {} text {:?} tags {:?}", k, text, tags), tags.iter().any(|t| t != "O"), || check(k, &text, &tags, &mapping));
            }
        }
    }
    while h.more() {
        let k = h.rng.below(3);
        let text = gen_text(&mut h.rng, 9);
        let n = tokenize(&text, Language::EN).len();
        let prefixes: &[&str] = match k { 0 => &["I-"], 1 => &["B-", "I-"], _ => &["B-", "I-", "L-", "U-"] };
        let tags: Vec<String> = (0..n).map(|_| if h.rng.chance(1, 3) { "O".to_string() } else { let p: &&str = h.rng.pick(prefixes); let q: &&str = h.rng.pick(NAMES); format!("{}{}", p, q) }).collect();
        let mut m = mapping.clone();
        if h.rng.chance(1, 8) { let q: &&str = h.rng.pick(NAMES); m.remove(*q); }
        h.case(&format!("scheme {} text {:?} tags {:?} mapping keys {:?}", k, text, tags, { let mut v: Vec<_> = m.keys().collect(); v.sort(); v }), tags.iter().any(|t| t != "O"), || { check(k, &text, &tags, &m)?; filler(k, &text, &tags, &m) });
    }
    h.finish("every tag sequence up to length 4 over two slot names per scheme, then random unicode texts and tags; non-trivial: at least one tagged token");
}
