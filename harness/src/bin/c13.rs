use regex::RegexBuilder;
use snips_nlu_lib::intent_parser::deterministic_intent_parser::*;
use snips_nlu_lib::models::*;
use snips_nlu_lib::utils::*;
use std::collections::HashMap;
use std::ops::Range;
use vx_harness::*;

fn main() {
    let mut h = H::new();
    while h.more() {
        // ---- get_range_shift on arbitrary mappings of disjoint ordered placeholders
        let (mut o, mut r) = (0usize, 0usize);
        let mut pairs: Vec<(Range<usize>, Range<usize>)> = vec![];
        for _ in 0..h.rng.range(0, 6) {
            let gap = h.rng.range(0, 4); o += gap; r += gap;
            let (lo, lr) = (h.rng.range(1, 12), h.rng.range(1, 16));
            pairs.push((r..r + lr, o..o + lo)); o += lo; r += lr;
        }
        let a = h.rng.range(0, r + 5); let b = a + h.rng.range(1, 5);
        let mapping: HashMap<Range<usize>, Range<usize>> = pairs.iter().cloned().collect();
        h.case(&format!("get_range_shift of {:?} with {:?}", a..b, pairs), !pairs.is_empty(), || {
            let want = pairs.iter().filter(|p| p.0.end <= a).last().map(|p| p.1.end as i32 - p.0.end as i32).unwrap_or(0);
            expect_eq("shift", get_range_shift(&(a..b), &mapping), want)
        });
        // ---- a whole match: input built from literals, entity words and free words
        let nseg = h.rng.range(1, 5);
        let (mut input, mut matched, mut pattern, mut slots) = (String::new(), vec![], String::from("^\\s*"), vec![]);
        let mut group_names = HashMap::new();
        let mut slot_to_entity = HashMap::new();
        for i in 0..nseg {
            if i > 0 { let k = h.rng.range(1, 2); for _ in 0..k { input.push(' '); } pattern.push_str("\\s+"); }
            let kind = h.rng.below(3);
            let w: &&str = h.rng.pick(&["make", "Éte", "日本", "naïve", "light", "a"]);
            let start = char_len(&input);
            if kind == 0 { input.push_str(w); pattern.push_str(&regex::escape(&w.to_lowercase())); continue; }
            let word = if h.rng.chance(1, 2) { w.to_string() } else { let x: &&str = h.rng.pick(&["two", "Blink 182", "living room", "x"]); x.to_string() };
            input.push_str(&word);
            let end = char_len(&input);
            let (entity, sub) = if kind == 1 { let e: &&str = h.rng.pick(&["snips/number", "room", "musicArtistOfTheDay"]); matched.push(MatchedEntity { range: start..end, entity_name: e.to_string() }); (e.to_string(), get_entity_placeholder(e)) } else { ("free".to_string(), word.clone()) };
            let as_slot = h.rng.chance(3, 4);
            if as_slot {
                let g = format!("group{}", i);
                let gname = if h.rng.chance(1, 2) { if h.rng.chance(1, 3) { format!("{}_{}_{}", g, h.rng.below(20), i) } else { format!("{}_{}", g, h.rng.below(20)) } } else { g.clone() };
                let s = format!("slot{}", i);
                group_names.insert(g, s.clone());
                slot_to_entity.insert(s.clone(), entity.clone());
                pattern.push_str(&format!("(?P<{}>{})", gname, regex::escape(&sub)));
                slots.push((start..end, entity, s));
            } else { pattern.push_str(&regex::escape(&sub)); }
        }
        pattern.push_str("\\s*$");
        let mut n2e = HashMap::new();
        n2e.insert("intent".to_string(), slot_to_entity);
        let mut patterns = HashMap::new();
        patterns.insert("intent".to_string(), vec![pattern.clone()]);
        let input_desc = format!("input {:?} entities {:?} pattern {:?}", input, matched, pattern);
        h.case(&input_desc, !slots.is_empty(), || {
            let model = DeterministicParserModel { language_code: "en".into(), patterns, group_names_to_slot_names: group_names, slot_names_to_entities: n2e, stop_words_whitelist: HashMap::new(), config: DeterministicParserConfig { ignore_stop_words: false } };
            let p = DeterministicIntentParser::new(model, res::shared(res::builtin_numbers(), res::custom_dict(vec![]), &[])).map_err(|e| e.to_string())?;
            let (mapping, formatted) = replace_entities(&input, matched.clone(), get_entity_placeholder);
            let rx = RegexBuilder::new(&pattern).case_insensitive(true).build().unwrap();
            let r = p.get_matching_result(&input, &formatted, &rx, "intent", Some(&mapping)).ok_or("no match")?;
            expect_eq("intent", r.intent.intent_name, Some("intent".to_string()))?;
            let got: Vec<_> = r.slots.into_iter().map(|s| (s.char_range, s.entity, s.slot_name, s.value)).collect();
            let want: Vec<_> = slots.into_iter().map(|(r, e, s)| (r.clone(), e, s, char_sub(&input, r.start, r.end))).collect();
            expect_eq("slots", got, want)?;
            // without placeholders the match is reported where it is
            let lit = RegexBuilder::new(&format!("(?P<g_1>{})", regex::escape(&input))).case_insensitive(true).build().unwrap();
            let mut q = p;
            q.group_names_to_slot_names.insert("g".into(), "all".into());
            q.slot_names_to_entities.get_mut("intent").unwrap().insert("all".into(), "any".into());
            let r = q.get_matching_result(&input, &input, &lit, "intent", None).ok_or("no match")?;
            let got: Vec<_> = r.slots.into_iter().map(|s| (s.char_range, s.entity, s.slot_name, s.value)).collect();
            expect_eq("literal slots", got, vec![(0..char_len(&input), "any".to_string(), "all".to_string(), input.clone())])
        });
        // ---- the whole parser on literal patterns: stop words are left out of the match but not of the slots, entities of the text do not move them
        let n = h.rng.range(1, 7);
        let words: Vec<&str> = (0..n).map(|_| *h.rng.pick(&["make", "Éte", "the", "日本", "two", "of", "light", "42", "naïve"])).collect();
        let stop = ["the", "of", "naive"];
        let is_stop = |w: &str| stop.contains(&&*snips_nlu_utils::string::normalize(w));
        let (mut input, mut at) = (String::new(), vec![]);
        for w in &words { let s = char_len(&input); input.push_str(w); at.push((s, char_len(&input))); for _ in 0..h.rng.range(1, 2) { input.push(' '); } }
        let kept: Vec<usize> = (0..n).filter(|i| !is_stop(words[*i])).collect();
        if !kept.is_empty() {
            let a = h.rng.below(kept.len()); let b = h.rng.range(a, kept.len() - 1);
            let mut pattern = String::from("^\\s*");
            for (k, i) in kept.iter().enumerate() { if k > 0 { pattern.push_str("\\s+"); } if k == a { pattern.push_str("(?P<g_0>"); } pattern.push_str(&regex::escape(&words[*i].to_uppercase())); if k == b { pattern.push_str(")"); } }
            pattern.push_str("\\s*$");
            let (s, e) = (at[kept[a]].0, at[kept[b]].1);
            h.case(&format!("input {:?} stop words {:?} pattern {:?}", input, stop, pattern), b < kept.len() - 1, || {
                let mut patterns = HashMap::new(); patterns.insert("intent".to_string(), vec![pattern.clone()]);
                let one = |a: &str, b: &str| -> HashMap<String, String> { vec![(a.to_string(), b.to_string())].into_iter().collect() };
                let mut n2e = HashMap::new(); let mut s2e = one("all", "any"); s2e.insert("unused".to_string(), "snips/number".to_string());
                n2e.insert("intent".to_string(), s2e);
                let model = DeterministicParserModel { language_code: "en".into(), patterns, group_names_to_slot_names: one("g", "all"), slot_names_to_entities: n2e, stop_words_whitelist: HashMap::new(), config: DeterministicParserConfig { ignore_stop_words: true } };
                let p = DeterministicIntentParser::new(model, res::shared(res::builtin_numbers(), res::custom_dict(vec![]), &stop)).map_err(|e| e.to_string())?;
                let got: Vec<_> = snips_nlu_lib::intent_parser::IntentParser::get_slots(&p, &input, "intent").map_err(|e| e.to_string())?.into_iter().map(|s| (s.char_range, s.entity, s.slot_name, s.value)).collect();
                expect_eq("literal slots", got, vec![(s..e, "any".to_string(), "all".to_string(), char_sub(&input, s, e))])
            });
        }
    }
    h.finish("random placeholder mappings for the shift, and random inputs of literal words, placeholders and free words matched by a generated pattern; non-trivial: at least one placeholder / slot");
}
