use snips_nlu_lib::intent_parser::deterministic_intent_parser::*;
use snips_nlu_lib::intent_parser::lookup_intent_parser::LookupIntentParser;
use snips_nlu_lib::models::*;
use snips_nlu_ontology::BuiltinEntityKind;
use snips_nlu_utils::{language::Language as L, string::normalize, token::{tokenize, tokenize_light}};
use std::collections::{BTreeSet, HashMap};
use vx_harness::*;

const STOP: &[&str] = &["the", "of", "ete", "naive", "日本", "light", "x", "uber", "straße"];
const NAMES: &[&str] = &["intent", "other", "third"];
const ENTS: &[&str] = &["snips/number", "snips/musicArtist", "room", "Room", "snips/nope", "temp"];
const PATS: &[&str] = &["^make tea$", "^(?P<g0>%ROOM%)\\s+été$", "a|b", "^\\s*X\\s*$"];
fn main() {
    let mut h = H::new();
    while h.more() {
        let text = if h.rng.chance(1, 3) { let n = h.rng.range(0, 5); (0..n).map(|_| { let s: &&str = h.rng.pick(&["The", "Of", "été", "the ", "  ", "tea", "naïve,", "X", "%A%"]); s.to_string() }).collect() } else { gen_text(&mut h.rng, 9) };
        let enabled = h.rng.chance(4, 5);
        let r = &mut h.rng;
        let mut wl: HashMap<String, Vec<String>> = HashMap::new();
        for i in NAMES { if r.chance(1, 2) { wl.insert(i.to_string(), STOP.iter().filter(|_| r.chance(1, 3)).map(|s| s.to_string()).collect()); } }
        let stop: Vec<&str> = STOP.iter().cloned().filter(|_| r.chance(3, 4)).collect();
        let mut maps: HashMap<String, HashMap<String, String>> = HashMap::new();
        let mut pats: HashMap<String, Vec<String>> = HashMap::new();
        for i in NAMES {
            maps.insert(i.to_string(), (0..r.range(0, 4)).map(|k| { let e: &&str = r.pick(ENTS); (format!("s{}", k), e.to_string()) }).collect());
            let no_slot = maps[*i].is_empty();
            pats.insert(i.to_string(), (0..r.range(0, 3)).map(|_| { let e: &&str = r.pick(PATS); e.to_string() }).filter(|p| !no_slot || !p.contains("g0")).collect());
        }
        h.case(&format!("text {:?} stop words {:?} (ignored: {}) whitelists {:?} slots {:?} patterns {:?}", text, stop, enabled, wl, maps, pats), enabled && !text.is_empty(), || {
            let model = DeterministicParserModel { language_code: "en".into(), patterns: pats.clone(), group_names_to_slot_names: vec![("g0".to_string(), "s0".to_string())].into_iter().collect(), slot_names_to_entities: maps.clone(), stop_words_whitelist: wl.clone(), config: DeterministicParserConfig { ignore_stop_words: enabled } };
            let p = DeterministicIntentParser::new(model, res::shared(res::builtin_numbers(), res::custom_dict(vec![]), &stop)).map_err(|e| e.to_string())?;
            let lmodel = LookupParserModel { language_code: "en".into(), slots_names: vec![], intents_names: vec![], map: HashMap::new(), stop_words_whitelist: wl.clone(), config: LookupParserConfig { ignore_stop_words: enabled }, entity_scopes: vec![] };
            let l = LookupIntentParser::new(lmodel, res::shared(res::builtin_numbers(), res::custom_dict(vec![]), &stop)).map_err(|e| e.to_string())?;
            for i in NAMES.iter().chain(&["unknown"]) {
                let is_stop = |n: &String| enabled && stop.contains(&&**n) && !wl.get(*i).map(|w| w.contains(n)).unwrap_or(false);
                let mut want: Vec<char> = text.chars().map(|_| ' ').collect();
                let chars: Vec<char> = text.chars().collect();
                for t in tokenize(&text, L::EN) { if !is_stop(&t.normalized_value()) { for i in t.char_range.clone() { want[i] = chars[i]; } } }
                expect_eq(&format!("text prepared for {}", i), p.preprocess_text(&text, i), want.into_iter().collect::<String>())?;
                let light = tokenize_light(&text, L::EN).into_iter().filter(|t| !is_stop(&normalize(t))).collect::<Vec<_>>().join(" ").to_lowercase();
                expect_eq(&format!("text looked up for {}", i), l.preprocess_text(&text, i), light)?;
            }
            for i in NAMES {
                let got: Vec<(String, bool)> = p.regexes_per_intent.get(*i).map(|v| v.iter().map(|r| (r.as_str().to_string(), r.is_match("MAKE TEA") || r.is_match("%room% ÉTÉ") || r.is_match("B") || r.is_match(" x "))).collect()).unwrap_or_default();
                expect_eq(&format!("patterns of {}, matching whatever the case", i), got, pats[*i].iter().map(|s| (s.clone(), true)).collect())?;
                let (b, c) = p.entity_scopes.get(*i).cloned().ok_or("no entity scope")?;
                let all: BTreeSet<String> = maps[*i].values().cloned().collect();
                let kinds = all.iter().filter_map(|e| BuiltinEntityKind::from_identifier(e).ok()).map(|k| k.identifier().to_string()).collect::<BTreeSet<_>>();
                expect_eq("number of builtin kinds", b.len(), kinds.len())?;
                expect_eq("custom entities", c.iter().cloned().collect::<BTreeSet<_>>(), all.iter().filter(|e| BuiltinEntityKind::from_identifier(e).is_err()).cloned().collect())?;
                expect_eq("builtin kinds", b.iter().map(|k| k.identifier().to_string()).collect::<BTreeSet<_>>(), kinds)?;
            }
            Ok(())
        });
    }
    h.finish("random unicode texts, stop word sets, whitelists per intent, slot mappings and patterns, for both rule-based parsers; non-trivial: stop words enabled and a non-empty text");
}
