//! Random deterministic and lookup parsers over the same intents, with the result known by construction.
use snips_nlu_lib::intent_parser::deterministic_intent_parser::DeterministicIntentParser;
use snips_nlu_lib::intent_parser::lookup_intent_parser::LookupIntentParser;
use snips_nlu_lib::models::*;
use snips_nlu_lib::slot_utils::InternalSlot;
use snips_nlu_utils::string::hash_str_to_i32;
use std::collections::{HashMap, HashSet};
use std::ops::Range;
use vx_harness::*;

#[derive(Debug, Clone)]
pub struct Intent { pub name: String, pub matches: bool, /// words that are slots, in order
    pub slots: Vec<usize>, pub extra: bool }
pub struct Case { pub words: Vec<(String, Option<&'static str>)>, pub input: String, pub intents: Vec<Intent>, pub filter: Option<HashSet<String>>, /// the slot each word fills: words with the same entity may share one
    pub slot_of: Vec<usize> }
pub const ENTITY: &[(&str, &str)] = &[("two", "snips/number"), ("42", "snips/number"), ("hot", "temp"), ("light", "room")];
pub fn gen(r: &mut Rng) -> Case {
    let n = r.range(1, 6);
    let words: Vec<(String, Option<&'static str>)> = (0..n).map(|_| if r.chance(1, 2) { let (w, e) = r.pick(ENTITY); (w.to_string(), Some(*e)) } else { (r.pick(&["make", "Été", "日本", "tea", "please"]).to_string(), None) }).collect();
    let input = words.iter().map(|w| w.0.clone()).collect::<Vec<_>>().join(" ");
    let m = if r.chance(1, 15) { r.range(9, 24) } else { r.range(1, 5) };
    let intents = (0..m).map(|i| {
        let matches = r.chance(3, 4);
        let slots: Vec<usize> = (0..n).filter(|k| words[*k].1.is_some() && r.chance(1, 2)).collect();
        Intent { name: format!("intent{}", i), matches, slots, extra: r.chance(1, 3) }
    }).collect::<Vec<_>>();
    let filter = if r.chance(1, 2) { Some((0..m).filter(|_| r.chance(2, 3)).map(|i| format!("intent{}", i)).collect()) } else { None };
    let mut slot_of: Vec<usize> = (0..n).collect();
    for k in 1..n { let j = r.below(k); if words[j].1.is_some() && words[j].1 == words[k].1 { slot_of[k] = slot_of[j]; } }
    Case { words, input, intents, filter, slot_of }
}
pub fn spans(s: &[InternalSlot]) -> Vec<(Range<usize>, String, String, String)> { s.iter().map(|s| (s.char_range.clone(), s.value.clone(), s.entity.clone(), s.slot_name.clone())).collect() }
impl Case {
    pub fn describe(&self) -> String { format!("input {:?} intents {:?} filter {:?} slots {:?}", self.input, self.intents, self.filter, self.slot_of) }
    pub fn filter(&self) -> Option<Vec<&str>> { self.filter.as_ref().map(|f| f.iter().map(|s| &**s).collect()) }
    pub fn allowed(&self, i: &str) -> bool { self.filter.as_ref().map(|f| f.contains(i)).unwrap_or(true) }
    /// (intent, words that are slots) of every matching intent allowed by the filter
    pub fn matching(&self, filter: Option<&HashSet<String>>) -> Vec<(String, Vec<usize>)> {
        self.intents.iter().filter(|i| i.matches && filter.map(|f| f.contains(&i.name)).unwrap_or(true)).map(|i| (i.name.clone(), i.slots.clone())).collect()
    }
    /// the lookup table has one intent per form: the last one that was given it
    pub fn in_lookup(&self, name: &str) -> bool {
        let i = self.intents.iter().position(|i| i.name == name).unwrap();
        !self.intents[i + 1..].iter().any(|o| o.matches && o.slots == self.intents[i].slots)
    }
    pub fn spans(&self, w: &(String, Vec<usize>)) -> Vec<(Range<usize>, String, String, String)> {
        let mut at = 0; let mut out = vec![];
        for (k, (t, e)) in self.words.iter().enumerate() {
            let l = char_len(t);
            if w.1.contains(&k) { out.push((at..at + l, t.clone(), e.unwrap().to_string(), format!("slot{}", self.slot_of[k]))); }
            at += l + 1;
        }
        out
    }
    pub fn parsers(&self) -> Result<(DeterministicIntentParser, LookupIntentParser), String> {
        let dict = vec![("temp".to_string(), "hot".to_string(), "Hot".to_string()), ("room".into(), "light".into(), "L".into())];
        let ph = |e: &str| format!("%{}%", snips_nlu_utils::token::tokenize_light(e, snips_nlu_utils::language::Language::EN).join("").to_uppercase());
        let (mut patterns, mut groups, mut n2e, mut map) = (HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new());
        for (i, it) in self.intents.iter().enumerate() {
            let mut p = String::from("^\\s*");
            let mut key = vec![];
            let mut s2e = HashMap::new();
            for (k, (w, e)) in self.words.iter().enumerate() {
                if k > 0 { p.push_str("\\s+"); }
                if it.slots.contains(&k) {
                    let g = format!("g{}x{}", i, k);
                    p.push_str(&format!("(?P<{}>{})", g, ph(e.unwrap())));
                    groups.insert(g, format!("slot{}", self.slot_of[k]));
                    s2e.insert(format!("slot{}", self.slot_of[k]), e.unwrap().to_string());
                    key.push(ph(e.unwrap()));
                } else {
                    // a word that is an entity may be a placeholder or a literal, but not both kinds in one text
                    let lit = if e.is_some() && !it.slots.is_empty() { ph(e.unwrap()) } else { w.clone() };
                    p.push_str(&format!("(?:{}|{})", regex::escape(&lit.to_lowercase()), regex::escape(&w.to_lowercase())));
                    if e.is_some() { s2e.insert(format!("unused{}", k), e.unwrap().to_string()); }
                    key.push(w.clone());
                }
            }
            p.push_str(if it.matches { "\\s*$" } else { "\\s+never\\s*$" });
            if !it.matches { key.push("never".into()); }
            let mut ps = vec![p];
            if it.extra { ps.insert(0, "^nothing like it$".to_string()); }
            patterns.insert(it.name.clone(), ps);
            n2e.insert(it.name.clone(), s2e);
            map.insert(hash_str_to_i32(&key.iter().flat_map(|k| snips_nlu_utils::token::tokenize_light(k, snips_nlu_utils::language::Language::EN)).collect::<Vec<_>>().join(" ").to_lowercase()), (i as i32, it.slots.iter().map(|k| self.slot_of[*k] as i32).collect::<Vec<i32>>()));
        }
        let shared = || res::shared(res::builtin_numbers(), res::custom_dict(dict.clone()), &[]);
        let d = DeterministicParserModel { language_code: "en".into(), patterns, group_names_to_slot_names: groups, slot_names_to_entities: n2e, stop_words_whitelist: HashMap::new(), config: DeterministicParserConfig { ignore_stop_words: false } };
        let names: Vec<String> = self.intents.iter().map(|i| i.name.clone()).collect();
        // a model may name an intent twice
        let mut listed = names.clone();
        if self.words.len() % 2 == 0 { listed.push(names[self.words.len() % names.len()].clone()); }
        let l = LookupParserModel { language_code: "en".into(), slots_names: (0..self.words.len()).map(|k| format!("slot{}", k)).collect(), intents_names: listed, map, stop_words_whitelist: HashMap::new(), config: LookupParserConfig { ignore_stop_words: false },
            entity_scopes: vec![GroupedEntityScope { intent_group: names, entity_scope: EntityScope { builtin: vec!["snips/number".into()], custom: vec!["temp".into(), "room".into()] } }] };
        Ok((DeterministicIntentParser::new(d, shared()).map_err(|e| e.to_string())?, LookupIntentParser::new(l, shared()).map_err(|e| e.to_string())?))
    }
}
