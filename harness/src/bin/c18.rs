use snips_nlu_lib::intent_parser::lookup_intent_parser::*;
use snips_nlu_lib::models::*;
use snips_nlu_lib::utils::MatchedEntity;
use std::collections::HashMap;
use vx_harness::*;

fn main() {
    let mut h = H::new();
    while h.more() {
        let text = gen_text(&mut h.rng, 8);
        let len = char_len(&text);
        let mut cur = 0;
        let mut ents: Vec<MatchedEntity> = vec![];
        for _ in 0..h.rng.range(0, 4) {
            if cur >= len { break; }
            let a = h.rng.range(cur, len.min(cur + 5)); if a >= len { break; }
            let b = h.rng.range(a + 1, len.min(a + 8));
            ents.push(MatchedEntity { range: a..b, entity_name: h.rng.pick(&["snips/number", "room", "é"]).to_string() }); cur = b;
        }
        let names: Vec<String> = (0..6).map(|i| format!("slot{}", i)).collect();
        let ids: Vec<i32> = ents.iter().map(|_| h.rng.below(6) as i32).collect();
        let intents: Vec<String> = eng::INTENTS.iter().map(|s| s.to_string()).collect();
        let id = h.rng.below(intents.len()) as i32;
        let filter: Option<Vec<&str>> = if h.rng.chance(1, 2) { Some(eng::INTENTS.iter().cloned().filter(|_| h.rng.chance(1, 2)).collect()) } else { None };
        h.case(&format!("text {:?} entities {:?} output ({}, {:?}) filter {:?}", text, ents, id, ids, filter), !ents.is_empty(), || {
            let model = LookupParserModel { language_code: "en".into(), slots_names: names.clone(), intents_names: intents.clone(), map: HashMap::new(), stop_words_whitelist: HashMap::new(), config: LookupParserConfig { ignore_stop_words: false }, entity_scopes: vec![] };
            let p = LookupIntentParser::new(model, res::shared(res::builtin_numbers(), res::custom_dict(vec![]), &[])).map_err(|e| e.to_string())?;
            let got = p.parse_map_output(&text, &(id, ids.clone()), ents.clone(), filter.as_ref().map(|f| &f[..]));
            let name = &intents[id as usize];
            if !filter.as_ref().map(|f| f.contains(&&**name)).unwrap_or(true) { return ensure(got.is_none(), "an excluded intent is returned"); }
            let got = got.ok_or("nothing is returned")?;
            expect_eq("intent", got.intent.intent_name, Some(name.clone()))?;
            let want: Vec<_> = ents.iter().zip(&ids).map(|(e, i)| (names[*i as usize].clone(), e.entity_name.clone(), e.range.clone(), char_sub(&text, e.range.start, e.range.end))).collect();
            expect_eq("slots", got.slots.into_iter().map(|s| (s.slot_name, s.entity, s.char_range, s.value)).collect::<Vec<_>>(), want)
        });
    }
    h.finish("random texts, entities and map outputs; non-trivial: at least one entity");
}
