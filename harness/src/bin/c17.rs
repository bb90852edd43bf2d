use snips_nlu_lib::intent_parser::lookup_intent_parser::*;
use snips_nlu_lib::models::*;
use snips_nlu_lib::utils::MatchedEntity;
use snips_nlu_utils::{language::Language as L, string::normalize, token::tokenize_light};
use std::collections::{HashMap, HashSet};
use vx_harness::*;

fn placeholder(e: &str) -> String { format!("%{}%", tokenize_light(e, L::EN).join("").to_uppercase()) }
fn main() {
    let mut h = H::new();
    // ---- subsets of up to 12 items, every size
    for n in 0..=(if h.thorough { 16 } else { 12 }) {
        h.case(&format!("get_items_combinations of 0..{}", n), n > 1, || {
            let got = get_items_combinations((0..n).collect::<Vec<usize>>());
            ensure(got.first().map(|c| c.is_empty()).unwrap_or(false), "the first combination is not the empty one")?;
            ensure(got[1..].windows(2).all(|w| w[0].len() >= w[1].len()), "the combinations are not from the largest to the smallest")?;
            ensure(got.iter().all(|c| c.windows(2).all(|w| w[0] < w[1])), "a combination does not keep the order of the items")?;
            let set: HashSet<&Vec<usize>> = got.iter().collect();
            expect_eq("number of distinct combinations", set.len(), 1usize << n)?;
            expect_eq("number of combinations", got.len(), 1usize << n)
        });
    }
    while h.more() {
        // items that compare equal are still different items
        let m = h.rng.range(0, 6);
        let items: Vec<usize> = (0..m).map(|_| h.rng.below(3)).collect();
        h.case(&format!("get_items_combinations of {:?}", items), m > 1, || {
            let got = get_items_combinations(items.clone());
            let mut want: Vec<Vec<usize>> = (0..1usize << m).map(|b| (0..m).filter(|i| b >> i & 1 == 1).map(|i| items[i]).collect()).collect();
            let mut g = got.clone(); g.sort(); want.sort();
            expect_eq("combinations", g, want)
        });
        // ---- candidates of a whole parser
        let text = eng::text(&mut h.rng);
        let nscope = h.rng.range(1, 3);
        let scopes: Vec<(Vec<String>, Vec<String>, Vec<String>)> = (0..nscope).map(|_| {
            let g: Vec<String> = eng::INTENTS.iter().filter(|_| h.rng.chance(1, 2)).map(|s| s.to_string()).collect();
            let b = if h.rng.chance(1, 2) { vec!["snips/number".to_string()] } else { vec![] };
            let c: Vec<String> = ["temp", "room", "ext"].iter().filter(|_| h.rng.chance(1, 2)).map(|s| s.to_string()).collect();
            (g, b, c)
        }).collect();
        let stop: Vec<&str> = ["x", "tea", "make"].iter().cloned().filter(|_| h.rng.chance(1, 2)).collect();
        let white: HashMap<String, Vec<String>> = { let r = &mut h.rng; let mut m = HashMap::new(); for i in eng::INTENTS { if r.chance(1, 2) { m.insert(i.to_string(), ["x", "tea"].iter().filter(|_| r.chance(1, 2)).map(|s| s.to_string()).collect()); } } m };
        let ignore = h.rng.chance(3, 4);
        let filter: Option<Vec<&str>> = if h.rng.chance(1, 2) { Some(eng::INTENTS.iter().cloned().filter(|_| h.rng.chance(1, 2)).collect()) } else { None };
        h.case(&format!("candidates of {:?}: scopes {:?} stop words {:?} ({}) whitelist {:?} filter {:?}", text, scopes, stop, ignore, white, filter), !text.is_empty(), || {
            let model = LookupParserModel { language_code: "en".into(), slots_names: vec![], intents_names: vec![], map: HashMap::new(), stop_words_whitelist: white.clone(), config: LookupParserConfig { ignore_stop_words: ignore },
                entity_scopes: scopes.iter().map(|(g, b, c)| GroupedEntityScope { intent_group: g.clone(), entity_scope: EntityScope { builtin: b.clone(), custom: c.clone() } }).collect() };
            let p = LookupIntentParser::new(model, res::shared(res::builtin_numbers(), res::custom_dict(eng::dict()), &stop)).map_err(|e| e.to_string())?;
            let got = p.get_candidates(&text, filter.as_ref().map(|f| &f[..])).map_err(|e| e.to_string())?;
            let got: Vec<(String, Vec<(usize, usize, String)>)> = got.into_iter().map(|(t, es)| (t, es.into_iter().map(|e| (e.range.start, e.range.end, e.entity_name)).collect())).collect();
            let clean = |s: &str, i: &str| -> String { tokenize_light(s, L::EN).into_iter().filter(|t| { let n = normalize(t); !(ignore && stop.contains(&&*n) && !white.get(i).map(|w| w.contains(&n)).unwrap_or(false)) }).collect::<Vec<_>>().join(" ").to_lowercase() };
            let mut want = HashSet::new();
            for (g, b, c) in &scopes {
                let g: Vec<&String> = g.iter().filter(|i| filter.as_ref().map(|f| f.contains(&&***i)).unwrap_or(true)).collect();
                if g.is_empty() { continue; }
                let all: Vec<MatchedEntity> = p.get_all_entities(&text, &EntityScope { builtin: b.clone(), custom: c.clone() }).map_err(|e| e.to_string())?;
                for bits in 0..1usize << all.len() {
                    let sub: Vec<&MatchedEntity> = (0..all.len()).filter(|i| bits >> i & 1 == 1).map(|i| &all[i]).collect();
                    let chars: Vec<char> = text.chars().collect();
                    let (mut t, mut cur) = (String::new(), 0);
                    for e in &sub { t.extend(&chars[cur..e.range.start]); t.push_str(&placeholder(&e.entity_name)); cur = e.range.end; }
                    t.extend(&chars[cur..]);
                    for i in &g { want.insert((clean(&text, i), vec![])); want.insert((clean(&t, i), sub.iter().map(|e| (e.range.start, e.range.end, e.entity_name.clone())).collect::<Vec<_>>())); }
                }
            }
            let set: HashSet<_> = got.iter().cloned().collect();
            expect_eq("number of distinct candidates", set.len(), got.len())?;
            if let Some(x) = set.difference(&want).next() { return Err(format!("unexpected candidate {:?}", x)); }
            if let Some(x) = want.difference(&set).next() { return Err(format!("missing candidate {:?}", x)); }
            if scopes.len() == 1 { ensure(got.windows(2).all(|w| w[0].1.is_empty() || w[0].1.len() >= w[1].1.len() || w[1].1.is_empty()), "candidates are not tried from the largest to the smallest set of entities")?; ensure(got.first().map(|c| c.1.is_empty()).unwrap_or(true), "the first candidate has entities")?; }
            // the entities considered: those of the scope, none overlapping
            for (_, b, c) in &scopes {
                let all = p.get_all_entities(&text, &EntityScope { builtin: b.clone(), custom: c.clone() }).map_err(|e| e.to_string())?;
                ensure(all.iter().all(|e| b.contains(&e.entity_name) || c.contains(&e.entity_name)), "an entity outside the scope is considered")?;
                ensure(all.windows(2).all(|w| w[0].range.end <= w[1].range.start), "the entities considered overlap or are out of order")?;
            }
            Ok(())
        });
    }
    h.finish("all subsets of up to 12 items (16 in the thorough tier), random multisets, and the candidates of random lookup parsers; non-trivial: at least two items / a non-empty text");
}
