use snips_nlu_lib::entity_parser::CustomEntity;
use snips_nlu_ontology::*;
use std::sync::{Arc, Mutex};
use vx_harness::*;

fn custom(s: &str) -> SlotValue { SlotValue::Custom(StringValue { value: s.to_string() }) }
fn main() {
    let mut h = H::new();
    while h.more() {
        let text = gen_text(&mut h.rng, 6);
        let len = char_len(&text);
        let (intent, slots) = *h.rng.pick(eng::MAPPINGS);
        let bad = h.rng.below(8);
        let intent = if bad == 0 { "Unknown" } else { intent };
        let all: Vec<&str> = vec!["n", "t", "x", "a", "r", "", "unknown"];
        let slot = if bad == 1 || slots.is_empty() { h.rng.pick(&all).to_string() } else { h.rng.pick(slots).0.to_string() };
        let n = h.rng.below(3);
        let spans: Vec<(usize, usize)> = (0..n).map(|_| { let a = h.rng.range(0, len); (a, h.rng.range(a, len)) }).collect();
        let alts = if h.rng.chance(1, 12) { h.rng.range(4, 40) } else { h.rng.below(4) };
        let err = h.rng.chance(1, 12);
        h.case(&format!("text {:?} intent {:?} slot {:?} alternatives {} matches {:?} parser fails {}", text, intent, slot, alts, spans, err), n > 0, || {
            let log = Arc::new(Mutex::new(Vec::<String>::new()));
            let (l1, l2) = (log.clone(), log.clone());
            let (s1, s2) = (spans.clone(), spans.clone());
            let (t1, t2) = (text.clone(), text.clone());
            let cp = res::Custom(Box::new(move |s, k, n| { l1.lock().unwrap().push(format!("custom {:?} {:?} {}", s, k, n)); if err { return Err(failure::err_msg("x")); }
                Ok(s1.iter().enumerate().map(|(i, (a, b))| CustomEntity { value: char_sub(&t1, *a, *b), range: *a..*b, entity_identifier: k.unwrap()[0].clone(), resolved_value: format!("R{}", i), alternative_resolved_values: (0..n).map(|k| format!("A{}{}", i, k)).collect() }).collect()) }));
            let bp = res::Builtin(Box::new(move |s, k, _, n| { l2.lock().unwrap().push(format!("builtin {:?} {:?} {}", s, k, n)); if err { return Err(failure::err_msg("x")); }
                Ok(s2.iter().enumerate().map(|(i, (a, b))| BuiltinEntity { value: char_sub(&t2, *a, *b), range: *a..*b, entity: SlotValue::Number(NumberValue { value: i as f64 }), alternatives: (0..n).map(|k| SlotValue::Number(NumberValue { value: (10 * i + k) as f64 })).collect(), entity_kind: k.unwrap()[0] }).collect()) }));
            let e = eng::engine(eng::metadata(eng::MAPPINGS, eng::CUSTOMS), vec![], Arc::new(bp), Arc::new(cp));
            let got = if alts == 0 { e.extract_slot(text.clone(), intent, &slot) } else { e.extract_slot_with_alternatives(text.clone(), intent, &slot, alts) };
            let entity = eng::MAPPINGS.iter().find(|m| m.0 == intent).and_then(|m| m.1.iter().find(|s| s.0 == slot)).map(|s| s.1);
            let lg = log.lock().unwrap().clone();
            let entity = match entity { Some(e) => e, None => { ensure(got.is_err(), "an unknown intent or slot is accepted")?; return expect_eq("queries", lg.len(), 0); } };
            let decl = eng::CUSTOMS.iter().find(|c| c.0 == entity);
            if decl.is_some() { expect_eq("queries", lg, vec![format!("custom {:?} {:?} {}", text, Some(vec![entity]), alts)])?; }
            else { expect_eq("queries", lg, vec![format!("builtin {:?} {:?} {}", text, Some(vec![BuiltinEntityKind::from_identifier(entity).unwrap()]), alts)])?; }
            if err { return ensure(got.is_err(), "the error of the entity parser was swallowed"); }
            let got = got.map_err(|e| e.to_string())?;
            let mut opts: Vec<Option<Slot>> = vec![];
            for (i, (a, b)) in spans.iter().enumerate() {
                let (value, alternatives) = if decl.is_some() { (custom(&format!("R{}", i)), (0..alts).map(|k| custom(&format!("A{}{}", i, k))).collect()) } else { (SlotValue::Number(NumberValue { value: i as f64 }), (0..alts).map(|k| SlotValue::Number(NumberValue { value: (10 * i + k) as f64 })).collect()) };
                opts.push(Some(Slot { raw_value: char_sub(&text, *a, *b), value, alternatives, range: *a..*b, entity: entity.to_string(), slot_name: slot.clone(), confidence_score: None }));
            }
            if opts.is_empty() { opts.push(match decl { Some((_, true)) => Some(Slot { raw_value: text.clone(), value: custom(&text), alternatives: vec![], range: 0..len, entity: entity.to_string(), slot_name: slot.clone(), confidence_score: None }), _ => None }); }
            ensure(opts.contains(&got), format!("slot: got {:?}, expected one of {:?}", got, opts))
        });
    }
    h.finish("random texts, intents, slots (known and unknown) and entity matches; non-trivial: at least one match");
}
