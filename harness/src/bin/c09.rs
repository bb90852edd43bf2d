use snips_nlu_lib::entity_parser::CustomEntity;
use snips_nlu_lib::models::Entity;
use snips_nlu_lib::slot_utils::*;
use snips_nlu_ontology::*;
use std::sync::{Arc, Mutex};
use vx_harness::*;

fn val(k: usize) -> SlotValue { if k % 2 == 0 { SlotValue::Number(NumberValue { value: k as f64 }) } else { SlotValue::Ordinal(OrdinalValue { value: k as i64 }) } }
fn custom(s: &str) -> SlotValue { SlotValue::Custom(StringValue { value: s.to_string() }) }
fn main() {
    let mut h = H::new();
    while h.more() {
        let text = gen_text(&mut h.rng, 8);
        let len = char_len(&text);
        let a = h.rng.range(0, len); let b = h.rng.range(a, len.min(a + 6));
        let is_custom = h.rng.chance(1, 2);
        let kinds = [BuiltinEntityKind::Number, BuiltinEntityKind::Ordinal];
        let entity = if is_custom { h.rng.pick(&["room", "é ", "snips/number"]).to_string() } else { h.rng.pick(&["snips/number", "snips/ordinal"]).to_string() };
        let slot = InternalSlot { value: char_sub(&text, a, b), char_range: a..b, entity: entity.clone(), slot_name: h.rng.pick(&["s", "été"]).to_string() };
        let alts = if h.rng.chance(1, 12) { h.rng.range(4, 40) } else { h.rng.below(4) };
        let ext = h.rng.chance(1, 2);
        // matches in the whole text: exact, shifted, or of another entity
        let n = h.rng.range(0, 4);
        let at = h.rng.below(3);
        let spec: Vec<(usize, usize, usize)> = (0..n).map(|_| { let m = h.rng.below(5); let (x, y) = match m { 0 | 1 => (a, b), 2 => (a, b + 1), 3 => (a.saturating_sub(1), b), _ => (a + 1, b + 1) }; (x, y, h.rng.below(3)) }).collect();
        // matches on the slot text alone
        let sub = h.rng.below(7); // 0: none; 1: whole; 2: shorter; 3: longer value; 4: error; 5: other characters, as many of them; 6: other characters, as many bytes
        let desc = format!("text {:?} slot {:?} custom {} extensible {} alternatives {} matches in the text {:?} (entity 0/1 same, 2 other), on the slot text {} at {}", text, slot, is_custom, ext, alts, spec, ["none", "whole", "shorter", "longer", "error", "as many characters", "as many bytes"][sub], at);
        let log = Arc::new(Mutex::new(Vec::<String>::new()));
        h.case(&desc, n > 0 || sub > 0, || {
            let l = log.clone();
            let (got, want);
            if is_custom {
                let all: Vec<CustomEntity> = spec.iter().enumerate().map(|(i, (x, y, o))| CustomEntity { value: format!("v{}", i), range: *x..*y, entity_identifier: if *o < 2 { entity.clone() } else { "other".into() }, resolved_value: format!("R{}", i), alternative_resolved_values: (0..alts).map(|k| format!("A{}{}", i, k)).collect() }).collect();
                let value = slot.value.clone();
                let v = match sub { 1 => value.clone(), 2 => value.chars().skip(1).collect(), 5 => value.chars().map(|c| if c.is_ascii() { 'é' } else { 'x' }).collect(), 6 => "x".repeat(value.len()), _ => format!("{}é", value) };
                let m = CustomEntity { range: 0..char_len(&v), value: v.clone(), entity_identifier: entity.clone(), resolved_value: "RS".into(), alternative_resolved_values: vec!["AS".into()] };
                let m2 = m.clone();
                let p = res::Custom(Box::new(move |s, k, n| { l.lock().unwrap().push(format!("{:?} {:?} {}", s, k, n)); match sub { 0 => Ok(vec![]), 4 => Err(failure::err_msg("x")), _ => Ok(vec![m2.clone()]) } }));
                got = resolve_custom_slot(slot.clone(), &Entity { automatically_extensible: ext }, &all, Arc::new(p), alts);
                let hit: Vec<&CustomEntity> = all.iter().filter(|e| e.entity_identifier == entity && e.range == slot.char_range).collect();
                let covers = [1, 2, 3, 5, 6].contains(&sub) && char_len(&m.value) == char_len(&slot.value);
                let mut opts: Vec<Option<(SlotValue, Vec<SlotValue>)>> = hit.iter().map(|e| Some((custom(&e.resolved_value), e.alternative_resolved_values.iter().map(|x| custom(x)).collect()))).collect();
                if hit.is_empty() {
                    if sub == 4 { return ensure(got.is_err(), "the error of the entity parser was swallowed"); }
                    opts.push(if covers { Some((custom("RS"), vec![custom("AS")])) } else if ext { Some((custom(&slot.value), vec![])) } else { None });
                }
                want = opts;
                let want_log: Vec<String> = if hit.is_empty() { vec![format!("{:?} {:?} {}", slot.value, Some(vec![entity.clone()]), alts)] } else { vec![] };
                expect_eq("queries of the entity parser", log.lock().unwrap().clone(), want_log)?;
            } else {
                let kind = BuiltinEntityKind::from_identifier(&entity).unwrap();
                let other = kinds.iter().cloned().find(|k| *k != kind).unwrap();
                let all: Vec<BuiltinEntity> = spec.iter().enumerate().map(|(i, (x, y, o))| BuiltinEntity { value: format!("v{}", i), range: *x..*y, entity: val(i), alternatives: (0..alts).map(|k| val(10 * i + k)).collect(), entity_kind: if *o < 2 { kind } else { other } }).collect();
                let m = BuiltinEntity { value: "m".into(), range: at..at + 1, entity: val(77), alternatives: vec![val(78)], entity_kind: kind };
                let m2 = m.clone();
                let p = res::Builtin(Box::new(move |s, k, c, n| { l.lock().unwrap().push(format!("{:?} {:?} {} {}", s, k, c, n)); match sub { 0 => Ok(vec![]), 4 => Err(failure::err_msg("x")), _ => Ok(vec![m2.clone()]) } }));
                got = resolve_builtin_slot(slot.clone(), &all, Arc::new(p), alts);
                let hit: Vec<&BuiltinEntity> = all.iter().filter(|e| e.entity_kind == kind && e.range == slot.char_range).collect();
                let mut opts: Vec<Option<(SlotValue, Vec<SlotValue>)>> = hit.iter().map(|e| Some((e.entity.clone(), e.alternatives.clone()))).collect();
                if hit.is_empty() {
                    if sub == 4 { return ensure(got.is_err(), "the error of the entity parser was swallowed"); }
                    opts.push(if sub == 0 { None } else { Some((m.entity.clone(), m.alternatives.clone())) });
                }
                want = opts;
                let lg = log.lock().unwrap().clone();
                if hit.is_empty() { ensure(lg.len() == 1 && lg[0].starts_with(&format!("{:?} {:?} ", slot.value, Some(vec![kind]))) && lg[0].ends_with(&format!(" {}", alts)), format!("queries of the entity parser: {:?}", lg))?; } else { expect_eq("queries of the entity parser", lg.len(), 0)?; }
            }
            let got = got.map_err(|e| e.to_string())?;
            match &got {
                Some(g) => expect_eq("identity of the slot", (g.raw_value.clone(), g.range.clone(), g.entity.clone(), g.slot_name.clone()), (slot.value.clone(), slot.char_range.clone(), slot.entity.clone(), slot.slot_name.clone()))?,
                None => {}
            }
            let g = got.map(|g| (g.value, g.alternatives));
            ensure(want.contains(&g), format!("value and alternatives: got {:?}, expected one of {:?}", g, want))
        });
    }
    h.finish("random slots, entity matches in the text (same range, near ranges, other entities) and on the slot text; non-trivial: at least one match");
}
