use snips_nlu_lib::intent_parser::deterministic_intent_parser::deduplicate_overlapping_slots;
use snips_nlu_lib::slot_utils::InternalSlot;
use snips_nlu_lib::utils::*;
use snips_nlu_ontology::Language;
use snips_nlu_utils::language::Language as L;
use snips_nlu_utils::token::tokenize;
use std::ops::Range;
use vx_harness::*;

fn over(a: &Range<usize>, b: &Range<usize>) -> bool { a.start < b.end && a.end > b.start }
/// got is a selection of items (given by position and size) as the property demands
fn selection<T: PartialEq + std::fmt::Debug + Clone>(items: &[T], got: &[T], range: impl Fn(&T) -> Range<usize>, size: impl Fn(&T) -> usize, ordered: bool) -> Result<(), String> {
    let mut left = items.to_vec();
    for g in got {
        match left.iter().position(|x| x == g) { Some(i) => { left.remove(i); } None => return Err(format!("returned item {:?} was not given (or is returned twice)", g)) }
    }
    for i in 0..got.len() { for j in 0..i { ensure(!over(&range(&got[i]), &range(&got[j])), format!("returned items overlap: {:?} {:?}", got[i], got[j]))?; } }
    if ordered { for i in 1..got.len() { ensure(range(&got[i - 1]).start <= range(&got[i]).start, "returned items are not in text order")?; } }
    for l in &left {
        ensure(got.iter().any(|g| over(&range(g), &range(l)) && size(g) >= size(l)), format!("{:?} is left out although no kept item that overlaps it is at least as long (kept {:?})", l, got))?;
    }
    Ok(())
}
fn main() {
    let mut h = H::new();
    // every multiset of up to 4 ranges over 5 positions
    let mut all = vec![];
    for a in 0..5usize { for b in a + 1..=5 { all.push(a..b); } }
    let n = all.len();
    for k in 0..n * n * n {
        if !h.within(0.35) { break; }
        let rs = vec![all[k % n].clone(), all[k / n % n].clone(), all[k / n / n].clone()];
        ents(&mut h, rs);
    }
    while h.more() {
        let long = h.rng.chance(1, 10);
        let m = if long { h.rng.range(20, 60) } else { h.rng.range(0, 9) };
        let big = h.rng.chance(1, 5);
        let span = if big { 90_000 } else if long { 120 } else { 14 };
        let rs: Vec<Range<usize>> = (0..m).map(|_| { let a = h.rng.below(span); let l = if big { h.rng.range(1, 70_000) } else { h.rng.range(1, 6) }; a..a + l }).collect();
        ents(&mut h, rs.clone());
        if big { continue; }
        let text = gen_text(&mut h.rng, if long { 60 } else { 10 });
        let len = char_len(&text);
        if len == 0 { continue; }
        let slots: Vec<InternalSlot> = (0..m).map(|i| { let a = h.rng.below(len); let b = h.rng.range(a + 1, len.min(a + 9)); InternalSlot { value: char_sub(&text, a, b), char_range: a..b, entity: format!("e{}", i % 3), slot_name: format!("s{}", i) } }).collect();
        h.case(&format!("text {:?} slots {:?}", text, slots), m > 1, || {
            let got = deduplicate_overlapping_slots(slots.clone(), Language::EN);
            selection(&slots, &got, |s| s.char_range.clone(), |s| tokenize(&s.value, L::EN).len() + s.value.chars().count(), true)
        });
    }
    h.finish("multisets of 3 ranges over 5 positions (all), then random ranges, also far apart and long, and slots of random texts; non-trivial: at least two items");
}
fn ents(h: &mut H, rs: Vec<Range<usize>>) {
    let items: Vec<MatchedEntity> = rs.iter().enumerate().map(|(i, r)| MatchedEntity { range: r.clone(), entity_name: format!("e{}", i % 2) }).collect();
    h.case(&format!("entities {:?}", items), rs.len() > 1, || {
        let got = deduplicate_overlapping_entities(items.clone());
        selection(&items, &got, |e| e.range.clone(), |e| e.range.end - e.range.start, true)?;
        let got = deduplicate_overlapping_items(items.clone(), |a, b| over(&a.range, &b.range), |e| -((e.range.end - e.range.start) as i64));
        selection(&items, &got, |e| e.range.clone(), |e| e.range.end - e.range.start, false)
    });
}
