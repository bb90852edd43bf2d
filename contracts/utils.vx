#import sel
#fn utils.rs deduplicate_overlapping_items
#ret r
#spec
requires forall|a: &I, b: &I| #[trigger] call_requires(overlap, (a, b)),
  forall|i: int| 0 <= i < items@.len() ==> call_requires(sort_key_fn, (&(#[trigger] items@[i]),)),
ensures exists|s: Seq<I>| #[trigger] sorted_of(items@, sort_key_fn, s) && (forall|ov: spec_fn(I, I) -> bool| #[trigger] agree2(overlap, ov) ==> r@ == greedy(s, ov, s.len() as int))
#closure 0 |dedup_item: &I| -> (b: bool)
ensures forall|ov: spec_fn(I, I) -> bool| #[trigger] agree2(overlap, ov) ==> b == ov(*dedup_item, item)
#loop 0
invariant vx_s0 == sorted_items@, sorted_of(items@, sort_key_fn, vx_s0),
  forall|ov: spec_fn(I, I) -> bool| #[trigger] agree2(overlap, ov) ==> deduplicated_items@ == greedy(vx_s0, ov, vx_k0)
#fn utils.rs deduplicate_overlapping_entities
#ret r
#spec
requires wf_ents(entities@)
ensures ent_sel(entities@, r@), in_text_order(r@),
#closure 0 |lhs_entity: &MatchedEntity, rhs_entity: &MatchedEntity| -> (b: bool)
ensures b == ov_ent(*lhs_entity, *rhs_entity)
#closure 1 |entity: &MatchedEntity| -> (k: i32)
requires entity.range.start <= entity.range.end <= i32::MAX
ensures k == -ent_len(*entity)
#closure 2 |entity: &MatchedEntity| -> (k: usize)
ensures k == entity.range.start
#at after-let entity_sort_key
let ghost es = entities@;
let ghost ovf = ov_f();
let ghost alf = al_f();
proof { assert(agree2(entities_overlap, ovf)); }
#at after-let deduped
let ghost g = deduped@;
proof {
    let s = choose|s: Seq<MatchedEntity>| #[trigger] sorted_of(es, entity_sort_key, s) && (forall|ov: spec_fn(MatchedEntity, MatchedEntity) -> bool| #[trigger] agree2(entities_overlap, ov) ==> deduped@ == greedy(s, ov, s.len() as int));
    let k = choose|k: Seq<i32>| #[trigger] keys_of(s, entity_sort_key, k) && sorted_keys(k);
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| perm_by(es, s, p, q);
    assert forall|i: int, j: int| 0 <= i <= j < s.len() implies alf(#[trigger] s[i], #[trigger] s[j]) by { assert(k[i] == -ent_len(s[i])); assert(k[j] == -ent_len(s[j])); assert(ord_le(k[i], k[j])); }
    lemma_greedy(s, ovf, alf, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    lemma_id_perm(g);
}
#at end
proof {
    let s = choose|s: Seq<MatchedEntity>| #[trigger] selection(s, ovf, alf, g) && s.to_multiset() == es.to_multiset();
    lemma_selection_perm(es, s, ovf, alf, g, deduped@);
}
#fn utils.rs replace_entities rlimit=40
#ret r
#spec
requires inside(text@, matched_entities@), forall|s: &str| #[trigger] call_requires(placeholder_fn, (s,)),
  ph_bound(placeholder_fn, matched_entities@, room(text@.len() as int)),
ensures exists|kept: Seq<MatchedEntity>| #[trigger] ent_sel(matched_entities@, kept) && replaced(text@, matched_entities@, kept, placeholder_fn, r.0@, r.1@)
#closure 0 |entity: &MatchedEntity| -> (k: usize)
ensures k == entity.range.start
#at entry
let ghost items = matched_entities@;
let ghost c = room(text@.len() as int);
proof { lemma_room(text@.len() as int); }
let ghost ovf = ov_f();
let ghost alf = al_f();
proof { reveal_strlit(""); if items.len() == 0 {
    let kept = Seq::<MatchedEntity>::empty();
    assert(items =~= kept);
    assert(text@.skip(0) =~= text@);
    assert forall|ph: spec_fn(Seq<char>) -> Seq<char>| #[trigger] agree1(placeholder_fn, ph) implies rep_full(text@, kept, ph) =~= text@ by { }
    assert(items.to_multiset() == kept.to_multiset());
    assert(selection(items, ovf, alf, kept));
    assert(replaced(text@, items, kept, placeholder_fn, Map::empty(), text@));
} }
#at after-let dedup_matches
let ghost first = dedup_matches@;
#at loop 0 before
let ghost kept = dedup_matches@;
proof {
    lemma_selection_perm(items, items, ovf, alf, first, kept);
    lemma_from_items(items, kept);
    assert forall|i: int, j: int| 0 <= i < j < kept.len() implies (#[trigger] kept[i]).range.end <= (#[trigger] kept[j]).range.start by { assert(kept[i].range.start <= kept[j].range.start); assert(!ovf(kept[i], kept[j])); assert(kept[j].range.start < kept[j].range.end); }
    assert(disjoint_in_order(text@, kept));
    lemma_disjoint_len(text@, kept, kept.len() as int);
    assert(kept.len() * c <= text@.len() * c) by (nonlinear_arith) requires kept.len() <= text@.len(), c >= 0;
    assert forall|i: int| 0 <= i < kept.len() implies ph_fits(placeholder_fn, (#[trigger] kept[i]).entity_name@, c) by { assert(from_at(items, kept[i], items.len() as int)); }
}
#loop 0
invariant vx_s0 == kept, current_ix == cur_of(kept, vx_k0), current_ix <= text@.len(), offset == processed_text@.len() - current_ix, processed_text@.len() <= current_ix + vx_k0 * c,
  forall|ph: spec_fn(Seq<char>) -> Seq<char>| #[trigger] agree1(placeholder_fn, ph) ==> processed_text@ == rep_text(text@, kept, ph, vx_k0) && range_mapping@ =~= rep_map(text@, kept, ph, vx_k0)
#at before-let range_start
proof {
    let k = vx_k0 - 1;
    assert(ph_fits(placeholder_fn, kept[k].entity_name@, c));
    if k > 0 { assert(kept[k - 1].range.end <= kept[k].range.start); }
    assert(cur_of(kept, k) <= kept[k].range.start);
    assert(k * c <= kept.len() * c) by (nonlinear_arith) requires k <= kept.len(), c >= 0;
    assert((k + 1) * c == k * c + c) by (nonlinear_arith);
    assert((k + 1) * c <= kept.len() * c) by (nonlinear_arith) requires k + 1 <= kept.len(), c >= 0;
}
#at end
proof {
    assert forall|ph: spec_fn(Seq<char>) -> Seq<char>| #[trigger] agree1(placeholder_fn, ph) implies processed_text@ == rep_full(text@, kept, ph) by { }
    assert(ent_sel(items, kept));
    assert(replaced(text@, items, kept, placeholder_fn, range_mapping@, processed_text@));
}
