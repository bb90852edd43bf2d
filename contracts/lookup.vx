#include onto
#include float
#import sel
#import lang
#item slot_utils.rs struct InternalSlot clone
#item intent_parser/mod.rs struct InternalParsingResult clone
#item resources/mod.rs struct SharedResources fields=builtin_entity_parser,custom_entity_parser,stop_words
#item models/intent_parser.rs struct GroupedEntityScope
#item models/intent_parser.rs struct EntityScope
#raw
use std::sync::Arc;
impl<'a> VxAsRef<'a, &'a str> for &'a String { open spec fn as_ref_is(self, r: &'a str) -> bool { r@ == self@ } #[verifier::external_body] fn vx_as_ref(self) -> (r: &'a str) { unimplemented!() } }
type InputHash = i32;
type IntentId = i32;
type SlotId = i32;
type IntentName = String;
spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
spec fn wl_of(w: Option<&[&str]>) -> Option<Seq<Seq<char>>> { match w { Some(x) => Some(strs(x@)), None => None } }
spec fn allowed(w: Option<&[&str]>, n: Seq<char>) -> bool { match w { Some(x) => has_str(x@, n), None => true } }
#import ents
#import rank
#item intent_parser/lookup_intent_parser.rs struct LookupIntentParser
#item models/intent_parser.rs struct LookupParserModel
#item models/intent_parser.rs struct LookupParserConfig
#import stopw
#raw
// ---------------------------------------------------------------- C17
/// every subset of s, each exactly once and in the order of s: none first, then from the largest to the smallest
spec fn all_subsets<T>(s: Seq<T>, x: Seq<Seq<int>>, r: Seq<Vec<T>>) -> bool {
    &&& x.len() == r.len() && r.len() > 0 && x[0].len() == 0
    &&& forall|j: int| 0 <= j < x.len() ==> rising(#[trigger] x[j], s.len() as int) && r[j]@ == at_ix(s, x[j])
    &&& x.no_duplicates()
    &&& forall|y: Seq<int>| #[trigger] rising(y, s.len() as int) ==> x.contains(y)
    &&& forall|i: int, j: int| 1 <= i <= j < x.len() ==> (#[trigger] x[i]).len() >= (#[trigger] x[j]).len() >= 1
}
/// every subset of at least m elements, each exactly once, from the largest to the smallest
spec fn subsets_ge<T>(s: Seq<T>, m: int, x: Seq<Seq<int>>, r: Seq<Vec<T>>) -> bool {
    &&& x.len() == r.len() && x.no_duplicates()
    &&& forall|j: int| 0 <= j < x.len() ==> rising(#[trigger] x[j], s.len() as int) && r[j]@ == at_ix(s, x[j]) && x[j].len() >= m
    &&& forall|y: Seq<int>| #[trigger] rising(y, s.len() as int) && y.len() >= m ==> x.contains(y)
    &&& forall|i: int, j: int| 0 <= i <= j < x.len() ==> (#[trigger] x[i]).len() >= (#[trigger] x[j]).len()
}
proof fn lemma_rising_len(y: Seq<int>, n: int)
    requires rising(y, n)
    ensures y.len() == 0 || y.len() <= n, forall|i: int| 0 <= i < y.len() ==> i <= #[trigger] y[i]
    decreases y.len()
{
    if y.len() > 0 {
        let p = y.drop_last();
        assert(rising(p, n));
        lemma_rising_len(p, n);
        assert forall|i: int| 0 <= i < y.len() implies i <= #[trigger] y[i] by { if i < p.len() { assert(p[i] == y[i]); } else if i > 0 { assert(p[i - 1] == y[i - 1]); assert(y[i - 1] < y[i]); } }
        assert(y[y.len() - 1] < n);
    }
}
spec fn combos_of<T>(s: Seq<T>, k: int, c: Seq<Vec<T>>) -> bool { exists|x: Seq<Seq<int>>| #[trigger] combos(s, k, x, c) }
proof fn lemma_subsets<T>(s: Seq<T>, o: Seq<It<Vec<T>>>, k: int)
    requires 0 <= k <= o.len() == s.len(), forall|i: int| 0 <= i < o.len() ==> combos_of(s, s.len() - i, (#[trigger] o[i]).into_elems())
    ensures exists|x: Seq<Seq<int>>| #[trigger] subsets_ge(s, s.len() - k + 1, x, flat_elems(o.take(k)))
    decreases k
{
    let n = s.len() as int;
    if k == 0 {
        assert(flat_elems(o.take(0)) =~= Seq::<Vec<T>>::empty());
        let x = Seq::<Seq<int>>::empty();
        assert forall|y: Seq<int>| #[trigger] rising(y, n) && y.len() >= n + 1 implies x.contains(y) by { lemma_rising_len(y, n); }
        assert(subsets_ge(s, n + 1, x, flat_elems(o.take(0))));
    } else {
        lemma_subsets(s, o, k - 1);
        assert(o.take(k).drop_last() =~= o.take(k - 1));
        let (r0, c) = (flat_elems(o.take(k - 1)), o[k - 1].into_elems());
        assert(flat_elems(o.take(k)) == r0 + c);
        let x0 = choose|x: Seq<Seq<int>>| #[trigger] subsets_ge(s, n - (k - 1) + 1, x, r0);
        assert(combos_of(s, s.len() - (k - 1), o[k - 1].into_elems()));
        let xc = choose|x: Seq<Seq<int>>| #[trigger] combos(s, n - (k - 1), x, c);
        let (x, r, m) = (x0 + xc, r0 + c, n - k + 1);
        assert forall|i: int, j: int| 0 <= i < x.len() && 0 <= j < x.len() && i != j implies x[i] != x[j] by {
            if i < x0.len() && j >= x0.len() { assert(x0[i].len() >= m + 1); assert(xc[j - x0.len()].len() == m); }
            else if j < x0.len() && i >= x0.len() { assert(x0[j].len() >= m + 1); assert(xc[i - x0.len()].len() == m); }
            else if i < x0.len() { assert(x0[i] != x0[j]); } else { assert(xc[i - x0.len()] != xc[j - x0.len()]); }
        }
        assert forall|j: int| 0 <= j < x.len() implies rising(#[trigger] x[j], n) && r[j]@ == at_ix(s, x[j]) && x[j].len() >= m by {
            if j < x0.len() { assert(x[j] == x0[j]); assert(r[j] == r0[j]); } else { assert(x[j] == xc[j - x0.len()]); assert(r[j] == c[j - x0.len()]); }
        }
        assert forall|y: Seq<int>| #[trigger] rising(y, n) && y.len() >= m implies x.contains(y) by {
            if y.len() >= m + 1 { assert(x0.contains(y)); let q = choose|q: int| 0 <= q < x0.len() && x0[q] == y; assert(x[q] == y); }
            else { assert(xc.contains(y)); let q = choose|q: int| 0 <= q < xc.len() && xc[q] == y; assert(x[x0.len() + q] == y); }
        }
        assert forall|i: int, j: int| 0 <= i <= j < x.len() implies (#[trigger] x[i]).len() >= (#[trigger] x[j]).len() by {
            if i < x0.len() { assert(x[i] == x0[i]); assert(x0[i].len() >= m + 1); if j < x0.len() { assert(x[j] == x0[j]); } else { assert(x[j] == xc[j - x0.len()]); } }
            else { assert(x[i] == xc[i - x0.len()]); assert(x[j] == xc[j - x0.len()]); }
        }
        assert(subsets_ge(s, m, x, r));
    }
}
proof fn lemma_all_subsets<T>(s: Seq<T>, x: Seq<Seq<int>>, r: Seq<Vec<T>>, e: Vec<T>)
    requires subsets_ge(s, 1, x, r), e@ == Seq::<T>::empty()
    ensures all_subsets(s, seq![Seq::<int>::empty()] + x, r.insert(0, e))
{
    let z = Seq::<int>::empty();
    let (x1, r1) = (seq![z] + x, r.insert(0, e));
    assert(r1 =~= seq![e] + r);
    assert forall|j: int| 0 <= j < x1.len() implies rising(#[trigger] x1[j], s.len() as int) && r1[j]@ == at_ix(s, x1[j]) by {
        if j == 0 { assert(at_ix(s, z) =~= Seq::<T>::empty()); } else { assert(x1[j] == x[j - 1]); }
    }
    assert forall|i: int, j: int| 0 <= i < x1.len() && 0 <= j < x1.len() && i != j implies x1[i] != x1[j] by {
        if i == 0 { assert(x1[j] == x[j - 1]); assert(x[j - 1].len() >= 1); } else if j == 0 { assert(x1[i] == x[i - 1]); assert(x[i - 1].len() >= 1); } else { assert(x[i - 1] != x[j - 1]); }
    }
    assert forall|y: Seq<int>| #[trigger] rising(y, s.len() as int) implies x1.contains(y) by {
        if y.len() == 0 { assert(y =~= z); assert(x1[0] == y); } else { assert(x.contains(y)); let q = choose|q: int| 0 <= q < x.len() && x[q] == y; assert(x1[q + 1] == y); }
    }
    assert forall|i: int, j: int| 1 <= i <= j < x1.len() implies (#[trigger] x1[i]).len() >= (#[trigger] x1[j]).len() >= 1 by { assert(x1[i] == x[i - 1]); assert(x1[j] == x[j - 1]); }
}
#fn intent_parser/lookup_intent_parser.rs get_items_combinations keep=insert
#ret r
#spec
requires items@.len() < usize::MAX
ensures exists|x: Seq<Seq<int>>| #[trigger] all_subsets(items@, x, r@)
#closure 0 |nb_entities: usize| -> (c: It<Vec<T>>)
ensures combos_of(items@, nb_entities as int, c.into_elems())
#at after-let combinations
let ghost sub = combinations@;
proof {
    let rs = reversed(range_seq(1, (items@.len() + 1) as usize));
    let o = choose|o: Seq<It<Vec<T>>>| sub == flat_elems(o) && o.len() == rs.len() && forall|i: int| 0 <= i < o.len() ==> combos_of(items@, #[trigger] rs[i] as int, o[i].into_elems());
    assert(o.len() == rs.len());
    assert forall|i: int| 0 <= i < o.len() implies combos_of(items@, items@.len() - i, (#[trigger] o[i]).into_elems()) by {
        assert(rs[i] == items@.len() - i);
    }
    lemma_subsets(items@, o, o.len() as int);
    assert(o.take(o.len() as int) =~= o);
}
#at end
proof {
    let x = choose|x: Seq<Seq<int>>| #[trigger] subsets_ge(items@, 1, x, sub);
    let e = combinations@[0];
    assert(combinations@ == sub.insert(0, e));
    assert(e@ =~= Seq::<T>::empty());
    lemma_all_subsets(items@, x, sub, e);
}
#raw
// ---------------------------------------------------------------- C18
/// one slot per entity: i-th configured name, the entity's name and range, the input's text there
spec fn bound(p: LookupIntentParser, input: Seq<char>, ids: Seq<SlotId>, ents: Seq<MatchedEntity>, slots: Seq<InternalSlot>, k: int) -> bool {
    slots.len() == k && forall|i: int| 0 <= i < k ==> slot_at(p, input, ids[i], ents[i], #[trigger] slots[i])
}
spec fn slot_at(p: LookupIntentParser, input: Seq<char>, id: SlotId, e: MatchedEntity, s: InternalSlot) -> bool {
    &&& s.slot_name@ == p.slots_names@[id as int]@ && s.entity@ == e.entity_name@ && s.char_range == e.range
    &&& e.range.start <= e.range.end <= input.len() ==> s.value@ == input.subrange(e.range.start as int, e.range.end as int)
}
spec fn wf_output(p: LookupIntentParser, out: (IntentId, Vec<SlotId>)) -> bool {
    &&& 0 <= out.0 < p.intents_names@.len()
    &&& forall|i: int| 0 <= i < out.1@.len() ==> 0 <= #[trigger] out.1@[i] < p.slots_names@.len()
}
spec fn hit(p: LookupIntentParser, input: Seq<char>, out: (IntentId, Vec<SlotId>), ents: Seq<MatchedEntity>, intents: Option<&[&str]>, r: Option<InternalParsingResult>) -> bool {
    let name = p.intents_names@[out.0 as int]@;
    match r {
        None => !allowed(intents, name),
        Some(x) => allowed(intents, name) && x.intent.intent_name is Some && x.intent.intent_name->Some_0@ == name && bound(p, input, out.1@, ents, x.slots@, if out.1@.len() <= ents.len() { out.1@.len() as int } else { ents.len() as int }),
    }
}
#fn intent_parser/lookup_intent_parser.rs LookupIntentParser::parse_map_output
#ret r
#spec
requires wf_output(*self, *output)
ensures hit(*self, input@, *output, entities@, intents, r)
#closure 0 |intents_list: &[&str]| -> (b: bool)
ensures b == has_str(intents_list@, intent_name@)
#loop 0
invariant vx_s0.len() == (if output.1@.len() <= entities@.len() { output.1@.len() } else { entities@.len() }), bound(*self, input@, output.1@, entities@, slots@, vx_k0)
#raw
spec fn ph_f() -> spec_fn(Seq<char>) -> Seq<char> { |l: Seq<char>| placeholder(l) }
#use utils deduplicate_overlapping_entities
#fn intent_parser/lookup_intent_parser.rs get_entity_placeholder
#ret r
#spec
ensures r@ == placeholder(entity_label@)
#at entry
proof { reveal_strlit("%"); reveal_strlit(""); }
#fn intent_parser/lookup_intent_parser.rs replace_entities_with_placeholders
#ret r
#spec
requires disjoint_in_order(text@, entities@)
ensures r@ == rep_full(text@, entities@, ph_f())
#at entry
proof { assert(text@.skip(0) =~= text@); assert(Seq::<char>::empty() + text@ =~= text@); }
#loop 0
invariant vx_s0.len() == entities@.len(), (forall|i: int| 0 <= i < entities@.len() ==> *vx_s0[i] == entities@[i]), cur_idx == cur_of(entities@, vx_k0), processed_text@ == rep_text(text@, entities@, ph_f(), vx_k0)
#raw
spec fn stops(p: LookupIntentParser, intent: Seq<char>) -> Set<String> { match map_get(p.specific_stop_words@, mk_string(intent)) { Some(s) => s@, None => p.stop_words@ } }
spec fn kept_word(p: LookupIntentParser, intent: Seq<char>) -> spec_fn(Seq<char>) -> bool { |w: Seq<char>| !stops(p, intent).contains(mk_string(normal(w))) }
/// the words that are not stop words of the intent, joined by spaces and lower-cased
spec fn cleaned(p: LookupIntentParser, text: Seq<char>, intent: Seq<char>) -> Seq<char> { lower(join_seq(pick(light_tokens(text, nlu_language(p.language)), kept_word(p, intent)), " "@)) }
proof fn lemma_views_pick(s: Seq<String>, p: spec_fn(Seq<char>) -> bool)
    ensures views(pick(s, |x: String| p(x@))) =~= pick(views(s), p)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_views_pick(s.drop_last(), p);
        assert(views(s).drop_last() =~= views(s.drop_last()));
        let q = |x: String| p(x@);
        assert(views(pick(s.drop_last(), q).push(s.last())) =~= views(pick(s.drop_last(), q)).push(s.last()@));
    } else { assert(views(s) =~= Seq::<Seq<char>>::empty()); }
}
#fn intent_parser/lookup_intent_parser.rs LookupIntentParser::preprocess_text
#ret r
#spec
ensures r@ == cleaned(*self, string@, intent@)
#closure 0 || -> (s: &HashSet<String>)
ensures *s == self.stop_words
#closure 1 |tkn: &String| -> (b: bool)
ensures b == kept_word(*self, intent@)(tkn@)
#at tail vx_r
proof {
    let p = kept_word(*self, intent@);
    let q = |x: String| p(x@);
    let (s, keep) = choose|s: Seq<String>, keep: spec_fn(int) -> bool| views(s) == light_tokens(string@, nlu_language(self.language)) && vx_r@ == lower(join_seq(views(#[trigger] sel(s, keep)), " "@)) && forall|i: int| #![trigger s[i]] #![trigger keep(i)] 0 <= i < s.len() ==> keep(i) == q(s[i]);
    assert(views(s) == light_tokens(string@, nlu_language(self.language)));
    lemma_sel_pick(s, keep, q);
    lemma_views_pick(s, p);
}
#raw
spec fn kinds_are(ids: Seq<String>, ks: Seq<BuiltinEntityKind>) -> bool { ks.len() == ids.len() && forall|i: int| 0 <= i < ids.len() ==> #[trigger] kind_of(ids[i]@) == Some(ks[i]) }
spec fn detected(p: LookupIntentParser, input: Seq<char>, scope: EntityScope, ks: Seq<BuiltinEntityKind>, b: Result<Vec<BuiltinEntity>>, c: Result<Vec<CustomEntity>>, v: Seq<MatchedEntity>) -> bool {
    &&& p.shared_resources.builtin_entity_parser.answers(input, Some(ks), 0, b) && kinds_are(scope.builtin@, ks) && b is Ok
    &&& p.shared_resources.custom_entity_parser.answers(input, Some(scope.custom@), 0, c) && c is Ok
    &&& ent_sel(of_builtins(b->Ok_0@) + of_customs(c->Ok_0@), v) && in_text_order(v)
}
/// the entities of the scope both parsers find in the input, overlaps removed, in text order
spec fn found(p: LookupIntentParser, input: Seq<char>, scope: EntityScope, v: Seq<MatchedEntity>) -> bool {
    disjoint_in_order(input, v) && exists|ks: Seq<BuiltinEntityKind>, b: Result<Vec<BuiltinEntity>>, c: Result<Vec<CustomEntity>>| #[trigger] detected(p, input, scope, ks, b, c, v)
}
spec fn sane(p: LookupIntentParser, input: Seq<char>) -> bool { sane_builtin(p.shared_resources.builtin_entity_parser) && sane_custom(p.shared_resources.custom_entity_parser) && input.len() <= i32::MAX }
#fn intent_parser/lookup_intent_parser.rs LookupIntentParser::get_all_entities
#ret r
#spec
requires sane(*self, input@)
ensures r is Ok ==> found(*self, input@, *entity_scope, r->Ok_0@), r is Ok ==> r->Ok_0@.len() <= input@.len()
#closure 0 |identifier: &String| -> (k: Result<BuiltinEntityKind>)
ensures (match k { Ok(x) => Some(x), Err(_) => None }) == kind_of(identifier@)
#closure 1 |entity: BuiltinEntity| -> (m: MatchedEntity)
ensures m == of_builtin(entity)
#closure 2 |entity: CustomEntity| -> (m: MatchedEntity)
ensures m == of_custom(entity)
#at after-let builtin_entities
let ghost gb = builtin_entities@;
let ghost b = choose|b: Result<Vec<BuiltinEntity>>| #[trigger] self.shared_resources.builtin_entity_parser.answers(input@, Some(builtin_scope@), 0, b) && b is Ok && gb =~= of_builtins(b->Ok_0@);
#at after-let custom_entities
let ghost gc = custom_entities@;
let ghost c = choose|c: Result<Vec<CustomEntity>>| #[trigger] self.shared_resources.custom_entity_parser.answers(input@, Some(entity_scope.custom@), 0, c) && c is Ok && gc =~= of_customs(c->Ok_0@);
#at tail vx_r
proof {
    let v = vx_r->Ok_0@;
    let all = gb + gc;
    assert(self.shared_resources.builtin_entity_parser.answers(input@, Some(builtin_scope@), 0, b) && b is Ok && gb =~= of_builtins(b->Ok_0@));
    assert(self.shared_resources.custom_entity_parser.answers(input@, Some(entity_scope.custom@), 0, c) && c is Ok && gc =~= of_customs(c->Ok_0@));
    assert(ent_sel(all, v));
    assert(inside(input@, all));
    lemma_disjoint(input@, all, v);
    assert(kinds_are(entity_scope.builtin@, builtin_scope@));
    assert(detected(*self, input@, *entity_scope, builtin_scope@, b, c, v));
}
#raw
impl VxPlainEq for MatchedEntity { }
spec fn group_of(g: GroupedEntityScope, w: Option<&[&str]>) -> Seq<String> { pick(g.intent_group@, |n: String| allowed(w, n@)) }
/// what one subset of the entities contributes: for every intent, the text without and with its entities replaced
spec fn set_cands(p: LookupIntentParser, input: Seq<char>, group: Seq<String>, set: Vec<MatchedEntity>, n: int) -> Seq<(String, Vec<MatchedEntity>)>
    decreases n
{ if n <= 0 { Seq::empty() } else {
    set_cands(p, input, group, set, n - 1).push((mk_string(cleaned(p, input, group[n - 1]@)), mk_vec(Seq::empty())))
        .push((mk_string(cleaned(p, rep_full(input, set@, ph_f()), group[n - 1]@)), set))
} }
spec fn scope_cands(p: LookupIntentParser, input: Seq<char>, group: Seq<String>, sets: Seq<Vec<MatchedEntity>>, m: int) -> Seq<(String, Vec<MatchedEntity>)>
    decreases m
{ if m <= 0 { Seq::empty() } else { scope_cands(p, input, group, sets, m - 1) + set_cands(p, input, group, sets[m - 1], group.len() as int) } }
spec fn all_cands(p: LookupIntentParser, input: Seq<char>, w: Option<&[&str]>, subs: Seq<Seq<Vec<MatchedEntity>>>, k: int) -> Seq<(String, Vec<MatchedEntity>)>
    decreases k
{ if k <= 0 { Seq::empty() } else { all_cands(p, input, w, subs, k - 1) + scope_cands(p, input, group_of(p.entity_scopes@[k - 1], w), subs[k - 1], subs[k - 1].len() as int) } }
spec fn subsets_found(p: LookupIntentParser, input: Seq<char>, scope: EntityScope, sets: Seq<Vec<MatchedEntity>>) -> bool { exists|v: Seq<MatchedEntity>, x: Seq<Seq<int>>| #[trigger] all_subsets(v, x, sets) && found(p, input, scope, v) }
/// all subsets of the entities detected for the scope (irrelevant when the filter excludes every intent of the scope)
spec fn tried(p: LookupIntentParser, input: Seq<char>, w: Option<&[&str]>, scope: GroupedEntityScope, sets: Seq<Vec<MatchedEntity>>) -> bool {
    group_of(scope, w).len() == 0 || subsets_found(p, input, scope.entity_scope, sets)
}
spec fn tries(p: LookupIntentParser, input: Seq<char>, w: Option<&[&str]>, subs: Seq<Seq<Vec<MatchedEntity>>>, k: int) -> bool { subs.len() == k && forall|i: int| 0 <= i < k ==> tried(p, input, w, p.entity_scopes@[i], #[trigger] subs[i]) }
spec fn candidates_ok(p: LookupIntentParser, input: Seq<char>, w: Option<&[&str]>, r: Seq<(String, Vec<MatchedEntity>)>) -> bool {
    exists|subs: Seq<Seq<Vec<MatchedEntity>>>| #[trigger] tries(p, input, w, subs, p.entity_scopes@.len() as int) && r == uniq(all_cands(p, input, w, subs, p.entity_scopes@.len() as int))
}
proof fn lemma_all_cands_push(p: LookupIntentParser, input: Seq<char>, w: Option<&[&str]>, subs: Seq<Seq<Vec<MatchedEntity>>>, k: int)
    requires 0 <= k < subs.len()
    ensures all_cands(p, input, w, subs.drop_last(), k) == all_cands(p, input, w, subs, k)
    decreases k
{ if k > 0 { lemma_all_cands_push(p, input, w, subs, k - 1); } }
proof fn lemma_group(names: Seq<String>, w: Option<&[&str]>, kept: Seq<&String>)
    requires exists|keep: spec_fn(int) -> bool| kept == #[trigger] sel(refs(names), keep) && forall|i: int| 0 <= i < names.len() ==> #[trigger] keep(i) == allowed(w, names[i]@)
    ensures unrefs(kept) =~= pick(names, |n: String| allowed(w, n@))
{
    let keep = choose|keep: spec_fn(int) -> bool| kept == #[trigger] sel(refs(names), keep) && forall|i: int| 0 <= i < names.len() ==> #[trigger] keep(i) == allowed(w, names[i]@);
    lemma_sel_refs(names, keep);
    lemma_sel_pick(names, keep, |n: String| allowed(w, n@));
}
proof fn lemma_sel_refs(names: Seq<String>, keep: spec_fn(int) -> bool)
    ensures unrefs(sel(refs(names), keep)) =~= sel(names, keep)
    decreases names.len()
{
    if names.len() > 0 {
        lemma_sel_refs(names.drop_last(), keep);
        assert(refs(names).drop_last() =~= refs(names.drop_last()));
    } else { assert(refs(names) =~= Seq::<&String>::empty()); }
}
#fn intent_parser/lookup_intent_parser.rs LookupIntentParser::get_candidates
#ret r
#spec
requires sane(*self, input@)
ensures r is Ok ==> candidates_ok(*self, input@, intents_whitelist, r->Ok_0@)
#closure 0 |intent: &&String| -> (b: bool)
ensures b == allowed(intents_whitelist, intent@)
#closure 1 |whitelist: &[&str]| -> (b: bool)
ensures b == has_str(whitelist@, intent@)
#at entry
let ghost mut subs: Seq<Seq<Vec<MatchedEntity>>> = Seq::empty();
#loop 0
invariant tries(*self, input@, intents_whitelist, subs, vx_k0), candidates@ == all_cands(*self, input@, intents_whitelist, subs, vx_k0), vx_s0.len() == self.entity_scopes@.len(), forall|i: int| 0 <= i < vx_s0.len() ==> *vx_s0[i] == self.entity_scopes@[i]
#at after-let intent_group
let ghost group = group_of(*entity_scope, intents_whitelist);
let ghost base = candidates@;
proof {
    assert(unrefs(intent_group@) =~= group) by { lemma_group(entity_scope.intent_group@, intents_whitelist, intent_group@); }
    if intent_group@.len() == 0 {
        let subs0 = subs;
        subs = subs.push(Seq::empty());
        assert(subs.drop_last() =~= subs0);
        assert(all_cands(*self, input@, intents_whitelist, subs, vx_k0 - 1) == candidates@) by { lemma_all_cands_push(*self, input@, intents_whitelist, subs, vx_k0 - 1); }
        assert(scope_cands(*self, input@, group, Seq::empty(), 0) =~= Seq::empty());
        assert(base + Seq::<(String, Vec<MatchedEntity>)>::empty() =~= base);
    }
}
#loop 1
invariant subsets_found(*self, input@, entity_scope.entity_scope, vx_s1), candidates@ == base + scope_cands(*self, input@, group, vx_s1, vx_k1)
#at loop 1 before
proof { assert(base + Seq::<(String, Vec<MatchedEntity>)>::empty() =~= base); }
#at loop 1 start
let ghost base1 = candidates@;
proof {
    let (v, x) = choose|v: Seq<MatchedEntity>, x: Seq<Seq<int>>| #[trigger] all_subsets(v, x, vx_s1) && found(*self, input@, entity_scope.entity_scope, v);
    assert(rising(x[vx_k1 - 1], v.len() as int));
    lemma_disjoint_sub(input@, v, x[vx_k1 - 1]);
    assert(disjoint_in_order(input@, entities@));
}
#at loop 1 end
proof { assert(base + scope_cands(*self, input@, group, vx_s1, vx_k1 - 1) + set_cands(*self, input@, group, entities, group.len() as int) =~= base + scope_cands(*self, input@, group, vx_s1, vx_k1 as int)); }
#at loop 2 before
proof { assert(base1 + Seq::<(String, Vec<MatchedEntity>)>::empty() =~= base1); }
#loop 2
invariant vx_s2.len() == group.len(), forall|i: int| 0 <= i < group.len() ==> **(#[trigger] vx_s2[i]) == group[i], candidates@ == base1 + set_cands(*self, input@, group, entities, vx_k2)
#at loop 2 end
proof { assert(candidates@ =~= base1 + set_cands(*self, input@, group, entities, vx_k2 as int)); }
#at loop 1 after
proof {
    let sets = choose|sets: Seq<Vec<MatchedEntity>>| #[trigger] subsets_found(*self, input@, entity_scope.entity_scope, sets) && candidates@ == base + scope_cands(*self, input@, group, sets, sets.len() as int);
    assert(tried(*self, input@, intents_whitelist, *entity_scope, sets));
    let subs0 = subs;
    subs = subs.push(sets);
    assert(subs.drop_last() =~= subs0);
    lemma_all_cands_push(*self, input@, intents_whitelist, subs, vx_k0 - 1);
}
#raw
// ---------------------------------------------------------------- C16
uninterp spec fn hash_of(s: Seq<char>) -> i32;
#[verifier::external_body] fn hash_str_to_i32(s: &str) -> (r: i32) ensures r == hash_of(s@) { unimplemented!() }
impl LookupIntentParser { #[verifier::type_invariant] spec fn vx_inv(&self) -> bool { wf_map(*self) } }
spec fn wf_map(p: LookupIntentParser) -> bool { forall|h: InputHash| #[trigger] p.map@.contains_key(h) ==> wf_output(p, p.map@[h]) }
/// what the table has for a candidate
spec fn outcome(p: LookupIntentParser, input: Seq<char>, w: Option<&[&str]>, c: (String, Vec<MatchedEntity>), r: Option<InternalParsingResult>) -> bool {
    if p.map@.contains_key(hash_of(c.0@)) { hit(p, input, p.map@[hash_of(c.0@)], c.1@, w, r) } else { r is None }
}
spec fn outcomes(p: LookupIntentParser, input: Seq<char>, w: Option<&[&str]>, c: Seq<(String, Vec<MatchedEntity>)>, o: Seq<Option<InternalParsingResult>>, k: int) -> bool {
    o.len() == k && forall|i: int| 0 <= i < k ==> outcome(p, input, w, c[i], #[trigger] o[i])
}
spec fn of_intent(n: String) -> spec_fn(InternalParsingResult) -> bool { |x: InternalParsingResult| x.intent.intent_name == Some(n) }
/// the results by intent, in order
spec fn grouped(s: Seq<InternalParsingResult>, m: Map<String, Vec<InternalParsingResult>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).intent.intent_name is Some && m.contains_key(s[i].intent.intent_name->Some_0)
    &&& forall|n: String| #[trigger] m.contains_key(n) ==> m[n]@.len() > 0 && m[n]@ == pick(s, of_intent(n))
}
proof fn lemma_pick_in<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|x: T| #[trigger] pick(s, p).contains(x) <==> s.contains(x) && p(x)
    decreases s.len()
{
    if s.len() > 0 {
        let (d, l) = (s.drop_last(), s.last());
        lemma_pick_in(d, p);
        let (u, v) = (pick(d, p), pick(s, p));
        assert forall|x: T| #[trigger] v.contains(x) <==> s.contains(x) && p(x) by {
            if v.contains(x) { let j = choose|j: int| 0 <= j < v.len() && v[j] == x; if j < u.len() { assert(u[j] == x); assert(u.contains(x)); let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); } else { assert(s[s.len() - 1] == x); } }
            if s.contains(x) && p(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); assert(d.contains(x)); assert(u.contains(x)); let j = choose|j: int| 0 <= j < u.len() && u[j] == x; assert(v[j] == x); } else { assert(v[u.len() as int] == x); } }
        }
    }
}
proof fn lemma_grouped_step(s: Seq<InternalParsingResult>, m: Map<String, Vec<InternalParsingResult>>, x: InternalParsingResult, n: String, v: Vec<InternalParsingResult>)
    requires grouped(s, m), x.intent.intent_name == Some(n), v@ == (if m.contains_key(n) { m[n]@.push(x) } else { seq![x] })
    ensures grouped(s.push(x), m.insert(n, v))
{
    let (t, m2) = (s.push(x), m.insert(n, v));
    assert(t.drop_last() =~= s);
    if !m.contains_key(n) {
        lemma_pick_in(s, of_intent(n));
        let u = pick(s, of_intent(n));
        if u.len() > 0 { assert(u.contains(u[0])); let i = choose|i: int| 0 <= i < s.len() && s[i] == u[0]; assert(m.contains_key(s[i].intent.intent_name->Some_0)); }
        assert(u.push(x) =~= seq![x]);
    }
    assert forall|k: String| #[trigger] m2.contains_key(k) implies m2[k]@.len() > 0 && m2[k]@ == pick(t, of_intent(k)) by { if k != n { assert(m.contains_key(k)); assert(!of_intent(k)(x)); } }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).intent.intent_name is Some && m2.contains_key(t[i].intent.intent_name->Some_0) by { if i < s.len() { assert(t[i] == s[i]); } }
}
/// the element with the greatest weight, and its weight
spec fn best_of(s: Seq<InternalParsingResult>, b: (InternalParsingResult, f32)) -> bool {
    s.contains(b.0) && b.1 == weight_of(b.0) && forall|j: int| 0 <= j < s.len() ==> fkey(weight_of(#[trigger] s[j])) <= fkey(b.1)
}
/// for every intent one of its results with the fewest slots
spec fn reps(s: Seq<InternalParsingResult>, v: Seq<InternalParsingResult>) -> bool {
    &&& named_once(v)
    &&& forall|i: int| 0 <= i < v.len() ==> s.contains(#[trigger] v[i])
    &&& forall|j: int| 0 <= j < s.len() ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).intent.intent_name == (#[trigger] s[j]).intent.intent_name
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < s.len() && (#[trigger] v[i]).intent.intent_name == (#[trigger] s[j]).intent.intent_name ==> fkey(weight_of(s[j])) <= fkey(weight_of(v[i]))
}
spec fn firsts<A, B>(s: Seq<(A, B)>) -> Seq<A> { Seq::new(s.len(), |i: int| s[i].0) }
proof fn lemma_somes_all<U>(o: Seq<Option<U>>)
    requires forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) is Some
    ensures somes(o).len() == o.len(), forall|i: int| 0 <= i < o.len() ==> somes(o)[i] == (#[trigger] o[i])->Some_0
    decreases o.len()
{
    if o.len() > 0 {
        let p = o.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]) is Some by { assert(p[i] == o[i]); }
        lemma_somes_all(p);
        assert forall|i: int| 0 <= i < o.len() implies somes(o)[i] == (#[trigger] o[i])->Some_0 by { if i < p.len() { assert(p[i] == o[i]); } }
    }
}
/// entry i of the map gives element i
spec fn rep_at(s: Seq<InternalParsingResult>, e: (String, Vec<InternalParsingResult>), x: InternalParsingResult) -> bool {
    x.intent.intent_name == Some(e.0) && s.contains(x) && e.1@ == pick(s, of_intent(e.0)) && forall|j: int| 0 <= j < e.1@.len() ==> fkey(weight_of(#[trigger] e.1@[j])) <= fkey(weight_of(x))
}
proof fn lemma_rep_at(s: Seq<InternalParsingResult>, m: Map<String, Vec<InternalParsingResult>>, e: (String, Vec<InternalParsingResult>), b: (InternalParsingResult, f32))
    requires grouped(s, m), m.contains_key(e.0), m[e.0] == e.1, best_of(e.1@, b)
    ensures rep_at(s, e, b.0), b.1 == weight_of(b.0)
{ lemma_pick_in(s, of_intent(e.0)); assert(pick(s, of_intent(e.0)).contains(b.0)); }
proof fn lemma_rep_best(s: Seq<InternalParsingResult>, e: (String, Vec<InternalParsingResult>), x: InternalParsingResult, y: InternalParsingResult)
    requires rep_at(s, e, x), s.contains(y), y.intent.intent_name == x.intent.intent_name
    ensures fkey(weight_of(y)) <= fkey(weight_of(x))
{ lemma_pick_in(s, of_intent(e.0)); let q = e.1@; assert(q.contains(y)); let k = choose|k: int| 0 <= k < q.len() && q[k] == y; assert(fkey(weight_of(q[k])) <= fkey(weight_of(x))); }
proof fn lemma_reps_from(s: Seq<InternalParsingResult>, l: Seq<(String, Vec<InternalParsingResult>)>, v: Seq<InternalParsingResult>, m: Map<String, Vec<InternalParsingResult>>)
    requires v.len() == l.len(), lists_map(l, m), forall|i: int| 0 <= i < v.len() ==> rep_at(s, l[i], #[trigger] v[i]), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).intent.intent_name is Some && m.contains_key(s[j].intent.intent_name->Some_0)
    ensures reps(s, v)
{
    hide(rep_at); hide(weight_of);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).intent.intent_name == Some(l[i].0) && s.contains(v[i]) by { reveal(rep_at); assert(rep_at(s, l[i], v[i])); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).intent.intent_name->Some_0 != (#[trigger] v[j]).intent.intent_name->Some_0 by { assert(l[i].0 != l[j].0); }
    assert forall|j: int| 0 <= j < s.len() implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).intent.intent_name == (#[trigger] s[j]).intent.intent_name by {
        let n = s[j].intent.intent_name->Some_0; assert(m.contains_key(n)); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == n; assert(v[i].intent.intent_name == Some(n));
    }
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < s.len() && (#[trigger] v[i]).intent.intent_name == (#[trigger] s[j]).intent.intent_name implies fkey(weight_of(s[j])) <= fkey(weight_of(v[i])) by { assert(s.contains(s[j])); lemma_rep_best(s, l[i], v[i], s[j]); }
}
proof fn lemma_reps(s: Seq<InternalParsingResult>, m: Map<String, Vec<InternalParsingResult>>, l: Seq<(String, Vec<InternalParsingResult>)>, o: Seq<Option<(InternalParsingResult, f32)>>)
    requires grouped(s, m), lists_map(l, m), o.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> ((#[trigger] o[i]) is None) == (l[i].1@.len() == 0) && (o[i] is Some ==> best_of(l[i].1@, o[i]->Some_0))
    ensures reps(s, firsts(somes(o))), forall|i: int| 0 <= i < somes(o).len() ==> (#[trigger] somes(o)[i]).1 == weight_of(somes(o)[i].0)
{
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]) is Some by { assert(m.contains_key(l[i].0)); }
    lemma_somes_all(o);
    let (q, v) = (somes(o), firsts(somes(o)));
    assert forall|i: int| 0 <= i < v.len() implies rep_at(s, l[i], #[trigger] v[i]) && q[i].1 == weight_of(q[i].0) by { assert(o[i] == Some(q[i])); assert(m.contains_key(l[i].0)); lemma_rep_at(s, m, l[i], q[i]); }
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).1 == weight_of(q[i].0) by { assert(rep_at(s, l[i], v[i])); }
    lemma_reps_from(s, l, v, m);
}
spec fn updated(m0: Map<String, Vec<InternalParsingResult>>, r: Option<InternalParsingResult>, m1: Map<String, Vec<InternalParsingResult>>) -> bool {
    match r {
        None => m1 == m0,
        Some(x) => x.intent.intent_name is Some && exists|v: Vec<InternalParsingResult>| m1 == #[trigger] m0.insert(x.intent.intent_name->Some_0, v) && v@ == (if m0.contains_key(x.intent.intent_name->Some_0) { m0[x.intent.intent_name->Some_0]@.push(x) } else { seq![x] }),
    }
}
spec fn stepped(p: LookupIntentParser, input: Seq<char>, w: Option<&[&str]>, c: (String, Vec<MatchedEntity>), m0: Map<String, Vec<InternalParsingResult>>, m1: Map<String, Vec<InternalParsingResult>>) -> bool {
    if p.map@.contains_key(hash_of(c.0@)) { exists|r: Option<InternalParsingResult>| #[trigger] hit(p, input, p.map@[hash_of(c.0@)], c.1@, w, r) && updated(m0, r, m1) } else { m1 == m0 }
}
spec fn top_of(p: LookupIntentParser, input: Seq<char>, w: Option<&[&str]>, n: int, r: Seq<InternalParsingResult>) -> bool {
    exists|c: Seq<(String, Vec<MatchedEntity>)>, o: Seq<Option<InternalParsingResult>>, v: Seq<InternalParsingResult>| candidates_ok(p, input, w, c) && #[trigger] outcomes(p, input, w, c, o, c.len() as int) && #[trigger] reps(somes(o), v) && ranked(v, n, r)
}
/// what the constructor establishes and every method relies on
#fn intent_parser/lookup_intent_parser.rs LookupIntentParser::parse_top_intents float rlimit=120
#ret r
#spec
requires sane(*self, input@)
ensures r is Ok ==> top_of(*self, input@, intents, top_n as int, r->Ok_0@)
#closure 0 |val: &(IntentId, Vec<SlotId>)| -> (o: Option<InternalParsingResult>)
requires wf_output(*self, *val)
ensures hit(*self, input@, *val, entities@, intents, o)
#closure 1 |results: &mut Vec<InternalParsingResult>|
ensures final(results)@ == old(results)@.push(result)
#closure 2 || -> (v: Vec<InternalParsingResult>)
ensures v@ == seq![result]
#at closure 2 tail vx_x
proof { assert(vx_x@ =~= seq![result]); }
#closure 3 |vx_p: (String, Vec<InternalParsingResult>)| -> (o: Option<(InternalParsingResult, f32)>)
ensures (o is None) == (vx_p.1@.len() == 0), o is Some ==> best_of(vx_p.1@, o->Some_0)
#closure 4 |res: InternalParsingResult| -> (x: (InternalParsingResult, f32))
ensures x.0 == res, x.1 == weight_of(res)
#closure 5 |vx_p: &(InternalParsingResult, f32), vx_q: &(InternalParsingResult, f32)| -> (o: core::cmp::Ordering)
requires !nan(vx_p.1), !nan(vx_q.1)
ensures o != core::cmp::Ordering::Greater ==> fkey(vx_p.1) <= fkey(vx_q.1)
#closure 6 |vx_p: &(InternalParsingResult, f32)| -> (x: &f32)
ensures *x == vx_p.1
#closure 7 |vx_p: (InternalParsingResult, f32)| -> (x: InternalParsingResult)
ensures x.slots == vx_p.0.slots, x.intent.intent_name == vx_p.0.intent.intent_name, x.intent.confidence_score == fdiv(vx_p.1, total_weight)
#closure 8 |res1: &InternalParsingResult, res2: &InternalParsingResult| -> (o: core::cmp::Ordering)
requires !nan(res1.intent.confidence_score), !nan(res2.intent.confidence_score)
ensures o != core::cmp::Ordering::Greater ==> fkey(res1.intent.confidence_score) >= fkey(res2.intent.confidence_score)
#at entry
proof { use_type_invariant(self); assert(wf_map(*self)); }
let ghost mut outs: Seq<Option<InternalParsingResult>> = Seq::empty();
#loop 0
invariant candidates_ok(*self, input@, intents, vx_s0), outcomes(*self, input@, intents, vx_s0, outs, vx_k0), grouped(somes(outs), results_per_intent@)
#at loop 0 start
let ghost m0 = results_per_intent@;
let ghost cand = vx_s0[vx_k0 - 1];
#at loop 0 end
proof {
    assert(stepped(*self, input@, intents, cand, m0, results_per_intent@));
    let r = if self.map@.contains_key(hash_of(cand.0@)) { choose|r: Option<InternalParsingResult>| #[trigger] hit(*self, input@, self.map@[hash_of(cand.0@)], cand.1@, intents, r) && updated(m0, r, results_per_intent@) } else { None };
    assert(outcome(*self, input@, intents, cand, r));
    lemma_somes_push(outs, r);
    if r is Some {
        let x = r->Some_0; let n = x.intent.intent_name->Some_0;
        let v = choose|v: Vec<InternalParsingResult>| results_per_intent@ == #[trigger] m0.insert(n, v) && v@ == (if m0.contains_key(n) { m0[n]@.push(x) } else { seq![x] });
        lemma_grouped_step(somes(outs), m0, x, n, v);
    }
    outs = outs.push(r);
}
#at loop 0 after
let ghost found_all = somes(outs);
let ghost groups = results_per_intent@;
#at after-let results
let ghost best = firsts(results@);
proof {
    let (l, o) = choose|l: Seq<(String, Vec<InternalParsingResult>)>, o: Seq<Option<(InternalParsingResult, f32)>>| #[trigger] lists_map(l, groups) && results@ == #[trigger] somes(o) && o.len() == l.len() && forall|i: int| #![trigger l[i]] #![trigger o[i]] 0 <= i < l.len() ==> (o[i] is None) == (l[i].1@.len() == 0) && (o[i] is Some ==> best_of(l[i].1@, o[i]->Some_0));
    lemma_reps(found_all, groups, l, o);
    lemma_weights(best);
    lemma_all_perm_nan(best);
}
#at after-let total_weight
proof {
    let xs = choose|xs: Seq<&f32>| total_weight == fsum(#[trigger] unrefs(xs)) && xs.len() == results@.len() && forall|i: int| 0 <= i < xs.len() ==> *(#[trigger] xs[i]) == results@[i].1;
    assert(unrefs(xs) =~= weights_of(best));
}
#at tail vx_r
proof { assert(ranked(best, top_n as int, vx_r->Ok_0@)); }
#raw
// ---------------------------------------------------------------- C15
proof fn lemma_top(p: LookupIntentParser, input: Seq<char>, w: Option<&[&str]>, n: int, r: Seq<InternalParsingResult>)
    requires top_of(p, input, w, n, r), n >= 0, wf_map(p)
    ensures named_once(r), descending(r), r.len() <= n, forall|i: int| 0 <= i < r.len() ==> has_string(p.intents_names@, (#[trigger] r[i]).intent.intent_name->Some_0@) && allowed(w, r[i].intent.intent_name->Some_0@), known_once(intents_in(r), p.intents_names@.to_set())
{
    let (c, o, v) = choose|c: Seq<(String, Vec<MatchedEntity>)>, o: Seq<Option<InternalParsingResult>>, v: Seq<InternalParsingResult>| candidates_ok(p, input, w, c) && #[trigger] outcomes(p, input, w, c, o, c.len() as int) && #[trigger] reps(somes(o), v) && ranked(v, n, r);
    let h = somes(o);
    let ix = lemma_somes_ix(o);
    assert forall|i: int| 0 <= i < h.len() implies has_string(p.intents_names@, (#[trigger] h[i]).intent.intent_name->Some_0@) && allowed(w, h[i].intent.intent_name->Some_0@) by {
        assert(o[ix[i]] == Some(h[i])); assert(outcome(p, input, w, c[ix[i]], o[ix[i]]));
        let out = p.map@[hash_of(c[ix[i]].0@)];
        assert(wf_output(p, out)); assert(p.intents_names@[out.0 as int]@ == h[i].intent.intent_name->Some_0@);
    }
    lemma_ranked_names(v, n, r);
    let t = intents_in(r);
    assert forall|i: int| 0 <= i < r.len() implies has_string(p.intents_names@, (#[trigger] r[i]).intent.intent_name->Some_0@) && allowed(w, r[i].intent.intent_name->Some_0@) && p.intents_names@.to_set().contains(t[i].intent_name->Some_0) by {
        assert(from_match(v, r[i]));
        let j = choose|j: int| 0 <= j < v.len() && shares(#[trigger] v[j], fsum(weights_of(v)), r[i]);
        assert(h.contains(v[j])); let k = choose|k: int| 0 <= k < h.len() && h[k] == v[j];
        let nm = r[i].intent.intent_name->Some_0;
        let q = choose|q: int| 0 <= q < p.intents_names@.len() && (#[trigger] p.intents_names@[q])@ == nm@;
        assert(mk_string(nm@) == nm); assert(mk_string(p.intents_names@[q]@) == p.intents_names@[q]); assert(p.intents_names@.contains(nm));
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).intent_name->Some_0 != (#[trigger] t[j]).intent_name->Some_0 by { assert(r[i].intent.intent_name->Some_0 != r[j].intent.intent_name->Some_0); }
}
#fn intent_parser/lookup_intent_parser.rs LookupIntentParser::parse float
#ret r
#spec
requires sane(*self, input@)
ensures r is Ok ==> exists|top: Seq<InternalParsingResult>| #[trigger] top_of(*self, input@, intents_whitelist, 1, top) && confident(top, r->Ok_0)
#closure 0 |res: InternalParsingResult| -> (o: Option<InternalParsingResult>)
requires !nan(res.intent.confidence_score)
ensures o == (if fkey(res.intent.confidence_score) <= fkey(0.5f32) { None } else { Some(res) })
#closure 1 || -> (x: InternalParsingResult)
ensures x.intent.intent_name is None, x.intent.confidence_score == 1.0f32, x.slots@.len() == 0
#raw
proof fn lemma_names_listed(s: Seq<String>)
    ensures lists(unrefs(refs(s)), s.to_set()) || !s.no_duplicates(), lists(unrefs(uniq(refs(s))), s.to_set())
{
    assert(unrefs(refs(s)) =~= s);
    let q = uniq(refs(s)); let u = unrefs(q);
    lemma_uniq(refs(s));
    assert forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j implies u[i] != u[j] by { assert(q[i] != q[j]); }
    assert forall|n: String| u.to_set().contains(n) <==> s.to_set().contains(n) by {
        if s.contains(n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; assert(refs(s)[i] == &n); assert(refs(s).contains(&n)); assert(q.contains(&n)); let j = choose|j: int| 0 <= j < q.len() && q[j] == &n; assert(u[j] == n); }
        if u.contains(n) { let j = choose|j: int| 0 <= j < u.len() && u[j] == n; assert(*q[j] == n); assert(q.contains(&n)); assert(refs(s).contains(&n)); let i = choose|i: int| 0 <= i < s.len() && refs(s)[i] == &n; assert(s[i] == n); }
    }
    assert(u.to_set() =~= s.to_set());
}
#fn intent_parser/lookup_intent_parser.rs LookupIntentParser::get_intents float
#ret r
#spec
requires sane(*self, input@)
ensures r is Ok ==> exists|top: Seq<InternalParsingResult>, n: int| #[trigger] top_of(*self, input@, None, n, top) && listing(top, self.intents_names@.to_set(), r->Ok_0@)
#closure 0 |res: InternalParsingResult| -> (x: IntentClassifierResult)
ensures x == res.intent
#closure 1 |res: &IntentClassifierResult| -> (o: Option<String>)
ensures o == res.intent_name
#at after-let top_intents
let ghost top = choose|top: Seq<InternalParsingResult>| #[trigger] top_of(*self, input@, None, nb_intents as int, top) && top_intents@ =~= intents_in(top);
let ghost ti = top_intents@;
let ghost known = self.intents_names@.to_set();
proof { use_type_invariant(self); assert(wf_map(*self)); lemma_top(*self, input@, None, nb_intents as int, top); }
#at after-let matched_intents
proof {
    let o = choose|o: Seq<Option<String>>| #[trigger] somes(o).to_set() == matched_intents@ && o.len() == ti.len() && forall|i: int| #![trigger ti[i]] #![trigger o[i]] 0 <= i < ti.len() ==> o[i] == ti[i].intent_name;
    assert forall|n: String| #[trigger] matched_intents@.contains(n) == names(ti, n) by { lemma_names(ti, o, n); }
    assert(ti.take(ti.len() as int) =~= ti);
}
#loop 0
invariant lists(unrefs(vx_s0), known), listed_upto(ti, unrefs(vx_s0), vx_k0 as int, top_intents@), known_once(top_intents@, known)
#at loop 0 start
let ghost before = top_intents@;
#at loop 0 end
proof { let u = unrefs(vx_s0); assert(u[vx_k0 - 1] == *intent); assert(mk_string(intent@) == *intent); lemma_listed_step(ti, u, known, vx_k0 - 1, before, top_intents@); }
#at loop 0 before
proof { lemma_names_listed(self.intents_names@); }
#at loop 0 after
let ghost done = top_intents@;
#at end
proof {
    let r = top_intents@;
    let b = r.drop_last();
    assert(b =~= done);
    let u = choose|u: Seq<String>| #[trigger] lists(u, known) && listed_upto(ti, u, u.len() as int, b) && known_once(b, known);
    assert forall|n: String| #[trigger] known.contains(n) implies names(b, n) by { assert(u.to_set().contains(n)); assert(u.contains(n)); let j = choose|j: int| 0 <= j < u.len() && u[j] == n; assert(names(b, u[j])); }
    assert(listing(top, known, r));
}
#fn intent_parser/lookup_intent_parser.rs LookupIntentParser::get_slots keep=parse
#ret r
#spec
requires sane(*self, input@)
ensures !has_string(self.intents_names@, intent@) ==> r is Err,
    r is Ok ==> exists|w: Option<&[&str]>, top: Seq<InternalParsingResult>, x: InternalParsingResult| just(intent@, w) && #[trigger] top_of(*self, input@, w, 1, top) && #[trigger] confident(top, x) && r->Ok_0 == x.slots
#closure 0 |result: InternalParsingResult| -> (s: Vec<InternalSlot>)
ensures s == result.slots
#raw
/// the parser built from a model
spec fn built(m: LookupParserModel, res: SharedResources, p: LookupIntentParser) -> bool {
    &&& language_of(m.language_code@) == Some(p.language)
    &&& general_ok(m.config.ignore_stop_words, res.stop_words@, p.stop_words@)
    &&& specific_ok(p.stop_words@, m.stop_words_whitelist@, p.specific_stop_words@)
    &&& p.slots_names == m.slots_names && p.intents_names == m.intents_names && p.map == m.map && p.entity_scopes == m.entity_scopes
}
spec fn in_range(out: (IntentId, Vec<SlotId>), intents: int, slots: int) -> bool { 0 <= out.0 < intents && forall|i: int| 0 <= i < out.1@.len() ==> 0 <= #[trigger] out.1@[i] < slots }
#fn intent_parser/lookup_intent_parser.rs is_out_of_range
#ret r
#spec
ensures r == !(0 <= id < len)
#fn intent_parser/lookup_intent_parser.rs LookupIntentParser::new
#ret r
#spec
ensures r is Ok ==> built(model, *shared_resources, r->Ok_0) && wf_map(r->Ok_0)
#closure 0 |vx_p: &(IntentId, Vec<SlotId>)| -> (b: bool)
ensures b == !in_range(*vx_p, nb_intents as int, nb_slots as int)
#closure 1 |id: &SlotId| -> (b: bool)
ensures b == !(0 <= *id < nb_slots)
#closure 2 |vx_p: (IntentName, Vec<String>)| -> (o: (IntentName, HashSet<String>))
ensures o.0 == vx_p.0, o.1@ == stop_words@.difference(strings_set(vx_p.1@))
#at tail vx_r
proof {
    if vx_r is Ok {
        let p = vx_r->Ok_0;
        assert(wf_map(p));
        let (t, q) = choose|t: Seq<(IntentName, Vec<String>)>, q: Seq<(IntentName, HashSet<String>)>| #[trigger] lists_map(t, model.stop_words_whitelist@) && p.specific_stop_words@ == #[trigger] pairs_map(q) && q.len() == t.len() && forall|i: int| #![trigger t[i]] #![trigger q[i]] 0 <= i < t.len() ==> q[i].0 == t[i].0 && q[i].1@ == p.stop_words@.difference(strings_set(t[i].1@));
        lemma_specific(p.stop_words@, model.stop_words_whitelist@, t, q);
    }
}
