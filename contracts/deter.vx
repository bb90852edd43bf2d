#include onto
#include float
#include regex
#import sel
#import lang
#item slot_utils.rs struct InternalSlot clone
#item intent_parser/mod.rs struct InternalParsingResult clone
#item resources/mod.rs struct SharedResources fields=builtin_entity_parser,custom_entity_parser,stop_words
#raw
use std::sync::Arc;
impl<'a> VxAsRef<'a, &'a str> for &'a String { open spec fn as_ref_is(self, r: &'a str) -> bool { r@ == self@ } #[verifier::external_body] fn vx_as_ref(self) -> (r: &'a str) { unimplemented!() } }
type IntentName = String;
#import ents
#import rank
#item intent_parser/deterministic_intent_parser.rs struct DeterministicIntentParser
#item models/intent_parser.rs struct DeterministicParserModel
#item models/intent_parser.rs struct DeterministicParserConfig
#import stopw
#use utils deduplicate_overlapping_items
#use utils replace_entities
#raw
// ---------------------------------------------------------------- C11 (slots)
spec fn ov_slot(a: InternalSlot, b: InternalSlot) -> bool { overlap(a.char_range, b.char_range) }
/// the length of a slot: characters plus tokens
spec fn slot_len(l: NluUtilsLanguage, a: InternalSlot) -> int { (tokens_of(a.value@, l).len() + a.value@.len()) as int }
spec fn ovs_f() -> spec_fn(InternalSlot, InternalSlot) -> bool { |a: InternalSlot, b: InternalSlot| ov_slot(a, b) }
spec fn als_f(l: NluUtilsLanguage) -> spec_fn(InternalSlot, InternalSlot) -> bool { |a: InternalSlot, b: InternalSlot| slot_len(l, a) >= slot_len(l, b) }
spec fn slot_sel(l: NluUtilsLanguage, s: Seq<InternalSlot>, kept: Seq<InternalSlot>) -> bool { selection(s, ovs_f(), als_f(l), kept) }
spec fn slots_in_order(r: Seq<InternalSlot>) -> bool { forall|i: int, j: int| 0 <= i <= j < r.len() ==> (#[trigger] r[i]).char_range.start <= (#[trigger] r[j]).char_range.start }
proof fn lemma_token_count(text: Seq<char>, t: Seq<Token>, k: int)
    requires wf_tokens(text, t), faithful(text, t), 0 <= k <= t.len()
    ensures k <= text.len(), k > 0 ==> k <= t[k - 1].char_range.end
    decreases k
{ if k > 0 { lemma_token_count(text, t, k - 1); assert(t[k - 1].char_range.start < t[k - 1].char_range.end <= text.len()); if k > 1 { assert(t[k - 2].char_range.end <= t[k - 1].char_range.start); } } }
#fn intent_parser/deterministic_intent_parser.rs deduplicate_overlapping_slots
#ret r
#spec
requires forall|i: int| 0 <= i < slots@.len() ==> (#[trigger] slots@[i]).value@.len() <= 0x3fff_ffff
ensures slot_sel(nlu_language(language), slots@, r@), slots_in_order(r@)
#closure 0 |lhs_slot: &InternalSlot, rhs_slot: &InternalSlot| -> (b: bool)
ensures b == ov_slot(*lhs_slot, *rhs_slot)
#closure 1 |slot: &InternalSlot| -> (k: i32)
requires slot.value@.len() <= 0x3fff_ffff
ensures k == -slot_len(language, *slot)
#at after-let tokens_count
proof { let t = tokens_of(slot.value@, language); lemma_token_count(slot.value@, t, t.len() as int); }
#closure 2 |slot: &InternalSlot| -> (k: usize)
ensures k == slot.char_range.start
#at after-let slot_sort_key
let ghost es = slots@;
let ghost ovf = ovs_f();
let ghost alf = als_f(language);
proof { assert(agree2(slots_overlap, ovf)); }
#at after-let deduped
let ghost g = deduped@;
proof {
    let s = choose|s: Seq<InternalSlot>| #[trigger] sorted_of(es, slot_sort_key, s) && (forall|ov: spec_fn(InternalSlot, InternalSlot) -> bool| #[trigger] agree2(slots_overlap, ov) ==> deduped@ == greedy(s, ov, s.len() as int));
    let k = choose|k: Seq<i32>| #[trigger] keys_of(s, slot_sort_key, k) && sorted_keys(k);
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| perm_by(es, s, p, q);
    assert forall|i: int, j: int| 0 <= i <= j < s.len() implies alf(#[trigger] s[i], #[trigger] s[j]) by { assert(k[i] == -slot_len(language, s[i])); assert(k[j] == -slot_len(language, s[j])); assert(ord_le(k[i], k[j])); }
    lemma_greedy(s, ovf, alf, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    lemma_id_perm(g);
}
#at end
proof {
    let s = choose|s: Seq<InternalSlot>| #[trigger] selection(s, ovf, alf, g) && s.to_multiset() == es.to_multiset();
    lemma_selection_perm(es, s, ovf, alf, g, deduped@);
}
#fn intent_parser/deterministic_intent_parser.rs get_entity_placeholder
#ret r
#spec
ensures r@ == placeholder(entity_label@)
#at entry
proof { reveal_strlit("%"); reveal_strlit(""); }
#raw
// ---------------------------------------------------------------- C13: the shift
/// the length difference accumulated up to the last placeholder that ends before start
spec fn shift_is(m: Map<Range<usize>, Range<usize>>, start: int, r: int) -> bool {
    ||| r == 0 && forall|k: Range<usize>| #[trigger] m.contains_key(k) ==> !ends_before(k, start)
    ||| exists|k: Range<usize>| #[trigger] m.contains_key(k) && last_before(m, k, start) && r == m[k].end - k.end
}
spec fn ends_before(k: Range<usize>, start: int) -> bool { 0 < k.end <= start }
spec fn last_before(m: Map<Range<usize>, Range<usize>>, k: Range<usize>, start: int) -> bool { ends_before(k, start) && forall|o: Range<usize>| #[trigger] m.contains_key(o) && ends_before(o, start) ==> o.end <= k.end }
spec fn small_map(m: Map<Range<usize>, Range<usize>>) -> bool { forall|k: Range<usize>| #[trigger] m.contains_key(k) ==> k.end <= 0x3fff_ffff && m[k].end <= 0x3fff_ffff }
/// the shift after the first n entries of the map
spec fn shift_upto(s: Seq<(&Range<usize>, &Range<usize>)>, n: int, start: int, last: int, r: int) -> bool {
    &&& forall|i: int| 0 <= i < n && ends_before(*(#[trigger] s[i]).0, start) ==> s[i].0.end <= last
    &&& if last == 0 { r == 0 } else { exists|i: int| 0 <= i < n && ends_before(*(#[trigger] s[i]).0, start) && s[i].0.end == last && r == s[i].1.end - s[i].0.end }
}
#fn intent_parser/deterministic_intent_parser.rs get_range_shift
#ret r
#spec
requires small_map(ranges_mapping@)
ensures shift_is(ranges_mapping@, matched_range.start as int, r as int), -0x3fff_ffff <= r <= 0x3fff_ffff
#loop 0
invariant lists_map_refs(vx_s0, ranges_mapping@), shift_upto(vx_s0, vx_k0, match_start as int, previous_replaced_range_end as int, shift as int)
#at loop 0 start
let ghost n = vx_k0 - 1;
proof { assert(ranges_mapping@.contains_key(*vx_s0[n].0)); }
#at end
proof {
    let s = choose|s: Seq<(&Range<usize>, &Range<usize>)>| #[trigger] lists_map_refs(s, ranges_mapping@) && shift_upto(s, s.len() as int, match_start as int, previous_replaced_range_end as int, shift as int);
    let last = previous_replaced_range_end as int;
    assert forall|o: Range<usize>| #[trigger] ranges_mapping@.contains_key(o) && ends_before(o, match_start as int) implies o.end <= last by { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == o; assert(ends_before(*s[i].0, match_start as int)); }
    if last != 0 {
        let i = choose|i: int| 0 <= i < s.len() && ends_before(*(#[trigger] s[i]).0, match_start as int) && s[i].0.end == last && shift == s[i].1.end - s[i].0.end;
        assert(ranges_mapping@.contains_key(*s[i].0));
        assert(last_before(ranges_mapping@, *s[i].0, match_start as int));
    }
}
#raw
// ---------------------------------------------------------------- C14
spec fn stops(p: DeterministicIntentParser, intent: Seq<char>) -> Set<String> { match map_get(p.specific_stop_words@, mk_string(intent)) { Some(s) => s@, None => p.stop_words@ } }
spec fn spaces(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
spec fn is_stop(p: DeterministicIntentParser, intent: Seq<char>, t: Token) -> bool { stops(p, intent).contains(mk_string(normal(t.value@))) }
/// position i of the text lies in one of the first k tokens, which is not a stop word
spec fn in_kept(p: DeterministicIntentParser, intent: Seq<char>, toks: Seq<Token>, k: int, i: int) -> bool {
    exists|t: int| 0 <= t < k && (#[trigger] toks[t]).char_range.start <= i < toks[t].char_range.end && !is_stop(p, intent, toks[t])
}
/// the first n characters: kept tokens in place, spaces elsewhere
#[verifier::opaque]
spec fn blanked(p: DeterministicIntentParser, intent: Seq<char>, text: Seq<char>, toks: Seq<Token>, k: int, n: int, r: Seq<char>) -> bool {
    r.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r[i] == (if in_kept(p, intent, toks, k, i) { text[i] } else { ' ' })
}
proof fn lemma_tok_at(text: Seq<char>, toks: Seq<Token>, k: int)
    requires wf_tokens(text, toks), faithful(text, toks), 0 <= k < toks.len()
    ensures toks[k].char_range.start < toks[k].char_range.end <= text.len(), toks[k].value@.len() == toks[k].char_range.end - toks[k].char_range.start, k > 0 ==> toks[k - 1].char_range.end <= toks[k].char_range.start
{ assert(toks[k].char_range.start < toks[k].char_range.end <= text.len()); assert(toks[k].value@ == text.subrange(toks[k].char_range.start as int, toks[k].char_range.end as int)); if k > 0 { assert(toks[k - 1].char_range.end <= toks[k].char_range.start); } }
spec fn upto(toks: Seq<Token>, k: int) -> int { if k <= 0 { 0 } else { toks[k - 1].char_range.end as int } }
proof fn lemma_blank_step(p: DeterministicIntentParser, intent: Seq<char>, text: Seq<char>, toks: Seq<Token>, k: int, cur: int, before: Seq<char>, val: Seq<char>, r: Seq<char>)
    requires wf_tokens(text, toks), faithful(text, toks), 0 <= k < toks.len(), cur == upto(toks, k), blanked(p, intent, text, toks, k, cur, before),
        val == (if is_stop(p, intent, toks[k]) { spaces(toks[k].value@.len() as int) } else { toks[k].value@ }),
        r == before + spaces(toks[k].char_range.start - cur) + val
    ensures blanked(p, intent, text, toks, k + 1, toks[k].char_range.end as int, r)
{
    reveal(blanked);
    lemma_tok_at(text, toks, k);
    let t = toks[k];
    assert(t.value@ == text.subrange(t.char_range.start as int, t.char_range.end as int));
    assert forall|j: int| 0 <= j < k implies (#[trigger] toks[j]).char_range.end <= cur by { if j < k - 1 { assert(toks[j].char_range.end <= toks[k - 1].char_range.start); lemma_tok_at(text, toks, k - 1); } }
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == (if in_kept(p, intent, toks, k + 1, i) { text[i] } else { ' ' }) by {
        if i < cur {
            assert(r[i] == before[i]);
            if in_kept(p, intent, toks, k + 1, i) { let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] toks[j]).char_range.start <= i < toks[j].char_range.end && !is_stop(p, intent, toks[j]); assert(j < k); assert(in_kept(p, intent, toks, k, i)); }
            if in_kept(p, intent, toks, k, i) { let j = choose|j: int| 0 <= j < k && (#[trigger] toks[j]).char_range.start <= i < toks[j].char_range.end && !is_stop(p, intent, toks[j]); assert(in_kept(p, intent, toks, k + 1, i)); }
        } else {
            if i >= t.char_range.start && !is_stop(p, intent, t) { assert(in_kept(p, intent, toks, k + 1, i)); }
            if in_kept(p, intent, toks, k + 1, i) { let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] toks[j]).char_range.start <= i < toks[j].char_range.end && !is_stop(p, intent, toks[j]); assert(j == k); }
        }
    }
}
proof fn lemma_blank_end(p: DeterministicIntentParser, intent: Seq<char>, text: Seq<char>, toks: Seq<Token>, cur: int, before: Seq<char>, r: Seq<char>)
    requires wf_tokens(text, toks), faithful(text, toks), cur == upto(toks, toks.len() as int), blanked(p, intent, text, toks, toks.len() as int, cur, before), r == before + spaces(text.len() - cur), cur <= text.len()
    ensures blanked(p, intent, text, toks, toks.len() as int, text.len() as int, r)
{
    reveal(blanked);
    let n = toks.len() as int;
    assert forall|j: int| 0 <= j < n implies (#[trigger] toks[j]).char_range.end <= cur by { if j < n - 1 { assert(toks[j].char_range.end <= toks[n - 1].char_range.start); lemma_tok_at(text, toks, n - 1); } }
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == (if in_kept(p, intent, toks, n, i) { text[i] } else { ' ' }) by { if i < cur { assert(r[i] == before[i]); } }
}
proof fn lemma_blank_start(p: DeterministicIntentParser, intent: Seq<char>, text: Seq<char>, toks: Seq<Token>)
    ensures blanked(p, intent, text, toks, 0, 0, Seq::empty())
{ reveal(blanked); }
proof fn lemma_spaces(s: Seq<&str>, n: int)
    requires s.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] s[i])@ == seq![' ']
    ensures join_seq(str_views(s), Seq::empty()) == spaces(n)
    decreases n
{
    if n > 0 {
        let p = s.drop_last();
        lemma_spaces(p, n - 1);
        assert(str_views(s).drop_last() =~= str_views(p));
        if n == 1 { assert(str_views(s)[0] =~= spaces(1)); } else { assert(spaces(n - 1) + Seq::<char>::empty() + seq![' '] =~= spaces(n)); }
    } else { assert(spaces(0) =~= Seq::<char>::empty()); }
}
proof fn lemma_all_spaces(n: int)
    ensures forall|s: Seq<&str>| s.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i])@ == seq![' ']) ==> #[trigger] join_seq(str_views(s), Seq::empty()) == spaces(n)
{
    assert forall|s: Seq<&str>| s.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i])@ == seq![' ']) implies #[trigger] join_seq(str_views(s), Seq::empty()) == spaces(n) by { lemma_spaces(s, n); }
}
#fn intent_parser/deterministic_intent_parser.rs DeterministicIntentParser::preprocess_text
#ret r
#spec
ensures blanked(*self, intent@, string@, tokens_of(string@, nlu_language(self.language)), tokens_of(string@, nlu_language(self.language)).len() as int, string@.len() as int, r@)
#closure 0 || -> (s: &HashSet<String>)
ensures *s == self.stop_words
#closure 1 |vx_u: usize| -> (x: &str)
ensures x@ == seq![' ']
#closure 2 |vx_u: usize| -> (x: &str)
ensures x@ == seq![' ']
#closure 3 |vx_u: usize| -> (x: &str)
ensures x@ == seq![' ']
#at closure 1 start
proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
#at closure 2 start
proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
#at closure 3 start
proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
#at entry
proof { reveal_strlit(""); }
#at loop 0 before
let ghost toks = tokens@;
proof { lemma_blank_start(*self, intent@, string@, toks); assert(cleaned_string@ =~= Seq::<char>::empty()); }
#loop 0
invariant vx_s0 == toks, toks == tokens_of(string@, nlu_language(self.language)), wf_tokens(string@, toks), faithful(string@, toks), forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).normalized@ == normal(toks[i].value@),
  current_idx == upto(toks, vx_k0 as int), current_idx <= string@.len(), blanked(*self, intent@, string@, toks, vx_k0, current_idx as int, cleaned_string@)
#at loop 0 start
let ghost before = cleaned_string@;
let ghost cur = current_idx as int;
let ghost k = vx_k0 - 1;
proof {
    lemma_all_spaces(token.value@.len() as int);
    lemma_tok_at(string@, toks, k);
    assert(token == toks[k]);
}
#at before-let prefix
proof { lemma_all_spaces(prefix_length as int); }
#at loop 0 end
proof { lemma_blank_step(*self, intent@, string@, toks, k, cur, before, token.value@, cleaned_string@); }
#at before-let suffix
let ghost before_end = cleaned_string@;
proof { lemma_all_spaces(suffix_length as int); }
#at end
proof { lemma_blank_end(*self, intent@, string@, toks, current_idx as int, before_end, cleaned_string@); }
#raw
// ---------------------------------------------------------------- C13
/// the named groups among 1..k that matched, with their names
spec fn named(g: Seq<Option<Range<usize>>>, n: Seq<Option<Seq<char>>>, k: int) -> Seq<(Range<usize>, Seq<char>)>
    decreases k
{ if k <= 1 { Seq::empty() } else if g[k - 1] is Some && n[k - 1] is Some { named(g, n, k - 1).push((g[k - 1]->Some_0, n[k - 1]->Some_0)) } else { named(g, n, k - 1) } }
spec fn group_slot(p: DeterministicIntentParser, name: Seq<char>) -> String { p.group_names_to_slot_names@[mk_string(split_seq(name, '_')[0])] }
/// the group stands for a slot of the intent, whose entity is known
spec fn group_known(g: Map<String, SlotName>, e: Option<HashMap<SlotName, EntityName>>, name: Seq<char>) -> bool {
    &&& g.contains_key(mk_string(split_seq(name, '_')[0]))
    &&& e is Some && e->Some_0@.contains_key(g[mk_string(split_seq(name, '_')[0])])
}
spec fn names_known(g: Map<String, SlotName>, e: Option<HashMap<SlotName, EntityName>>, n: Seq<Option<Seq<char>>>) -> bool { forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]) is Some ==> group_known(g, e, n[i]->Some_0) }
/// every named group is configured for the intent
spec fn configured(p: DeterministicIntentParser, intent: Seq<char>, n: Seq<Option<Seq<char>>>) -> bool {
    names_known(p.group_names_to_slot_names@, map_get(p.slot_names_to_entities@, mk_string(intent)), n)
}
/// where a match of the formatted text lies in the input
spec fn mapped(m: Option<Map<Range<usize>, Range<usize>>>, c: Range<usize>, r: Range<usize>) -> bool {
    match m {
        None => r == c,
        Some(m) => if m.contains_key(c) { r == m[c] } else { exists|sh: int| #[trigger] shift_is(m, c.start as int, sh) && r.start == c.start + sh && r.end == c.end + sh },
    }
}
spec fn char_range_at(text: Seq<char>, b: Range<usize>) -> Range<usize> { Range { start: chars_before(text, b.start as int) as usize, end: chars_before(text, b.end as int) as usize } }
spec fn slot_of(p: DeterministicIntentParser, input: Seq<char>, ftext: Seq<char>, intent: Seq<char>, m: Option<Map<Range<usize>, Range<usize>>>, g: (Range<usize>, Seq<char>), s: InternalSlot) -> bool {
    &&& s.slot_name == group_slot(p, g.1)
    &&& s.entity == p.slot_names_to_entities@[mk_string(intent)]@[group_slot(p, g.1)]
    &&& mapped(m, char_range_at(ftext, g.0), s.char_range)
    &&& s.char_range.start <= s.char_range.end <= input.len() ==> s.value@ == input.subrange(s.char_range.start as int, s.char_range.end as int)
}
spec fn slots_of(p: DeterministicIntentParser, input: Seq<char>, ftext: Seq<char>, intent: Seq<char>, m: Option<Map<Range<usize>, Range<usize>>>, g: Seq<(Range<usize>, Seq<char>)>, s: Seq<InternalSlot>) -> bool {
    s.len() == g.len() && forall|i: int| 0 <= i < g.len() ==> slot_of(p, input, ftext, intent, m, g[i], #[trigger] s[i])
}
spec fn opt_map(m: Option<&HashMap<Range<usize>, Range<usize>>>) -> Option<Map<Range<usize>, Range<usize>>> { match m { Some(x) => Some(x@), None => None } }
/// the answer for one pattern: the slots of its first match, overlaps removed
spec fn pattern_hit(p: DeterministicIntentParser, input: Seq<char>, ftext: Seq<char>, re: Regex, intent: Seq<char>, m: Option<Map<Range<usize>, Range<usize>>>, r: Option<InternalParsingResult>) -> bool {
    let ms = matches_of(re, ftext);
    match r {
        None => ms.len() == 0,
        Some(x) => ms.len() > 0 && x.intent.intent_name is Some && x.intent.intent_name->Some_0@ == intent && slots_in_order(x.slots@)
            && exists|s: Seq<InternalSlot>| #[trigger] slots_of(p, input, ftext, intent, m, named(ms[0], names_of(re), names_of(re).len() as int), s) && slot_sel(nlu_language(p.language), s, x.slots@),
    }
}
spec fn pair_of(x: (Option<Match>, Option<&str>)) -> Option<(Match, &str)> { if x.0 is Some && x.1 is Some { Some((x.0->Some_0, x.1->Some_0)) } else { None } }
spec fn same_pairs(a: Seq<(Match, &str)>, b: Seq<(Range<usize>, Seq<char>)>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0.b == b[i].0 && a[i].1@ == b[i].1 }
proof fn lemma_pairs(c: Captures, n: Seq<Option<&str>>, names: Seq<Option<Seq<char>>>, o: Seq<Option<(Match, &str)>>, k: int)
    requires is_names(n, names), c.g@.len() == names.len(), o.len() == (if k >= 1 { k - 1 } else { 0 }), 0 <= k <= names.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == pair_of((c.g@[i + 1], n[i + 1]))
    ensures same_pairs(somes(o), named(groups(c), names, k))
    decreases k
{
    if k > 1 {
        let q = o.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == pair_of((c.g@[i + 1], n[i + 1])) by { assert(q[i] == o[i]); }
        lemma_pairs(c, n, names, q, k - 1);
        assert(o.last() == pair_of((c.g@[k - 1], n[k - 1])));
        assert((match n[k - 1] { Some(x) => Some(x@), None => None }) == names[k - 1]);
    }
}
proof fn lemma_named_at(g: Seq<Option<Range<usize>>>, n: Seq<Option<Seq<char>>>, k: int, i: int)
    requires 0 <= i < named(g, n, k).len(), k <= n.len(), k <= g.len()
    ensures exists|j: int| 1 <= j < k && (#[trigger] n[j]) is Some && n[j]->Some_0 == named(g, n, k)[i].1 && g[j] is Some && g[j]->Some_0 == named(g, n, k)[i].0
    decreases k
{
    if k > 1 { if i < named(g, n, k - 1).len() { lemma_named_at(g, n, k - 1, i); let j = choose|j: int| 1 <= j < k - 1 && (#[trigger] n[j]) is Some && n[j]->Some_0 == named(g, n, k - 1)[i].1 && g[j] is Some && g[j]->Some_0 == named(g, n, k - 1)[i].0; assert(n[j] is Some && n[j]->Some_0 == named(g, n, k)[i].1); } else { assert(n[k - 1] is Some && n[k - 1]->Some_0 == named(g, n, k)[i].1); } }
}
spec fn pair_ok(p: DeterministicIntentParser, intent: Seq<char>, x: (Match, &str)) -> bool {
    &&& group_known(p.group_names_to_slot_names@, map_get(p.slot_names_to_entities@, mk_string(intent)), x.1@)
    &&& x.0.b.start <= x.0.b.end
}
proof fn lemma_all_pairs(p: DeterministicIntentParser, intent: Seq<char>, text: Seq<char>, c: Captures, names: Seq<Option<Seq<char>>>)
    requires c.g@.len() == names.len(), names.len() > 0, configured(p, intent, names), proper(text, groups(c))
    ensures forall|n: Seq<Option<&str>>, o: Seq<Option<(Match, &str)>>| #![trigger zipped(c.g@, n), somes(o)]
        is_names(n, names) && o.len() == names.len() - 1 && (forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == pair_of(zipped(c.g@, n).skip(1)[i]))
            ==> same_pairs(somes(o), named(groups(c), names, names.len() as int)) && forall|i: int| 0 <= i < somes(o).len() ==> pair_ok(p, intent, #[trigger] somes(o)[i])
{
    assert forall|n: Seq<Option<&str>>, o: Seq<Option<(Match, &str)>>| #![trigger zipped(c.g@, n), somes(o)]
        is_names(n, names) && o.len() == names.len() - 1 && (forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == pair_of(zipped(c.g@, n).skip(1)[i]))
            implies same_pairs(somes(o), named(groups(c), names, names.len() as int)) && forall|i: int| 0 <= i < somes(o).len() ==> pair_ok(p, intent, #[trigger] somes(o)[i]) by
    {
        assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] == pair_of((c.g@[i + 1], n[i + 1])) by { assert(zipped(c.g@, n).skip(1)[i] == (c.g@[i + 1], n[i + 1])); }
        lemma_pairs(c, n, names, o, names.len() as int);
        let nm = named(groups(c), names, names.len() as int);
        assert forall|i: int| 0 <= i < somes(o).len() implies pair_ok(p, intent, #[trigger] somes(o)[i]) by {
            lemma_named_at(groups(c), names, names.len() as int, i);
            assert(somes(o)[i].0.b == nm[i].0 && somes(o)[i].1@ == nm[i].1);
        }
    }
}
#fn intent_parser/mod.rs internal_parsing_result
#ret r
#spec
ensures r.intent.intent_name == intent_name, r.intent.confidence_score == intent_proba, r.slots == slots
#fn intent_parser/deterministic_intent_parser.rs DeterministicIntentParser::get_matching_result mapindex=group_names_to_slot_names mapindex=slot_names_to_entities rename=split keep=is_match
#ret r
#spec
requires configured(*self, intent@, names_of(*regex)), formatted_input@.len() <= 0x3fff_ffff, builtin_entities_ranges_mapping is Some ==> small_map(builtin_entities_ranges_mapping->Some_0@), input@.len() <= 0x3fff_ffff
ensures pattern_hit(*self, input@, formatted_input@, *regex, intent@, opt_map(builtin_entities_ranges_mapping), r)
#closure 0 |vx_p: (Option<Match>, Option<&str>)| -> (o: Option<(Match, &str)>)
ensures o == pair_of(vx_p)
#closure 1 |vx_p: (Match, &str)| -> (s: InternalSlot)
requires pair_ok(*self, intent@, vx_p)
ensures vx_p.1@.len() >= 0, s.value@.len() <= input@.len(), slot_of(*self, input@, formatted_input@, intent@, opt_map(builtin_entities_ranges_mapping), (vx_p.0.b, vx_p.1@), s)
#closure 2 || -> (x: Range<usize>)
requires !ranges_mapping@.contains_key(char_range), char_range.start <= 0x3fff_ffff, char_range.end <= 0x3fff_ffff, char_range.start <= char_range.end
ensures mapped(Some(ranges_mapping@), char_range, x)
#loop 0
invariant vx_k0 == 0
#at loop 0 start
let ghost cap = caps;
let ghost names = names_of(*regex);
proof { lemma_all_pairs(*self, intent@, formatted_input@, cap, names); }
#at after-let deduplicated_slots
let ghost sl = slots@;
let ghost nm = named(groups(cap), names, names.len() as int);
proof {
    assert(slots_of(*self, input@, formatted_input@, intent@, opt_map(builtin_entities_ranges_mapping), nm, sl));
    assert(groups(cap) == matches_of(*regex, formatted_input@)[0]);
}
#at after-let result
proof { assert(slot_sel(nlu_language(self.language), sl, result.slots@)); }
#raw
type Scope = (Vec<BuiltinEntityKind>, Vec<EntityName>);
spec fn ph_f() -> spec_fn(Seq<char>) -> Seq<char> { |l: Seq<char>| placeholder(l) }
spec fn opt_list(w: Option<&[&str]>) -> Option<Seq<Seq<char>>> { match w { Some(x) => Some(str_views(x@)), None => None } }
spec fn permitted(p: DeterministicIntentParser, w: Option<&[&str]>, n: String) -> bool { match w { Some(x) => has_str(x@, n@), None => p.slot_names_to_entities@.contains_key(n) } }
/// the entities the parsers find for the scope of an intent
spec fn seen(p: DeterministicIntentParser, input: Seq<char>, scope: Scope, items: Seq<MatchedEntity>) -> bool {
    exists|b: Result<Vec<BuiltinEntity>>, c: Result<Vec<CustomEntity>>| #[trigger] p.shared_resources.builtin_entity_parser.answers(input, Some(scope.0@), 0, b) && b is Ok
        && #[trigger] p.shared_resources.custom_entity_parser.answers(input, Some(scope.1@), 0, c) && c is Ok && items == of_builtins(b->Ok_0@) + of_customs(c->Ok_0@)
}
/// the input with its entities replaced, and where the placeholders come from
spec fn formatted(input: Seq<char>, items: Seq<MatchedEntity>, kept: Seq<MatchedEntity>, m: Map<Range<usize>, Range<usize>>, out: Seq<char>) -> bool {
    ent_sel(items, kept) && disjoint_in_order(input, kept) && m =~= rep_map(input, kept, ph_f(), kept.len() as int) && out == rep_full(input, kept, ph_f())
}
spec fn is_blanked(p: DeterministicIntentParser, intent: Seq<char>, text: Seq<char>, r: Seq<char>) -> bool {
    blanked(p, intent, text, tokens_of(text, nlu_language(p.language)), tokens_of(text, nlu_language(p.language)).len() as int, text.len() as int, r)
}
/// a pattern is tried on the input, then on the input with placeholders
spec fn tried(p: DeterministicIntentParser, input: Seq<char>, intent: Seq<char>, c1: Seq<char>, c2: Seq<char>, m: Map<Range<usize>, Range<usize>>, re: Regex, r: Option<InternalParsingResult>) -> bool {
    if matches_of(re, c1).len() > 0 { r is Some && pattern_hit(p, input, c1, re, intent, None, r) } else { pattern_hit(p, input, c2, re, intent, Some(m), r) }
}
spec fn first_hit(p: DeterministicIntentParser, input: Seq<char>, intent: Seq<char>, c1: Seq<char>, c2: Seq<char>, m: Map<Range<usize>, Range<usize>>, res: Seq<Regex>, r: Option<InternalParsingResult>) -> bool {
    match r {
        Some(x) => exists|i: int| 0 <= i < res.len() && tried(p, input, intent, c1, c2, m, #[trigger] res[i], r) && forall|j: int| 0 <= j < i ==> tried(p, input, intent, c1, c2, m, #[trigger] res[j], None),
        None => forall|j: int| 0 <= j < res.len() ==> tried(p, input, intent, c1, c2, m, #[trigger] res[j], None),
    }
}
/// what the parser finds for one intent
spec fn intent_hit(p: DeterministicIntentParser, input: Seq<char>, intent: String, scope: Scope, r: Option<InternalParsingResult>) -> bool {
    &&& p.regexes_per_intent@.contains_key(intent)
    &&& exists|items: Seq<MatchedEntity>, kept: Seq<MatchedEntity>, m: Map<Range<usize>, Range<usize>>, out: Seq<char>, c1: Seq<char>, c2: Seq<char>|
        #[trigger] seen(p, input, scope, items) && #[trigger] formatted(input, items, kept, m, out) && is_blanked(p, intent@, input, c1) && is_blanked(p, intent@, out, c2)
            && #[trigger] first_hit(p, input, intent@, c1, c2, m, p.regexes_per_intent@[intent]@, r)
}
spec fn scope_list(p: DeterministicIntentParser, w: Option<&[&str]>, s: Seq<(&IntentName, &Scope)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> p.entity_scopes@.contains_key(*(#[trigger] s[i]).0) && p.entity_scopes@[*s[i].0] == *s[i].1 && permitted(p, w, *s[i].0)
    &&& forall|n: IntentName| #[trigger] p.entity_scopes@.contains_key(n) && permitted(p, w, n) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == n
}
spec fn hits_of(p: DeterministicIntentParser, input: Seq<char>, s: Seq<(&IntentName, &Scope)>, o: Seq<Option<InternalParsingResult>>, k: int) -> bool {
    o.len() == k && forall|i: int| 0 <= i < k ==> intent_hit(p, input, *s[i].0, *s[i].1, #[trigger] o[i])
}
spec fn top_of(p: DeterministicIntentParser, input: Seq<char>, w: Option<&[&str]>, n: int, r: Seq<InternalParsingResult>) -> bool {
    exists|s: Seq<(&IntentName, &Scope)>, o: Seq<Option<InternalParsingResult>>| #[trigger] scope_list(p, w, s) && #[trigger] hits_of(p, input, s, o, s.len() as int) && ranked(somes(o), n, r)
}
/// what the constructor establishes and every method relies on: every pattern of every intent only has configured groups
impl DeterministicIntentParser { #[verifier::type_invariant] spec fn vx_inv(&self) -> bool { wf_parser(*self) } }
spec fn wf_parser(p: DeterministicIntentParser) -> bool {
    forall|n: IntentName, i: int| #[trigger] p.regexes_per_intent@.contains_key(n) && 0 <= i < p.regexes_per_intent@[n]@.len() ==> configured(p, n@, names_of(#[trigger] p.regexes_per_intent@[n]@[i]))
}
/// entity names are short enough for the text with placeholders to stay small
spec fn short_labels(p: DeterministicIntentParser, input: Seq<char>, c: int) -> bool {
    &&& c >= 0 && input.len() + input.len() * c <= 0x3fff_ffff
    &&& forall|k: Option<Seq<BuiltinEntityKind>>, r: Result<Vec<BuiltinEntity>>, i: int| (#[trigger] p.shared_resources.builtin_entity_parser.answers(input, k, 0, r)) && r is Ok && 0 <= i < r->Ok_0@.len() ==> placeholder(of_builtin(#[trigger] r->Ok_0@[i]).entity_name@).len() <= c
    &&& forall|k: Option<Seq<String>>, r: Result<Vec<CustomEntity>>, i: int| (#[trigger] p.shared_resources.custom_entity_parser.answers(input, k, 0, r)) && r is Ok && 0 <= i < r->Ok_0@.len() ==> placeholder(of_custom(#[trigger] r->Ok_0@[i]).entity_name@).len() <= c
}
spec fn sane(p: DeterministicIntentParser, input: Seq<char>) -> bool {
    sane_builtin(p.shared_resources.builtin_entity_parser) && sane_custom(p.shared_resources.custom_entity_parser) && exists|c: int| #[trigger] short_labels(p, input, c)
}
proof fn lemma_rep_len(text: Seq<char>, kept: Seq<MatchedEntity>, k: int, c: int)
    requires disjoint_in_order(text, kept), 0 <= k <= kept.len(), c >= 0, text.len() + text.len() * c <= 0x3fff_ffff, forall|i: int| 0 <= i < kept.len() ==> placeholder((#[trigger] kept[i]).entity_name@).len() <= c
    ensures rep_text(text, kept, ph_f(), k).len() <= cur_of(kept, k) + k * c, cur_of(kept, k) + k * c <= text.len() + text.len() * c, small_map(rep_map(text, kept, ph_f(), k))
    decreases k
{
    lemma_disjoint_len(text, kept, k);
    assert(0 <= text.len() * c) by (nonlinear_arith) requires c >= 0;
    if k == 0 { assert(k * c == 0) by (nonlinear_arith) requires k == 0; }
    if k > 0 {
        lemma_rep_len(text, kept, k - 1, c);
        if k > 1 { assert(kept[k - 2].range.end <= kept[k - 1].range.start); }
        assert(kept[k - 1].range.start < kept[k - 1].range.end <= text.len());
        assert(placeholder(kept[k - 1].entity_name@).len() <= c);
        assert((k - 1) * c + c == k * c) by (nonlinear_arith);
        assert(k * c <= text.len() * c) by (nonlinear_arith) requires k <= text.len(), c >= 0;
        assert(ph_f()(kept[k - 1].entity_name@) == placeholder(kept[k - 1].entity_name@));
        assert(rep_text(text, kept, ph_f(), k).len() <= cur_of(kept, k) + k * c);
    }
}
proof fn lemma_formatted(input: Seq<char>, items: Seq<MatchedEntity>, kept: Seq<MatchedEntity>, m: Map<Range<usize>, Range<usize>>, out: Seq<char>, c: int)
    requires formatted(input, items, kept, m, out), c >= 0, input.len() + input.len() * c <= 0x3fff_ffff, forall|i: int| 0 <= i < items.len() ==> placeholder((#[trigger] items[i]).entity_name@).len() <= c
    ensures out.len() <= 0x3fff_ffff, small_map(m)
{
    lemma_from_items(items, kept);
    assert forall|i: int| 0 <= i < kept.len() implies placeholder((#[trigger] kept[i]).entity_name@).len() <= c by { assert(from_at(items, kept[i], items.len() as int)); }
    let k = kept.len() as int;
    lemma_disjoint_len(input, kept, k);
    lemma_rep_len(input, kept, k, c);
    if k > 0 { assert(kept[k - 1].range.start < kept[k - 1].range.end <= input.len()); }
    assert(k * c <= input.len() * c) by (nonlinear_arith) requires k <= input.len(), c >= 0;
    assert(out.len() == rep_text(input, kept, ph_f(), k).len() + (input.len() - cur_of(kept, k)));
}
proof fn lemma_scope_list(p: DeterministicIntentParser, w: Option<&[&str]>, l: Seq<(&IntentName, &Scope)>, keep: spec_fn(int) -> bool)
    requires lists_map_refs(l, p.entity_scopes@), forall|i: int| #![trigger l[i]] #![trigger keep(i)] 0 <= i < l.len() ==> keep(i) == permitted(p, w, *l[i].0)
    ensures scope_list(p, w, sel(l, keep))
{
    lemma_sel_ix(l, keep);
    let ix = kept_ix(l.len() as int, keep);
    let s = sel(l, keep);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0 by { assert(ix[i] < ix[j]); assert(s[i] == l[ix[i]] && s[j] == l[ix[j]]); }
    assert forall|i: int| 0 <= i < s.len() implies p.entity_scopes@.contains_key(*(#[trigger] s[i]).0) && p.entity_scopes@[*s[i].0] == *s[i].1 && permitted(p, w, *s[i].0) by { assert(s[i] == l[ix[i]]); assert(keep(ix[i])); }
    assert forall|n: IntentName| #[trigger] p.entity_scopes@.contains_key(n) && permitted(p, w, n) implies exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == n by {
        let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]).0 == n;
        assert(keep(i)); assert(ix_has(ix, i));
        let k = choose|k: int| 0 <= k < ix.len() && #[trigger] ix[k] == i;
        assert(s[k] == l[i]);
    }
}
#fn intent_parser/deterministic_intent_parser.rs DeterministicIntentParser::parse_top_intents float
#ret r
#spec
requires sane(*self, input@)
ensures r is Ok ==> top_of(*self, input@, intents, top_n as int, r->Ok_0@)
#closure 0 |intent_list: &[&str]| -> (s: HashSet<&str>)
ensures forall|n: Seq<char>| #[trigger] in_set(s@, n) == has_str(intent_list@, n)
#closure 1 |intent: &&str| -> (x: &str)
ensures x == *intent
#closure 2 || -> (s: HashSet<&str>)
ensures forall|n: Seq<char>| #[trigger] in_set(s@, n) == self.slot_names_to_entities@.contains_key(mk_string(n))
#closure 3 |intent: &IntentName| -> (x: &str)
ensures x@ == intent@
#closure 4 |vx_p: &(&IntentName, &Scope)| -> (b: bool)
ensures b == permitted(*self, intents, *vx_p.0)
#closure 5 |entity: BuiltinEntity| -> (m: MatchedEntity)
ensures m == of_builtin(entity)
#closure 6 |entity: CustomEntity| -> (m: MatchedEntity)
ensures m == of_custom(entity)
#closure 8 |regex: &Regex| -> (o: Option<InternalParsingResult>)
requires configured(*self, intent@, names_of(*regex))
ensures tried(*self, input@, intent@, cleaned_input@, cleaned_formatted_input@, ranges_mapping@, *regex, o)
#closure 9 || -> (o: Option<InternalParsingResult>)
requires configured(*self, intent@, names_of(*regex))
ensures pattern_hit(*self, input@, cleaned_formatted_input@, *regex, intent@, Some(ranges_mapping@), o)
#closure 10 |res: &InternalParsingResult| -> (x: f32)
ensures x == weight_of(*res)
#closure 11 |vx_p: (usize, InternalParsingResult)| -> (x: InternalParsingResult)
requires vx_p.0 < weights@.len()
ensures x.slots == vx_p.1.slots, x.intent.intent_name == vx_p.1.intent.intent_name, x.intent.confidence_score == fdiv(weights@[vx_p.0 as int], total_weight)
#closure 12 |res1: &InternalParsingResult, res2: &InternalParsingResult| -> (o: core::cmp::Ordering)
requires !nan(res1.intent.confidence_score), !nan(res2.intent.confidence_score)
ensures o != core::cmp::Ordering::Greater ==> fkey(res1.intent.confidence_score) >= fkey(res2.intent.confidence_score)
#at entry
let ghost mut outs: Seq<Option<InternalParsingResult>> = Seq::empty();
#loop 0
invariant scope_list(*self, intents, vx_s0), hits_of(*self, input@, vx_s0, outs, vx_k0), results@ == somes(outs)
#at closure 0 tail vx_x
proof {
    let ss = choose|ss: Seq<&str>| #[trigger] ss.to_set() == vx_x@ && ss.len() == intent_list@.len() && forall|i: int| 0 <= i < ss.len() ==> #[trigger] ss[i] == intent_list@[i];
    assert(ss =~= intent_list@);
    lemma_in_set(ss);
}
#at closure 2 tail vx_x
proof {
    let (ss, ks) = choose|ss: Seq<&str>, ks: Seq<&IntentName>| #[trigger] ss.to_set() == vx_x@ && #[trigger] lists(unrefs(ks), self.slot_names_to_entities@.dom()) && ss.len() == ks.len() && forall|i: int| 0 <= i < ss.len() ==> (#[trigger] ss[i])@ == ks[i]@;
    lemma_in_set(ss);
    lemma_keys(ss, ks, self.slot_names_to_entities@.dom());
}
#at after-let filtered_entity_scopes
proof {
    let (l, keep) = choose|l: Seq<(&IntentName, &Scope)>, keep: spec_fn(int) -> bool| #[trigger] lists_map_refs(l, self.entity_scopes@) && filtered_entity_scopes@ == #[trigger] sel(l, keep) && forall|i: int| #![trigger l[i]] #![trigger keep(i)] 0 <= i < l.len() ==> keep(i) == permitted(*self, intents, *l[i].0);
    lemma_scope_list(*self, intents, l, keep);
}
#at loop 0 start
let ghost res0 = results@;
let ghost scope = *vx_s0[vx_k0 - 1].1;
let ghost cap = choose|c: int| #[trigger] short_labels(*self, input@, c);
#at after-let builtin_entities
let ghost gb = builtin_entities@;
let ghost b = choose|b: Result<Vec<BuiltinEntity>>| #[trigger] self.shared_resources.builtin_entity_parser.answers(input@, Some(scope.0@), 0, b) && b is Ok && gb =~= of_builtins(b->Ok_0@);
#at after-let custom_entities
let ghost gc = custom_entities@;
let ghost c = choose|c: Result<Vec<CustomEntity>>| #[trigger] self.shared_resources.custom_entity_parser.answers(input@, Some(scope.1@), 0, c) && c is Ok && gc =~= of_customs(c->Ok_0@);
#at before-let ranges_mapping
let ghost items = matched_entities@;
proof {
    assert(items =~= gb + gc);
    assert(seen(*self, input@, scope, items));
    assert(ph_bound(get_entity_placeholder, items, cap));
    assert(inside(input@, items));
    assert(input@.len() + input@.len() * cap <= isize::MAX);
    if input@.len() > 0 { assert(cap <= input@.len() * cap) by (nonlinear_arith) requires input@.len() > 0, cap >= 0; lemma_room_ge(input@.len() as int, cap); }
}
#at after-let ranges_mapping
let ghost kept = choose|kept: Seq<MatchedEntity>| #[trigger] ent_sel(items, kept) && replaced(input@, items, kept, get_entity_placeholder, ranges_mapping@, formatted_input@);
proof {
    assert(agree1(get_entity_placeholder, ph_f()));
    assert(formatted(input@, items, kept, ranges_mapping@, formatted_input@));
    lemma_formatted(input@, items, kept, ranges_mapping@, formatted_input@, cap);
}
#at after-let cleaned_formatted_input
proof { use_type_invariant(self); assert(wf_parser(*self)); assert(mk_string(intent@) == *intent); reveal(blanked); assert(cleaned_formatted_input@.len() == formatted_input@.len()); assert(cleaned_input@.len() == input@.len()); assert(self.regexes_per_intent@.contains_key(*intent) ==> forall|i: int| 0 <= i < self.regexes_per_intent@[*intent]@.len() ==> configured(*self, intent@, names_of(#[trigger] self.regexes_per_intent@[*intent]@[i]))); }
#at loop 0 end
proof {
    let o = if results@.len() > res0.len() { Some(results@.last()) } else { None };
    assert(first_hit(*self, input@, intent@, cleaned_input@, cleaned_formatted_input@, ranges_mapping@, self.regexes_per_intent@[*intent]@, o));
    assert(intent_hit(*self, input@, *intent, scope, o));
    lemma_somes_push(outs, o);
    outs = outs.push(o);
}
#at after-let total_weight
let ghost rs = results@;
proof { lemma_weights(rs); assert(weights@ =~= weights_of(rs)); assert(unrefs(refs(weights@)) =~= weights@); lemma_all_perm_nan(rs); }
#at tail vx_r
proof { assert(ranked(rs, top_n as int, vx_r->Ok_0@)); }
#raw
// ---------------------------------------------------------------- C15
/// the results name different intents, each permitted and with patterns
proof fn lemma_top(p: DeterministicIntentParser, input: Seq<char>, w: Option<&[&str]>, n: int, r: Seq<InternalParsingResult>)
    requires top_of(p, input, w, n, r), n >= 0
    ensures named_once(r), descending(r), r.len() <= n, forall|i: int| 0 <= i < r.len() ==> p.regexes_per_intent@.contains_key((#[trigger] r[i]).intent.intent_name->Some_0) && permitted(p, w, r[i].intent.intent_name->Some_0), known_once(intents_in(r), p.regexes_per_intent@.dom())
{
    let (s, o) = choose|s: Seq<(&IntentName, &Scope)>, o: Seq<Option<InternalParsingResult>>| #[trigger] scope_list(p, w, s) && #[trigger] hits_of(p, input, s, o, s.len() as int) && ranked(somes(o), n, r);
    let h = somes(o);
    let ix = lemma_somes_ix(o);
    assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).intent.intent_name is Some && h[i].intent.intent_name->Some_0 == *s[ix[i]].0 && p.regexes_per_intent@.contains_key(*s[ix[i]].0) && permitted(p, w, *s[ix[i]].0) by {
        assert(o[ix[i]] == Some(h[i]));
        assert(intent_hit(p, input, *s[ix[i]].0, *s[ix[i]].1, o[ix[i]]));
        lemma_hit_name(p, input, *s[ix[i]].0, *s[ix[i]].1, h[i]);
    }
    assert forall|i: int, j: int| 0 <= i < j < h.len() implies (#[trigger] h[i]).intent.intent_name->Some_0 != (#[trigger] h[j]).intent.intent_name->Some_0 by { assert(ix[i] < ix[j]); assert(*s[ix[i]].0 != *s[ix[j]].0); }
    lemma_ranked_names(h, n, r);
    assert forall|i: int| 0 <= i < r.len() implies p.regexes_per_intent@.contains_key((#[trigger] r[i]).intent.intent_name->Some_0) && permitted(p, w, r[i].intent.intent_name->Some_0) by {
        assert(from_match(h, r[i]));
        let j = choose|j: int| 0 <= j < h.len() && shares(#[trigger] h[j], fsum(weights_of(h)), r[i]);
    }
    let t = intents_in(r);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).intent_name->Some_0 != (#[trigger] t[j]).intent_name->Some_0 by { assert(r[i].intent.intent_name->Some_0 != r[j].intent.intent_name->Some_0); }
}
proof fn lemma_hit_name(p: DeterministicIntentParser, input: Seq<char>, intent: String, scope: Scope, x: InternalParsingResult)
    requires intent_hit(p, input, intent, scope, Some(x))
    ensures x.intent.intent_name == Some(intent)
{
    let (items, kept, m, out, c1, c2) = choose|items: Seq<MatchedEntity>, kept: Seq<MatchedEntity>, m: Map<Range<usize>, Range<usize>>, out: Seq<char>, c1: Seq<char>, c2: Seq<char>|
        #[trigger] seen(p, input, scope, items) && #[trigger] formatted(input, items, kept, m, out) && is_blanked(p, intent@, input, c1) && is_blanked(p, intent@, out, c2)
            && #[trigger] first_hit(p, input, intent@, c1, c2, m, p.regexes_per_intent@[intent]@, Some(x));
    let res = p.regexes_per_intent@[intent]@;
    let i = choose|i: int| 0 <= i < res.len() && tried(p, input, intent@, c1, c2, m, #[trigger] res[i], Some(x));
    assert(x.intent.intent_name->Some_0@ == intent@);
}
#fn intent_parser/deterministic_intent_parser.rs DeterministicIntentParser::parse float
#ret r
#spec
requires sane(*self, input@)
ensures r is Ok ==> exists|top: Seq<InternalParsingResult>| #[trigger] top_of(*self, input@, intents_whitelist, 1, top) && confident(top, r->Ok_0)
#closure 0 |res: InternalParsingResult| -> (o: Option<InternalParsingResult>)
requires !nan(res.intent.confidence_score)
ensures o == (if fkey(res.intent.confidence_score) <= fkey(0.5f32) { None } else { Some(res) })
#closure 1 || -> (x: InternalParsingResult)
ensures x.intent.intent_name is None, x.intent.confidence_score == 1.0f32, x.slots@.len() == 0
#fn intent_parser/deterministic_intent_parser.rs DeterministicIntentParser::get_intents float
#ret r
#spec
requires sane(*self, input@)
ensures r is Ok ==> exists|top: Seq<InternalParsingResult>, n: int| #[trigger] top_of(*self, input@, None, n, top) && listing(top, self.regexes_per_intent@.dom(), r->Ok_0@)
#closure 0 |res: InternalParsingResult| -> (x: IntentClassifierResult)
ensures x == res.intent
#closure 1 |res: &IntentClassifierResult| -> (o: Option<String>)
ensures o == res.intent_name
#at after-let top_intents
let ghost top = choose|top: Seq<InternalParsingResult>| #[trigger] top_of(*self, input@, None, nb_intents as int, top) && top_intents@ =~= intents_in(top);
let ghost ti = top_intents@;
let ghost known = self.regexes_per_intent@.dom();
proof { lemma_top(*self, input@, None, nb_intents as int, top); }
#at after-let matched_intents
proof {
    let o = choose|o: Seq<Option<String>>| #[trigger] somes(o).to_set() == matched_intents@ && o.len() == ti.len() && forall|i: int| #![trigger ti[i]] #![trigger o[i]] 0 <= i < ti.len() ==> o[i] == ti[i].intent_name;
    assert forall|n: String| #[trigger] matched_intents@.contains(n) == names(ti, n) by { lemma_names(ti, o, n); }
    assert(ti.take(ti.len() as int) =~= ti);
}
#loop 0
invariant lists(unrefs(vx_s0), known), listed_upto(ti, unrefs(vx_s0), vx_k0 as int, top_intents@), known_once(top_intents@, known)
#at loop 0 start
let ghost before = top_intents@;
#at loop 0 end
proof { let u = unrefs(vx_s0); assert(u[vx_k0 - 1] == *intent); assert(mk_string(intent@) == *intent); lemma_listed_step(ti, u, known, vx_k0 - 1, before, top_intents@); }
#at loop 0 after
let ghost done = top_intents@;
#at end
proof {
    let r = top_intents@;
    let b = r.drop_last();
    assert(b =~= done);
    let u = choose|u: Seq<String>| #[trigger] lists(u, known) && listed_upto(ti, u, u.len() as int, b) && known_once(b, known);
    assert forall|n: String| #[trigger] known.contains(n) implies names(b, n) by { assert(u.to_set().contains(n)); assert(u.contains(n)); let j = choose|j: int| 0 <= j < u.len() && u[j] == n; assert(names(b, u[j])); }
    assert(listing(top, known, r));
}
#fn intent_parser/deterministic_intent_parser.rs DeterministicIntentParser::get_slots keep=parse
#ret r
#spec
requires sane(*self, input@)
ensures !self.regexes_per_intent@.contains_key(mk_string(intent@)) ==> r is Err,
    r is Ok ==> exists|w: Option<&[&str]>, top: Seq<InternalParsingResult>, x: InternalParsingResult| just(intent@, w) && #[trigger] top_of(*self, input@, w, 1, top) && #[trigger] confident(top, x) && r->Ok_0 == x.slots
#closure 0 |result: InternalParsingResult| -> (s: Vec<InternalSlot>)
ensures s == result.slots
#raw
// ---------------------------------------------------------------- construction
spec fn patterns_ok(s: Seq<String>, r: Seq<Regex>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> compiled((#[trigger] s[i])@, true) == core::result::Result::<Regex, VxError>::Ok(r[i]) }
spec fn patterns_map(p: Map<IntentName, Vec<String>>, r: Map<IntentName, Vec<Regex>>) -> bool {
    r.dom() =~= p.dom() && forall|n: IntentName| #[trigger] p.contains_key(n) ==> patterns_ok(p[n]@, r[n]@)
}
proof fn lemma_patterns(p: Map<IntentName, Vec<String>>, s: Seq<(IntentName, Vec<String>)>, o: Seq<(IntentName, Vec<Regex>)>)
    requires lists_map(s, p), o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] o[i]).0 == s[i].0 && patterns_ok(s[i].1@, o[i].1@)
    ensures patterns_map(p, pairs_map(o))
{
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).0 != (#[trigger] o[j]).0 by { assert(s[i].0 != s[j].0); }
    lemma_pairs_map(o);
    let r = pairs_map(o);
    assert forall|n: IntentName| #[trigger] p.contains_key(n) implies r.contains_key(n) && patterns_ok(p[n]@, r[n]@) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n; assert(r.contains_key(o[i].0)); }
    assert forall|n: IntentName| #[trigger] r.contains_key(n) implies p.contains_key(n) by { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == n; assert(p.contains_key(s[i].0)); }
}
#fn intent_parser/deterministic_intent_parser.rs compile_regexes_per_intent
#ret r
#spec
ensures r is Ok ==> patterns_map(patterns@, r->Ok_0@)
#closure 0 |vx_p: (IntentName, Vec<String>)| -> (o: Result<(IntentName, Vec<Regex>)>)
ensures o is Ok ==> o->Ok_0.0 == vx_p.0 && patterns_ok(vx_p.1@, o->Ok_0.1@)
#closure 1 |p: String| -> (o: Result<Regex>)
ensures o == compiled(p@, true)
#at tail vx_r
proof {
    if vx_r is Ok {
        let (s, o, v) = choose|s: Seq<(IntentName, Vec<String>)>, o: Seq<Result<(IntentName, Vec<Regex>)>>, v: Seq<(IntentName, Vec<Regex>)>| #[trigger] lists_map(s, patterns@) && #[trigger] all_ok(o, v) && vx_r->Ok_0@ == pairs_map(v) && o.len() == s.len()
            && forall|i: int| #![trigger s[i]] #![trigger o[i]] 0 <= i < s.len() ==> (o[i] is Ok ==> o[i]->Ok_0.0 == s[i].0 && patterns_ok(s[i].1@, o[i]->Ok_0.1@));
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] v[i]).0 == s[i].0 && patterns_ok(s[i].1@, v[i].1@) by { assert(o[i] == core::result::Result::<(IntentName, Vec<Regex>), VxError>::Ok(v[i])); }
        lemma_patterns(patterns@, s, v);
    }
}
#raw
/// the entity kinds of an intent: the built-in ones and the names of the others, each once
spec fn scope_ok(m: Map<SlotName, EntityName>, sc: Scope) -> bool {
    &&& sc.0@.no_duplicates() && sc.1@.no_duplicates()
    &&& forall|k: BuiltinEntityKind| #[trigger] sc.0@.contains(k) <==> exists|n: SlotName| #[trigger] m.contains_key(n) && kind_of(m[n]@) == Some(k)
    &&& forall|e: EntityName| #[trigger] sc.1@.contains(e) <==> exists|n: SlotName| #[trigger] m.contains_key(n) && m[n] == e && kind_of(e@) is None
}
spec fn scopes_ok(m: Map<IntentName, HashMap<SlotName, EntityName>>, r: Map<IntentName, Scope>) -> bool {
    r.dom() =~= m.dom() && forall|n: IntentName| #[trigger] m.contains_key(n) ==> scope_ok(m[n]@, r[n])
}
spec fn kind_opt(e: EntityName) -> Option<BuiltinEntityKind> { kind_of(e@) }
spec fn other_opt(e: EntityName) -> Option<EntityName> { if kind_of(e@) is Some { None } else { Some(e) } }
proof fn lemma_flat_opt<T>(o: Seq<Option<T>>)
    ensures forall|x: T| #[trigger] flat_elems(o).contains(x) <==> o.contains(Some(x))
    decreases o.len()
{
    if o.len() > 0 {
        let p = o.drop_last();
        lemma_flat_opt(p);
        let (a, b) = (flat_elems(p), o.last().into_elems());
        assert forall|x: T| #[trigger] flat_elems(o).contains(x) <==> o.contains(Some(x)) by {
            if flat_elems(o).contains(x) { let i = choose|i: int| 0 <= i < flat_elems(o).len() && flat_elems(o)[i] == x; if i < a.len() { assert(a[i] == x); assert(a.contains(x)); assert(p.contains(Some(x))); let j = choose|j: int| 0 <= j < p.len() && p[j] == Some(x); assert(o[j] == Some(x)); } else { assert(b[i - a.len()] == x); assert(o[o.len() - 1] == Some(x)); } }
            if o.contains(Some(x)) { let j = choose|j: int| 0 <= j < o.len() && o[j] == Some(x); if j < p.len() { assert(p[j] == Some(x)); assert(p.contains(Some(x))); assert(a.contains(x)); let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(flat_elems(o)[i] == x); } else { assert(b[0] == x); assert(flat_elems(o)[a.len() as int] == x); } }
        }
    }
}
proof fn lemma_scope_part<T>(m: Map<SlotName, EntityName>, s: Seq<(&SlotName, &EntityName)>, o: Seq<Option<T>>, f: spec_fn(EntityName) -> Option<T>)
    requires lists_map_refs(s, m), o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] o[i] == f(*s[i].1)
    ensures uniq(flat_elems(o)).no_duplicates(), forall|x: T| #[trigger] uniq(flat_elems(o)).contains(x) <==> exists|n: SlotName| #[trigger] m.contains_key(n) && f(m[n]) == Some(x)
{
    lemma_flat_opt(o);
    lemma_uniq(flat_elems(o));
    assert forall|x: T| #[trigger] uniq(flat_elems(o)).contains(x) <==> exists|n: SlotName| #[trigger] m.contains_key(n) && f(m[n]) == Some(x) by {
        if o.contains(Some(x)) { let i = choose|i: int| 0 <= i < o.len() && o[i] == Some(x); assert(m.contains_key(*s[i].0)); assert(f(m[*s[i].0]) == Some(x)); }
        if exists|n: SlotName| #[trigger] m.contains_key(n) && f(m[n]) == Some(x) { let n = choose|n: SlotName| #[trigger] m.contains_key(n) && f(m[n]) == Some(x); let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == n; assert(o[i] == Some(x)); assert(o.contains(Some(x))); }
    }
}
proof fn lemma_scopes(m: Map<IntentName, HashMap<SlotName, EntityName>>, s: Seq<(&IntentName, &HashMap<SlotName, EntityName>)>, o: Seq<(IntentName, Scope)>)
    requires lists_map_refs(s, m), o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] o[i]).0 == *s[i].0 && scope_ok(s[i].1@, o[i].1)
    ensures scopes_ok(m, pairs_map(o))
{
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).0 != (#[trigger] o[j]).0 by { assert(*s[i].0 != *s[j].0); }
    lemma_pairs_map(o);
    let r = pairs_map(o);
    assert forall|n: IntentName| #[trigger] m.contains_key(n) implies r.contains_key(n) && scope_ok(m[n]@, r[n]) by { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == n; assert(r.contains_key(o[i].0)); }
    assert forall|n: IntentName| #[trigger] r.contains_key(n) implies m.contains_key(n) by { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == n; assert(m.contains_key(*s[i].0)); }
}
/// the parser built from a model
spec fn built(m: DeterministicParserModel, res: SharedResources, p: DeterministicIntentParser) -> bool {
    &&& language_of(m.language_code@) == Some(p.language)
    &&& general_ok(m.config.ignore_stop_words, res.stop_words@, p.stop_words@)
    &&& specific_ok(p.stop_words@, m.stop_words_whitelist@, p.specific_stop_words@)
    &&& patterns_map(m.patterns@, p.regexes_per_intent@) && scopes_ok(m.slot_names_to_entities@, p.entity_scopes@)
    &&& p.group_names_to_slot_names == m.group_names_to_slot_names && p.slot_names_to_entities == m.slot_names_to_entities
}
/// whitelisted words are no stop words of the intent; with stop words disabled there are none
proof fn lemma_stop_words(m: DeterministicParserModel, res: SharedResources, p: DeterministicIntentParser, intent: String, t: Token)
    requires built(m, res, p)
    ensures !m.config.ignore_stop_words ==> !is_stop(p, intent@, t),
        m.stop_words_whitelist@.contains_key(intent) && m.stop_words_whitelist@[intent]@.contains(mk_string(normal(t.value@))) ==> !is_stop(p, intent@, t),
        !m.stop_words_whitelist@.contains_key(intent) && m.config.ignore_stop_words ==> is_stop(p, intent@, t) == res.stop_words@.contains(mk_string(normal(t.value@))),
        m.stop_words_whitelist@.contains_key(intent) && m.config.ignore_stop_words && !m.stop_words_whitelist@[intent]@.contains(mk_string(normal(t.value@))) ==> is_stop(p, intent@, t) == res.stop_words@.contains(mk_string(normal(t.value@))),
{ assert(mk_string(intent@) == intent); assert(p.specific_stop_words@.contains_key(intent) == m.stop_words_whitelist@.contains_key(intent)); }
#raw
proof fn lemma_all_names(n: Seq<Option<Seq<char>>>)
    ensures forall|s: Seq<Option<&str>>| #![trigger somes(s)] is_names(s, n) ==> same_names(somes(s), n)
{
    assert forall|s: Seq<Option<&str>>| #![trigger somes(s)] is_names(s, n) implies same_names(somes(s), n) by { lemma_same_names(s, n); }
}
spec fn has_name(n: Seq<Option<Seq<char>>>, v: Seq<char>) -> bool { exists|i: int| 0 <= i < n.len() && #[trigger] n[i] == Some(v) }
spec fn same_names(q: Seq<&str>, n: Seq<Option<Seq<char>>>) -> bool {
    &&& forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]) is Some ==> has_str(q, n[i]->Some_0)
    &&& forall|j: int| 0 <= j < q.len() ==> has_name(n, (#[trigger] q[j])@)
}
proof fn lemma_same_names(s: Seq<Option<&str>>, n: Seq<Option<Seq<char>>>)
    requires is_names(s, n)
    ensures same_names(somes(s), n)
    decreases s.len()
{
    if s.len() > 0 {
        let (p, m) = (s.drop_last(), n.drop_last());
        assert forall|i: int| 0 <= i < m.len() implies (match #[trigger] p[i] { Some(x) => Some(x@), None => None }) == m[i] by { assert(p[i] == s[i]); }
        lemma_same_names(p, m);
        let (a, q) = (somes(p), somes(s));
        let l = n.len() - 1;
        assert((match s[l] { Some(x) => Some(x@), None => None }) == n[l]);
        assert forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]) is Some implies has_str(q, n[i]->Some_0) by {
            if i < l { assert(m[i] == n[i]); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j])@ == m[i]->Some_0; assert(q[j] == a[j]); } else { assert(q[a.len() as int]@ == n[l]->Some_0); }
        }
        assert forall|j: int| 0 <= j < q.len() implies has_name(n, (#[trigger] q[j])@) by {
            if j < a.len() { assert(q[j] == a[j]); let i = choose|i: int| 0 <= i < m.len() && #[trigger] m[i] == Some(a[j]@); assert(n[i] == m[i]); } else { assert(n[l] == Some(q[j]@)); }
        }
    }
}
spec fn owned<T>(o: Option<&T>) -> Option<T> { match o { Some(e) => Some(*e), None => None } }
#fn intent_parser/deterministic_intent_parser.rs has_configured_groups
#ret r
#spec
ensures r == names_known(group_names_to_slot_names@, owned(slots_to_entities), names_of(*regex))
#at entry
proof { lemma_all_names(names_of(*regex)); }
#closure 0 |group_name: &str| -> (b: bool)
ensures b == group_known(group_names_to_slot_names@, owned(slots_to_entities), group_name@)
#closure 1 |entities: &HashMap<SlotName, EntityName>| -> (b: bool)
ensures b == entities@.contains_key(*slot_name)
#fn intent_parser/deterministic_intent_parser.rs DeterministicIntentParser::new
#ret r
#spec
ensures r is Ok ==> built(model, *shared_resources, r->Ok_0) && wf_parser(r->Ok_0)
#closure 4 |regex: &Regex| -> (b: bool)
ensures b == names_known(group_names_to_slot_names@, map_get(model.slot_names_to_entities@, *intent), names_of(*regex))
#loop 0
invariant lists_map_refs(vx_s0, regexes_per_intent@), forall|j: int, i: int| 0 <= j < vx_k0 && 0 <= i < vx_s0[j].1@.len() ==> names_known(group_names_to_slot_names@, map_get(model.slot_names_to_entities@, *vx_s0[j].0), names_of(#[trigger] vx_s0[j].1@[i]))
#at loop 0 after
proof {
    let s = choose|s: Seq<(&IntentName, &Vec<Regex>)>| #[trigger] lists_map_refs(s, regexes_per_intent@) && forall|j: int, i: int| 0 <= j < s.len() && 0 <= i < s[j].1@.len() ==> names_known(group_names_to_slot_names@, map_get(model.slot_names_to_entities@, *s[j].0), names_of(#[trigger] s[j].1@[i]));
    assert forall|n: IntentName, i: int| #[trigger] regexes_per_intent@.contains_key(n) && 0 <= i < regexes_per_intent@[n]@.len() implies names_known(group_names_to_slot_names@, map_get(model.slot_names_to_entities@, n), names_of(#[trigger] regexes_per_intent@[n]@[i])) by {
        let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == n; assert(names_known(group_names_to_slot_names@, map_get(model.slot_names_to_entities@, *s[j].0), names_of(s[j].1@[i])));
    }
}
#closure 0 |vx_p: (&IntentName, &HashMap<SlotName, EntityName>)| -> (o: (IntentName, Scope))
ensures o.0 == *vx_p.0, scope_ok(vx_p.1@, o.1)
#at closure 0 tail vx_x
proof {
    let m = mapping@;
    let (s, o) = choose|s: Seq<(&SlotName, &EntityName)>, o: Seq<Option<BuiltinEntityKind>>| #[trigger] lists_map_refs(s, m) && vx_x.1.0@ == uniq(#[trigger] flat_elems(o)) && o.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger o[i]] 0 <= i < s.len() ==> o[i] == kind_opt(*s[i].1);
    lemma_scope_part(m, s, o, |e: EntityName| kind_opt(e));
    let (t, p) = choose|t: Seq<(&SlotName, &EntityName)>, p: Seq<Option<EntityName>>| #[trigger] lists_map_refs(t, m) && vx_x.1.1@ == uniq(#[trigger] flat_elems(p)) && p.len() == t.len() && forall|i: int| #![trigger t[i]] #![trigger p[i]] 0 <= i < t.len() ==> p[i] == other_opt(*t[i].1);
    lemma_scope_part(m, t, p, |e: EntityName| other_opt(e));
    assert forall|k: BuiltinEntityKind| #[trigger] vx_x.1.0@.contains(k) <==> exists|n: SlotName| #[trigger] m.contains_key(n) && kind_of(m[n]@) == Some(k) by {
        if vx_x.1.0@.contains(k) { let n = choose|n: SlotName| #[trigger] m.contains_key(n) && kind_opt(m[n]) == Some(k); assert(kind_of(m[n]@) == Some(k)); }
        if exists|n: SlotName| #[trigger] m.contains_key(n) && kind_of(m[n]@) == Some(k) { let n = choose|n: SlotName| #[trigger] m.contains_key(n) && kind_of(m[n]@) == Some(k); assert(kind_opt(m[n]) == Some(k)); }
    }
    assert forall|e: EntityName| #[trigger] vx_x.1.1@.contains(e) <==> exists|n: SlotName| #[trigger] m.contains_key(n) && m[n] == e && kind_of(e@) is None by {
        if vx_x.1.1@.contains(e) { let n = choose|n: SlotName| #[trigger] m.contains_key(n) && other_opt(m[n]) == Some(e); assert(m[n] == e); }
        if exists|n: SlotName| #[trigger] m.contains_key(n) && m[n] == e && kind_of(e@) is None { let n = choose|n: SlotName| #[trigger] m.contains_key(n) && m[n] == e && kind_of(e@) is None; assert(other_opt(m[n]) == Some(e)); }
    }
}
#closure 1 |vx_p: (&SlotName, &EntityName)| -> (o: Option<BuiltinEntityKind>)
ensures o == kind_opt(*vx_p.1)
#closure 2 |vx_p: (&SlotName, &EntityName)| -> (o: Option<EntityName>)
ensures o == other_opt(*vx_p.1)
#closure 3 |vx_p: (IntentName, Vec<String>)| -> (o: (IntentName, HashSet<String>))
ensures o.0 == vx_p.0, o.1@ == stop_words@.difference(strings_set(vx_p.1@))
#at tail vx_r
proof {
    if vx_r is Ok {
        let p = vx_r->Ok_0;
        let (s, o) = choose|s: Seq<(&IntentName, &HashMap<SlotName, EntityName>)>, o: Seq<(IntentName, Scope)>| #[trigger] lists_map_refs(s, model.slot_names_to_entities@) && p.entity_scopes@ == #[trigger] pairs_map(o) && o.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger o[i]] 0 <= i < s.len() ==> o[i].0 == *s[i].0 && scope_ok(s[i].1@, o[i].1);
        lemma_scopes(model.slot_names_to_entities@, s, o);
        let (t, q) = choose|t: Seq<(IntentName, Vec<String>)>, q: Seq<(IntentName, HashSet<String>)>| #[trigger] lists_map(t, model.stop_words_whitelist@) && p.specific_stop_words@ == #[trigger] pairs_map(q) && q.len() == t.len() && forall|i: int| #![trigger t[i]] #![trigger q[i]] 0 <= i < t.len() ==> q[i].0 == t[i].0 && q[i].1@ == p.stop_words@.difference(strings_set(t[i].1@));
        lemma_specific(p.stop_words@, model.stop_words_whitelist@, t, q);
    }
}
