#include onto
#include token
#include float
#item slot_utils.rs struct InternalSlot clone
#item models/nlu_engine.rs struct Entity clone
#item models/nlu_engine.rs struct DatasetMetadata
#item resources/mod.rs struct SharedResources fields=builtin_entity_parser,custom_entity_parser
#item intent_parser/mod.rs struct InternalParsingResult clone
#raw
use std::sync::Arc;
spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
spec fn wl_of(w: Option<&[&str]>) -> Option<Seq<Seq<char>>> { match w { Some(x) => Some(strs(x@)), None => None } }
/// the interface of an intent parser: what it answers is an arbitrary relation
trait IntentParser: Send + Sync {
    spec fn parses(&self, input: Seq<char>, whitelist: Option<Seq<Seq<char>>>, r: Result<InternalParsingResult>) -> bool;
    spec fn ranks(&self, input: Seq<char>, r: Result<Vec<IntentClassifierResult>>) -> bool;
    spec fn fills(&self, input: Seq<char>, intent: Seq<char>, r: Result<Vec<InternalSlot>>) -> bool;
    fn parse(&self, input: &str, intents_whitelist: Option<&[&str]>) -> (r: Result<InternalParsingResult>) ensures self.parses(input@, wl_of(intents_whitelist), r);
    fn get_intents(&self, input: &str) -> (r: Result<Vec<IntentClassifierResult>>) ensures self.ranks(input@, r);
    fn get_slots(&self, input: &str, intent: &str) -> (r: Result<Vec<InternalSlot>>) ensures self.fills(input@, intent@, r);
}
#item nlu_engine.rs struct SnipsNluEngine
#raw
// ---------------------------------------------------------------- C10
spec fn customs(vs: Seq<SlotValue>, of: Seq<String>) -> bool { vs.len() == of.len() && forall|i: int| 0 <= i < vs.len() ==> #[trigger] vs[i] == SlotValue::Custom(StringValue { value: of[i] }) }
spec fn last_of<T>(v: Seq<T>) -> Option<T> { if v.len() > 0 { Some(v.last()) } else { None } }
spec fn slot_named(r: Slot, entity: Seq<char>, name: Seq<char>) -> bool { r.entity@ == entity && r.slot_name@ == name }
spec fn from_custom(r: Slot, m: CustomEntity) -> bool { r.raw_value == m.value && r.range == m.range && r.value == SlotValue::Custom(StringValue { value: m.resolved_value }) && customs(r.alternatives@, m.alternative_resolved_values@) }
spec fn whole_input(r: Slot, input: String) -> bool { r.raw_value == input && r.range.start == 0 && r.range.end == input@.len() && r.value == SlotValue::Custom(StringValue { value: input }) && r.alternatives@.len() == 0 }
spec fn custom_extracted(input: String, entity: Seq<char>, name: Seq<char>, ext: bool, p: Arc<dyn CustomEntityParser>, alts: usize, r: Result<Option<Slot>>) -> bool {
    exists|a: Result<Vec<CustomEntity>>, ks: Seq<String>| #[trigger] p.answers(input@, Some(ks), alts, a) && ks.len() == 1 && ks[0]@ == entity && match a {
        Err(_) => r is Err,
        Ok(v) => r is Ok && match last_of(v@) {
            Some(m) => r->Ok_0 is Some && slot_named(r->Ok_0.unwrap(), entity, name) && from_custom(r->Ok_0.unwrap(), m),
            None => if ext { r->Ok_0 is Some && slot_named(r->Ok_0.unwrap(), entity, name) && whole_input(r->Ok_0.unwrap(), input) } else { r->Ok_0 is None },
        },
    }
}
spec fn from_builtin(r: Slot, m: BuiltinEntity, input: Seq<char>) -> bool { (m.range.start <= m.range.end <= input.len() ==> r.raw_value@ == input.subrange(m.range.start as int, m.range.end as int)) && r.range == m.range && r.value == m.entity && r.alternatives == m.alternatives }
spec fn builtin_extracted(input: Seq<char>, entity: Seq<char>, name: Seq<char>, p: Arc<dyn BuiltinEntityParser>, alts: usize, r: Result<Option<Slot>>) -> bool {
    match kind_of(entity) {
        None => r is Err,
        Some(k) => exists|a: Result<Vec<BuiltinEntity>>, ks: Seq<BuiltinEntityKind>| #[trigger] p.answers(input, Some(ks), alts, a) && ks.len() == 1 && ks[0] == k && match a {
            Err(_) => r is Err,
            Ok(v) => r is Ok && if v@.len() > 0 { r->Ok_0 is Some && slot_named(r->Ok_0.unwrap(), entity, name) && from_builtin(r->Ok_0.unwrap(), v@[0], input) } else { r->Ok_0 is None },
        },
    }
}
spec fn entity_of(m: DatasetMetadata, intent: Seq<char>, slot: Seq<char>) -> Option<String> {
    match map_get(m.slot_name_mappings@, mk_string(intent)) { Some(s) => map_get(s@, mk_string(slot)), None => None }
}
#fn nlu_engine.rs extract_custom_slot
#ret r
#spec
ensures custom_extracted(input, entity_name@, slot_name@, custom_entity.automatically_extensible, custom_entity_parser, slot_alternatives, r)
#closure 0 |resolved: String| -> (x: SlotValue)
ensures x == SlotValue::Custom(StringValue { value: resolved })
#fn nlu_engine.rs extract_builtin_slot
#ret r
#spec
ensures builtin_extracted(input@, entity_name@, slot_name@, builtin_entity_parser, slot_alternatives, r)
#closure 0 |builtin_entity: BuiltinEntity| -> (x: Slot)
ensures slot_named(x, entity_name@, slot_name@), from_builtin(x, builtin_entity, input@)
#raw
/// an unknown intent or slot is an error; otherwise only the entity of that slot is looked for
spec fn extraction(e: SnipsNluEngine, input: String, intent: Seq<char>, slot: Seq<char>, alts: usize, r: Result<Option<Slot>>) -> bool {
    match entity_of(e.dataset_metadata, intent, slot) {
        None => r is Err,
        Some(n) => match map_get(e.dataset_metadata.entities@, n) {
            Some(c) => custom_extracted(input, n@, slot, c.automatically_extensible, e.shared_resources.custom_entity_parser, alts, r),
            None => builtin_extracted(input@, n@, slot, e.shared_resources.builtin_entity_parser, alts, r),
        },
    }
}
#fn nlu_engine.rs SnipsNluEngine::extract_slot_with_alternatives
#ret r
#spec
ensures extraction(*self, input, intent_name@, slot_name@, slot_alternatives, r)
#fn nlu_engine.rs SnipsNluEngine::extract_slot
#ret r
#spec
ensures extraction(*self, input, intent_name@, slot_name@, 0, r)
#raw
// ---------------------------------------------------------------- C09
spec fn same_slot(s: InternalSlot, r: Slot) -> bool { r.raw_value == s.value && r.range == s.char_range && r.entity == s.entity && r.slot_name == s.slot_name }
/// the slot carries the resolution of a custom entity match
spec fn custom_value(r: Slot, e: CustomEntity) -> bool { r.value == SlotValue::Custom(StringValue { value: e.resolved_value }) && customs(r.alternatives@, e.alternative_resolved_values@) }
spec fn builtin_value(r: Slot, e: BuiltinEntity) -> bool { r.value == e.entity && r.alternatives == e.alternatives }
spec fn b_hit(e: BuiltinEntity, k: BuiltinEntityKind, rg: Range<usize>) -> bool { e.entity_kind == k && e.range == rg }
spec fn b_hits(es: Seq<BuiltinEntity>, k: BuiltinEntityKind, rg: Range<usize>) -> bool { exists|i: int| 0 <= i < es.len() && b_hit(#[trigger] es[i], k, rg) }
spec fn c_hit(e: CustomEntity, n: Seq<char>, rg: Range<usize>) -> bool { e.entity_identifier@ == n && e.range == rg }
spec fn c_hits(es: Seq<CustomEntity>, n: Seq<char>, rg: Range<usize>) -> bool { exists|i: int| 0 <= i < es.len() && c_hit(#[trigger] es[i], n, rg) }
spec fn b_outcome(s: InternalSlot, o: Option<Slot>, e: Option<BuiltinEntity>) -> bool { match (o, e) { (Some(r), Some(e)) => same_slot(s, r) && builtin_value(r, e), (None, None) => true, _ => false } }
/// a built-in slot is resolved by a match of its kind on its range, else by the parser's answer on its text alone, else dropped
spec fn builtin_resolved(s: InternalSlot, es: Seq<BuiltinEntity>, p: Arc<dyn BuiltinEntityParser>, alts: usize, r: Result<Option<Slot>>) -> bool {
    match kind_of(s.entity@) {
        None => r is Err,
        Some(k) => if b_hits(es, k, s.char_range) { r is Ok && exists|i: int| 0 <= i < es.len() && b_hit(#[trigger] es[i], k, s.char_range) && b_outcome(s, r->Ok_0, Some(es[i])) }
            else { exists|a: Result<Vec<BuiltinEntity>>, ks: Seq<BuiltinEntityKind>| #[trigger] p.answers(s.value@, Some(ks), alts, a) && ks.len() == 1 && ks[0] == k && (match a { Ok(v) => r is Ok && b_outcome(s, r->Ok_0, last_of(v@)), Err(_) => r is Err }) },
    }
}
spec fn c_outcome(s: InternalSlot, o: Option<Slot>, e: Option<CustomEntity>, ext: bool) -> bool {
    match e {
        Some(e) => o is Some && same_slot(s, o.unwrap()) && custom_value(o.unwrap(), e),
        None => if ext { o is Some && same_slot(s, o.unwrap()) && o.unwrap().value == SlotValue::Custom(StringValue { value: s.value }) && o.unwrap().alternatives@.len() == 0 } else { o is None },
    }
}
spec fn whole(e: Option<CustomEntity>, s: InternalSlot) -> Option<CustomEntity> { match e { Some(e) => if e.value@.len() == s.value@.len() { Some(e) } else { None }, None => None } }
/// a custom slot is resolved by a match of its entity on its range, else by a match covering its whole text alone, else by
/// its text if the entity is automatically extensible, else dropped
spec fn custom_resolved(s: InternalSlot, ext: bool, es: Seq<CustomEntity>, p: Arc<dyn CustomEntityParser>, alts: usize, r: Result<Option<Slot>>) -> bool {
    if c_hits(es, s.entity@, s.char_range) { r is Ok && exists|i: int| 0 <= i < es.len() && c_hit(#[trigger] es[i], s.entity@, s.char_range) && c_outcome(s, r->Ok_0, Some(es[i]), ext) }
    else { exists|a: Result<Vec<CustomEntity>>, ks: Seq<String>| #[trigger] p.answers(s.value@, Some(ks), alts, a) && ks.len() == 1 && ks[0] == s.entity && (match a { Ok(v) => r is Ok && c_outcome(s, r->Ok_0, whole(last_of(v@), s), ext), Err(_) => r is Err }) }
}
#fn slot_utils.rs convert_to_custom_slot
#ret r
#spec
ensures same_slot(slot, r), r.value == SlotValue::Custom(StringValue { value: resolved_value }), customs(r.alternatives@, alternatives@)
#closure 0 |v: String| -> (x: SlotValue)
ensures x == SlotValue::Custom(StringValue { value: v })
#fn slot_utils.rs convert_to_builtin_slot
#ret r
#spec
ensures same_slot(slot, r), builtin_value(r, builtin_entity)
#fn slot_utils.rs resolve_builtin_slot
#ret r
#spec
ensures builtin_resolved(internal_slot, builtin_entities@, builtin_entity_parser, slots_alternatives, r)
#closure 0 |entity: &&BuiltinEntity| -> (b: bool)
ensures b == (entity.entity_kind == entity_kind && entity.range == internal_slot.char_range)
#closure 1 |entity: BuiltinEntity| -> (x: Slot)
ensures same_slot(internal_slot, x), builtin_value(x, entity)
#fn slot_utils.rs resolve_custom_slot
#ret r
#spec
ensures custom_resolved(internal_slot, entity.automatically_extensible, custom_entities@, custom_entity_parser, slots_alternatives, r)
#closure 0 |custom_entity: &&CustomEntity| -> (b: bool)
ensures b == (custom_entity.entity_identifier@ == internal_slot.entity@ && custom_entity.range == internal_slot.char_range)
#closure 1 |entity: CustomEntity| -> (x: Option<CustomEntity>)
ensures x == whole(Some(entity), internal_slot)
#closure 2 |matching_entity: CustomEntity| -> (x: Option<(String, Vec<String>)>)
ensures x == Some((matching_entity.resolved_value, matching_entity.alternative_resolved_values))
#closure 3 || -> (x: Option<(String, Vec<String>)>)
ensures x is Some <==> entity.automatically_extensible, x is Some ==> x.unwrap().0 == internal_slot.value && x.unwrap().1@.len() == 0
#closure 4 |vx_a: (String, Vec<String>)| -> (x: Slot)
ensures same_slot(internal_slot, x), x.value == SlotValue::Custom(StringValue { value: vx_a.0 }), customs(x.alternatives@, vx_a.1@)
#raw
// ---------------------------------------------------------------- C08
spec fn slot_result(e: SnipsNluEngine, s: InternalSlot, be: Seq<BuiltinEntity>, ce: Seq<CustomEntity>, alts: usize, o: Result<Option<Slot>>) -> bool {
    match map_get(e.dataset_metadata.entities@, s.entity) {
        Some(c) => custom_resolved(s, c.automatically_extensible, ce, e.shared_resources.custom_entity_parser, alts, o),
        None => builtin_resolved(s, be, e.shared_resources.builtin_entity_parser, alts, o),
    }
}
spec fn slot_resolved(e: SnipsNluEngine, s: InternalSlot, be: Seq<BuiltinEntity>, ce: Seq<CustomEntity>, alts: usize, o: Option<Slot>) -> bool { slot_result(e, s, be, ce, alts, Ok(o)) }
/// an entity parser failed, or a slot has an entity nobody knows
spec fn cannot_resolve(e: SnipsNluEngine, text: Seq<char>, slots: Seq<InternalSlot>, alts: usize) -> bool {
    ||| exists|ks: Seq<BuiltinEntityKind>, a: Result<Vec<BuiltinEntity>>| a is Err && #[trigger] e.shared_resources.builtin_entity_parser.answers(text, Some(ks), alts, a)
    ||| exists|cs: Seq<String>, a: Result<Vec<CustomEntity>>| a is Err && #[trigger] e.shared_resources.custom_entity_parser.answers(text, Some(cs), alts, a)
    ||| exists|i: int, be: Seq<BuiltinEntity>, ce: Seq<CustomEntity>, o: Result<Option<Slot>>| 0 <= i < slots.len() && o is Err && #[trigger] slot_result(e, slots[i], be, ce, alts, o)
}
spec fn resolution(e: SnipsNluEngine, text: Seq<char>, slots: Seq<InternalSlot>, alts: usize, r: Result<Vec<Slot>>) -> bool {
    match r { Ok(v) => resolved_all(e, text, slots, alts, v@), Err(_) => cannot_resolve(e, text, slots, alts) }
}
spec fn in_scope(slots: Seq<InternalSlot>, ks: Seq<BuiltinEntityKind>, cs: Seq<String>) -> bool {
    forall|i: int| 0 <= i < slots.len() ==> match kind_of((#[trigger] slots[i]).entity@) { Some(k) => ks.contains(k), None => cs.contains(slots[i].entity) }
}
spec fn each_resolved(e: SnipsNluEngine, slots: Seq<InternalSlot>, be: Seq<BuiltinEntity>, ce: Seq<CustomEntity>, alts: usize, o: Seq<Option<Slot>>, k: int) -> bool {
    o.len() == k && forall|i: int| #![trigger slots[i]] #![trigger o[i]] 0 <= i < k ==> slot_resolved(e, slots[i], be, ce, alts, o[i])
}
/// the resolved slots, in the order of the slots, without those that have no admissible value
spec fn resolved_all(e: SnipsNluEngine, text: Seq<char>, slots: Seq<InternalSlot>, alts: usize, r: Seq<Slot>) -> bool {
    if slots.len() == 0 { r.len() == 0 } else {
    exists|ks: Seq<BuiltinEntityKind>, be: Vec<BuiltinEntity>, cs: Seq<String>, ce: Vec<CustomEntity>, o: Seq<Option<Slot>>|
        #[trigger] e.shared_resources.builtin_entity_parser.answers(text, Some(ks), alts, Ok(be)) && #[trigger] e.shared_resources.custom_entity_parser.answers(text, Some(cs), alts, Ok(ce))
        && in_scope(slots, ks, cs) && #[trigger] each_resolved(e, slots, be@, ce@, alts, o, slots.len() as int) && r == somes(o) }
}
#fn nlu_engine.rs SnipsNluEngine::resolve_slots
#ret r
#spec
ensures resolution(*self, text@, slots@, slots_alternatives, r)
#closure 0 |slot: &InternalSlot| -> (x: Option<BuiltinEntityKind>)
ensures x == kind_of(slot.entity@)
#closure 1 |slot: &InternalSlot| -> (x: Option<String>)
ensures x == (if kind_of(slot.entity@) is None { Some(slot.entity) } else { None })
#at loop 0 before
let ghost mut outs: Seq<Option<Slot>> = Seq::empty();
proof {
  assert(in_scope(vx_all, builtin_entity_scope@, custom_entity_scope@)) by {
    let o0 = choose|o: Seq<Option<BuiltinEntityKind>>| somes(o) == builtin_entity_scope@ && o.len() == vx_all.len() && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == kind_of(vx_all[i].entity@);
    let o1 = choose|o: Seq<Option<String>>| somes(o) == custom_entity_scope@ && o.len() == vx_all.len() && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == (if kind_of(vx_all[i].entity@) is None { Some(vx_all[i].entity) } else { None });
    assert forall|i: int| 0 <= i < vx_all.len() implies match kind_of((#[trigger] vx_all[i]).entity@) { Some(k) => builtin_entity_scope@.contains(k), None => custom_entity_scope@.contains(vx_all[i].entity) } by {
      if kind_of(vx_all[i].entity@) is Some { lemma_somes_contains(o0, i); } else { lemma_somes_contains(o1, i); }
    }
  }
}
#at entry
let ghost vx_all = slots@;
#at after-let builtin_entity_scope
assert(exists|o: Seq<Option<BuiltinEntityKind>>| somes(o) == builtin_entity_scope@ && o.len() == vx_all.len() && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == kind_of(vx_all[i].entity@));
#at after-let custom_entity_scope
assert(exists|o: Seq<Option<String>>| somes(o) == custom_entity_scope@ && o.len() == vx_all.len() && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == (if kind_of(vx_all[i].entity@) is None { Some(vx_all[i].entity) } else { None }));
#loop 0
invariant vx_s0 == vx_all, each_resolved(*self, vx_all, builtin_entities@, custom_entities@, slots_alternatives, outs, vx_k0), resolved_slots@ == somes(outs)
#at loop 0 start
proof {
    let x = vx_all[vx_k0 - 1];
    let (be, ce, n) = (builtin_entities@, custom_entities@, slots_alternatives);
    assert forall|ext: bool, p: Arc<dyn CustomEntityParser>, o: Result<Option<Slot>>| #[trigger] custom_resolved(x, ext, ce, p, n, o) && p == self.shared_resources.custom_entity_parser && (match map_get(self.dataset_metadata.entities@, x.entity) { Some(c) => ext == c.automatically_extensible, None => false }) implies slot_result(*self, vx_all[vx_k0 - 1], be, ce, n, o) by { }
    assert forall|p: Arc<dyn BuiltinEntityParser>, o: Result<Option<Slot>>| #[trigger] builtin_resolved(x, be, p, n, o) && p == self.shared_resources.builtin_entity_parser && map_get(self.dataset_metadata.entities@, x.entity) is None implies slot_result(*self, vx_all[vx_k0 - 1], be, ce, n, o) by { }
}
#at after-let opt_resolved_slot
proof { lemma_somes_push(outs, opt_resolved_slot); outs = outs.push(opt_resolved_slot); }
#raw
/// the parser finds no slot of the intent
spec fn silent(p: Box<dyn IntentParser>, input: Seq<char>, intent: Seq<char>) -> bool { exists|v: Vec<InternalSlot>| #[trigger] p.fills(input, intent, Ok(v)) && v@.len() == 0 }
spec fn all_silent(ps: Seq<Box<dyn IntentParser>>, input: Seq<char>, intent: Seq<char>, k: int) -> bool { 0 <= k <= ps.len() && forall|j: int| 0 <= j < k ==> silent(#[trigger] ps[j], input, intent) }
spec fn speaks(e: SnipsNluEngine, p: Box<dyn IntentParser>, input: Seq<char>, intent: Seq<char>, alts: usize, r: Result<Vec<Slot>>) -> bool {
    exists|a: Result<Vec<InternalSlot>>| #[trigger] p.fills(input, intent, a) && match a { Err(_) => r is Err, Ok(v) => v@.len() > 0 && resolution(e, input, v@, alts, r) }
}
/// the resolved slots of the first parser with slots; empty when there is none; an error of a parser is an error
spec fn slots_of_intent(e: SnipsNluEngine, input: Seq<char>, intent: Seq<char>, alts: usize, r: Result<Vec<Slot>>) -> bool {
    let ps = e.intent_parsers@;
    exists|k: int| #[trigger] all_silent(ps, input, intent, k) && if k == ps.len() { r is Ok && r->Ok_0@.len() == 0 } else { speaks(e, ps[k], input, intent, alts, r) }
}
#fn nlu_engine.rs SnipsNluEngine::get_slots_with_alternatives
#ret r
#spec
ensures slots_of_intent(*self, input@, intent@, slots_alternatives, r)
#loop 0
invariant forall|i: int| 0 <= i < vx_s0.len() ==> *(#[trigger] vx_s0[i]) == self.intent_parsers@[i], vx_s0.len() == self.intent_parsers@.len(), all_silent(self.intent_parsers@, input@, intent@, vx_k0)
#at loop 0 start
proof { assert(all_silent(self.intent_parsers@, input@, intent@, vx_k0 - 1)); assert(*vx_s0[vx_k0 - 1] == self.intent_parsers@[vx_k0 - 1]); }
#fn nlu_engine.rs SnipsNluEngine::get_slots
#ret r
#spec
ensures slots_of_intent(*self, input@, intent@, 0, r)
#raw
// ---------------------------------------------------------------- C04
/// r lists, in the order of a, the elements of a that also occur in b
spec fn common<T: VxEq<T>>(a: Seq<T>, b: Seq<T>, r: Seq<T>) -> bool {
    exists|keep: spec_fn(int) -> bool| r == #[trigger] sel(a, keep) && forall|i: int| 0 <= i < a.len() ==> #[trigger] keep(i) == occurs(b, a[i])
}
spec fn occurs<T: VxEq<T>>(b: Seq<T>, x: T) -> bool { exists|j: int| 0 <= j < b.len() && same(x, #[trigger] b[j]) }
spec fn same<T: VxEq<T>>(a: T, b: T) -> bool { a.eqs(&b) }
trait IterOps<T, I>: VxIntoIter<T> where I: VxIntoIter<T>, T: VxEq<T> {
    fn intersect(self, other: I) -> (r: Vec<T>) where Self: Sized ensures common(self.into_elems(), other.into_elems(), r@);
}
#fn utils.rs I/IterOps::intersect trait
#ret r
#closure 0 |e1: &T| -> (b: bool)
ensures b == occurs(v_other@, *e1)
#closure 1 |e2: &T| -> (b: bool)
ensures b == same(*e1, *e2)
#raw
spec fn known_intent(e: SnipsNluEngine, n: Seq<char>) -> bool { e.dataset_metadata.slot_name_mappings@.contains_key(mk_string(n)) }
spec fn names_unknown(e: SnipsNluEngine, f: Option<Vec<&str>>) -> bool { f is Some && exists|i: int| 0 <= i < f.unwrap()@.len() && !known_intent(e, (#[trigger] f.unwrap()@[i])@) }
spec fn permitted(e: SnipsNluEngine, w: Option<Vec<&str>>, b: Option<Vec<&str>>, n: Seq<char>) -> bool {
    known_intent(e, n) && (w is Some ==> has_str(w.unwrap()@, n)) && (b is Some ==> !has_str(b.unwrap()@, n))
}
/// a filter naming an unknown intent is an error; otherwise the permitted intents are whitelist minus blacklist
spec fn filter_result(e: SnipsNluEngine, w: Option<Vec<&str>>, b: Option<Vec<&str>>, r: Result<Option<Vec<&str>>>) -> bool {
    if names_unknown(e, w) || names_unknown(e, b) { r is Err } else {
        r is Ok && match r->Ok_0 {
            None => w is None && b is None,
            Some(v) => (w is Some || b is Some) && forall|n: Seq<char>| #[trigger] has_str(v@, n) == permitted(e, w, b, n),
        }
    }
}
#raw
proof fn lemma_all_intents(e: SnipsNluEngine, k: Seq<&String>, v: Seq<&str>, all: Set<&str>)
    requires lists(unrefs(k), e.dataset_metadata.slot_name_mappings@.dom()), k.len() == v.len(), all == v.to_set(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == k[i]@
    ensures forall|n: Seq<char>| #[trigger] known_intent(e, n) == in_set(all, n)
{
    let dom = e.dataset_metadata.slot_name_mappings@.dom();
    assert forall|n: Seq<char>| #[trigger] known_intent(e, n) == in_set(all, n) by {
        if known_intent(e, n) {
            assert(unrefs(k).to_set().contains(mk_string(n)));
            let i = choose|i: int| 0 <= i < k.len() && unrefs(k)[i] == mk_string(n);
            assert(v[i]@ == n); assert(all.contains(v[i]));
        }
        if in_set(all, n) {
            let x = choose|x: &str| #[trigger] all.contains(x) && x@ == n;
            let i = choose|i: int| 0 <= i < v.len() && v[i] == x;
            assert(unrefs(k)[i]@ == n); assert(unrefs(k).to_set().contains(unrefs(k)[i]));
            assert(mk_string(n) == unrefs(k)[i]);
        }
    }
}
proof fn lemma_reverted(e: SnipsNluEngine, all: Set<&str>, l: Seq<& &str>, keep: spec_fn(int) -> bool, b: Seq<&str>, r: Seq<&str>)
    requires lists(unrefs(l), all), forall|i: int| 0 <= i < l.len() ==> keep(i) == !has_str(b, (#[trigger] l[i])@), r == unrefs(sel(l, keep)), forall|n: Seq<char>| #[trigger] known_intent(e, n) == in_set(all, n)
    ensures forall|n: Seq<char>| #[trigger] has_str(r, n) == (known_intent(e, n) && !has_str(b, n))
{
    lemma_sel_has(l, keep);
    assert forall|n: Seq<char>| #[trigger] has_str(r, n) == (known_intent(e, n) && !has_str(b, n)) by {
        if has_str(r, n) {
            let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k])@ == n;
            assert(kept_elem(l, keep, sel(l, keep)[k]));
            let i = choose|i: int| 0 <= i < l.len() && #[trigger] keep(i) && l[i] == sel(l, keep)[k];
            assert(l[i]@ == n);
            assert(unrefs(l)[i] == *l[i]);
            assert(unrefs(l).to_set().contains(unrefs(l)[i]));
        }
        if known_intent(e, n) && !has_str(b, n) {
            assert(in_set(all, n));
            let x = choose|x: &str| #[trigger] all.contains(x) && x@ == n;
            assert(unrefs(l).to_set().contains(x));
            let i = choose|i: int| 0 <= i < l.len() && unrefs(l)[i] == x;
            assert(l[i]@ == n); assert(keep(i));
            let k = choose|k: int| 0 <= k < sel(l, keep).len() && sel(l, keep)[k] == l[i];
            assert(r[k]@ == n);
        }
    }
}
proof fn lemma_common(a: Seq<&str>, b: Seq<&str>, r: Seq<&str>)
    requires common(a, b, r)
    ensures forall|n: Seq<char>| #[trigger] has_str(r, n) == (has_str(a, n) && has_str(b, n))
{
    let keep = choose|keep: spec_fn(int) -> bool| r == #[trigger] sel(a, keep) && forall|i: int| 0 <= i < a.len() ==> #[trigger] keep(i) == occurs(b, a[i]);
    lemma_sel_has(a, keep);
    assert forall|n: Seq<char>| #[trigger] has_str(r, n) == (has_str(a, n) && has_str(b, n)) by {
        if has_str(r, n) {
            let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k])@ == n;
            assert(kept_elem(a, keep, sel(a, keep)[k]));
            let i = choose|i: int| 0 <= i < a.len() && #[trigger] keep(i) && a[i] == sel(a, keep)[k];
            assert(occurs(b, a[i])); let j = choose|j: int| 0 <= j < b.len() && same(a[i], #[trigger] b[j]);
            assert(a[i]@ == n && b[j]@ == n);
        }
        if has_str(a, n) && has_str(b, n) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == n;
            let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j])@ == n;
            assert(same(a[i], b[j])); assert(occurs(b, a[i])); assert(keep(i));
            let k = choose|k: int| 0 <= k < r.len() && r[k] == a[i];
            assert(r[k]@ == n);
        }
    }
}
#raw
spec fn two(x: Seq<Option<&Vec<&str>>>, w: Option<Vec<&str>>, b: Option<Vec<&str>>) -> bool {
    x.len() == 2 && (x[0] is Some <==> w is Some) && (w is Some ==> *x[0].unwrap() == w.unwrap()) && (x[1] is Some <==> b is Some) && (b is Some ==> *x[1].unwrap() == b.unwrap())
}
spec fn olen(w: Option<Vec<&str>>) -> int { if w is Some { w.unwrap()@.len() as int } else { 0 } }
spec fn flat2(f: Seq<& &str>, w: Option<Vec<&str>>, b: Option<Vec<&str>>) -> bool {
    &&& f.len() == olen(w) + olen(b)
    &&& forall|i: int| 0 <= i < f.len() ==> *(#[trigger] f[i]) == (if i < olen(w) { w.unwrap()@[i] } else { b.unwrap()@[i - olen(w)] })
    &&& forall|i: int| 0 <= i < olen(w) ==> #[trigger] w.unwrap()@[i] == *f[i]
    &&& forall|i: int| 0 <= i < olen(b) ==> #[trigger] b.unwrap()@[i] == *f[i + olen(w)]
}
proof fn lemma_flat2(x: Seq<Option<&Vec<&str>>>, w: Option<Vec<&str>>, b: Option<Vec<&str>>)
    requires two(x, w, b)
    ensures flat2(flat_vecs(somes(x)), w, b)
{
    reveal_with_fuel(somes, 3); reveal_with_fuel(flat_vecs, 3);
    assert(x.drop_last().drop_last() =~= Seq::empty());
    let s0 = somes(x.drop_last());
    assert(x.drop_last().last() == x[0]);
    if w is Some { assert(s0 =~= seq![x[0].unwrap()]); assert(s0.drop_last() =~= Seq::empty()); assert(flat_vecs(s0) =~= refs(w.unwrap()@)); } else { assert(s0 =~= Seq::empty()); }
    if b is Some { assert(somes(x).drop_last() =~= s0); }
}
#fn nlu_engine.rs SnipsNluEngine::get_intents_whitelist
#at after-let intents_blacklist
let ghost (gw, gb) = (intents_whitelist, intents_blacklist);
proof {
    assert forall|x: Seq<Option<&Vec<&str>>>| two(x, gw, gb) implies flat2(#[trigger] flat_vecs(somes(x)), gw, gb) by { lemma_flat2(x, gw, gb); }
}
#at after-let all_intents
proof {
    assert(exists|k: Seq<&String>, v: Seq<&str>| #[trigger] lists(unrefs(k), self.dataset_metadata.slot_name_mappings@.dom()) && k.len() == v.len() && all_intents@ == #[trigger] v.to_set() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == k[i]@);
    let (k, v) = choose|k: Seq<&String>, v: Seq<&str>| #[trigger] lists(unrefs(k), self.dataset_metadata.slot_name_mappings@.dom()) && k.len() == v.len() && all_intents@ == #[trigger] v.to_set() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == k[i]@;
    lemma_all_intents(*self, k, v, all_intents@);
}
#at closure 2 tail vx_t
proof {
    let (l, keep) = choose|l: Seq<& &str>, keep: spec_fn(int) -> bool| #[trigger] lists(unrefs(l), all_intents@) && vx_t@ == unrefs(#[trigger] sel(l, keep)) && forall|i: int| 0 <= i < l.len() ==> keep(i) == !has_str(blacklist@, (#[trigger] l[i])@);
    lemma_reverted(*self, all_intents@, l, keep, blacklist@, vx_t@);
}
#at closure 5 tail vx_t
proof { lemma_common(rev_whitelist@, whitelist@, vx_t@); }
#ret r
#spec
ensures exists|w: Option<Vec<&str>>, b: Option<Vec<&str>>| #[trigger] intents_whitelist.into_is(w) && #[trigger] intents_blacklist.into_is(b) && filter_result(*self, w, b, r)
#closure 0 |intent: &'c String| -> (x: &'c str)
ensures x@ == intent@
#closure 1 |intent: &&&str| -> (x: bool)
ensures x == !known_intent(*self, intent@)
#closure 2 |blacklist: Vec<&'b str>| -> (x: Vec<&'c str>)
ensures forall|n: Seq<char>| #[trigger] has_str(x@, n) == (known_intent(*self, n) && !has_str(blacklist@, n))
#closure 3 |intent_name: &&&'c str| -> (x: bool)
ensures x == !has_str(blacklist@, intent_name@)
#closure 4 |whitelist: Vec<&'a str>| -> (x: Vec<&'c str>)
ensures forall|n: Seq<char>| #[trigger] has_str(x@, n) == (has_str(whitelist@, n) && (reverted_whitelist is Some ==> has_str(reverted_whitelist.unwrap()@, n)))
#closure 5 |rev_whitelist: Vec<&'c str>| -> (x: Vec<&'c str>)
ensures forall|n: Seq<char>| #[trigger] has_str(x@, n) == (has_str(whitelist@, n) && has_str(rev_whitelist@, n))
#closure 6 || -> (x: Vec<&'c str>)
ensures x == whitelist
#closure 7 || -> (x: Option<Vec<&'c str>>)
ensures x == reverted_whitelist
#raw
// ---------------------------------------------------------------- C07
type Icr = IntentClassifierResult;
/// a parser's ranking lists every intent once, with comparable scores
spec fn once(v: Seq<Icr>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).intent_name != (#[trigger] v[j]).intent_name) && (forall|i: int| 0 <= i < v.len() ==> !nan((#[trigger] v[i]).confidence_score))
}
spec fn ranks_once(e: SnipsNluEngine, input: Seq<char>) -> bool {
    forall|i: int, v: Vec<Icr>| 0 <= i < e.intent_parsers@.len() && #[trigger] e.intent_parsers@[i].ranks(input, Ok(v)) ==> once(v@)
}
/// everything reported by the first parsers, in order
spec fn cat(a: Seq<Vec<Icr>>) -> Seq<Icr>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { cat(a.drop_last()) + a.last()@ } }
spec fn rankings(e: SnipsNluEngine, input: Seq<char>, a: Seq<Vec<Icr>>, k: int) -> bool {
    a.len() == k && forall|j: int| 0 <= j < k ==> e.intent_parsers@[j].ranks(input, Ok(#[trigger] a[j]))
}
spec fn le(a: Icr, b: Icr) -> bool { fkey(a.confidence_score) <= fkey(b.confidence_score) }
spec fn lists_intent(v: Seq<Icr>, n: Option<String>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).intent_name == n }
/// v merges the rankings a: every intent once, with the highest score given to it, in decreasing order
spec fn merged(a: Seq<Vec<Icr>>, v: Seq<Icr>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).intent_name != (#[trigger] v[j]).intent_name && le(v[j], v[i])
    &&& forall|i: int| 0 <= i < v.len() ==> cat(a).contains(#[trigger] v[i]) && !nan(v[i].confidence_score)
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < cat(a).len() && (#[trigger] v[i]).intent_name == (#[trigger] cat(a)[j]).intent_name ==> le(cat(a)[j], v[i])
    &&& forall|j: int| 0 <= j < cat(a).len() && fkey((#[trigger] cat(a)[j]).confidence_score) > fkey(0.0) ==> lists_intent(v, cat(a)[j].intent_name)
    &&& a.len() > 0 ==> forall|l: int| 0 <= l < a[0]@.len() ==> lists_intent(v, (#[trigger] a[0]@[l]).intent_name)
}
spec fn ranking(e: SnipsNluEngine, input: Seq<char>, r: Result<Vec<Icr>>) -> bool {
    match r {
        Err(_) => exists|j: int, x: Result<Vec<Icr>>| 0 <= j < e.intent_parsers@.len() && x is Err && #[trigger] e.intent_parsers@[j].ranks(input, x),
        Ok(v) => exists|a: Seq<Vec<Icr>>| #[trigger] rankings(e, input, a, e.intent_parsers@.len() as int) && merged(a, v@),
    }
}
/// the map holds the best report of every intent in it; reports of other intents are not positive
spec fn best(rep: Seq<Icr>, m: Map<Option<String>, Icr>) -> bool {
    &&& forall|n: Option<String>| #[trigger] m.contains_key(n) ==> m[n].intent_name == n && rep.contains(m[n]) && !nan(m[n].confidence_score)
    &&& forall|i: int| 0 <= i < rep.len() ==> if m.contains_key((#[trigger] rep[i]).intent_name) { le(rep[i], m[rep[i].intent_name]) } else { fkey(rep[i].confidence_score) <= fkey(0.0) }
}
spec fn covers(m: Map<Option<String>, Icr>, v: Seq<Icr>, k: int) -> bool { forall|l: int| 0 <= l < k ==> m.contains_key((#[trigger] v[l]).intent_name) }
proof fn lemma_best_insert(rep: Seq<Icr>, m: Map<Option<String>, Icr>, x: Icr)
    requires best(rep, m), !nan(x.confidence_score), m.contains_key(x.intent_name) ==> le(m[x.intent_name], x), !m.contains_key(x.intent_name) ==> (forall|i: int| 0 <= i < rep.len() && (#[trigger] rep[i]).intent_name == x.intent_name ==> le(rep[i], x))
    ensures best(rep.push(x), m.insert(x.intent_name, x))
{
    let (r2, m2) = (rep.push(x), m.insert(x.intent_name, x));
    assert forall|n: Option<String>| #[trigger] m2.contains_key(n) implies m2[n].intent_name == n && r2.contains(m2[n]) && !nan(m2[n].confidence_score) by {
        if n == x.intent_name { assert(r2[rep.len() as int] == x); } else { assert(m.contains_key(n)); let i = choose|i: int| 0 <= i < rep.len() && rep[i] == m[n]; assert(r2[i] == m[n]); }
    }
    assert forall|i: int| 0 <= i < r2.len() implies if m2.contains_key((#[trigger] r2[i]).intent_name) { le(r2[i], m2[r2[i].intent_name]) } else { fkey(r2[i].confidence_score) <= fkey(0.0) } by {
        if i < rep.len() { assert(r2[i] == rep[i]); }
    }
}
proof fn lemma_best_skip(rep: Seq<Icr>, m: Map<Option<String>, Icr>, x: Icr)
    requires best(rep, m), if m.contains_key(x.intent_name) { le(x, m[x.intent_name]) } else { fkey(x.confidence_score) <= fkey(0.0) }
    ensures best(rep.push(x), m)
{
    let r2 = rep.push(x);
    assert forall|n: Option<String>| #[trigger] m.contains_key(n) implies m[n].intent_name == n && r2.contains(m[n]) by { let i = choose|i: int| 0 <= i < rep.len() && rep[i] == m[n]; assert(r2[i] == m[n]); }
    assert forall|i: int| 0 <= i < r2.len() implies if m.contains_key((#[trigger] r2[i]).intent_name) { le(r2[i], m[r2[i].intent_name]) } else { fkey(r2[i].confidence_score) <= fkey(0.0) } by { if i < rep.len() { assert(r2[i] == rep[i]); } }
}
proof fn lemma_merged(a: Seq<Vec<Icr>>, m: Map<Option<String>, Icr>, l: Seq<(Option<String>, Icr)>, s: Seq<Icr>, v: Seq<Icr>)
    requires best(cat(a), m), a.len() > 0 ==> covers(m, a[0]@, a[0]@.len() as int), lists_map(l, m), s.len() == l.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == l[i].1,
        is_perm(s, v), s.len() == v.len(), forall|i: int, j: int| 0 <= i < j < v.len() ==> fkey((#[trigger] v[j]).confidence_score) <= fkey((#[trigger] v[i]).confidence_score)
    ensures merged(a, v)
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| perm_by(s, v, p, q);
    // every element of v is the entry of its own name
    assert forall|i: int| 0 <= i < v.len() implies 0 <= p[i] < l.len() && l[p[i]].0 == (#[trigger] v[i]).intent_name && m.contains_key(v[i].intent_name) && m[v[i].intent_name] == v[i] && q[p[i]] == i by { lemma_perm_at(s, v, p, q, i); assert(m.contains_key(l[p[i]].0)); }
    assert forall|n: Option<String>| #[trigger] m.contains_key(n) implies lists_intent(v, n) by {
        let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == n;
        lemma_perm_at(s, v, p, q, i); assert(v[q[i]] == s[i]); assert(s[i] == l[i].1); assert(m[l[i].0] == l[i].1);
    }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).intent_name != (#[trigger] v[j]).intent_name && le(v[j], v[i]) by {
        if v[i].intent_name == v[j].intent_name { assert(l[p[i]].0 == l[p[j]].0); assert(p[i] == p[j]) by { if p[i] < p[j] { assert(l[p[i]].0 != l[p[j]].0); } else if p[j] < p[i] { assert(l[p[j]].0 != l[p[i]].0); } } assert(q[p[i]] == i && q[p[j]] == j); }
    }
    let c = cat(a);
    assert forall|i: int| 0 <= i < v.len() implies c.contains(#[trigger] v[i]) && !nan(v[i].confidence_score) by { assert(m.contains_key(v[i].intent_name)); }
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < c.len() && (#[trigger] v[i]).intent_name == (#[trigger] c[j]).intent_name implies le(c[j], v[i]) by { assert(m.contains_key(c[j].intent_name)); }
    assert forall|j: int| 0 <= j < c.len() && fkey((#[trigger] c[j]).confidence_score) > fkey(0.0) implies lists_intent(v, c[j].intent_name) by { assert(m.contains_key(c[j].intent_name)); }
    if a.len() > 0 { let b = a[0]@; assert forall|x: int| 0 <= x < b.len() implies lists_intent(v, (#[trigger] b[x]).intent_name) by { assert(m.contains_key(b[x].intent_name)); } }
}
proof fn lemma_cat_first(a: Seq<Vec<Icr>>)
    requires a.len() > 0
    ensures cat(a).len() >= a[0]@.len()
    decreases a.len()
{ if a.len() > 1 { lemma_cat_first(a.drop_last()); } }
proof fn lemma_cat_push(a: Seq<Vec<Icr>>, v: Vec<Icr>)
    ensures cat(a.push(v)) == cat(a) + v@, a.len() > 0 ==> cat(a).len() >= a[0]@.len() && a.push(v)[0] == a[0], a.len() == 0 ==> cat(a).len() == 0
{ assert(a.push(v).drop_last() =~= a); if a.len() > 0 { lemma_cat_first(a); } }
proof fn lemma_best_start(a: Seq<Vec<Icr>>, m: Map<Option<String>, Icr>)
    requires a.len() == 0, m == Map::<Option<String>, Icr>::empty()
    ensures best(cat(a), m), cat(a).len() == 0
{ }
proof fn lemma_best_new(v: Seq<Icr>, k: int, m: Map<Option<String>, Icr>)
    requires 0 <= k < v.len(), once(v), best(v.take(k), m), forall|n: Option<String>| #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < k && (#[trigger] v[i]).intent_name == n
    ensures best(v.take(k).push(v[k]), m.insert(v[k].intent_name, v[k]))
{
    let (x, rep) = (v[k], v.take(k));
    assert(!m.contains_key(x.intent_name));
    assert forall|i: int| 0 <= i < rep.len() implies (#[trigger] rep[i]).intent_name != x.intent_name by { assert(rep[i] == v[i]); }
    lemma_best_insert(rep, m, x);
}
proof fn lemma_best_better(v: Seq<Icr>, k: int, rep: Seq<Icr>, m: Map<Option<String>, Icr>)
    requires 0 <= k < v.len(), once(v), best(rep, m), if m.contains_key(v[k].intent_name) { fkey(v[k].confidence_score) >= fkey(m[v[k].intent_name].confidence_score) } else { fkey(v[k].confidence_score) >= fkey(0.0) }
    ensures best(rep.push(v[k]), m.insert(v[k].intent_name, v[k]))
{ lemma_best_insert(rep, m, v[k]); }
proof fn lemma_best_skip2(v: Seq<Icr>, k: int, rep: Seq<Icr>, m: Map<Option<String>, Icr>)
    requires 0 <= k < v.len(), once(v), best(rep, m), if m.contains_key(v[k].intent_name) { fkey(v[k].confidence_score) <= fkey(m[v[k].intent_name].confidence_score) } else { fkey(v[k].confidence_score) <= fkey(0.0) }
    ensures best(rep.push(v[k]), m)
{ lemma_best_skip(rep, m, v[k]); }
proof fn lemma_once(v: Seq<Icr>, k: int)
    requires 0 <= k < v.len(), once(v)
    ensures !nan(v[k].confidence_score)
{ }
proof fn lemma_best_nan(rep: Seq<Icr>, m: Map<Option<String>, Icr>)
    requires best(rep, m)
    ensures forall|n: Option<String>| #[trigger] m.contains_key(n) ==> !nan(m[n].confidence_score) && m[n].intent_name == n, rep.len() == 0 ==> m.dom() == Set::<Option<String>>::empty()
{
    if rep.len() == 0 { assert forall|n: Option<String>| !m.dom().contains(n) by { if m.contains_key(n) { assert(rep.contains(m[n])); } } assert(m.dom() =~= Set::<Option<String>>::empty()); }
}
#fn nlu_engine.rs SnipsNluEngine::get_intents rename=is_empty rlimit=100
#ret r
#spec
requires ranks_once(*self, input@)
ensures ranking(*self, input@, r)
#at entry
hide(once); hide(best); hide(merged); hide(cat); hide(le);
#at loop 0 before
let ghost mut a: Seq<Vec<Icr>> = Seq::empty();
proof { lemma_best_start(a, results@); }
#loop 0
invariant forall|i: int| 0 <= i < vx_s0.len() ==> *(#[trigger] vx_s0[i]) == self.intent_parsers@[i], vx_s0.len() == self.intent_parsers@.len(), ranks_once(*self, input@),
  rankings(*self, input@, a, vx_k0), best(cat(a), results@), a.len() > 0 ==> covers(results@, a[0]@, a[0]@.len() as int), results@.dom() == Set::<Option<String>>::empty() ==> cat(a).len() == 0
#at loop 0 start
proof { assert(*vx_s0[vx_k0 - 1] == self.intent_parsers@[vx_k0 - 1]); }
#at after-let parser_results
let ghost a0 = a;
proof {
  a = a.push(parser_results);
  assert(a.drop_last() =~= a0);
  lemma_cat_push(a0, parser_results);
  assert(once(parser_results@));
}
#at loop 1 before
proof { assert(cat(a0) =~= Seq::empty()); assert(cat(a0) + parser_results@.take(0) =~= cat(a0)); }
#loop 1
invariant vx_s1 == a.last()@, once(vx_s1), best(cat(a0) + vx_s1.take(vx_k1), results@), cat(a0).len() == 0, covers(results@, vx_s1, vx_k1), forall|n: Option<String>| #[trigger] results@.contains_key(n) ==> exists|i: int| 0 <= i < vx_k1 && (#[trigger] vx_s1[i]).intent_name == n
#at loop 1 start
let ghost m0 = results@;
#at loop 1 end
proof {
  let x = vx_s1[vx_k1 - 1];
  let rep = cat(a0) + vx_s1.take(vx_k1 - 1);
  assert(rep =~= vx_s1.take(vx_k1 - 1));
  lemma_best_new(vx_s1, vx_k1 - 1, m0);
  assert(rep.push(x) =~= cat(a0) + vx_s1.take(vx_k1));
}
#at loop 1 after
proof {
  let b = a.last()@;
  assert(b.take(b.len() as int) =~= b);
  if b.len() > 0 { assert(results@.contains_key(b[0].intent_name)); assert(results@.dom().contains(b[0].intent_name)); }
}
#at loop 2 before
proof { lemma_best_nan(cat(a0), results@); assert(cat(a0) + parser_results@.take(0) =~= cat(a0)); }
#loop 2
invariant vx_s2 == a.last()@, once(vx_s2), best(cat(a0) + vx_s2.take(vx_k2), results@), a0.len() > 0 ==> covers(results@, a0[0]@, a0[0]@.len() as int), results@.dom() != Set::<Option<String>>::empty()
#at loop 2 start
let ghost m0 = results@;
proof { lemma_best_nan(cat(a0) + vx_s2.take(vx_k2 - 1), m0); lemma_once(vx_s2, vx_k2 - 1); }
#at loop 2 end
proof {
  let x = vx_s2[vx_k2 - 1];
  let rep = cat(a0) + vx_s2.take(vx_k2 - 1);
  // either the report is taken over, or it is not better than what is known
  if results@ == m0 { lemma_best_skip2(vx_s2, vx_k2 - 1, rep, m0); }
  else {
    assert(results@ =~= m0.insert(x.intent_name, x));
    lemma_best_better(vx_s2, vx_k2 - 1, rep, m0);
    assert(results@.dom().contains(x.intent_name));
  }
  assert(rep.push(x) =~= cat(a0) + vx_s2.take(vx_k2));
}
#at loop 2 after
proof {
  let b = a.last()@;
  assert(b.take(b.len() as int) =~= b);
}
#at end
proof {
  let m = results@;
  lemma_best_nan(cat(a), m);
  assert forall|l: Seq<(Option<String>, Icr)>| #[trigger] lists_map(l, m) implies forall|i: int| 0 <= i < l.len() ==> !nan((#[trigger] l[i]).1.confidence_score) by { assert forall|i: int| 0 <= i < l.len() implies !nan((#[trigger] l[i]).1.confidence_score) by { assert(m.contains_key(l[i].0)); } }
  assert forall|l: Seq<(Option<String>, Icr)>, s: Seq<Icr>, v: Seq<Icr>| #[trigger] lists_map(l, m) && #[trigger] is_perm(s, v) && s.len() == l.len() && s.len() == v.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == l[i].1)
    && (forall|i: int, j: int| 0 <= i < j < v.len() ==> fkey((#[trigger] v[j]).confidence_score) <= fkey((#[trigger] v[i]).confidence_score)) implies merged(a, v) by { lemma_merged(a, m, l, s, v); }
}
#closure 0 |r: &IntentClassifierResult| -> (x: f32)
ensures x == r.confidence_score
#closure 1 |e: &mut IntentClassifierResult| -> (u: ())
ensures final(e).confidence_score == res.confidence_score, final(e).intent_name == old(e).intent_name
#closure 2 || -> (x: IntentClassifierResult)
ensures x == res
#closure 3 |e: (Option<String>, IntentClassifierResult)| -> (x: IntentClassifierResult)
ensures x == e.1
#closure 4 |a: &IntentClassifierResult, b: &IntentClassifierResult| -> (o: Ordering)
requires !nan(a.confidence_score), !nan(b.confidence_score)
ensures o != Ordering::Greater ==> fkey(b.confidence_score) <= fkey(a.confidence_score)
#raw
// ---------------------------------------------------------------- C05, C06
type Wl<'a> = Option<Vec<&'a str>>;
spec fn wlv(w: Wl) -> Option<Seq<Seq<char>>> { match w { Some(x) => Some(strs(x@)), None => None } }
spec fn no_intent(p: Box<dyn IntentParser>, input: Seq<char>, w: Wl, s: f32) -> bool {
    exists|x: InternalParsingResult| #[trigger] p.parses(input, wlv(w), Ok(x)) && x.intent.intent_name is None && x.intent.confidence_score == s
}
spec fn finds_none(p: Box<dyn IntentParser>, input: Seq<char>, w: Wl) -> bool { exists|s: f32| no_intent(p, input, w, s) }
/// the first k parsers find no intent; the last of them gives score s to the absence of intent
spec fn cascade(e: SnipsNluEngine, input: Seq<char>, w: Wl, k: int, s: f32) -> bool {
    let ps = e.intent_parsers@;
    0 <= k <= ps.len() && (forall|j: int| 0 <= j < k ==> finds_none(#[trigger] ps[j], input, w)) && if k == 0 { s == 0.0f32 } else { no_intent(ps[k - 1], input, w, s) }
}
spec fn found(e: SnipsNluEngine, p: Box<dyn IntentParser>, input: Seq<char>, w: Wl, sa: usize, m: IntentParserResult) -> bool {
    exists|x: InternalParsingResult| #[trigger] p.parses(input, wlv(w), Ok(x)) && x.intent.intent_name is Some && m.intent == x.intent && resolution(e, input, x.slots@, sa, Ok(m.slots))
}
/// the intent of the first parser that finds one, with its resolved slots; without any, no intent with the score of the last parser
spec fn main_result(e: SnipsNluEngine, input: Seq<char>, w: Wl, sa: usize, m: IntentParserResult) -> bool {
    exists|k: int, s: f32| #[trigger] cascade(e, input, w, k, s) && m.input@ == input &&
        if k == e.intent_parsers@.len() { m.intent.intent_name is None && m.intent.confidence_score == s && m.slots@.len() == 0 } else { found(e, e.intent_parsers@[k], input, w, sa, m) }
}
spec fn same_main(m: IntentParserResult, r: IntentParserResult) -> bool { r.input == m.input && r.intent == m.intent && r.slots == m.slots }
/// the absence of intent is never filtered out
spec fn allowed(w: Wl, n: Option<String>) -> bool { n is Some && w is Some ==> has_str(w.unwrap()@, n.unwrap()@) }
spec fn eligible(w: Wl, main: Option<String>) -> spec_fn(Icr) -> bool { |x: Icr| allowed(w, x.intent_name) && x.intent_name != main }
spec fn alt_slots(e: SnipsNluEngine, input: Seq<char>, sa: usize, n: Option<String>, r: Result<Vec<Slot>>) -> bool {
    match n { None => r is Ok && r->Ok_0@.len() == 0, Some(n) => slots_of_intent(e, input, n@, sa, r) }
}
/// the best `ia` allowed intents of the ranking other than the main one, each with its own slots
spec fn alternatives_are(e: SnipsNluEngine, input: Seq<char>, w: Wl, ia: usize, sa: usize, rk: Seq<Icr>, main: Option<String>, alts: Seq<IntentParserAlternative>) -> bool {
    let s = pick(rk, eligible(w, main));
    alts.len() == (if ia <= s.len() { ia as int } else { s.len() as int }) && forall|i: int| 0 <= i < alts.len() ==> (#[trigger] alts[i]).intent == s[i] && alt_slots(e, input, sa, s[i].intent_name, Ok(alts[i].slots))
}
spec fn alternatives_of(e: SnipsNluEngine, input: Seq<char>, w: Wl, ia: usize, sa: usize, r: IntentParserResult) -> bool {
    if ia == 0 { r.alternatives@.len() == 0 } else { exists|rk: Vec<Icr>| #[trigger] ranking(e, input, Ok(rk)) && alternatives_are(e, input, w, ia, sa, rk@, r.intent.intent_name, r.alternatives@) }
}
/// something failed: a parser before any intent was found, the resolution of the slots, the ranking, or the slots of an alternative
spec fn parse_fails(e: SnipsNluEngine, input: Seq<char>, w: Wl, ia: usize, sa: usize) -> bool {
    ||| exists|k: int, s: f32, x: Result<InternalParsingResult>| #[trigger] cascade(e, input, w, k, s) && k < e.intent_parsers@.len() && #[trigger] e.intent_parsers@[k].parses(input, wlv(w), x) && match x { Err(_) => true, Ok(y) => y.intent.intent_name is Some && cannot_resolve(e, input, y.slots@, sa) }
    ||| ia > 0 && exists|r: Result<Vec<Icr>>| r is Err && #[trigger] ranking(e, input, r)
    ||| ia > 0 && exists|n: Seq<char>, r: Result<Vec<Slot>>| r is Err && #[trigger] slots_of_intent(e, input, n, sa, r)
}
spec fn parse_main(e: SnipsNluEngine, input: Seq<char>, w: Wl, b: Wl, ia: usize, sa: usize, r: Result<IntentParserResult>) -> bool {
    exists|f: Result<Option<Vec<&str>>>| #[trigger] filter_result(e, w, b, f) && match f { Err(_) => r is Err, Ok(wl) => match r { Ok(m) => main_result(e, input, wl, sa, m), Err(_) => parse_fails(e, input, wl, ia, sa) } }
}
spec fn parse_alts(e: SnipsNluEngine, input: Seq<char>, w: Wl, b: Wl, ia: usize, sa: usize, r: Result<IntentParserResult>) -> bool {
    exists|f: Result<Option<Vec<&str>>>| #[trigger] filter_result(e, w, b, f) && match f { Err(_) => r is Err, Ok(wl) => match r { Ok(m) => alternatives_of(e, input, wl, ia, sa, m), Err(_) => true } }
}
spec fn nested(s: Seq<Icr>, k1: spec_fn(int) -> bool, k2: spec_fn(int) -> bool, p1: spec_fn(Icr) -> bool, p2: spec_fn(Icr) -> bool) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> #[trigger] k1(i) == p1(s[i])) && (forall|i: int| 0 <= i < sel(s, k1).len() ==> #[trigger] k2(i) == p2(sel(s, k1)[i]))
}
spec fn alts_from(e: SnipsNluEngine, input: Seq<char>, ia: usize, sa: usize, s: Seq<Icr>, alts: Seq<IntentParserAlternative>) -> bool {
    alts.len() == (if ia <= s.len() { ia as int } else { s.len() as int }) && forall|i: int| 0 <= i < alts.len() ==> (#[trigger] alts[i]).intent == s[i] && alt_slots(e, input, sa, s[i].intent_name, Ok(alts[i].slots))
}
#fn nlu_engine.rs SnipsNluEngine::parse_with_alternatives keep=parse
#ret r
#spec
requires intents_alternatives > 0 ==> ranks_once(*self, input@)
ensures
  /*C05*/ exists|w: Option<Vec<&str>>, b: Option<Vec<&str>>| #[trigger] intents_whitelist.into_is(w) && #[trigger] intents_blacklist.into_is(b) && parse_main(*self, input@, w, b, intents_alternatives, slots_alternatives, r),
  /*C06*/ exists|w: Option<Vec<&str>>, b: Option<Vec<&str>>| #[trigger] intents_whitelist.into_is(w) && #[trigger] intents_blacklist.into_is(b) && parse_alts(*self, input@, w, b, intents_alternatives, slots_alternatives, r),
#at loop 0 before
let ghost w = intents_whitelist_owned;
proof { assert(wl_of(intents_whitelist) == wlv(w)); }
#at loop 0 start
proof { assert(cascade(*self, input@, w, vx_k0 - 1, none_score)); assert(*vx_s0[vx_k0 - 1] == self.intent_parsers@[vx_k0 - 1]); }
#at after-let internal_parsing_result
proof {
  let p = self.intent_parsers@[vx_k0 - 1];
  if internal_parsing_result.intent.intent_name is None { assert(no_intent(p, input@, w, internal_parsing_result.intent.confidence_score)); assert(finds_none(p, input@, w)); }
}
#at after-let parsing_result
let ghost m = parsing_result;
#at after-let alternative_results
proof {
  let p1 = |x: Icr| allowed(w, x.intent_name);
  let p2 = |x: Icr| x.intent_name != m.intent.intent_name;
  let (rk, k1, k2) = choose|rk: Vec<Icr>, k1: spec_fn(int) -> bool, k2: spec_fn(int) -> bool| #[trigger] ranking(*self, input@, Ok(rk)) && nested(rk@, k1, k2, p1, p2) && alts_from(*self, input@, intents_alternatives, slots_alternatives, #[trigger] sel(sel(rk@, k1), k2), alternative_results@);
  /*C06*/lemma_sel_pick(rk@, k1, p1); lemma_sel_pick(sel(rk@, k1), k2, p2); lemma_pick_pick(rk@, p1, p2);
  /*C06*/assert(pick(rk@, eligible(w, m.intent.intent_name)) == pick(rk@, |x: Icr| p1(x) && p2(x))) by { lemma_pick_ext(rk@, eligible(w, m.intent.intent_name), |x: Icr| p1(x) && p2(x)); }
  /*C06*/assert(alternatives_are(*self, input@, w, intents_alternatives, slots_alternatives, rk@, m.intent.intent_name, alternative_results@));
}
#closure 0 |whitelist: &Vec<&str>| -> (x: &[&str])
ensures x@ == whitelist@
#loop 0
invariant_except_break parsing_result is None, cascade(*self, input@, intents_whitelist_owned, vx_k0, none_score)
invariant forall|i: int| 0 <= i < vx_s0.len() ==> *(#[trigger] vx_s0[i]) == self.intent_parsers@[i], vx_s0.len() == self.intent_parsers@.len()
ensures parsing_result is None ==> cascade(*self, input@, intents_whitelist_owned, self.intent_parsers@.len() as int, none_score), parsing_result is Some ==> main_result(*self, input@, intents_whitelist_owned, slots_alternatives, parsing_result.unwrap()) && parsing_result.unwrap().alternatives@.len() == 0
#closure 1 || -> (x: IntentParserResult)
ensures x.input@ == input@, x.intent.intent_name is None, x.intent.confidence_score == none_score, x.slots@.len() == 0, x.alternatives@.len() == 0
#closure 2 |res: &IntentClassifierResult| -> (b: bool)
ensures /*C06*/ b == allowed(intents_whitelist_owned, res.intent_name)
#closure 3 |name: &String| -> (b: bool)
ensures /*C06*/ b == (intents_whitelist_owned is Some ==> has_str(intents_whitelist_owned.unwrap()@, name@))
#closure 4 |whitelist: &[&str]| -> (b: bool)
ensures /*C06*/ b == has_str(whitelist@, name@)
#closure 5 |res: &IntentClassifierResult| -> (b: bool)
ensures /*C06*/ b == (res.intent_name != parsing_result.intent.intent_name)
#closure 6 |res: IntentClassifierResult| -> (x: Result<IntentParserAlternative>)
ensures /*C06*/ match x { Ok(a) => a.intent == res && alt_slots(*self, input@, slots_alternatives, res.intent_name, Ok(a.slots)), Err(_) => exists|n: Seq<char>, r: Result<Vec<Slot>>| r is Err && #[trigger] slots_of_intent(*self, input@, n, slots_alternatives, r) }
#closure 7 |intent_name: &String| -> (x: Result<Vec<Slot>>)
ensures /*C06*/ x is Ok ==> slots_of_intent(*self, input@, intent_name@, slots_alternatives, x), x is Err ==> exists|r: Result<Vec<Slot>>| r is Err && #[trigger] slots_of_intent(*self, input@, intent_name@, slots_alternatives, r)
#closure 8 || -> (x: Result<Vec<Slot>>)
ensures /*C06*/ x is Ok && x->Ok_0@.len() == 0
#closure 9 |slots: Vec<Slot>| -> (x: IntentParserAlternative)
ensures /*C06*/ x.intent == res, x.slots == slots
#fn nlu_engine.rs SnipsNluEngine::parse
#ret r
#spec
ensures
  exists|w: Option<Vec<&str>>, b: Option<Vec<&str>>| #[trigger] intents_whitelist.into_is(w) && #[trigger] intents_blacklist.into_is(b) && parse_main(*self, input@, w, b, 0, 0, r),
  exists|w: Option<Vec<&str>>, b: Option<Vec<&str>>| #[trigger] intents_whitelist.into_is(w) && #[trigger] intents_blacklist.into_is(b) && parse_alts(*self, input@, w, b, 0, 0, r),
