#include token
#include fs
#include crfsuite
#item slot_utils.rs struct InternalSlot clone
#raw
type EntityName = String;
type SlotName = String;
#item slot_filler/crf_utils.rs const BEGINNING_PREFIX
#item slot_filler/crf_utils.rs const INSIDE_PREFIX
#item slot_filler/crf_utils.rs const LAST_PREFIX
#item slot_filler/crf_utils.rs const UNIT_PREFIX
#item slot_filler/crf_utils.rs const OUTSIDE
#item slot_filler/crf_utils.rs enum TaggingScheme clone copy
#item slot_filler/crf_utils.rs struct SlotRange
#raw
spec fn is_o(t: String) -> bool { t@ == "O"@ }
spec fn has_pre(p: Seq<char>, t: String) -> bool { is_prefix(p, t@) }

/// where the scheme says a slot starts / ends
spec fn starts(sch: TaggingScheme, tags: Seq<String>, i: int) -> bool {
    !is_o(tags[i]) && match sch {
        TaggingScheme::IO => i == 0 || is_o(tags[i - 1]),
        TaggingScheme::BIO => i == 0 || is_o(tags[i - 1]) || has_pre("B-"@, tags[i]),
        TaggingScheme::BILOU => i == 0 || is_o(tags[i - 1]) || has_pre("B-"@, tags[i]) || has_pre("U-"@, tags[i])
            || has_pre("U-"@, tags[i - 1]) || has_pre("L-"@, tags[i - 1]),
    }
}
spec fn ends(sch: TaggingScheme, tags: Seq<String>, i: int) -> bool {
    !is_o(tags[i]) && (i + 1 == tags.len() || is_o(tags[i + 1]) || match sch {
        TaggingScheme::IO => false,
        TaggingScheme::BIO => !has_pre("I-"@, tags[i + 1]),
        TaggingScheme::BILOU => has_pre("L-"@, tags[i]) || has_pre("U-"@, tags[i]) || has_pre("B-"@, tags[i + 1]) || has_pre("U-"@, tags[i + 1]),
    })
}
/// the tags are well formed for the scheme: the outside tag or a prefix of the scheme
spec fn wf_tags(sch: TaggingScheme, tags: Seq<String>) -> bool {
    forall|i: int| 0 <= i < tags.len() ==> is_o(#[trigger] tags[i]) || match sch {
        TaggingScheme::IO => true,
        TaggingScheme::BIO => has_pre("B-"@, tags[i]) || has_pre("I-"@, tags[i]),
        TaggingScheme::BILOU => true,
    }
}
/// segments (first token, last token) found among the first k tags
spec fn last_start(s: spec_fn(int) -> bool, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else if s(k) { k } else { last_start(s, k - 1) } }
spec fn segs(s: spec_fn(int) -> bool, e: spec_fn(int) -> bool, k: int) -> Seq<(int, int)>
    decreases k
{ if k <= 0 { Seq::empty() } else if e(k - 1) { segs(s, e, k - 1).push((last_start(s, k - 1), k - 1)) } else { segs(s, e, k - 1) } }
spec fn scheme_segs(sch: TaggingScheme, tags: Seq<String>) -> Seq<(int, int)> {
    segs(|i: int| starts(sch, tags, i), |i: int| ends(sch, tags, i), tags.len() as int)
}
/// the segments are disjoint, in order, consist of tagged tokens only, cover every tagged token,
/// and start and end exactly where the scheme says so
spec fn seg_partition(sch: TaggingScheme, tags: Seq<String>, g: Seq<(int, int)>) -> bool {
    &&& forall|k: int| 0 <= k < g.len() ==> {
        &&& 0 <= (#[trigger] g[k]).0 <= g[k].1 < tags.len()
        &&& starts(sch, tags, g[k].0) && ends(sch, tags, g[k].1)
        &&& forall|i: int| g[k].0 <= i <= g[k].1 ==> !is_o(#[trigger] tags[i])
        &&& forall|i: int| g[k].0 < i <= g[k].1 ==> !(#[trigger] starts(sch, tags, i))
        &&& forall|i: int| g[k].0 <= i < g[k].1 ==> !(#[trigger] ends(sch, tags, i))
    }
    &&& forall|k: int, l: int| 0 <= k < l < g.len() ==> (#[trigger] g[k]).1 < (#[trigger] g[l]).0
    &&& forall|i: int| 0 <= i < tags.len() && !is_o(#[trigger] tags[i]) ==> covered(g, i)
}
spec fn covered(g: Seq<(int, int)>, i: int) -> bool { exists|k: int| 0 <= k < g.len() && (#[trigger] g[k]).0 <= i <= g[k].1 }
spec fn slot_is(x: SlotRange, tokens: Seq<Token>, tags: Seq<String>, g: (int, int)) -> bool {
    &&& x.range.start == tokens[g.0].range.start && x.range.end == tokens[g.1].range.end
    &&& x.char_range.start == tokens[g.0].char_range.start && x.char_range.end == tokens[g.1].char_range.end
    &&& x.slot_name@ == slot_name_of(tags, g)
}
spec fn slots_are(r: Seq<SlotRange>, tokens: Seq<Token>, tags: Seq<String>, g: Seq<(int, int)>) -> bool {
    r.len() == g.len() && forall|k: int| 0 <= k < r.len() ==> slot_is(#[trigger] r[k], tokens, tags, g[k])
}

proof fn lemma_lits()
    ensures "O"@.len() == 1, "B-"@.len() == 2, "I-"@.len() == 2, "L-"@.len() == 2, "U-"@.len() == 2,
      "O"@[0] == 'O', "B-"@[0] == 'B', "I-"@[0] == 'I', "L-"@[0] == 'L', "U-"@[0] == 'U',
      "B-"@[1] == '-', "I-"@[1] == '-', "L-"@[1] == '-', "U-"@[1] == '-',
{
    reveal_strlit("O"); reveal_strlit("B-"); reveal_strlit("I-"); reveal_strlit("L-"); reveal_strlit("U-");
}
proof fn lemma_prefix_char(p: Seq<char>, t: Seq<char>)
    requires is_prefix(p, t), p.len() == 2
    ensures t.len() >= 2, t[0] == p[0], t[1] == p[1]
{ assert(t.take(2)[0] == p[0]); assert(t.take(2)[1] == p[1]); }
proof fn lemma_two_prefixes(t: String)
    ensures has_pre("B-"@, t) ==> !has_pre("I-"@, t) && !has_pre("L-"@, t) && !has_pre("U-"@, t) && !is_o(t),
       has_pre("I-"@, t) ==> !has_pre("L-"@, t) && !has_pre("U-"@, t) && !is_o(t),
       has_pre("L-"@, t) ==> !has_pre("U-"@, t) && !is_o(t),
       has_pre("U-"@, t) ==> !is_o(t),
{
    lemma_lits();
    if has_pre("B-"@, t) { lemma_prefix_char("B-"@, t@); }
    if has_pre("I-"@, t) { lemma_prefix_char("I-"@, t@); }
    if has_pre("L-"@, t) { lemma_prefix_char("L-"@, t@); }
    if has_pre("U-"@, t) { lemma_prefix_char("U-"@, t@); }
}
/// starts and ends agree: a tagged token starts a slot iff the token before it does not continue
proof fn lemma_consistent(sch: TaggingScheme, tags: Seq<String>, i: int)
    requires wf_tags(sch, tags), 0 < i < tags.len()
    ensures starts(sch, tags, i) <==> (!is_o(tags[i]) && (is_o(tags[i - 1]) || ends(sch, tags, i - 1))),
{
    lemma_two_prefixes(tags[i]); lemma_two_prefixes(tags[i - 1]);
    assert(is_o(tags[i]) || true); 
}
spec fn upto(sch: TaggingScheme, tags: Seq<String>, k: int) -> Seq<(int, int)> { segs(|i: int| starts(sch, tags, i), |i: int| ends(sch, tags, i), k) }
spec fn lst(sch: TaggingScheme, tags: Seq<String>, k: int) -> int { last_start(|i: int| starts(sch, tags, i), k) }
proof fn lemma_last_start(sch: TaggingScheme, tags: Seq<String>, k: int)
    requires wf_tags(sch, tags), 0 <= k < tags.len(), !is_o(tags[k])
    ensures ({ let a = lst(sch, tags, k);
        &&& 0 <= a <= k && starts(sch, tags, a)
        &&& forall|i: int| a <= i <= k ==> !is_o(#[trigger] tags[i])
        &&& forall|i: int| a < i <= k ==> !(#[trigger] starts(sch, tags, i))
        &&& forall|i: int| a <= i < k ==> !(#[trigger] ends(sch, tags, i)) })
    decreases k
{
    if k == 0 { assert(starts(sch, tags, 0)); }
    else if starts(sch, tags, k) { }
    else {
        lemma_consistent(sch, tags, k);
        assert(!is_o(tags[k - 1]) && !ends(sch, tags, k - 1));
        lemma_last_start(sch, tags, k - 1);
    }
}
spec fn seg_ok(sch: TaggingScheme, tags: Seq<String>, p: (int, int)) -> bool {
    &&& 0 <= p.0 <= p.1 < tags.len()
    &&& starts(sch, tags, p.0) && ends(sch, tags, p.1)
    &&& forall|i: int| p.0 <= i <= p.1 ==> !is_o(#[trigger] tags[i])
    &&& forall|i: int| p.0 < i <= p.1 ==> !(#[trigger] starts(sch, tags, i))
    &&& forall|i: int| p.0 <= i < p.1 ==> !(#[trigger] ends(sch, tags, i))
}
spec fn open_at(sch: TaggingScheme, tags: Seq<String>, k: int, i: int) -> bool {
    k >= 0 && lst(sch, tags, k) <= i && !ends(sch, tags, k) && !is_o(tags[k])
}
proof fn lemma_partition_upto(sch: TaggingScheme, tags: Seq<String>, k: int)
    requires wf_tags(sch, tags), 0 <= k <= tags.len()
    ensures ({ let g = upto(sch, tags, k);
      &&& forall|q: int| 0 <= q < g.len() ==> seg_ok(sch, tags, #[trigger] g[q]) && g[q].1 < k
      &&& forall|q: int, l: int| 0 <= q < l < g.len() ==> (#[trigger] g[q]).1 < (#[trigger] g[l]).0
      &&& forall|i: int| 0 <= i < k && !is_o(#[trigger] tags[i]) ==> covered(g, i) || open_at(sch, tags, k - 1, i)
    })
    decreases k
{
    hide(starts); hide(ends); hide(wf_tags);
    if k > 0 {
        lemma_partition_upto(sch, tags, k - 1);
        let g0 = upto(sch, tags, k - 1);
        let g = upto(sch, tags, k);
        let t = k - 1;
        lemma_end_tagged(sch, tags, t);
        if !is_o(tags[t]) { lemma_last_start(sch, tags, t); }
        if k >= 2 { lemma_consistent(sch, tags, t); lemma_end_tagged(sch, tags, t - 1); }
        if ends(sch, tags, t) {
            let a = lst(sch, tags, t);
            assert(g == g0.push((a, t)));
            assert(g[g0.len() as int] == (a, t));
            assert(seg_ok(sch, tags, (a, t)));
            assert forall|q: int| 0 <= q < g0.len() implies (#[trigger] g0[q]).1 < a by {
                assert(seg_ok(sch, tags, g0[q]));
                if g0[q].1 >= a { assert(a <= g0[q].1 < t); assert(ends(sch, tags, g0[q].1)); }
            }
            assert forall|i: int| 0 <= i < k && !is_o(#[trigger] tags[i]) implies covered(g, i) by {
                if i >= a { assert(g[g0.len() as int].0 <= i <= g[g0.len() as int].1); }
                else if covered(g0, i) {
                    let q = choose|q: int| 0 <= q < g0.len() && (#[trigger] g0[q]).0 <= i <= g0[q].1; assert(g[q].0 <= i <= g[q].1);
                } else {
                    assert(open_at(sch, tags, t - 1, i));
                    assert(!starts(sch, tags, t));
                    assert(lst(sch, tags, t) == lst(sch, tags, t - 1));
                }
            }
        } else {
            assert(g == g0);
            assert forall|i: int| 0 <= i < k && !is_o(#[trigger] tags[i]) implies covered(g, i) || open_at(sch, tags, t, i) by {
                if !covered(g0, i) {
                    if i < t {
                        assert(open_at(sch, tags, t - 1, i));
                        assert(!starts(sch, tags, t));
                        assert(lst(sch, tags, t) == lst(sch, tags, t - 1));
                    }
                }
            }
        }
    }
}
proof fn lemma_end_tagged(sch: TaggingScheme, tags: Seq<String>, k: int)
    requires 0 <= k < tags.len()
    ensures ends(sch, tags, k) ==> !is_o(tags[k]), k + 1 < tags.len() && !is_o(tags[k]) && is_o(tags[k + 1]) ==> ends(sch, tags, k),
       k + 1 == tags.len() && !is_o(tags[k]) ==> ends(sch, tags, k)
{ }
proof fn lemma_partition(sch: TaggingScheme, tags: Seq<String>)
    requires wf_tags(sch, tags)
    ensures seg_partition(sch, tags, scheme_segs(sch, tags))
{
    let n = tags.len() as int;
    lemma_partition_upto(sch, tags, n);
    assert(upto(sch, tags, n) == scheme_segs(sch, tags));
    if n > 0 && !is_o(tags[n - 1]) { assert(ends(sch, tags, n - 1)); }
}
#fn slot_filler/crf_utils.rs get_substitution_label
#ret r
#spec
requires labels@.len() > 0
ensures (exists|i: int| 0 <= i < labels@.len() && (#[trigger] labels@[i])@ == "O"@) ==> r@ == "O"@,
  !(exists|i: int| 0 <= i < labels@.len() && (#[trigger] labels@[i])@ == "O"@) ==> r == labels@[0]
#fn slot_filler/crf_utils.rs tag_name_to_slot_name
#ret r
#spec
ensures r@ == (if tag@.len() >= 2 { tag@.skip(2) } else { Seq::empty() })
#fn slot_filler/crf_utils.rs is_start_of_io_slot
#ret r
#spec
requires i < tags@.len()
ensures r == starts(TaggingScheme::IO, tags@, i as int)
#fn slot_filler/crf_utils.rs is_end_of_io_slot
#ret r
#spec
requires i < tags@.len()
ensures r == ends(TaggingScheme::IO, tags@, i as int)
#fn slot_filler/crf_utils.rs is_start_of_bio_slot
#ret r
#spec
requires i < tags@.len()
ensures r == starts(TaggingScheme::BIO, tags@, i as int)
#fn slot_filler/crf_utils.rs is_end_of_bio_slot
#ret r
#spec
requires i < tags@.len()
ensures r == ends(TaggingScheme::BIO, tags@, i as int)
#at entry
proof { if i + 1 < tags@.len() { lemma_two_prefixes(tags@[i + 1]); } }
#fn slot_filler/crf_utils.rs is_start_of_bilou_slot
#ret r
#spec
requires i < tags@.len()
ensures r == starts(TaggingScheme::BILOU, tags@, i as int)
#fn slot_filler/crf_utils.rs is_end_of_bilou_slot
#ret r
#spec
requires i < tags@.len()
ensures r == ends(TaggingScheme::BILOU, tags@, i as int)
#raw
spec fn agree<F: Fn(&[String], usize) -> bool>(f: F, tags: &[String], s: spec_fn(int) -> bool) -> bool {
    forall|i: usize, b: bool| i < tags@.len() && #[trigger] call_ensures(f, (tags, i), b) ==> b == s(i as int)
}
/// no slot ends without having started after the previous end
spec fn coherent(s: spec_fn(int) -> bool, e: spec_fn(int) -> bool, n: int) -> bool {
    forall|i: int| 0 <= i < n && #[trigger] e(i) ==> 0 <= last_start(s, i) <= i && s(last_start(s, i)) && forall|j: int| last_start(s, i) <= j < i ==> !#[trigger] e(j)
}
spec fn cur_ok(s: spec_fn(int) -> bool, e: spec_fn(int) -> bool, cur: int, k: int) -> bool {
    &&& forall|j: int| cur < j < k ==> !#[trigger] s(j)
    &&& cur == 0 || s(cur) || e(cur)
}
proof fn lemma_cur(s: spec_fn(int) -> bool, e: spec_fn(int) -> bool, cur: int, k: int)
    requires cur_ok(s, e, cur, k + 1), 0 <= cur <= k, e(k), !s(cur) ==> cur < k, 
       0 <= last_start(s, k) <= k, s(last_start(s, k)), forall|j: int| last_start(s, k) <= j < k ==> !#[trigger] e(j)
    ensures cur == last_start(s, k)
{
    lemma_ls(s, k);
}
proof fn lemma_ls(s: spec_fn(int) -> bool, k: int)
    requires k >= 0
    ensures forall|j: int| last_start(s, k) < j <= k ==> !#[trigger] s(j), 0 <= last_start(s, k) <= k
    decreases k
{ if k > 0 && !s(k) { lemma_ls(s, k - 1); } }
proof fn lemma_coherent(sch: TaggingScheme, tags: Seq<String>)
    requires wf_tags(sch, tags)
    ensures coherent(|i: int| starts(sch, tags, i), |i: int| ends(sch, tags, i), tags.len() as int)
{
    assert forall|i: int| 0 <= i < tags.len() && ends(sch, tags, i) implies ({ let a = lst(sch, tags, i); 0 <= a <= i && starts(sch, tags, a) && forall|j: int| a <= j < i ==> !#[trigger] ends(sch, tags, j) }) by {
        lemma_last_start(sch, tags, i);
    }
}
#fn slot_filler/crf_utils.rs _tags_to_slots
#ret r
#spec
requires tokens@.len() == tags@.len(),
 forall|i: usize| i < tags@.len() ==> #[trigger] call_requires(is_start_of_slot, (tags, i)) && call_requires(is_end_of_slot, (tags, i)),
 forall|i: usize| i < tags@.len() ==> #[trigger] call_requires(is_end_of_slot, (tags, i)),
ensures forall|s: spec_fn(int) -> bool, e: spec_fn(int) -> bool|
   agree(is_start_of_slot, tags, s) && agree(is_end_of_slot, tags, e) && coherent(s, e, tags@.len() as int)
   ==> slots_are(r@, tokens@, tags@, #[trigger] segs(s, e, tags@.len() as int))
#loop 0
invariant current_slot_start <= vx_k0, vx_s0 == enumerated(refs(tags@)),
 vx_k0 < vx_s0.len() ==> current_slot_start < vx_s0.len(),
 forall|s: spec_fn(int) -> bool, e: spec_fn(int) -> bool|
   agree(is_start_of_slot, tags, s) && agree(is_end_of_slot, tags, e) && #[trigger] coherent(s, e, tags@.len() as int)
   ==> cur_ok(s, e, current_slot_start as int, vx_k0) && (current_slot_start == vx_k0 ==> vx_k0 == 0) && slots_are(slots@, tokens@, tags@, segs(s, e, vx_k0))
#at loop 0 start
proof {
    let i = vx_k0 - 1;
    assert forall|s: spec_fn(int) -> bool, e: spec_fn(int) -> bool|
        agree(is_start_of_slot, tags, s) && agree(is_end_of_slot, tags, e) && #[trigger] coherent(s, e, tags@.len() as int) && e(i)
        implies last_start(s, i) == (if s(i) { i } else { current_slot_start as int })
    by {
        lemma_ls(s, i);
        if !s(i) { assert(current_slot_start != i || i == 0); lemma_cur(s, e, current_slot_start as int, i); }
    }
}
#at loop 0 end
proof {
    let i = vx_k0 - 1;
    assert forall|s: spec_fn(int) -> bool, e: spec_fn(int) -> bool|
        agree(is_start_of_slot, tags, s) && agree(is_end_of_slot, tags, e) && #[trigger] coherent(s, e, tags@.len() as int)
        implies slots_are(slots@, tokens@, tags@, segs(s, e, vx_k0)) by {
        if e(i) { assert(segs(s, e, vx_k0) == segs(s, e, i).push((last_start(s, i), i))); }
        else { assert(segs(s, e, vx_k0) == segs(s, e, i)); }
    }
}
#fn slot_filler/crf_utils.rs tags_to_slot_ranges
#ret r
#spec
requires tokens@.len() == tags@.len(), wf_tags(tagging_scheme, tags@)
ensures slots_are(r@, tokens@, tags@, scheme_segs(tagging_scheme, tags@)),
   seg_partition(tagging_scheme, tags@, scheme_segs(tagging_scheme, tags@))
#at entry
hide(starts); hide(ends); hide(wf_tags); hide(seg_partition); hide(coherent); hide(slots_are);
proof { lemma_partition(tagging_scheme, tags@); lemma_coherent(tagging_scheme, tags@); }
#raw
spec fn slot_ok(text: Seq<char>, tokens: Seq<Token>, tags: Seq<String>, m: Map<String, String>, g: (int, int), x: InternalSlot) -> bool {
    let name = slot_name_of(tags, g);
    &&& x.value@ == byte_slice(text, tokens[g.0].range.start as int, tokens[g.1].range.end as int)
    &&& x.char_range.start == tokens[g.0].char_range.start && x.char_range.end == tokens[g.1].char_range.end
    &&& x.slot_name@ == name
    &&& m.contains_key(mk_string(name)) && x.entity == m[mk_string(name)]
}
spec fn is_slot_of(text: Seq<char>, m: Map<String, String>, s: SlotRange, r: Result<InternalSlot>) -> bool {
    match r {
        Ok(x) => x.value@ == byte_slice(text, s.range.start as int, s.range.end as int) && x.char_range == s.char_range && x.slot_name == s.slot_name
            && m.contains_key(s.slot_name) && x.entity == m[s.slot_name],
        Err(_) => !m.contains_key(s.slot_name),
    }
}
#fn slot_filler/crf_utils.rs tags_to_slots
#ret r
#spec
requires tokens@.len() == tags@.len(), wf_tags(tagging_scheme, tags@), wf_tokens(text@, tokens@)
ensures
  r matches Ok(v) ==> v@.len() == scheme_segs(tagging_scheme, tags@).len()
        && forall|k: int| 0 <= k < v@.len() ==> slot_ok(text@, tokens@, tags@, intent_slots_mapping@, scheme_segs(tagging_scheme, tags@)[k], #[trigger] v@[k]),
  // an error only for a slot without entity mapping
  r is Err ==> exists|k: int| 0 <= k < scheme_segs(tagging_scheme, tags@).len() &&
        !intent_slots_mapping@.contains_key(mk_string(#[trigger] slot_name_of(tags@, scheme_segs(tagging_scheme, tags@)[k]))),
  seg_partition(tagging_scheme, tags@, scheme_segs(tagging_scheme, tags@))
#closure 0 |s: SlotRange| -> (r: Result<InternalSlot>)
requires s.range.start <= s.range.end, char_boundary(text@, s.range.start as int), char_boundary(text@, s.range.end as int),
ensures is_slot_of(text@, intent_slots_mapping@, s, r)
#at entry
hide(starts); hide(ends); hide(wf_tags);
proof {
    let g = scheme_segs(tagging_scheme, tags@);
    lemma_partition(tagging_scheme, tags@);
    assert forall|k: int| 0 <= k < g.len() implies tokens@[(#[trigger] g[k]).0].range.start <= tokens@[g[k].1].range.end by {
        if seg_partition(tagging_scheme, tags@, g) && g[k].0 < g[k].1 {
            assert(tokens@[g[k].0].range.end <= tokens@[g[k].1].range.start);
        }
    }
}
#raw
spec fn slot_name_of(tags: Seq<String>, g: (int, int)) -> Seq<char> { if tags[g.1]@.len() >= 2 { tags[g.1]@.skip(2) } else { Seq::empty() } }
// ---------------------------------------------------------------- C02
spec fn prefix_of(sch: TaggingScheme, index: int, first: int, last: int, count: int) -> Seq<char> {
    match sch {
        TaggingScheme::IO => "I-"@,
        TaggingScheme::BIO => if index == first { "B-"@ } else { "I-"@ },
        TaggingScheme::BILOU => if count == 1 { "U-"@ } else if index == first { "B-"@ } else if index == last { "L-"@ } else { "I-"@ },
    }
}
#fn slot_filler/crf_utils.rs get_scheme_prefix
#ret r
#spec
requires indexes@.len() > 0
ensures r@ == prefix_of(tagging_scheme, index as int, indexes@[0] as int, indexes@[indexes@.len() - 1] as int, indexes@.len() as int)
#raw
/// tagging the consecutive tokens a..=b with the prefixes of the scheme (and anything after the
/// prefix) and every other token as outside decodes to exactly one slot covering a..=b
proof fn theorem_prefix_round_trip(sch: TaggingScheme, tags: Seq<String>, a: int, b: int)
    requires 0 <= a <= b < tags.len(),
        forall|i: int| 0 <= i < tags.len() && !(a <= i <= b) ==> is_o(#[trigger] tags[i]),
        forall|i: int| a <= i <= b ==> has_pre(prefix_of(sch, i, a, b, b - a + 1), #[trigger] tags[i]),
    ensures wf_tags(sch, tags), scheme_segs(sch, tags) =~= seq![(a, b)]
{
    assert forall|i: int| 0 <= i < tags.len() implies (is_o(#[trigger] tags[i]) <==> !(a <= i <= b)) by { lemma_two_prefixes(tags[i]); }
    assert forall|i: int| 0 <= i < tags.len() implies (#[trigger] starts(sch, tags, i) <==> i == a) by {
        lemma_two_prefixes(tags[i]); if i > 0 { lemma_two_prefixes(tags[i - 1]); }
    }
    assert forall|i: int| 0 <= i < tags.len() implies (#[trigger] ends(sch, tags, i) <==> i == b) by {
        lemma_two_prefixes(tags[i]); if i + 1 < tags.len() { lemma_two_prefixes(tags[i + 1]); }
    }
    assert(wf_tags(sch, tags));
    lemma_partition(sch, tags);
    let g = scheme_segs(sch, tags);
    assert(covered(g, a)) by { assert(!is_o(tags[a])); }
    let k = choose|k: int| 0 <= k < g.len() && (#[trigger] g[k]).0 <= a <= g[k].1;
    assert(starts(sch, tags, g[k].0) && ends(sch, tags, g[k].1));
    assert forall|q: int| 0 <= q < g.len() implies #[trigger] g[q] == (a, b) by { assert(starts(sch, tags, g[q].0) && ends(sch, tags, g[q].1)); }
    if g.len() > 1 { assert(g[0].1 < g[1].0); }
}
#raw
// ---------------------------------------------------------------- C03
spec fn decoded(label: Seq<char>) -> Option<Seq<char>> { match b64_bytes(label) { Some(b) => utf8_text(b), None => None } }
spec fn encoded(tag: Seq<char>) -> Seq<char> { b64(utf8(tag)) }
/// every label sent to the tagger decodes back to the same label
proof fn theorem_labels_round_trip(tag: Seq<char>) ensures decoded(encoded(tag)) == Some(tag) { }
#fn slot_filler/crf_slot_filler.rs decode_tag
#ret r
#spec
ensures (match r { Ok(v) => Some(v@), Err(_) => None }) == decoded(tag@)
#fn slot_filler/crf_slot_filler.rs encode_tag
#ret r
#spec
ensures r@ == encoded(tag@)
#import lang
#raw
#[verifier::external_body]
struct ProbabilisticFeatureProcessor { x: u8 }
uninterp spec fn features_of(p: ProbabilisticFeatureProcessor, toks: Seq<Token>, r: Result<Vec<Vec<(String, String)>>>) -> bool;
impl ProbabilisticFeatureProcessor {
    #[verifier::external_body]
    fn compute_features(&self, tokens: &&[Token]) -> (r: Result<Vec<Vec<(String, String)>>>) ensures features_of(*self, tokens@, r), r is Ok ==> r->Ok_0@.len() == tokens@.len() { unimplemented!() }
}
#item slot_filler/crf_slot_filler.rs struct CRFSlotFiller
#raw
spec fn all_decoded(raw: Seq<String>, d: Seq<String>) -> bool { raw.len() == d.len() && forall|i: int| 0 <= i < raw.len() ==> decoded((#[trigger] raw[i])@) == Some(d[i]@) }
/// a tag the tagger knows is passed unchanged; any other becomes the outside label if known, else the first label
spec fn passed(tag: Seq<char>, labels: Seq<String>) -> Seq<char> { if has_string(labels, tag) { tag } else if has_string(labels, "O"@) { "O"@ } else { labels[0]@ } }
spec fn substituted(tags: Seq<String>, labels: Seq<String>, sent: Seq<String>) -> bool { sent.len() == tags.len() && forall|i: int| 0 <= i < tags.len() ==> (#[trigger] sent[i])@ == encoded(passed(tags[i]@, labels)) }
spec fn sequence_probability(s: CRFSlotFiller, tokens: Seq<Token>, tags: Seq<String>, r: Result<f64>) -> bool {
    match (s.tagger, s.feature_processor) {
        (Some(t), Some(p)) => r is Ok ==> exists|f: Vec<Vec<(String, String)>>, raw: Vec<String>, labels: Seq<String>, sent: Seq<String>|
            #[trigger] features_of(p, tokens, Ok(f)) && #[trigger] labels_of(t.model(), Ok(raw)) && #[trigger] all_decoded(raw@, labels) && #[trigger] substituted(tags, labels, sent) && probability_of(t.model(), f@, sent, r),
        _ => r is Ok && r->Ok_0 == if forall|i: int| 0 <= i < tags.len() ==> is_o(#[trigger] tags[i]) { 1.0f64 } else { 0.0f64 },
    }
}
#fn slot_filler/crf_slot_filler.rs CRFSlotFiller/SlotFiller::get_sequence_probability
#ret r
#spec
ensures sequence_probability(*self, tokens@, tags@, r)
#closure 0 |label: String| -> (x: Result<String>)
ensures (match x { Ok(v) => Some(v@), Err(_) => None }) == decoded(label@)
#closure 1 |l: _| -> (x: &str)
ensures x@ == l@
#closure 2 |t: _| -> (x: &str)
ensures x@ == passed(t@, tagger_labels@)
#closure 3 |t: &str| -> (x: String)
ensures x@ == encoded(t@)
#closure 4 |tag: &String| -> (x: bool)
ensures x == !is_o(*tag)
#closure 5 |vx_u: String| -> (x: f64)
ensures x == 0.0f64
#at after-let features
proof { assert(features_of(self.feature_processor->Some_0, tokens@, Ok(features))); }
#at after-let tagger_labels
proof { assert(exists|raw: Vec<String>| #[trigger] labels_of(self.tagger->Some_0.model(), Ok(raw)) && all_decoded(raw@, tagger_labels@)); }
#at after-let cleaned_tags
proof { assert(substituted(tags@, tagger_labels@, cleaned_tags@)); }
#raw
/// what training guarantees about a model: one label per row of features, each of them a tag of the scheme
spec fn trained_for(model: int, sch: TaggingScheme) -> bool {
    forall|f: Features, raw: Vec<String>, tags: Seq<String>| #[trigger] tagged(model, f, Ok(raw)) && #[trigger] all_decoded(raw@, tags) ==> tags.len() == f.len() && wf_tags(sch, tags)
}
spec fn slots_of(s: CRFSlotFiller, text: Seq<char>, r: Seq<InternalSlot>) -> bool {
    match (s.tagger, s.feature_processor) {
        (Some(t), Some(p)) => {
            let toks = tokens_of(text, nlu_language(s.language));
            if toks.len() == 0 { r.len() == 0 } else {
            exists|f: Vec<Vec<(String, String)>>, raw: Vec<String>, tags: Seq<String>|
              #[trigger] features_of(p, toks, Ok(f)) && #[trigger] tagged(t.model(), f@, Ok(raw)) && #[trigger] all_decoded(raw@, tags)
              && seg_partition(s.tagging_scheme, tags, scheme_segs(s.tagging_scheme, tags))
              && r.len() == scheme_segs(s.tagging_scheme, tags).len()
              && forall|k: int| 0 <= k < r.len() ==> slot_ok(text, toks, tags, s.slot_name_mapping@, scheme_segs(s.tagging_scheme, tags)[k], #[trigger] r[k]) }
        },
        _ => r.len() == 0,
    }
}
#fn slot_filler/crf_slot_filler.rs CRFSlotFiller/SlotFiller::get_slots
#ret r
#spec
requires self.tagger is Some ==> trained_for(self.tagger->Some_0.model(), self.tagging_scheme)
ensures r is Ok ==> slots_of(*self, text@, r->Ok_0@)
#closure 0 |tag: String| -> (x: Result<String>)
ensures (match x { Ok(v) => Some(v@), Err(_) => None }) == decoded(tag@)
#at after-let features
proof { assert(features_of(self.feature_processor->Some_0, tokens@, Ok(features))); }
#at after-let tags
proof { assert(exists|raw: Vec<String>| #[trigger] tagged(self.tagger->Some_0.model(), features@, Ok(raw)) && all_decoded(raw@, tags@)); }
