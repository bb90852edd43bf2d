#include onto
#include lru
#include fs
#include token
#item entity_parser/utils.rs struct Cache reject=K reject=V
#raw
impl<K: Eq + Hash + Clone, V: Clone> Cache<K, V> { spec fn view(&self) -> Map<K, V> { self.0@ } }
spec fn same_or_evicted<K, V>(new: Map<K, V>, old: Map<K, V>) -> bool { forall|k: K| #[trigger] new.contains_key(k) ==> old.contains_key(k) && new[k] == old[k] }
#use builtin Cache::new
#use builtin Cache::try_cache
#raw
// ---------------------------------------------------------------- C27
/// where token t starts in the tokens joined by single spaces
spec fn jl(toks: Seq<Token>, t: int) -> int
    decreases t
{ if t <= 0 { 0 } else { jl(toks, t - 1) + (toks[t - 1].char_range.end - toks[t - 1].char_range.start) + 1 } }
/// character o of token t
spec fn in_tok(toks: Seq<Token>, t: int, o: int) -> bool { 0 <= t < toks.len() && 0 <= o < toks[t].char_range.end - toks[t].char_range.start }
spec fn in_order(toks: Seq<Token>) -> bool {
    &&& forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).char_range.start < toks[i].char_range.end <= 0x3fff_ffff
    &&& forall|i: int, j: int| 0 <= i < j < toks.len() ==> (#[trigger] toks[i]).char_range.end <= (#[trigger] toks[j]).char_range.start
}
spec fn joined_len(toks: Seq<Token>, k: int) -> int { if k == 0 { 0 } else { jl(toks, k) - 1 } }
spec fn shift(toks: Seq<Token>, t: int) -> int { jl(toks, t) - toks[t].char_range.start }
/// the shift of each character of the joined tokens (a separator has the shift of the token after it)
spec fn shifts_of(toks: Seq<Token>, k: int, v: Seq<i32>) -> bool {
    &&& v.len() == joined_len(toks, k)
    &&& forall|t: int, p: int| 0 <= t < k && jl(toks, t) - (if t > 0 { 1int } else { 0 }) <= p < jl(toks, t + 1) - 1 ==> (#[trigger] v[p]) == #[trigger] shift(toks, t)
}
proof fn lemma_jl(toks: Seq<Token>, k: int)
    requires in_order(toks), 0 <= k <= toks.len()
    ensures 0 <= jl(toks, k), k > 0 ==> jl(toks, k) <= 2 * toks[k - 1].char_range.end
    decreases k
{ if k > 0 { lemma_jl(toks, k - 1); if k > 1 { assert(toks[k - 2].char_range.end <= toks[k - 1].char_range.start); } } }
proof fn lemma_jl_mono(toks: Seq<Token>, a: int, b: int)
    requires in_order(toks), 0 <= a <= b <= toks.len()
    ensures jl(toks, a) + (b - a) <= jl(toks, b)
    decreases b - a
{ if a < b { lemma_jl_mono(toks, a, b - 1); } }
#fn entity_parser/custom_entity_parser.rs compute_char_shifts
#ret r
#spec
requires in_order(tokens@)
ensures shifts_of(tokens@, tokens@.len() as int, r@)
#closure 0 |vx_u: i32| -> (x: i32)
ensures x == current_shift
#loop 0
invariant
  vx_s0 == enumerated(refs::<Token>(tokens@)),
  shifts_of(tokens@, vx_k0, characters_shifts@),
  vx_k0 == 0 ==> current_shift == 0,
  vx_k0 > 0 ==> current_shift == shift(tokens@, vx_k0 - 1),
#at loop 0 start
let ghost old_v = characters_shifts@;
proof { lemma_jl(tokens@, vx_k0 - 1); lemma_jl(tokens@, vx_k0); if vx_k0 > 1 { lemma_jl(tokens@, vx_k0 - 2); assert(tokens@[vx_k0 - 2].char_range.end <= tokens@[vx_k0 - 1].char_range.start); } }
#at loop 0 end
proof {
  assert forall|t: int, p: int| 0 <= t < vx_k0 && jl(tokens@, t) - (if t > 0 { 1int } else { 0 }) <= p < jl(tokens@, t + 1) - 1 implies (#[trigger] characters_shifts@[p]) == #[trigger] shift(tokens@, t) by {
    if t < vx_k0 - 1 { lemma_jl_mono(tokens@, t + 1, vx_k0 - 1); assert(characters_shifts@[p] == old_v[p]); }
  }
}
#raw
/// snips_nlu_parsers::GazetteerParser: what it answers is an arbitrary relation, but its matches lie in the text
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct GazetteerParser<T> { x: std::marker::PhantomData<T> }
spec fn kinds_of(k: Option<&[String]>) -> Option<Seq<String>> { match k { Some(x) => Some(x@), None => None } }
spec fn vkinds(k: Option<Vec<String>>) -> Option<Seq<String>> { match k { Some(x) => Some(x@), None => None } }
/// the parser stored in a directory
uninterp spec fn gazetteer_file(dir: Seq<char>, p: GazetteerParser<String>) -> bool;
uninterp spec fn matched(p: GazetteerParser<String>, text: Seq<char>, kinds: Option<Seq<String>>, alternatives: usize, r: Result<Vec<CustomEntity>>) -> bool;
spec fn matches_in(n: int, es: Seq<CustomEntity>) -> bool { forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).range.start < es[i].range.end <= n }
impl GazetteerParser<String> {
    #[verifier::external_body]
    fn extract_entities(&self, text: &str, kinds: Option<&[String]>, alternatives: usize) -> (r: Result<Vec<CustomEntity>>)
        ensures matched(*self, text@, kinds_of(kinds), alternatives, r), r is Ok ==> matches_in(text@.len() as int, r->Ok_0@)
    { unimplemented!() }
    #[verifier::external_body]
    fn from_path<P: VxAsPath>(path: P) -> (r: Result<Self>) ensures r is Ok ==> gazetteer_file(path.pv(), r->Ok_0) { unimplemented!() }
}
#import lang
#raw
#[verifier::external_body]
struct CustomEntityParserUsage { x: u8 }
#item entity_parser/custom_entity_parser.rs struct CustomEntityParserMetadata
#item entity_parser/custom_entity_parser.rs struct CacheKey clone hash
#item entity_parser/custom_entity_parser.rs struct CachingCustomEntityParser
#raw
spec fn values_of(toks: Seq<Token>) -> Seq<Seq<char>> { Seq::new(toks.len(), |i: int| toks[i].value@) }
/// the tokens joined by single spaces
spec fn joined(toks: Seq<Token>) -> Seq<char> { join_seq(values_of(toks), " "@) }
/// position p of the joined text is character o of some token, which is position q of the sentence
spec fn moved(toks: Seq<Token>, p: int, q: int) -> bool { forall|t: int, o: int| #[trigger] in_tok(toks, t, o) && p == jl(toks, t) + o ==> q == toks[t].char_range.start + o }
spec fn remapped(toks: Seq<Token>, m: CustomEntity, r: CustomEntity) -> bool {
    &&& r.value == m.value && r.resolved_value == m.resolved_value && r.alternative_resolved_values == m.alternative_resolved_values && r.entity_identifier == m.entity_identifier
    &&& moved(toks, m.range.start as int, r.range.start as int) && moved(toks, m.range.end - 1, r.range.end - 1)
}
spec fn remapped_all(toks: Seq<Token>, m: Seq<CustomEntity>, r: Seq<CustomEntity>) -> bool { m.len() == r.len() && forall|i: int| 0 <= i < m.len() ==> remapped(toks, m[i], #[trigger] r[i]) }
/// the gazetteer's answer on the joined tokens of the sentence, every match moved to its range in the sentence
spec fn extracted(p: CachingCustomEntityParser, sentence: Seq<char>, kinds: Option<Seq<String>>, alternatives: usize, r: Result<Vec<CustomEntity>>) -> bool { answered_by(p.parser, p.language, sentence, kinds, alternatives, r) }
spec fn answered_by(g: GazetteerParser<String>, l: NluUtilsLanguage, sentence: Seq<char>, kinds: Option<Seq<String>>, alternatives: usize, r: Result<Vec<CustomEntity>>) -> bool {
    let toks = tokens_of(sentence, l);
    exists|m: Result<Vec<CustomEntity>>| #[trigger] matched(g, joined(toks), kinds, alternatives, m) && match m { Err(_) => r is Err, Ok(v) => r is Ok && remapped_all(toks, v@, r->Ok_0@) }
}
proof fn lemma_joined_len(toks: Seq<Token>, text: Seq<char>)
    requires wf_tokens(text, toks), faithful(text, toks)
    ensures joined(toks).len() == joined_len(toks, toks.len() as int)
    decreases toks.len()
{
    reveal_strlit(" ");
    let n = toks.len() as int;
    if n > 0 {
        let p = toks.drop_last();
        lemma_joined_len(p, text);
        assert(values_of(toks).drop_last() =~= values_of(p));
        lemma_jl_prefix(toks, n - 1);
        assert(toks[n - 1].value@.len() == toks[n - 1].char_range.end - toks[n - 1].char_range.start);
    }
}
proof fn lemma_jl_prefix(toks: Seq<Token>, k: int)
    requires 0 <= k < toks.len()
    ensures jl(toks.drop_last(), k) == jl(toks, k)
    decreases k
{ if k > 0 { lemma_jl_prefix(toks, k - 1); } }
/// every position of the joined text has the shift of some token, and moving by it gives a position of the text
proof fn lemma_position(toks: Seq<Token>, k: int, v: Seq<i32>, p: int)
    requires in_order(toks), 0 <= k <= toks.len(), shifts_of(toks, toks.len() as int, v), 0 <= p < joined_len(toks, k)
    ensures 0 <= p - v[p] <= 0x3fff_ffff, moved(toks, p, p - v[p]), p < v.len(), v.len() <= 0x7fff_ffff
    decreases k
{
    let n = toks.len() as int;
    lemma_jl_mono(toks, k, n); lemma_jl(toks, n);
    assert forall|t: int, o: int| #[trigger] in_tok(toks, t, o) && p == jl(toks, t) + o implies p - v[p] == toks[t].char_range.start + o by { lemma_jl(toks, t); lemma_jl_mono(toks, t + 1, n); assert(v[p] == shift(toks, t)); }
    let t = k - 1;
    lemma_jl(toks, t);
    if p < joined_len(toks, t) { lemma_position(toks, t, v, p); }
    else { assert(v[p] == shift(toks, t)); if t > 0 { assert(toks[t - 1].char_range.end <= toks[t].char_range.start); } }
}
#fn entity_parser/custom_entity_parser.rs CachingCustomEntityParser::_extract_entities
#ret r
#spec
requires sentence@.len() <= 0x3fff_ffff
ensures extracted(*self, sentence@, kinds_of(filter_entity_kinds), max_alternative_resolved_values, r)
#closure 0 |token: Token| -> (x: String)
ensures x == token.value
#closure 1 |entity_match: CustomEntity| -> (x: CustomEntity)
requires entity_match.range.start < entity_match.range.end <= joined(toks).len()
ensures remapped(toks, entity_match, x)
#at closure 1 start
proof { lemma_position(toks, toks.len() as int, shifts@, entity_match.range.start as int); lemma_position(toks, toks.len() as int, shifts@, entity_match.range.end - 1); }
#at after-let tokens
let ghost toks = tokens@;
proof { lemma_joined_len(toks, sentence@); }
#at after-let cleaned_input
assert(cleaned_input@ == joined(toks)) by { let x = choose|x: Seq<String>| #[trigger] views(x).len() == toks.len() && cleaned_input@ == join_seq(views(x), " "@) && forall|i: int| 0 <= i < x.len() ==> x[i] == toks[i].value; assert(views(x) =~= values_of(toks)); }
#raw
// ---------------------------------------------------------------- C26
/// everything in the cache is an answer an uncached extraction gives to the query of its key
spec fn good(g: GazetteerParser<String>, l: NluUtilsLanguage) -> spec_fn(Cache<CacheKey, Vec<CustomEntity>>) -> bool {
    |c: Cache<CacheKey, Vec<CustomEntity>>| forall|k: CacheKey| #[trigger] c@.contains_key(k) ==> answered_by(g, l, k.input@, vkinds(k.kinds), k.max_alternative_resolved_values, Ok(c@[k]))
}
spec fn json<T>(file: Seq<char>, v: T) -> bool { json_of(file, Ok::<T, VxError>(v)) }
/// language and parser are the ones the metadata of the directory names
spec fn built_from(dir: Seq<char>, s: CachingCustomEntityParser) -> bool {
    exists|m: CustomEntityParserMetadata| #[trigger] json(path_join(dir, "metadata.json"@), m) && language_of(m.language@) is Some && s.language == nlu_language(language_of(m.language@)->Some_0) && gazetteer_file(path_join(dir, m.parser_directory@), s.parser)
}
spec fn transparent(s: CachingCustomEntityParser) -> bool { s.cache.inv() == good(s.parser, s.language) }
#fn entity_parser/custom_entity_parser.rs CachingCustomEntityParser/CustomEntityParser::extract_entities
#ret r
#spec
requires transparent(*self), lower(sentence@).len() <= 0x3fff_ffff
ensures extracted(*self, lower(sentence@), kinds_of(filter_entity_kinds), max_alternative_resolved_values, r)
#closure 0 |entity_kinds: &[String]| -> (x: Vec<String>)
ensures x@ == entity_kinds@
#closure 1 |cache_key: &CacheKey| -> (r: Result<Vec<CustomEntity>>)
requires cache_key.input@.len() <= 0x3fff_ffff
ensures extracted(*self, cache_key.input@, kinds_of(filter_entity_kinds), max_alternative_resolved_values, r)
#fn entity_parser/custom_entity_parser.rs CachingCustomEntityParser::from_path path
#ret r
#spec
ensures r is Ok ==> transparent(r->Ok_0) && built_from(path.pv(), r->Ok_0)
#at after-let metadata
proof { assert(json(path_join(path.pv(), "metadata.json"@), metadata)); }
#at before-let cache
let ghost vx_inv = good(parser, language);
