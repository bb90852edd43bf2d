#include onto
#include lru
#include fs
#item entity_parser/utils.rs struct Cache reject=K reject=V
#raw
impl<K: Eq + Hash + Clone, V: Clone> Cache<K, V> { spec fn view(&self) -> Map<K, V> { self.0@ } }
spec fn same_or_evicted<K, V>(new: Map<K, V>, old: Map<K, V>) -> bool { forall|k: K| #[trigger] new.contains_key(k) ==> old.contains_key(k) && new[k] == old[k] }
#fn entity_parser/utils.rs Cache::new
#ret r
#spec
ensures r@ == Map::<K, V>::empty()
#fn entity_parser/utils.rs Cache::try_cache
#ret r
#spec
requires call_requires(producer, (key,))
ensures old(self)@.contains_key(*key) ==> r == Ok::<V, VxError>(old(self)@[*key]) && same_or_evicted(final(self)@, old(self)@),
  !old(self)@.contains_key(*key) ==> call_ensures(producer, (key,), r) && same_or_evicted(final(self)@, match r { Ok(v) => old(self)@.insert(*key, v), Err(_) => old(self)@ }),
#raw
type NluResult<T> = Result<T>;
/// snips_nlu_parsers::BuiltinEntityParser: what it answers is an arbitrary relation
#[verifier::external_body]
struct _BuiltinEntityParser { x: u8 }
/// the parser stored in a directory
uninterp spec fn builtin_file(dir: Seq<char>, p: _BuiltinEntityParser) -> bool;
uninterp spec fn uncached(p: _BuiltinEntityParser, sentence: Seq<char>, kinds: Option<Seq<BuiltinEntityKind>>, alternatives: usize, r: Result<Vec<BuiltinEntity>>) -> bool;
impl _BuiltinEntityParser {
    #[verifier::external_body]
    fn extract_entities(&self, sentence: &str, kinds: Option<&[BuiltinEntityKind]>, alternatives: usize) -> (r: Result<Vec<BuiltinEntity>>)
        ensures uncached(*self, sentence@, kinds_of(kinds), alternatives, r)
    { unimplemented!() }
    #[verifier::external_body]
    fn from_path<P: VxAsPath>(path: P) -> (r: Result<Self>) ensures r is Ok ==> builtin_file(path.pv(), r->Ok_0) { unimplemented!() }
}
spec fn kinds_of(k: Option<&[BuiltinEntityKind]>) -> Option<Seq<BuiltinEntityKind>> { match k { Some(x) => Some(x@), None => None } }
spec fn vkinds(k: Option<Vec<BuiltinEntityKind>>) -> Option<Seq<BuiltinEntityKind>> { match k { Some(x) => Some(x@), None => None } }
#item entity_parser/builtin_entity_parser.rs struct CacheKey clone hash
#item entity_parser/builtin_entity_parser.rs struct CachingBuiltinEntityParser
#raw
/// everything in the cache is an answer the parser gives to the query of its key
spec fn good(p: _BuiltinEntityParser) -> spec_fn(Cache<CacheKey, Vec<BuiltinEntity>>) -> bool {
    |c: Cache<CacheKey, Vec<BuiltinEntity>>| forall|k: CacheKey| #[trigger] c@.contains_key(k) ==> uncached(p, k.input@, vkinds(k.kinds), k.max_alternative_resolved_values, Ok(c@[k]))
}
spec fn transparent(s: CachingBuiltinEntityParser) -> bool { s.cache.inv() == good(s.parser) }
#fn entity_parser/builtin_entity_parser.rs CachingBuiltinEntityParser/BuiltinEntityParser::extract_entities
#ret r
#spec
requires transparent(*self)
ensures uncached(self.parser, lower(sentence@), kinds_of(filter_entity_kinds), max_alternative_resolved_values, r)
#closure 0 |entity_kinds: &[BuiltinEntityKind]| -> (x: Vec<BuiltinEntityKind>)
ensures x@ == entity_kinds@
#closure 1 |cache_key: &CacheKey| -> (r: Result<Vec<BuiltinEntity>>)
ensures uncached(self.parser, cache_key.input@, kinds_of(filter_entity_kinds), max_alternative_resolved_values, r)
#fn entity_parser/builtin_entity_parser.rs CachingBuiltinEntityParser::from_path path
#ret r
#spec
ensures r is Ok ==> transparent(r->Ok_0) && builtin_file(path.pv(), r->Ok_0.parser)
#at before-let cache
let ghost vx_inv = good(parser);
