#include fs
#include token
#include gaz
#raw
use core::result::Result;
use std::sync::Arc;
// ---------------------------------------------------------------- C28: injection
type NluInjectionError = VxError;
trait Stemmer: Send + Sync { spec fn stemmed(&self, v: Seq<char>) -> Seq<char>; fn stem(&self, value: &str) -> (r: String) ensures r@ == self.stemmed(value@); }
trait BuiltinEntityParser: Send + Sync { }
trait CustomEntityParser: Send + Sync { }
trait Gazetteer: Send + Sync { }
trait WordClusterer: Send + Sync { }
/// the tokenizer's language for a code
uninterp spec fn nlu_lang(code: Seq<char>, l: NluUtilsLanguage) -> bool;
impl NluUtilsLanguage { #[verifier::external_body] fn from_str(s: &str) -> (r: Result<NluUtilsLanguage, VxError>) ensures r is Ok ==> nlu_lang(s@, r->Ok_0) { unimplemented!() } }
#item resources/mod.rs struct SharedResources
#item injection/injection.rs type InjectedEntity
#item injection/injection.rs type InjectedValue
#item entity_parser/custom_entity_parser.rs struct CustomEntityParserMetadata
#item entity_parser/custom_entity_parser.rs enum CustomEntityParserUsage
#item utils.rs type IntentName
#item utils.rs type SlotName
#item utils.rs type EntityName
#item models/nlu_engine.rs struct NluEngineModel
#item models/nlu_engine.rs struct DatasetMetadata
#item models/nlu_engine.rs struct Entity
#item injection/injection.rs struct NluEngineInfo
#item injection/injection.rs struct BuiltinGazetteerParserInfo
#item injection/injection.rs struct CustomGazetteerParserInfo
#item injection/injection.rs struct NluInjector
#raw
// ---- values
#fn injection/injection.rs normalize
#ret r
#spec
ensures r@ == lower(s@)
#raw
/// an injected value: what is matched, and what it resolves to
spec fn gv(raw: Seq<char>, value: String) -> GazetteerEntityValue { GazetteerEntityValue { raw_value: mk_string(raw), resolved_value: value } }
spec fn normalized(v: Seq<String>) -> Seq<GazetteerEntityValue> { Seq::new(v.len(), |i: int| gv(lower(v[i]@), v[i])) }
#fn injection/injection.rs normalize_entity_value
#ret r
#spec
ensures r@ =~= normalized(entity_values@)
#closure 0 |value: String| -> (x: GazetteerEntityValue)
ensures x == gv(lower(value@), value)
#raw
// ---- stems
spec fn stem_all(st: Arc<dyn Stemmer>, t: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(t.len(), |i: int| st.stemmed(t[i])) }
/// the stems of the tokens of a text
spec fn stems_text(st: Arc<dyn Stemmer>, l: NluUtilsLanguage, v: Seq<char>) -> Seq<char> { join_seq(stem_all(st, light_tokens(v, l)), " "@) }
spec fn stemmed(st: Arc<dyn Stemmer>, l: NluUtilsLanguage, v: Seq<GazetteerEntityValue>) -> Seq<GazetteerEntityValue> { Seq::new(v.len(), |i: int| gv(stems_text(st, l, v[i].raw_value@), v[i].resolved_value)) }
/// C28: what is injected for a custom entity, given its normalised values; None: stems are used but there is no stemmer
spec fn custom_values(u: CustomEntityParserUsage, l: NluUtilsLanguage, st: Option<Arc<dyn Stemmer>>, v: Seq<GazetteerEntityValue>) -> Option<Seq<GazetteerEntityValue>> {
    match u {
        CustomEntityParserUsage::WithoutStems => Some(uniq(v)),
        CustomEntityParserUsage::WithStems => if st is Some { Some(stemmed(st->Some_0, l, v)) } else if v.len() == 0 { Some(v) } else { None },
        CustomEntityParserUsage::WithAndWithoutStems => if st is Some { Some(uniq(v + stemmed(st->Some_0, l, v))) } else if v.len() == 0 { Some(v) } else { None },
    }
}
#fn injection/injection.rs stem_entity_value
#ret r
#spec
ensures (match r { Ok(v) => Some(v@), Err(_) => None }) == custom_values(custom_entity_parser_info.parser_usage, engine_info.language, match maybe_stemmer { Some(s) => Some(*s), None => None }, entity_values@)
#closure 0 |value: &GazetteerEntityValue| -> (x: Result<GazetteerEntityValue, VxError>)
ensures match x { Ok(y) => maybe_stemmer is Some && y == gv(stems_text(*maybe_stemmer->Some_0, engine_info.language, value.raw_value@), value.resolved_value), Err(_) => maybe_stemmer is None }
#closure 1 |token: String| -> (x: String)
ensures x@ == stemmer.stemmed(token@)
#at closure 0 start
proof { if maybe_stemmer is Some { lemma_views_are(stem_all(*maybe_stemmer->Some_0, light_tokens(value.raw_value@, engine_info.language))); } }
#at after-let stemmed_entity_values
proof {
    let u = custom_entity_parser_info.parser_usage;
    if u is WithoutStems || maybe_stemmer is None { if stemmed_entity_values@.len() > 0 { let x = stemmed_entity_values@[0]; assert(x == x); } assert(stemmed_entity_values@.len() == 0); assert(entity_values@ + stemmed_entity_values@ =~= entity_values@); }
    else { assert(stemmed_entity_values@ =~= stemmed(*maybe_stemmer->Some_0, engine_info.language, entity_values@)); }
    reveal_with_fuel(uniq, 2);
    if maybe_stemmer is None && entity_values@.len() == 0 { assert(stemmed_entity_values@ =~= entity_values@); assert(uniq(entity_values@) =~= entity_values@); }
}
#raw
// ---- which parser an entity is injected in
/// the first parser declared for the entity
spec fn none_before(s: Seq<EntityParserMetadata>, e: Seq<char>, i: int) -> bool { forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).entity_identifier@ != e }
spec fn dir_in(base: Seq<char>, s: Seq<EntityParserMetadata>, e: Seq<char>, d: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).entity_identifier@ == e && none_before(s, e, i) && d == path_join(base, s[i].entity_parser@) }
/// the directory of the parser of an injectable entity: a custom entity with a declared parser, or a built-in
/// gazetteer entity with one
spec fn dir_of(info: NluEngineInfo, b: Option<BuiltinGazetteerParserInfo>, c: CustomGazetteerParserInfo, e: String, d: Seq<char>) -> bool {
    if info.custom_entities@.contains(e) { dir_in(c.gazetteer_parser_dir@, c.gazetteer_parser_metadata.parsers_metadata@, e@, d) }
    else { gazetteer_kind(e@) && b is Some && dir_in(b->Some_0.gazetteer_parser_dir@, b->Some_0.gazetteer_parser_metadata.parsers_metadata@, e@, d) }
}
spec fn injectable(info: NluEngineInfo, b: Option<BuiltinGazetteerParserInfo>, c: CustomGazetteerParserInfo, e: String) -> bool { exists|d: Seq<char>| dir_of(info, b, c, e, d) }
spec fn dirs_ok(info: NluEngineInfo, b: Option<BuiltinGazetteerParserInfo>, c: CustomGazetteerParserInfo, es: Map<String, Vec<String>>, r: Map<String, PathBuf>) -> bool {
    r.dom() =~= es.dom() && forall|e: String| #[trigger] es.contains_key(e) ==> dir_of(info, b, c, e, r[e]@)
}
proof fn lemma_dirs(info: NluEngineInfo, b: Option<BuiltinGazetteerParserInfo>, c: CustomGazetteerParserInfo, es: Map<String, Vec<String>>, ks: Seq<String>, v: Seq<(String, PathBuf)>)
    requires lists(ks, es.dom()), v.len() == ks.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == ks[i] && dir_of(info, b, c, v[i].0, v[i].1@)
    ensures dirs_ok(info, b, c, es, pairs_map(v))
{
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0 != (#[trigger] v[j]).0 by { assert(ks[i] != ks[j]); }
    lemma_pairs_map(v);
    let r = pairs_map(v);
    assert forall|e: String| #[trigger] es.contains_key(e) implies r.contains_key(e) && dir_of(info, b, c, e, r[e]@) by {
        assert(ks.to_set().contains(e)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == e; assert(v[i].0 == e); assert(r.contains_key(v[i].0)); }
    assert forall|e: String| #[trigger] r.contains_key(e) implies es.contains_key(e) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == e; assert(ks.to_set().contains(ks[i])); assert(es.dom().contains(e)); }
    assert(r.dom() =~= es.dom());
}
#fn injection/injection.rs get_entity_parsers_dirs
#ret r
#spec
ensures match r { Ok(m) => dirs_ok(*engine_info, *maybe_builtin_parser_info, *custom_parser_info, entity_values@, m@), Err(_) => exists|e: String| #[trigger] entity_values@.contains_key(e) && !injectable(*engine_info, *maybe_builtin_parser_info, *custom_parser_info, e) }
#at entry
proof {
    assert forall|ks: Seq<String>, v: Seq<(String, PathBuf)>| #[trigger] lists(ks, entity_values@.dom()) && v.len() == ks.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == ks[i] && dir_of(*engine_info, *maybe_builtin_parser_info, *custom_parser_info, v[i].0, v[i].1@)) implies dirs_ok(*engine_info, *maybe_builtin_parser_info, *custom_parser_info, entity_values@, #[trigger] pairs_map(v))
    by { lemma_dirs(*engine_info, *maybe_builtin_parser_info, *custom_parser_info, entity_values@, ks, v); }
    assert forall|ks: Seq<&String>, i: int| #[trigger] lists(unrefs(ks), entity_values@.dom()) && 0 <= i < ks.len() implies entity_values@.contains_key(*(#[trigger] ks[i])) by { assert(unrefs(ks)[i] == *ks[i]); assert(unrefs(ks).to_set().contains(unrefs(ks)[i])); }
}
#closure 0 |entity: &String| -> (x: Result<(String, PathBuf), VxError>)
ensures match x { Ok(y) => y.0 == *entity && dir_of(*engine_info, *maybe_builtin_parser_info, *custom_parser_info, *entity, y.1@), Err(_) => !injectable(*engine_info, *maybe_builtin_parser_info, *custom_parser_info, *entity) }
#closure 1 |metadata: &&EntityParserMetadata| -> (x: bool)
ensures x == (metadata.entity_identifier@ == entity@)
#closure 2 |metadata: &EntityParserMetadata| -> (x: PathBuf)
ensures x@ == path_join(custom_parser_info.gazetteer_parser_dir@, metadata.entity_parser@)
#closure 5 |metadata: &&EntityParserMetadata| -> (x: bool)
ensures x == (metadata.entity_identifier@ == entity@)
#closure 6 |metadata: &EntityParserMetadata| -> (x: PathBuf)
ensures x@ == path_join(builtin_parser_info.gazetteer_parser_dir@, metadata.entity_parser@)
#raw
// ---- what the files of the engine say
spec fn gaz_meta(dir: Seq<char>, m: GazetteerParserMetadata) -> bool { json_of(path_join(dir, "metadata.json"@), Ok::<GazetteerParserMetadata, VxError>(m)) }
spec fn builtin_info(dir: Seq<char>, r: Option<BuiltinGazetteerParserInfo>) -> bool {
    exists|m: BuiltinParserMetadata| #[trigger] json_of(path_join(dir, "metadata.json"@), Ok::<BuiltinParserMetadata, VxError>(m)) && match m.gazetteer_parser {
        None => r is None,
        Some(n) => r is Some && r->Some_0.gazetteer_parser_dir@ == path_join(dir, n@) && gaz_meta(path_join(dir, n@), r->Some_0.gazetteer_parser_metadata),
    }
}
spec fn custom_info(dir: Seq<char>, r: CustomGazetteerParserInfo) -> bool {
    exists|m: CustomEntityParserMetadata| #[trigger] json_of(path_join(dir, "metadata.json"@), Ok::<CustomEntityParserMetadata, VxError>(m)) && r.parser_usage == m.parser_usage
        && r.gazetteer_parser_dir@ == path_join(dir, m.parser_directory@) && gaz_meta(r.gazetteer_parser_dir@, r.gazetteer_parser_metadata)
}
spec fn engine_info_of(dir: Seq<char>, r: NluEngineInfo) -> bool {
    exists|m: NluEngineModel| #[trigger] json_of(path_join(dir, "nlu_engine.json"@), Ok::<NluEngineModel, VxError>(m)) && nlu_lang(m.dataset_metadata.language_code@, r.language)
        && r.builtin_entity_parser_dir@ == path_join(dir, m.builtin_entity_parser@) && r.custom_entity_parser_dir@ == path_join(dir, m.custom_entity_parser@) && r.custom_entities@ == m.dataset_metadata.entities@.dom()
}
#fn injection/injection.rs get_builtin_parser_info
#ret r
#spec
ensures r is Ok ==> builtin_info(builtin_parser_dir@, r->Ok_0)
#closure 0 |directory_name: String| -> (p: PathBuf)
ensures p@ == path_join(builtin_parser_dir@, directory_name@)
#fn injection/injection.rs get_custom_parser_info
#ret r
#spec
ensures r is Ok ==> custom_info(custom_parser_dir@, r->Ok_0)
#fn injection/injection.rs get_nlu_engine_info path
#ret r
#spec
ensures r is Ok ==> engine_info_of(engine_dir.pv(), r->Ok_0)
#fn injection/injection.rs NluInjector::new
#ret r
#spec
ensures r.nlu_engine_dir == nlu_engine_dir, r.entity_values@ == Map::<String, Vec<String>>::empty(), !r.from_vanilla, r.shared_resources is None
#fn injection/injection.rs NluInjector::add_value
#ret r
#spec
ensures r.nlu_engine_dir == self.nlu_engine_dir, r.from_vanilla == self.from_vanilla, r.shared_resources == self.shared_resources,
    r.entity_values@.dom() =~= self.entity_values@.dom().insert(entity), forall|e: String| e != entity && #[trigger] self.entity_values@.contains_key(e) ==> r.entity_values@[e] == self.entity_values@[e],
    r.entity_values@[entity]@ =~= (if self.entity_values@.contains_key(entity) { self.entity_values@[entity]@ } else { Seq::empty() }).push(value),
#closure 0 || -> (v: Vec<InjectedValue>)
ensures v@.len() == 0
#fn injection/injection.rs NluInjector::from_vanilla
#ret r
#spec
ensures r == (NluInjector { from_vanilla, ..self })
#fn injection/injection.rs NluInjector::shared_resources
#ret r
#spec
ensures r == (NluInjector { shared_resources: Some(shared_resources), ..self })
#raw
// ---- the injection
/// loading the resources of the engine in a directory
uninterp spec fn engine_resources(dir: Seq<char>, r: Result<Arc<SharedResources>, VxError>) -> bool;
#[verifier::external_body]
fn load_engine_shared_resources<P: VxAsPath>(engine_dir: P) -> (r: Result<Arc<SharedResources>, VxError>) ensures engine_resources(engine_dir.pv(), r) { unimplemented!() }
/// C28: what is injected for an entity
spec fn values_of(info: NluEngineInfo, c: CustomGazetteerParserInfo, st: Option<Arc<dyn Stemmer>>, e: String, v: Seq<String>) -> Option<Seq<GazetteerEntityValue>> {
    if info.custom_entities@.contains(e) { custom_values(c.parser_usage, info.language, st, normalized(v)) } else { Some(normalized(v)) }
}
/// C28: the whole request is valid
spec fn valid_request(info: NluEngineInfo, b: Option<BuiltinGazetteerParserInfo>, c: CustomGazetteerParserInfo, st: Option<Arc<dyn Stemmer>>, es: Map<String, Vec<String>>) -> bool {
    forall|e: String| #[trigger] es.contains_key(e) ==> injectable(info, b, c, e) && values_of(info, c, st, e, es[e]@) is Some
}
/// C28: only if the whole request is valid, the parser of an entity may be replaced, by itself with the values of
/// this entity injected before the others
spec fn may_inject(info: NluEngineInfo, b: Option<BuiltinGazetteerParserInfo>, c: CustomGazetteerParserInfo, st: Option<Arc<dyn Stemmer>>, es: Map<String, Vec<String>>, fv: bool) -> bool {
    valid_request(info, b, c, st, es) ==> forall|e: String, d: Seq<char>| es.contains_key(e) && #[trigger] dir_of(info, b, c, e, d) ==> may_remove(d) && forall|h: Holdings| #[trigger] parser_in(d, h) ==> may_dump(d, injected(h, values_of(info, c, st, e, es[e]@)->Some_0, true, fv))
}
/// C28: the values of every entity are in its parser
spec fn all_injected(info: NluEngineInfo, b: Option<BuiltinGazetteerParserInfo>, c: CustomGazetteerParserInfo, st: Option<Arc<dyn Stemmer>>, es: Map<String, Vec<String>>, fv: bool) -> bool {
    &&& valid_request(info, b, c, st, es)
    &&& forall|e: String| #[trigger] es.contains_key(e) ==> entity_injected(info, b, c, st, e, es[e]@, fv)
}
spec fn entity_injected(info: NluEngineInfo, b: Option<BuiltinGazetteerParserInfo>, c: CustomGazetteerParserInfo, st: Option<Arc<dyn Stemmer>>, e: String, v: Seq<String>, fv: bool) -> bool {
    exists|d: Seq<char>, h: Holdings| dir_of(info, b, c, e, d) && #[trigger] parser_in(d, h) && dumped(d, injected(h, values_of(info, c, st, e, v)->Some_0, true, fv))
}
spec fn stemmer_in(r: Arc<SharedResources>) -> Option<Arc<dyn Stemmer>> { r.stemmer }
spec fn stemmer_of<P: VxAsPath>(s: NluInjector<P>, st: Option<Arc<dyn Stemmer>>) -> bool {
    match s.shared_resources { Some(r) => st == r.stemmer, None => exists|r: Arc<SharedResources>| #[trigger] engine_resources(s.nlu_engine_dir.pv(), Ok::<Arc<SharedResources>, VxError>(r)) && st == r.stemmer }
}
spec fn ready(info: NluEngineInfo, c: CustomGazetteerParserInfo, st: Option<Arc<dyn Stemmer>>, es: Map<String, Vec<String>>, m: Map<String, Vec<GazetteerEntityValue>>) -> bool {
    m.dom() =~= es.dom() && forall|e: String| #[trigger] es.contains_key(e) ==> values_of(info, c, st, e, es[e]@) == Some(m[e]@)
}
proof fn lemma_ready(info: NluEngineInfo, c: CustomGazetteerParserInfo, st: Option<Arc<dyn Stemmer>>, es: Map<String, Vec<String>>, ks: Seq<(String, Vec<String>)>, v: Seq<(String, Vec<GazetteerEntityValue>)>)
    requires lists_map(ks, es), v.len() == ks.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == ks[i].0 && values_of(info, c, st, ks[i].0, ks[i].1@) == Some(v[i].1@)
    ensures ready(info, c, st, es, pairs_map(v))
{
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0 != (#[trigger] v[j]).0 by { assert(ks[i].0 != ks[j].0); }
    lemma_pairs_map(v);
    let r = pairs_map(v);
    assert forall|e: String| #[trigger] es.contains_key(e) implies r.contains_key(e) && values_of(info, c, st, e, es[e]@) == Some(r[e]@) by { let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).0 == e; assert(r.contains_key(v[i].0)); }
    assert forall|e: String| #[trigger] r.contains_key(e) implies es.contains_key(e) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == e; assert(es.contains_key(ks[i].0)); }
    assert(r.dom() =~= es.dom());
}
#fn injection/injection.rs NluInjector::inject path path=nlu_engine_dir mapindex=*
#ret r
#spec
requires forall|info: NluEngineInfo, b: Option<BuiltinGazetteerParserInfo>, c: CustomGazetteerParserInfo, st: Option<Arc<dyn Stemmer>>| #[trigger] engine_info_of(self.nlu_engine_dir.pv(), info) && #[trigger] builtin_info(info.builtin_entity_parser_dir@, b) && #[trigger] custom_info(info.custom_entity_parser_dir@, c) && #[trigger] stemmer_of(self, st) ==> may_inject(info, b, c, st, self.entity_values@, self.from_vanilla)
ensures r is Ok ==> exists|info: NluEngineInfo, b: Option<BuiltinGazetteerParserInfo>, c: CustomGazetteerParserInfo, st: Option<Arc<dyn Stemmer>>| #[trigger] engine_info_of(self.nlu_engine_dir.pv(), info) && #[trigger] builtin_info(info.builtin_entity_parser_dir@, b) && #[trigger] custom_info(info.custom_entity_parser_dir@, c) && #[trigger] stemmer_of(self, st) && all_injected(info, b, c, st, self.entity_values@, self.from_vanilla)
#at after-let maybe_stemmer
let ghost vx_st = stemmer_in(shared_resources);
let ghost vx_es = self.entity_values@;
proof {
    assert(stemmer_of(self, vx_st));
    assert forall|ks: Seq<(String, Vec<String>)>, v: Seq<(String, Vec<GazetteerEntityValue>)>| #[trigger] lists_map(ks, vx_es) && v.len() == ks.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == ks[i].0 && values_of(engine_info, custom_parser_info, vx_st, ks[i].0, ks[i].1@) == Some(v[i].1@)) implies ready(engine_info, custom_parser_info, vx_st, vx_es, #[trigger] pairs_map(v))
    by { lemma_ready(engine_info, custom_parser_info, vx_st, vx_es, ks, v); }
}
#closure 0 |vx_p: (String, Vec<String>)| -> (x: Result<(String, Vec<GazetteerEntityValue>), VxError>)
ensures match x { Ok(y) => y.0 == vx_p.0 && values_of(engine_info, custom_parser_info, vx_st, vx_p.0, vx_p.1@) == Some(y.1@), Err(_) => true }
#at after-let normalized_entity_values
proof {
    assert(ready(engine_info, custom_parser_info, vx_st, vx_es, normalized_entity_values@));
    assert(valid_request(engine_info, builtin_parser_info, custom_parser_info, vx_st, vx_es));
}
#loop 0
invariant lists_map(vx_s0, normalized_entity_values@), forall|i: int| 0 <= i < vx_k0 ==> entity_injected(engine_info, builtin_parser_info, custom_parser_info, vx_st, (#[trigger] vx_s0[i]).0, vx_es[vx_s0[i].0]@, self.from_vanilla)
#at loop 0 start
proof {
    assert(normalized_entity_values@.contains_key(entity));
    assert(vx_es.contains_key(entity));
    assert(may_inject(engine_info, builtin_parser_info, custom_parser_info, vx_st, vx_es, self.from_vanilla));
    assert(dir_of(engine_info, builtin_parser_info, custom_parser_info, entity, parsers_dirs@[entity]@));
}
