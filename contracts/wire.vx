#include fs
#include crfsuite
#raw
use core::result::Result as StdResult;
use std::sync::Arc;
// ---------------------------------------------------------------- C35: an engine is assembled as its files say
#[verifier::external_body]
struct SharedResources { x: u8 }
#[verifier::external_body]
struct Language { x: u8 }
/// the language a code stands for, and its name
uninterp spec fn lang_of(code: Seq<char>, l: Language) -> bool;
uninterp spec fn lang_name(l: Language) -> Seq<char>;
impl Language {
  #[verifier::external_body] fn from_str(s: &str) -> (r: Result<Language>) ensures r is Ok ==> lang_of(s@, r->Ok_0) { unimplemented!() }
  #[verifier::external_body] fn vx_to_string(&self) -> (r: String) ensures r@ == lang_name(*self) { unimplemented!() }
}
#item utils.rs type IntentName
#item utils.rs type SlotName
#item utils.rs type EntityName
#item models/processing_unit_metadata.rs enum ProcessingUnitMetadata
#item models/nlu_engine.rs struct NluEngineModel
#item models/nlu_engine.rs struct DatasetMetadata
#item models/nlu_engine.rs struct Entity
#item models/intent_parser.rs struct ProbabilisticParserModel
#item models/intent_parser.rs struct SlotFillerMetadata
#raw
spec fn json<T>(file: Seq<char>, v: T) -> bool { json_of(file, Ok::<T, VxError>(v)) }
/// the units, with what they were built from
trait IntentClassifier: Send + Sync { spec fn built(&self, dir: Seq<char>, r: Arc<SharedResources>) -> bool; }
trait SlotFiller: Send + Sync { spec fn built(&self, dir: Seq<char>, r: Arc<SharedResources>) -> bool; }
trait IntentParser: Send + Sync { spec fn unit(&self) -> ProcessingUnitMetadata; spec fn built(&self, dir: Seq<char>, r: Arc<SharedResources>) -> bool; }
#[verifier::external_body]
struct LogRegIntentClassifier { x: u8 }
#[verifier::external_body]
struct LookupIntentParser { x: u8 }
#[verifier::external_body]
struct DeterministicIntentParser { x: u8 }
#[verifier::external_body]
struct ProbabilisticFeatureProcessor { x: u8 }
#item models/intent_parser.rs type InputHash
#item models/intent_parser.rs type IntentId
#item models/intent_parser.rs type SlotId
#item models/intent_parser.rs struct DeterministicParserModel
#item models/intent_parser.rs struct LookupParserModel
#item models/intent_parser.rs struct GroupedEntityScope
#item models/intent_parser.rs struct EntityScope
#item models/intent_parser.rs struct DeterministicParserConfig
#item models/intent_parser.rs struct LookupParserConfig
#item models/slot_filler.rs struct SlotFillerModel
#item models/slot_filler.rs struct SlotFillerConfiguration
#item slot_filler/crf_utils.rs enum TaggingScheme
#item slot_filler/crf_slot_filler.rs struct CRFSlotFiller
#raw
#[verifier::external_body]
struct FeatureFactory { x: u8 }
impl LogRegIntentClassifier { #[verifier::external_body] fn from_path<P: VxAsPath>(path: P, shared_resources: Arc<SharedResources>) -> (r: Result<Self>) ensures r is Ok ==> r->Ok_0.built(path.pv(), shared_resources) { unimplemented!() } }
impl IntentClassifier for LogRegIntentClassifier { uninterp spec fn built(&self, dir: Seq<char>, r: Arc<SharedResources>) -> bool; }
/// what the constructors make of their models: C14, C15, C17, C18, C23
uninterp spec fn lookup_of(m: LookupParserModel, res: Arc<SharedResources>, p: LookupIntentParser) -> bool;
uninterp spec fn deterministic_of(m: DeterministicParserModel, res: Arc<SharedResources>, p: DeterministicIntentParser) -> bool;
uninterp spec fn processor_of(f: Seq<FeatureFactory>, res: Arc<SharedResources>, p: ProbabilisticFeatureProcessor) -> bool;
impl LookupIntentParser { #[verifier::external_body] fn new(model: LookupParserModel, shared_resources: Arc<SharedResources>) -> (r: Result<Self>) ensures r is Ok ==> lookup_of(model, shared_resources, r->Ok_0) { unimplemented!() } }
impl DeterministicIntentParser { #[verifier::external_body] fn new(model: DeterministicParserModel, shared_resources: Arc<SharedResources>) -> (r: Result<Self>) ensures r is Ok ==> deterministic_of(model, shared_resources, r->Ok_0) { unimplemented!() } }
impl ProbabilisticFeatureProcessor { #[verifier::external_body] fn new(features: &[FeatureFactory], shared_resources: Arc<SharedResources>) -> (r: Result<Self>) ensures r is Ok ==> processor_of(features@, shared_resources, r->Ok_0) { unimplemented!() } }
impl IntentParser for LookupIntentParser { spec fn unit(&self) -> ProcessingUnitMetadata { ProcessingUnitMetadata::LookupIntentParser } spec fn built(&self, dir: Seq<char>, r: Arc<SharedResources>) -> bool { exists|m: LookupParserModel| #[trigger] json(path_join(dir, "intent_parser.json"@), m) && lookup_of(m, r, *self) } }
impl IntentParser for DeterministicIntentParser { spec fn unit(&self) -> ProcessingUnitMetadata { ProcessingUnitMetadata::DeterministicIntentParser } spec fn built(&self, dir: Seq<char>, r: Arc<SharedResources>) -> bool { exists|m: DeterministicParserModel| #[trigger] json(path_join(dir, "intent_parser.json"@), m) && deterministic_of(m, r, *self) } }
spec fn scheme_of(i: u8, s: TaggingScheme) -> bool { (i == 0 && s is IO) || (i == 1 && s is BIO) || (i == 2 && s is BILOU) }
spec fn filler_of(m: SlotFillerModel, dir: Seq<char>, res: Arc<SharedResources>, f: CRFSlotFiller) -> bool {
    &&& lang_of(m.language_code@, f.language)
    &&& scheme_of(m.config.tagging_scheme, f.tagging_scheme)
    &&& f.slot_name_mapping == m.slot_name_mapping
    &&& match m.crf_model_file {
        None => f.tagger is None && f.feature_processor is None,
        Some(n) => f.tagger is Some && crf_file(path_join(dir, n@), f.tagger->Some_0.model()) && f.feature_processor is Some && processor_of(m.config.feature_factory_configs@, res, f.feature_processor->Some_0),
    }
}
impl SlotFiller for CRFSlotFiller { spec fn built(&self, dir: Seq<char>, r: Arc<SharedResources>) -> bool { exists|m: SlotFillerModel| #[trigger] json(path_join(dir, "slot_filler.json"@), m) && filler_of(m, dir, r, *self) } }
#fn slot_filler/crf_utils.rs TaggingScheme::from_u8
#ret r
#spec
ensures match r { Ok(s) => scheme_of(i, s), Err(_) => i > 2 }
#fn slot_filler/crf_slot_filler.rs CRFSlotFiller::from_path path
#ret r
#spec
ensures r is Ok ==> r->Ok_0.built(path.pv(), shared_resources)
#at after-let model
let ghost vx_inv = true;
proof { assert(json(path_join(path.pv(), "slot_filler.json"@), model)); }
#fn intent_parser/lookup_intent_parser.rs LookupIntentParser::from_path path
#ret r
#spec
ensures r is Ok ==> r->Ok_0.built(path.pv(), shared_resources)
#at after-let model
proof { assert(json(path_join(path.pv(), "intent_parser.json"@), model)); }
#fn intent_parser/deterministic_intent_parser.rs DeterministicIntentParser::from_path path
#ret r
#spec
ensures r is Ok ==> r->Ok_0.built(path.pv(), shared_resources)
#at after-let model
proof { assert(json(path_join(path.pv(), "intent_parser.json"@), model)); }
#raw
/// the metadata of a unit names its kind
spec fn is_unit(dir: Seq<char>, k: ProcessingUnitMetadata) -> bool { json(path_join(dir, "metadata.json"@), k) }
#fn intent_classifier/mod.rs build_intent_classifier path dyn
#ret r
#spec
ensures r is Ok ==> is_unit(path.pv(), ProcessingUnitMetadata::LogRegIntentClassifier) && r->Ok_0.built(path.pv(), shared_resources)
#fn slot_filler/mod.rs build_slot_filler path dyn
#ret r
#spec
ensures r is Ok ==> is_unit(path.pv(), ProcessingUnitMetadata::CrfSlotFiller) && r->Ok_0.built(path.pv(), shared_resources)
#item intent_parser/probabilistic_intent_parser.rs struct ProbabilisticIntentParser
#raw
spec fn last_for(s: Seq<SlotFillerMetadata>, i: int) -> bool { 0 <= i < s.len() && forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).intent != s[i].intent }
/// every listed intent has the slot filler of its (last) directory, and there is no other
spec fn fillers_of(dir: Seq<char>, res: Arc<SharedResources>, s: Seq<SlotFillerMetadata>, m: Map<IntentName, Box<dyn SlotFiller>>) -> bool {
    &&& forall|n: IntentName| #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).intent == n
    &&& forall|i: int| #[trigger] last_for(s, i) ==> m.contains_key(s[i].intent) && m[s[i].intent].built(path_join(dir, s[i].slot_filler_name@), res)
}
spec fn probabilistic(p: ProbabilisticIntentParser, dir: Seq<char>, res: Arc<SharedResources>) -> bool {
    exists|m: ProbabilisticParserModel| #[trigger] json(path_join(dir, "intent_parser.json"@), m) && p.intent_classifier.built(path_join(dir, "intent_classifier"@), res) && fillers_of(dir, res, m.slot_fillers@, p.slot_fillers@)
}
impl IntentParser for ProbabilisticIntentParser { spec fn unit(&self) -> ProcessingUnitMetadata { ProcessingUnitMetadata::ProbabilisticIntentParser } spec fn built(&self, dir: Seq<char>, r: Arc<SharedResources>) -> bool { probabilistic(*self, dir, r) } }
/// the last pair of a key stays
proof fn lemma_last_pair<K, V>(s: Seq<(K, V)>)
    ensures forall|k: K| #[trigger] pairs_map(s).contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
        forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != s[i].0) ==> pairs_map(s).contains_key((#[trigger] s[i]).0) && pairs_map(s)[s[i].0] == s[i].1
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_last_pair(p);
        assert forall|k: K| #[trigger] pairs_map(s).contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            if k == s.last().0 { assert(s[s.len() - 1].0 == k); } else { assert(pairs_map(p).contains_key(k)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; assert(s[i].0 == k); }
        }
        assert forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != s[i].0) implies pairs_map(s).contains_key((#[trigger] s[i]).0) && pairs_map(s)[s[i].0] == s[i].1 by {
            if i < p.len() { assert(p[i] == s[i]); assert(s[s.len() - 1].0 != s[i].0); assert forall|j: int| i < j < p.len() implies (#[trigger] p[j]).0 != p[i].0 by { assert(s[j].0 != s[i].0); } }
        }
    }
}
proof fn lemma_fillers(dir: Seq<char>, res: Arc<SharedResources>, s: Seq<SlotFillerMetadata>, v: Seq<(IntentName, Box<dyn SlotFiller>)>)
    requires v.len() == s.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == s[i].intent && v[i].1.built(path_join(dir, s[i].slot_filler_name@), res)
    ensures fillers_of(dir, res, s, pairs_map(v))
{
    lemma_last_pair(v);
    let m = pairs_map(v);
    assert forall|n: IntentName| #[trigger] m.contains_key(n) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).intent == n by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == n; assert(s[i].intent == n); }
    assert forall|i: int| #[trigger] last_for(s, i) implies m.contains_key(s[i].intent) && m[s[i].intent].built(path_join(dir, s[i].slot_filler_name@), res) by {
        assert forall|j: int| i < j < v.len() implies (#[trigger] v[j]).0 != v[i].0 by { assert(s[j].intent != s[i].intent); }
        assert(v[i].0 == s[i].intent);
    }
}
#fn intent_parser/probabilistic_intent_parser.rs ProbabilisticIntentParser::from_path path
#ret r
#spec
ensures r is Ok ==> probabilistic(r->Ok_0, path.pv(), shared_resources)
#at after-let model
proof {
    assert(json(path_join(path.pv(), "intent_parser.json"@), model));
    assert forall|v: Seq<(IntentName, Box<dyn SlotFiller>)>| v.len() == model.slot_fillers@.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == model.slot_fillers@[i].intent && v[i].1.built(path_join(path.pv(), model.slot_fillers@[i].slot_filler_name@), shared_resources)) implies fillers_of(path.pv(), shared_resources, model.slot_fillers@, #[trigger] pairs_map(v))
    by { lemma_fillers(path.pv(), shared_resources, model.slot_fillers@, v); }
}
#closure 0 |metadata: &SlotFillerMetadata| -> (x: Result<(String, Box<dyn SlotFiller>)>)
ensures match x { Ok(y) => y.0 == metadata.intent && y.1.built(path_join(path.pv(), metadata.slot_filler_name@), shared_resources), Err(_) => true }
#fn intent_parser/mod.rs build_intent_parser path dyn
#ret r
#spec
ensures r is Ok ==> r->Ok_0.unit() == metadata && r->Ok_0.built(path.pv(), shared_resources)
#raw
spec fn parser_built(p: Box<dyn IntentParser>, dir: Seq<char>, res: Arc<SharedResources>) -> bool { is_unit(dir, p.unit()) && p.built(dir, res) }
/// the parsers listed, in their order
spec fn parsers_built(dir: Seq<char>, names: Seq<String>, res: Arc<SharedResources>, v: Seq<Box<dyn IntentParser>>) -> bool {
    v.len() == names.len() && forall|i: int| 0 <= i < v.len() ==> parser_built(#[trigger] v[i], path_join(dir, names[i]@), res)
}
#item nlu_engine.rs struct SnipsNluEngine
#raw
/// the resources in a directory with two entity parsers
uninterp spec fn resources_of(dir: Seq<char>, builtin: Seq<char>, custom: Seq<char>, r: Arc<SharedResources>) -> bool;
#[verifier::external_body]
fn load_shared_resources<P: VxAsPath, Q: VxAsPath, R: VxAsPath>(a: P, b: Q, c: R) -> (r: Result<Arc<SharedResources>>) ensures r is Ok ==> resources_of(a.pv(), b.pv(), c.pv(), r->Ok_0) { unimplemented!() }
spec fn engine_resources(dir: Seq<char>, m: NluEngineModel, r: Arc<SharedResources>) -> bool {
    exists|l: Language| #[trigger] lang_of(m.dataset_metadata.language_code@, l) && resources_of(path_join(path_join(dir, "resources"@), lang_name(l)), path_join(dir, m.builtin_entity_parser@), path_join(dir, m.custom_entity_parser@), r)
}
spec fn assembled(dir: Seq<char>, m: NluEngineModel, e: SnipsNluEngine) -> bool {
    &&& e.dataset_metadata == m.dataset_metadata
    &&& engine_resources(dir, m, e.shared_resources)
    &&& parsers_built(dir, m.intent_parsers@, e.shared_resources, e.intent_parsers@)
}
impl SnipsNluEngine {
    /// its own property: C29
    #[verifier::external_body] fn load_model<P: VxAsPath>(path: P) -> (r: Result<NluEngineModel>) ensures r is Ok ==> json(path_join(path.pv(), "nlu_engine.json"@), r->Ok_0) { unimplemented!() }
}
#fn nlu_engine.rs SnipsNluEngine::load_intent_parsers path dyn
#ret r
#spec
ensures r is Ok ==> parsers_built(engine_dir.pv(), model.intent_parsers@, shared_resources, r->Ok_0@)
#closure 0 |parser_name: &String| -> (x: Result<Box<dyn IntentParser>>)
ensures match x { Ok(p) => parser_built(p, path_join(engine_dir.pv(), parser_name@), shared_resources), Err(_) => true }
#fn nlu_engine.rs SnipsNluEngine::from_path path
#ret r
#spec
ensures r is Ok ==> exists|m: NluEngineModel| #[trigger] json(path_join(path.pv(), "nlu_engine.json"@), m) && assembled(path.pv(), m, r->Ok_0)
#fn resources/loading.rs load_engine_shared_resources path
#at after-let model
proof { assert(json(path_join(engine_dir.pv(), "nlu_engine.json"@), model)); }
#ret r
#spec
ensures r is Ok ==> exists|m: NluEngineModel| #[trigger] json(path_join(engine_dir.pv(), "nlu_engine.json"@), m) && engine_resources(engine_dir.pv(), m, r->Ok_0)
