#include onto
#include fs
#item lib.rs const MODEL_VERSION
#item errors.rs enum SnipsNluError
#item models/nlu_engine.rs struct ModelVersion
#item models/nlu_engine.rs struct NluEngineModel
#item models/nlu_engine.rs struct DatasetMetadata
#item models/nlu_engine.rs struct Entity
#item resources/mod.rs struct SharedResources fields=builtin_entity_parser,custom_entity_parser
#raw
use std::sync::Arc;
#[verifier::external_body]
struct Language { x: u8 }
impl Language {
  #[verifier::external_body] fn from_str(s: &str) -> (r: Result<Language>) { unimplemented!() }
  #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
trait IntentParser: Send + Sync { }
#item nlu_engine.rs struct SnipsNluEngine
#raw
uninterp spec fn error_of(e: SnipsNluError) -> VxError;
#[verifier::external_body]
fn vx_fail(e: SnipsNluError) -> (r: VxError) ensures r == error_of(e), root(r) == r { unimplemented!() }
#[verifier::external_body]
fn load_shared_resources<P, Q, R>(a: P, b: Q, c: R) -> (r: Result<Arc<SharedResources>>) { unimplemented!() }
/// the file declares exactly the supported version
spec fn supported(file: Seq<char>) -> bool { exists|v: ModelVersion| #[trigger] json_of(file, Ok::<ModelVersion, VxError>(v)) && v.model_version@ == MODEL_VERSION@ }
/// the error names the version of the model and the supported one
spec fn names_versions(e: VxError, v: Seq<char>) -> bool { exists|x: SnipsNluError| #[trigger] error_of(x) == root(e) && match x { SnipsNluError::WrongModelVersion { model, runner } => model@ == v && runner@ == MODEL_VERSION@, _ => false } }
/// the version cannot be read, or it is not the supported one and the error names both
spec fn version_refused(file: Seq<char>, e: VxError) -> bool {
    unreadable(file) || exists|o: Result<ModelVersion>| #[trigger] json_of(file, o) && match o { Err(_) => true, Ok(v) => v.model_version@ != MODEL_VERSION@ && names_versions(e, v.model_version@) }
}
spec fn malformed<T>(file: Seq<char>) -> bool { exists|o: Result<T>| #[trigger] json_of(file, o) && o is Err }
#fn nlu_engine.rs SnipsNluEngine::check_model_version errors path
#ret r
#spec
ensures match r { Ok(_) => supported(path.pv()), Err(e) => version_refused(path.pv(), e) }
#fn nlu_engine.rs SnipsNluEngine::load_model errors path
#ret r
#spec
ensures ({ let file = path_join(path.pv(), "nlu_engine.json"@); match r {
   Ok(_) => supported(file) && json_of(file, r),
   Err(e) => version_refused(file, e) || (supported(file) && (unreadable(file) || malformed::<NluEngineModel>(file))),
} })
#fn nlu_engine.rs SnipsNluEngine::load_intent_parsers assume
#ret r
#spec
#fn nlu_engine.rs SnipsNluEngine::from_path path
#ret r
#spec
ensures r is Ok ==> supported(path_join(path.pv(), "nlu_engine.json"@))
