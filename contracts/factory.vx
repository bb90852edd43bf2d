#include onto
#raw
use std::sync::Arc;
/// a 64-bit target, where the sizes a model gives fit a usize
global size_of usize == 8;
impl From<core::num::TryFromIntError> for VxError { #[verifier::external_body] fn from(e: core::num::TryFromIntError) -> VxError { unimplemented!() } }
// ---------------------------------------------------------------- C36: features are built as configured
trait Stemmer: Send + Sync { }
trait Gazetteer: Send + Sync { }
trait WordClusterer: Send + Sync { }
/// serde_json::Value, by its projections
#[verifier::external_body]
struct Value { x: u8 }
impl Value {
    uninterp spec fn str_(&self) -> Option<Seq<char>>;
    uninterp spec fn u64_(&self) -> Option<u64>;
    uninterp spec fn bool_(&self) -> Option<bool>;
    uninterp spec fn array_(&self) -> Option<Seq<Value>>;
    uninterp spec fn null_(&self) -> bool;
    #[verifier::external_body] fn is_null(&self) -> (r: bool) ensures r == self.null_(), r ==> self.str_() is None { unimplemented!() }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: Option<&str>) ensures (match r { Some(s) => Some(s@), None => None }) == self.str_() { unimplemented!() }
    #[verifier::external_body] fn as_u64(&self) -> (r: Option<u64>) ensures r == self.u64_() { unimplemented!() }
    #[verifier::external_body] fn as_bool(&self) -> (r: Option<bool>) ensures r == self.bool_() { unimplemented!() }
    #[verifier::external_body] fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures (match r { Some(v) => Some(v@), None => None }) == self.array_() { unimplemented!() }
}
#item resources/mod.rs struct SharedResources
#item slot_filler/crf_utils.rs enum TaggingScheme clone copy
#item slot_filler/feature_processor.rs enum FeatureKind
#item models/slot_filler.rs struct FeatureFactory
#raw
type Args = Map<String, Value>;
spec fn arg(a: Args, k: Seq<char>) -> Option<Value> { map_get(a, mk_string(k)) }
spec fn arg_u64(a: Args, k: Seq<char>) -> Option<u64> { match arg(a, k) { Some(v) => v.u64_(), None => None } }
spec fn arg_bool(a: Args, k: Seq<char>) -> Option<bool> { match arg(a, k) { Some(v) => v.bool_(), None => None } }
spec fn arg_str(a: Args, k: Seq<char>) -> Option<Seq<char>> { match arg(a, k) { Some(v) => v.str_(), None => None } }
/// a list of strings
spec fn arg_strs(a: Args, k: Seq<char>, l: Seq<String>) -> bool {
    arg(a, k) is Some && arg(a, k)->Some_0.array_() is Some && ({ let v = arg(a, k)->Some_0.array_()->Some_0; l.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].str_() == Some(l[i]@) })
}
spec fn has_strs(a: Args, k: Seq<char>) -> bool {
    arg(a, k) is Some && arg(a, k)->Some_0.array_() is Some && ({ let v = arg(a, k)->Some_0.array_()->Some_0; forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].str_() is Some })
}
spec fn n_strs(a: Args, k: Seq<char>) -> int { arg(a, k)->Some_0.array_()->Some_0.len() as int }
spec fn nth_str(a: Args, k: Seq<char>, i: int) -> Seq<char> { arg(a, k)->Some_0.array_()->Some_0[i].str_()->Some_0 }
/// a string, or explicitly nothing
spec fn has_opt_str(a: Args, k: Seq<char>) -> bool { match arg(a, k) { Some(v) => v.null_() || v.str_() is Some, None => false } }
spec fn ov(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
#fn slot_filler/features.rs parse_as_string
#ret r
#spec
ensures match r { Ok(s) => arg_str(args@, arg_name@) == Some(s@), Err(_) => arg_str(args@, arg_name@) is None }
#fn slot_filler/features.rs parse_as_opt_string
#ret r
#spec
ensures match r { Ok(s) => has_opt_str(args@, arg_name@) && ov(s) == arg_str(args@, arg_name@), Err(_) => !has_opt_str(args@, arg_name@) }
#fn slot_filler/features.rs parse_as_vec_string
#ret r
#spec
ensures match r { Ok(l) => arg_strs(args@, arg_name@, l@), Err(_) => !has_strs(args@, arg_name@) }
#closure 2 |v: &Value| -> (x: Result<String>)
ensures match x { Ok(s) => v.str_() == Some(s@), Err(_) => v.str_() is None }
#fn slot_filler/features.rs parse_as_bool
#ret r
#spec
ensures match r { Ok(s) => arg_bool(args@, arg_name@) == Some(s), Err(_) => arg_bool(args@, arg_name@) is None }
#fn slot_filler/features.rs parse_as_u64
#ret r
#spec
ensures match r { Ok(s) => arg_u64(args@, arg_name@) == Some(s), Err(_) => arg_u64(args@, arg_name@) is None }
#raw
/// the name of a kind of feature in a model
spec fn kind_name(k: FeatureKind) -> Seq<char> {
    match k {
        FeatureKind::IsDigitFeature => "is_digit"@,
        FeatureKind::LengthFeature => "length"@,
        FeatureKind::IsFirstFeature => "is_first"@,
        FeatureKind::IsLastFeature => "is_last"@,
        FeatureKind::NgramFeature => "ngram"@,
        FeatureKind::ShapeNgramFeature => "shape_ngram"@,
        FeatureKind::PrefixFeature => "prefix"@,
        FeatureKind::SuffixFeature => "suffix"@,
        FeatureKind::CustomEntityMatchFeature => "entity_match"@,
        FeatureKind::BuiltinEntityMatchFeature => "builtin_entity_match"@,
        FeatureKind::WordClusterFeature => "word_cluster"@,
    }
}
spec fn scheme_of(i: u64, s: TaggingScheme) -> bool { (i == 0 && s is IO) || (i == 1 && s is BIO) || (i == 2 && s is BILOU) }
#fn slot_filler/crf_utils.rs TaggingScheme::from_u8
#ret r
#spec
ensures match r { Ok(s) => scheme_of(i as u64, s), Err(_) => i > 2 }
#fn slot_filler/feature_processor.rs FeatureKind::identifier
#ret r
#spec
ensures r@ == kind_name(*self)
#raw
/// a feature: its kind, its name, and whether it is the i-th one that the arguments and resources describe
trait FeatureKindRepr { spec fn repr(&self) -> FeatureKind; fn feature_kind(&self) -> (r: FeatureKind) ensures r == self.repr(); }
trait Feature: Send + Sync {
    spec fn kind(&self) -> FeatureKind;
    spec fn named(&self) -> Seq<char>;
    spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool;
    fn name(&self) -> (r: String) ensures r@ == self.named();
}
#item slot_filler/features.rs struct IsDigitFeature
#item slot_filler/features.rs struct LengthFeature
#item slot_filler/features.rs struct IsFirstFeature
#item slot_filler/features.rs struct IsLastFeature
#item slot_filler/features.rs struct NgramFeature
#item slot_filler/features.rs struct ShapeNgramFeature
#item slot_filler/features.rs struct PrefixFeature
#item slot_filler/features.rs struct SuffixFeature
#item slot_filler/features.rs struct CustomEntityMatchFeature
#item slot_filler/features.rs struct BuiltinEntityMatchFeature
#item slot_filler/features.rs struct WordClusterFeature
#raw
/// the gazetteer asked for, the stemmer when asked for, the scheme asked for
spec fn gaz_ok(a: Args, res: SharedResources, g: Option<Arc<dyn Gazetteer>>) -> bool { match arg_str(a, "common_words_gazetteer_name"@) { Some(n) => g is Some && map_get(res.gazetteers@, mk_string(n)) == g, None => g is None } }
spec fn stem_ok(a: Args, res: SharedResources, s: Option<Arc<dyn Stemmer>>) -> bool { match arg_bool(a, "use_stemming"@) { Some(true) => s is Some && s == res.stemmer, Some(false) => s is None, None => false } }
spec fn scheme_arg(a: Args, s: TaggingScheme) -> bool { arg_u64(a, "tagging_scheme_code"@) is Some && scheme_of(arg_u64(a, "tagging_scheme_code"@)->Some_0, s) }
spec fn has_stem(a: Args, res: SharedResources) -> bool { match arg_bool(a, "use_stemming"@) { Some(b) => b ==> res.stemmer is Some, None => false } }
spec fn has_scheme(a: Args) -> bool { match arg_u64(a, "tagging_scheme_code"@) { Some(c) => c <= 2, None => false } }
/// whether the arguments and resources are complete, and how many features they describe
spec fn complete(k: FeatureKind, a: Args, res: SharedResources) -> bool {
    match k {
        FeatureKind::NgramFeature => arg_u64(a, "n"@) is Some && has_opt_str(a, "common_words_gazetteer_name"@) && (match arg_str(a, "common_words_gazetteer_name"@) { Some(n) => map_get(res.gazetteers@, mk_string(n)) is Some, None => true }) && has_stem(a, res),
        FeatureKind::ShapeNgramFeature => arg_u64(a, "n"@) is Some,
        FeatureKind::PrefixFeature => arg_u64(a, "prefix_size"@) is Some,
        FeatureKind::SuffixFeature => arg_u64(a, "suffix_size"@) is Some,
        FeatureKind::CustomEntityMatchFeature => has_strs(a, "entities"@) && has_scheme(a) && has_stem(a, res),
        FeatureKind::BuiltinEntityMatchFeature => has_strs(a, "entity_labels"@) && has_scheme(a) && forall|i: int| 0 <= i < n_strs(a, "entity_labels"@) ==> #[trigger] kind_of(nth_str(a, "entity_labels"@, i)) is Some,
        FeatureKind::WordClusterFeature => arg_str(a, "cluster_name"@) is Some && map_get(res.word_clusterers@, mk_string(arg_str(a, "cluster_name"@)->Some_0)) is Some,
        _ => true,
    }
}
spec fn how_many(k: FeatureKind, a: Args) -> int {
    match k {
        FeatureKind::CustomEntityMatchFeature => n_strs(a, "entities"@),
        FeatureKind::BuiltinEntityMatchFeature => n_strs(a, "entity_labels"@),
        _ => 1,
    }
}
spec fn features_of(k: FeatureKind, a: Args, res: SharedResources, v: Seq<Box<dyn Feature>>) -> bool {
    v.len() == how_many(k, a) && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).kind() == k && v[i].made(a, res, i)
}
spec fn built(k: FeatureKind, a: Args, res: SharedResources, r: Result<Vec<Box<dyn Feature>>>) -> bool { match r { Ok(v) => features_of(k, a, res, v@), Err(_) => !complete(k, a, res) } }
#fn slot_filler/feature_processor.rs IsDigitFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::IsDigitFeature }
#ret r
#fn slot_filler/features.rs IsDigitFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::IsDigitFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::IsDigitFeature) }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { true }
#ret r
#fn slot_filler/feature_processor.rs LengthFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::LengthFeature }
#ret r
#fn slot_filler/features.rs LengthFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::LengthFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::LengthFeature) }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { true }
#ret r
#fn slot_filler/feature_processor.rs IsFirstFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::IsFirstFeature }
#ret r
#fn slot_filler/features.rs IsFirstFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::IsFirstFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::IsFirstFeature) }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { true }
#ret r
#fn slot_filler/feature_processor.rs IsLastFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::IsLastFeature }
#ret r
#fn slot_filler/features.rs IsLastFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::IsLastFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::IsLastFeature) }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { true }
#ret r
#fn slot_filler/feature_processor.rs NgramFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::NgramFeature }
#ret r
#fn slot_filler/features.rs NgramFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::NgramFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::NgramFeature) + "_"@ + dec(self.ngram_size as int) }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { arg_u64(a, "n"@) == Some(self.ngram_size as u64) && gaz_ok(a, res, self.opt_common_words_gazetteer) && stem_ok(a, res, self.opt_stemmer) }
#ret r
#fn slot_filler/feature_processor.rs ShapeNgramFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::ShapeNgramFeature }
#ret r
#fn slot_filler/features.rs ShapeNgramFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::ShapeNgramFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::ShapeNgramFeature) + "_"@ + dec(self.ngram_size as int) }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { arg_u64(a, "n"@) == Some(self.ngram_size as u64) }
#ret r
#fn slot_filler/feature_processor.rs PrefixFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::PrefixFeature }
#ret r
#fn slot_filler/features.rs PrefixFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::PrefixFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::PrefixFeature) + "_"@ + dec(self.prefix_size as int) }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { arg_u64(a, "prefix_size"@) == Some(self.prefix_size as u64) }
#ret r
#fn slot_filler/feature_processor.rs SuffixFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::SuffixFeature }
#ret r
#fn slot_filler/features.rs SuffixFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::SuffixFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::SuffixFeature) + "_"@ + dec(self.suffix_size as int) }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { arg_u64(a, "suffix_size"@) == Some(self.suffix_size as u64) }
#ret r
#fn slot_filler/feature_processor.rs CustomEntityMatchFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::CustomEntityMatchFeature }
#ret r
#fn slot_filler/features.rs CustomEntityMatchFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::CustomEntityMatchFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::CustomEntityMatchFeature) + "_"@ + self.entity_name@ }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { self.entity_name@ == nth_str(a, "entities"@, i) && scheme_arg(a, self.tagging_scheme) && stem_ok(a, res, self.opt_stemmer) && self.custom_entity_parser == res.custom_entity_parser }
#ret r
#fn slot_filler/feature_processor.rs BuiltinEntityMatchFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::BuiltinEntityMatchFeature }
#ret r
#fn slot_filler/features.rs BuiltinEntityMatchFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::BuiltinEntityMatchFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::BuiltinEntityMatchFeature) + "_"@ + kind_id(self.builtin_entity_kind) }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { kind_of(nth_str(a, "entity_labels"@, i)) == Some(self.builtin_entity_kind) && scheme_arg(a, self.tagging_scheme) && self.builtin_entity_parser == res.builtin_entity_parser }
#ret r
#fn slot_filler/feature_processor.rs WordClusterFeature/FeatureKindRepr::feature_kind trait
#impl
spec fn repr(&self) -> FeatureKind { FeatureKind::WordClusterFeature }
#ret r
#fn slot_filler/features.rs WordClusterFeature/Feature::name trait default=slot_filler/feature_processor.rs:Feature::name
#impl
spec fn kind(&self) -> FeatureKind { FeatureKind::WordClusterFeature }
spec fn named(&self) -> Seq<char> { kind_name(FeatureKind::WordClusterFeature) + "_"@ + self.cluster_name@ }
spec fn made(&self, a: Args, res: SharedResources, i: int) -> bool { arg_str(a, "cluster_name"@) == Some(self.cluster_name@) && map_get(res.word_clusterers@, self.cluster_name) == Some(self.word_clusterer) }
#ret r
#fn slot_filler/features.rs IsDigitFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::IsDigitFeature, _args@, *_shared_resources, r)
#fn slot_filler/features.rs LengthFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::LengthFeature, _args@, *_shared_resources, r)
#fn slot_filler/features.rs IsFirstFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::IsFirstFeature, _args@, *_shared_resources, r)
#fn slot_filler/features.rs IsLastFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::IsLastFeature, _args@, *_shared_resources, r)
#fn slot_filler/features.rs NgramFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::NgramFeature, args@, *shared_resources, r)
#fn slot_filler/features.rs ShapeNgramFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::ShapeNgramFeature, args@, *_shared_resources, r)
#fn slot_filler/features.rs PrefixFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::PrefixFeature, args@, *_shared_resources, r)
#fn slot_filler/features.rs SuffixFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::SuffixFeature, args@, *_shared_resources, r)
#fn slot_filler/features.rs CustomEntityMatchFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::CustomEntityMatchFeature, args@, *shared_resources, r)
#closure 1 |entity_name: String| -> (x: Box<dyn Feature>)
ensures x.kind() == FeatureKind::CustomEntityMatchFeature, forall|i: int| nth_str(args@, "entities"@, i) == entity_name@ ==> #[trigger] x.made(args@, *shared_resources, i)
#fn slot_filler/features.rs BuiltinEntityMatchFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::BuiltinEntityMatchFeature, args@, *shared_resources, r)
#at before-let tagging_scheme_code
let ghost vx_l = builtin_entity_labels@;
#at tail vx_t
proof {
    assert forall|i: int| #![trigger vx_l[i]] #![trigger nth_str(args@, "entity_labels"@, i)] 0 <= i < vx_l.len() implies vx_l[i]@ == nth_str(args@, "entity_labels"@, i) by { assert(arg(args@, "entity_labels"@)->Some_0.array_()->Some_0[i].str_() == Some(vx_l[i]@)); }
    if vx_t is Err { assert(exists|i: int| 0 <= i < vx_l.len() && kind_of((#[trigger] vx_l[i])@) is None); assert(!complete(FeatureKind::BuiltinEntityMatchFeature, args@, *shared_resources)); }
    else { assert(vx_t->Ok_0@.len() == vx_l.len()); }
}
#closure 0 |label: String| -> (x: Result<Box<dyn Feature>>)
ensures match x { Ok(f) => f.kind() == FeatureKind::BuiltinEntityMatchFeature && forall|i: int| nth_str(args@, "entity_labels"@, i) == label@ ==> #[trigger] f.made(args@, *shared_resources, i), Err(_) => kind_of(label@) is None }
#fn slot_filler/features.rs WordClusterFeature/Feature::build_features dyn
#ret r
#spec
ensures built(FeatureKind::WordClusterFeature, args@, *shared_resources, r)
#item slot_filler/feature_processor.rs struct FeatureOffsetter
#item slot_filler/feature_processor.rs struct ProbabilisticFeatureProcessor
#raw
/// one kind has the name, and the features are those of that kind, each at the configured offsets
spec fn factory_made(f: FeatureFactory, res: SharedResources, v: Seq<FeatureOffsetter>) -> bool {
    exists|k: FeatureKind| kind_name(k) == f.factory_name@ && #[trigger] offsetters_of(k, f, res, v)
}
spec fn offsetters_of(k: FeatureKind, f: FeatureFactory, res: SharedResources, v: Seq<FeatureOffsetter>) -> bool {
    v.len() == how_many(k, f.args@) && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).feature.kind() == k && v[i].feature.made(f.args@, res, i) && v[i].offsets@ == f.offsets@
}
/// every kind of that name has what it needs
spec fn factory_complete(f: FeatureFactory, res: SharedResources) -> bool { exists|k: FeatureKind| #[trigger] kind_name(k) == f.factory_name@ && complete(k, f.args@, res) }
#raw
/// a name designates one kind
proof fn lemma_names(a: FeatureKind, b: FeatureKind)
    requires kind_name(a) == kind_name(b)
    ensures a == b
{
    reveal_strlit("is_digit"); reveal_strlit("length"); reveal_strlit("is_first"); reveal_strlit("is_last"); reveal_strlit("ngram"); reveal_strlit("shape_ngram");
    reveal_strlit("prefix"); reveal_strlit("suffix"); reveal_strlit("entity_match"); reveal_strlit("builtin_entity_match"); reveal_strlit("word_cluster");
    let (x, y) = (kind_name(a), kind_name(b));
    assert(x.len() == y.len());
    assert(x[0] == y[0]);
    assert(x[x.len() - 1] == y[y.len() - 1]);
}
#fn slot_filler/feature_processor.rs get_features
#ret r
#spec
ensures match r { Ok(v) => factory_made(*f, *shared_resources, v@), Err(_) => !factory_complete(*f, *shared_resources) }
#at after-let features
proof {
    assert(exists|k: FeatureKind| kind_name(k) == f.factory_name@ && #[trigger] built(k, f.args@, *shared_resources, features));
    let k = choose|k: FeatureKind| kind_name(k) == f.factory_name@ && #[trigger] built(k, f.args@, *shared_resources, features);
    assert forall|j: FeatureKind| #[trigger] kind_name(j) == f.factory_name@ implies j == k by { lemma_names(j, k); }
    if features is Ok { assert forall|v: Seq<FeatureOffsetter>| v.len() == features->Ok_0@.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).feature == features->Ok_0@[i] && v[i].offsets@ == f.offsets@) implies #[trigger] factory_made(*f, *shared_resources, v) by { assert(offsetters_of(k, *f, *shared_resources, v)); } }
}
#closure 0 |feature: Box<dyn Feature>| -> (x: FeatureOffsetter)
ensures x.feature == feature, x.offsets@ == f.offsets@
#raw
spec fn vof(v: Vec<FeatureOffsetter>) -> Seq<FeatureOffsetter> { v@ }
spec fn all_made(f: Seq<FeatureFactory>, res: SharedResources, vs: Seq<Vec<FeatureOffsetter>>) -> bool { vs.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> factory_made(f[i], res, (#[trigger] vs[i])@) }
#fn slot_filler/feature_processor.rs ProbabilisticFeatureProcessor::new
#ret r
#spec
ensures match r { Ok(p) => exists|vs: Seq<Vec<FeatureOffsetter>>| #[trigger] all_made(features@, *shared_resources, vs) && p.features_offsetters@ == flat_elems(vs), Err(_) => exists|i: int| 0 <= i < features@.len() && !factory_complete(#[trigger] features@[i], *shared_resources) }
#at after-let features_offsetters
proof {
assert(exists|vs: Seq<Vec<FeatureOffsetter>>| #[trigger] flat_elems(vs) == vof(features_offsetters) && all_made(features@, *shared_resources, vs)); }
#closure 0 |f: &FeatureFactory| -> (x: Result<Vec<FeatureOffsetter>>)
ensures match x { Ok(v) => factory_made(*f, *shared_resources, v@), Err(_) => !factory_complete(*f, *shared_resources) }
#closure 1 |fs: Vec<FeatureOffsetter>| -> (x: Vec<FeatureOffsetter>)
ensures x == fs
