#include onto
#include float
#include nd
#raw
// ---------------------------------------------------------------- C20
/// 1/(1+exp(-x))
spec fn sigmoid(x: f32) -> f32 { fdiv(1.0f32, fadd(1.0f32, fexp(fneg(x)))) }
// the IEEE facts behind "between 0 and 1, increasing": negation reverses the order, exp is positive and increasing,
// rounding of +, - and / is monotone
broadcast axiom fn ax_fneg(x: f32) ensures !nan(x) ==> !nan(#[trigger] fneg(x));
axiom fn ax_fneg_mono(x: f32, y: f32) ensures !nan(x) && !nan(y) && fkey(x) <= fkey(y) ==> fkey(fneg(y)) <= fkey(fneg(x));
broadcast axiom fn ax_fexp(x: f32) ensures !nan(x) ==> !nan(#[trigger] fexp(x)) && fkey(fexp(x)) >= fkey(0.0f32);
axiom fn ax_fexp_mono(x: f32, y: f32) ensures !nan(x) && !nan(y) && fkey(x) <= fkey(y) ==> fkey(fexp(x)) <= fkey(fexp(y));
broadcast axiom fn ax_one_plus(x: f32) ensures !nan(x) && fkey(x) >= fkey(0.0f32) ==> !nan(#[trigger] fadd(1.0f32, x)) && fkey(fadd(1.0f32, x)) >= fkey(1.0f32);
axiom fn ax_one_plus_mono(x: f32, y: f32) ensures !nan(x) && !nan(y) && fkey(0.0f32) <= fkey(x) <= fkey(y) ==> fkey(fadd(1.0f32, x)) <= fkey(fadd(1.0f32, y));
broadcast axiom fn ax_one_over(x: f32) ensures !nan(x) && fkey(x) >= fkey(1.0f32) ==> !nan(#[trigger] fdiv(1.0f32, x)) && fkey(0.0f32) <= fkey(fdiv(1.0f32, x)) <= fkey(1.0f32);
axiom fn ax_one_over_mono(x: f32, y: f32) ensures !nan(x) && !nan(y) && fkey(1.0f32) <= fkey(x) <= fkey(y) ==> fkey(fdiv(1.0f32, y)) <= fkey(fdiv(1.0f32, x));
broadcast axiom fn ax_one_minus(x: f32) ensures !nan(x) && fkey(0.0f32) <= fkey(x) <= fkey(1.0f32) ==> !nan(#[trigger] fsub(1.0f32, x)) && fkey(0.0f32) <= fkey(fsub(1.0f32, x)) <= fkey(1.0f32);
broadcast group sig_axioms { ax_fneg, ax_fexp, ax_one_plus, ax_one_over, ax_one_minus }
spec fn probability(p: f32) -> bool { !nan(p) && fkey(0.0f32) <= fkey(p) <= fkey(1.0f32) }
broadcast proof fn lemma_sigmoid(x: f32)
    requires !nan(x)
    ensures probability(#[trigger] sigmoid(x))
{ broadcast use sig_axioms; }
proof fn lemma_sigmoid_mono(x: f32, y: f32)
    requires !nan(x), !nan(y), fkey(x) <= fkey(y)
    ensures fkey(sigmoid(x)) <= fkey(sigmoid(y))
{
    broadcast use sig_axioms;
    ax_fneg_mono(x, y); ax_fexp_mono(fneg(y), fneg(x)); ax_one_plus_mono(fexp(fneg(y)), fexp(fneg(x))); ax_one_over_mono(fadd(1.0f32, fexp(fneg(y))), fadd(1.0f32, fexp(fneg(x))));
}
#item intent_classifier/logreg.rs struct MulticlassLogisticRegression
#raw
/// the intercept is the first row; the constructor establishes it
impl MulticlassLogisticRegression { #[verifier::type_invariant] spec fn vx_inv(&self) -> bool { wf_model(*self) } }
spec fn wf_model(m: MulticlassLogisticRegression) -> bool { a2(m.weights).rows.len() >= 1 }
spec fn model_of(m: MulticlassLogisticRegression, intercept: Seq<f32>, weights: Mat<f32>) -> bool {
    a2(m.weights).cols == intercept.len() && a2(m.weights).rows == seq![intercept] + weights.rows
}
/// intercept plus weighted features of class j
spec fn decision(w: Mat<f32>, f: Seq<f32>, j: int) -> f32 { fdot(seq![1.0f32] + f, column(w, j)) }
/// one score per class, two complementary ones for a binary model
spec fn scores(w: Mat<f32>, f: Seq<f32>, r: Seq<f32>) -> bool {
    if w.cols == 1 { r == seq![fsub(1.0f32, sigmoid(decision(w, f, 0))), sigmoid(decision(w, f, 0))] }
    else { r.len() == w.cols && forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == sigmoid(decision(w, f, j)) }
}
spec fn real_decisions(w: Mat<f32>, f: Seq<f32>) -> bool { forall|j: int| 0 <= j < w.cols ==> !nan(#[trigger] decision(w, f, j)) }
proof fn lemma_scores(w: Mat<f32>, f: Seq<f32>, r: Seq<f32>)
    requires scores(w, f, r), real_decisions(w, f), w.cols >= 0
    ensures forall|j: int| 0 <= j < r.len() ==> probability(#[trigger] r[j])
{
    broadcast use sig_axioms, lemma_sigmoid;
    assert forall|j: int| 0 <= j < r.len() implies probability(#[trigger] r[j]) by { if w.cols == 1 { assert(!nan(decision(w, f, 0))); } else { assert(!nan(decision(w, f, j))); } }
}
#fn intent_classifier/logreg.rs MulticlassLogisticRegression::nb_features
#ret r
#spec
ensures r == a2(self.weights).rows.len() - 1
#at entry
proof { use_type_invariant(self); assert(wf_model(*self)); }
#fn intent_classifier/logreg.rs MulticlassLogisticRegression::nb_classes
#ret r
#spec
ensures r == a2(self.weights).cols
#fn intent_classifier/logreg.rs MulticlassLogisticRegression::is_binary
#ret r
#spec
ensures r == (a2(self.weights).cols == 1)
#fn intent_classifier/logreg.rs MulticlassLogisticRegression::new
#ret r
#spec
ensures r is Ok ==> a1(intercept).len() == a2(weights).cols && wf_model(r->Ok_0) && model_of(r->Ok_0, a1(intercept), a2(weights)),
    a1(intercept).len() == a2(weights).cols && a2(weights).rows.len() < usize::MAX ==> r is Ok
#at after-let reshaped_intercept
proof { assert(a2(reshaped_intercept).rows =~= seq![a1(intercept)]); }
#fn intent_classifier/logreg.rs logit float
#ret r
#spec
ensures r == sigmoid(x)
#fn intent_classifier/logreg.rs MulticlassLogisticRegression::run float mapindex=*
#ret r
#spec
ensures r is Ok <==> v1(*features).len() == a2(self.weights).rows.len() - 1,
    r is Ok ==> scores(a2(self.weights), v1(*features), a1(r->Ok_0)),
#at entry
proof { use_type_invariant(self); assert(wf_model(*self)); }
#at after-let result
let ghost raw = a1(result);
proof {
    let (w, f) = (a2(self.weights), v1(*features));
    assert(w.cols >= 0);
    assert(raw.len() == w.cols);
    assert forall|j: int| 0 <= j < raw.len() implies #[trigger] raw[j] == decision(w, f, j) by { assert(a2(reshaped_features).rows[0] =~= seq![1.0f32] + f); }
}
#at tail vx_r
proof { let (w, f) = (a2(self.weights), v1(*features)); assert forall|j: int| 0 <= j < raw.len() implies #[trigger] a1(vx_r->Ok_0)[j] == sigmoid(decision(w, f, j)) by { assert(raw[j] == decision(w, f, j)); } }
#raw
// ---------------------------------------------------------------- C19
/// the featurizer (C21, C22) is an arbitrary relation between text and features
#[verifier::external_body]
struct Featurizer { x: u8 }
uninterp spec fn features_of(f: Featurizer, input: Seq<char>, r: Result<Array1<f32>>) -> bool;
impl Featurizer { #[verifier::external_body] fn transform(&self, input: &str) -> (r: Result<Array1<f32>>) ensures features_of(*self, input@, r) { unimplemented!() } }
type IntentName = String;
#item intent_classifier/log_reg_intent_classifier.rs struct LogRegIntentClassifier
#raw
/// permitted by the filter; the absence of intent always is
spec fn permitted(n: Option<String>, w: Option<&[&str]>) -> bool { match (n, w) { (Some(s), Some(l)) => has_str(l@, s@), _ => true } }
type R = IntentClassifierResult;
spec fn scored(l: Seq<Option<String>>, s: Seq<f32>) -> Seq<R> { Seq::new(if l.len() <= s.len() { l.len() } else { s.len() }, |i: int| IntentClassifierResult { intent_name: l[i], confidence_score: s[i] }) }
spec fn best_first(r: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i <= j < r.len() ==> fkey((#[trigger] r[i]).confidence_score) >= fkey((#[trigger] r[j]).confidence_score) }
spec fn keeps(s: Seq<R>, w: Option<&[&str]>) -> spec_fn(int) -> bool { |i: int| permitted(s[i].intent_name, w) }
/// the permitted ones among s, in decreasing order of score
spec fn filtered_ranking(s: Seq<R>, w: Option<&[&str]>, r: Seq<R>) -> bool { is_perm(sel(s, keeps(s, w)), r) && best_first(r) }
/// full confidence to the absence of intent, none to the intents
spec fn blank(l: Seq<Option<String>>) -> Seq<f32> { Seq::new(l.len(), |i: int| if l[i] is None { 1.0f32 } else { 0.0f32 }) }
/// the number of scores the model gives
spec fn nb_scores(w: Mat<f32>) -> int { if w.cols == 1 { 2 } else { w.cols } }
/// every intent has its score; the constructor establishes it
spec fn wf_clf(c: LogRegIntentClassifier) -> bool { c.logreg is Some && c.intent_list@.len() > 1 ==> c.intent_list@.len() == nb_scores(a2(c.logreg->Some_0.weights)) }
impl LogRegIntentClassifier { #[verifier::type_invariant] spec fn vx_inv(&self) -> bool { wf_clf(*self) } }
/// no score is NaN
spec fn real_scores(c: LogRegIntentClassifier, input: Seq<char>) -> bool {
    c.featurizer is Some && c.logreg is Some ==> forall|f: Array1<f32>| #[trigger] features_of(c.featurizer->Some_0, input, Ok(f)) ==> real_decisions(a2(c.logreg->Some_0.weights), a1(f))
}
spec fn trivial(c: LogRegIntentClassifier, input: Seq<char>) -> bool { input.len() == 0 || c.featurizer is None || c.logreg is None }
spec fn classified(c: LogRegIntentClassifier, input: Seq<char>, w: Option<&[&str]>, r: Seq<R>) -> bool {
    let l = c.intent_list@;
    if l.len() <= 1 {
        r.len() == 1 && r[0].confidence_score == 1.0f32 && r[0].intent_name == (if l.len() == 1 && permitted(l[0], w) { l[0] } else { None })
    } else if trivial(c, input) { filtered_ranking(scored(l, blank(l)), w, r) }
    else { exists|f: Array1<f32>, s: Seq<f32>| #[trigger] features_of(c.featurizer->Some_0, input, Ok(f)) && #[trigger] scores(a2(c.logreg->Some_0.weights), a1(f), s) && s.len() == l.len() && filtered_ranking(scored(l, s), w, r) }
}
spec fn real(r: Seq<R>) -> bool { forall|i: int| 0 <= i < r.len() ==> !nan((#[trigger] r[i]).confidence_score) }
proof fn lemma_real_sel(s: Seq<R>, keep: spec_fn(int) -> bool)
    requires real(s)
    ensures real(sel(s, keep))
{ lemma_sel_ix(s, keep); let ix = kept_ix(s.len() as int, keep); assert forall|k: int| 0 <= k < sel(s, keep).len() implies !nan((#[trigger] sel(s, keep)[k]).confidence_score) by { assert(s[ix[k]] == sel(s, keep)[k]); } }
spec fn without_score(n: Option<String>, x: R) -> bool { x.intent_name == n && x.confidence_score == (if n is None { 1.0f32 } else { 0.0f32 }) }
proof fn lemma_blank_one(l: Seq<Option<String>>, w: Option<&[&str]>, keep: spec_fn(int) -> bool, m: Seq<R>)
    requires forall|i: int| 0 <= i < l.len() ==> #[trigger] keep(i) == permitted(l[i], w), m.len() == sel(refs(l), keep).len(), forall|i: int| 0 <= i < m.len() ==> without_score(*sel(refs(l), keep)[i], #[trigger] m[i])
    ensures m == sel(scored(l, blank(l)), keeps(scored(l, blank(l)), w)), real(m)
    decreases l.len()
{
    let b = scored(l, blank(l));
    lemma_sel_ix(refs(l), keep); lemma_sel_ix(b, keep);
    lemma_sel_ext(b, keep, keeps(b, w));
    let ix = kept_ix(l.len() as int, keep);
    assert forall|i: int| 0 <= i < m.len() implies m[i] == sel(b, keep)[i] && !nan(m[i].confidence_score) by { assert(sel(refs(l), keep)[i] == refs(l)[ix[i]]); assert(sel(b, keep)[i] == b[ix[i]]); assert(without_score(*sel(refs(l), keep)[i], m[i])); }
    assert(m =~= sel(b, keep));
}
spec fn blanked(l: Seq<Option<String>>, w: Option<&[&str]>, keep: spec_fn(int) -> bool, m: Seq<R>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] keep(i) == permitted(l[i], w)
    &&& m.len() == sel(refs(l), keep).len() && forall|i: int| 0 <= i < m.len() ==> without_score(*sel(refs(l), keep)[i], #[trigger] m[i])
}
spec fn kept_blank(l: Seq<Option<String>>, w: Option<&[&str]>) -> Seq<R> { sel(scored(l, blank(l)), keeps(scored(l, blank(l)), w)) }
/// filtering the intents, then giving them the blank score
proof fn lemma_blank(l: Seq<Option<String>>, w: Option<&[&str]>)
    ensures forall|keep: spec_fn(int) -> bool, m: Seq<R>, o: Seq<R>| #[trigger] is_perm(m, o) && #[trigger] sel(refs(l), keep).len() >= 0 && blanked(l, w, keep, m) ==> m == kept_blank(l, w)
{
    assert forall|keep: spec_fn(int) -> bool, m: Seq<R>, o: Seq<R>| #[trigger] is_perm(m, o) && #[trigger] sel(refs(l), keep).len() >= 0 && blanked(l, w, keep, m) implies m == kept_blank(l, w) by { lemma_blank_one(l, w, keep, m); }
}
/// scoring the intents, then filtering
proof fn lemma_scored(l: Seq<Option<String>>, s: Seq<f32>, w: Option<&[&str]>)
    requires forall|j: int| 0 <= j < s.len() ==> !nan(#[trigger] s[j])
    ensures forall|m: Seq<R>, keep: spec_fn(int) -> bool| #![trigger sel(m, keep)] m.len() == scored(l, s).len() && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == scored(l, s)[i]) && (forall|i: int| 0 <= i < m.len() ==> #[trigger] keep(i) == permitted(m[i].intent_name, w)) ==> sel(m, keep) == sel(scored(l, s), keeps(scored(l, s), w)) && real(sel(m, keep))
{
    assert forall|m: Seq<R>, keep: spec_fn(int) -> bool| #![trigger sel(m, keep)] m.len() == scored(l, s).len() && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == scored(l, s)[i]) && (forall|i: int| 0 <= i < m.len() ==> #[trigger] keep(i) == permitted(m[i].intent_name, w)) implies sel(m, keep) == sel(scored(l, s), keeps(scored(l, s), w)) && real(sel(m, keep)) by {
        assert(m =~= scored(l, s));
        lemma_sel_ext(m, keep, keeps(m, w));
        assert forall|i: int| 0 <= i < m.len() implies !nan((#[trigger] m[i]).confidence_score) by { assert(!nan(s[i])); }
        lemma_real_sel(m, keep);
    }
}
proof fn lemma_in_set(s: Seq<&str>)
    ensures forall|n: Seq<char>| #[trigger] in_set(s.to_set(), n) == has_str(s, n)
{
    assert forall|n: Seq<char>| #[trigger] in_set(s.to_set(), n) == has_str(s, n) by {
        if in_set(s.to_set(), n) { let x = choose|x: &str| #[trigger] s.to_set().contains(x) && x@ == n; assert(s.contains(x)); let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s[i]@ == n); }
        if has_str(s, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n; assert(s.contains(s[i])); assert(s.to_set().contains(s[i])); }
    }
}
#fn intent_classifier/log_reg_intent_classifier.rs is_allowed
#ret r
#spec
ensures r == permitted(*intent_name, intents_whitelist)
#fn intent_classifier/log_reg_intent_classifier.rs LogRegIntentClassifier::get_intents_with_whitelist
#ret r
#spec
requires real_scores(*self, input@)
ensures r is Ok ==> classified(*self, input@, intents_whitelist, r->Ok_0@)
#closure 0 |intent_name: &&Option<IntentName>| -> (b: bool)
ensures b == permitted(**intent_name, intents_whitelist)
#closure 1 |intent_name: &&Option<IntentName>| -> (b: bool)
ensures b == permitted(**intent_name, intents_whitelist)
#closure 2 |intent_name: &Option<IntentName>| -> (x: R)
ensures without_score(*intent_name, x)
#closure 3 |a: &R, b: &R| -> (o: core::cmp::Ordering)
requires !nan(a.confidence_score), !nan(b.confidence_score)
ensures o != core::cmp::Ordering::Greater ==> fkey(a.confidence_score) >= fkey(b.confidence_score)
#closure 4 |intent_list: &[&str]| -> (s: HashSet<&str>)
ensures forall|n: Seq<char>| #[trigger] in_set(s@, n) == has_str(intent_list@, n)
#at closure 4 tail vx_x
proof { lemma_in_set(unrefs(refs(intent_list@))); assert(unrefs(refs(intent_list@)) =~= intent_list@); }
#closure 5 |vx_p: (&Option<IntentName>, &f32)| -> (x: R)
ensures x.intent_name == *vx_p.0, x.confidence_score == *vx_p.1
#closure 6 |res: &R| -> (b: bool)
ensures b == permitted(res.intent_name, intents_whitelist)
#closure 7 |intents: &HashSet<&str>| -> (b: bool)
ensures b == in_set(intents@, intent@)
#closure 8 |a: &R, b: &R| -> (o: core::cmp::Ordering)
requires !nan(a.confidence_score), !nan(b.confidence_score)
ensures o != core::cmp::Ordering::Greater ==> fkey(a.confidence_score) >= fkey(b.confidence_score)
#at entry
proof { use_type_invariant(self); assert(wf_clf(*self)); lemma_blank(self.intent_list@, intents_whitelist); }
#at after-let scores
proof { lemma_scores(a2(logreg.weights), a1(features), a1(scores)); lemma_scored(self.intent_list@, a1(scores), intents_whitelist); }
#fn intent_classifier/log_reg_intent_classifier.rs LogRegIntentClassifier/IntentClassifier::get_intent
#ret r
#spec
requires real_scores(*self, input@)
ensures r is Ok ==> exists|l: Seq<R>| #[trigger] classified(*self, input@, intents_whitelist, l) && (if l.len() > 0 { r->Ok_0 == l[0] } else { r->Ok_0.intent_name is None && r->Ok_0.confidence_score == 1.0f32 })
#fn intent_classifier/log_reg_intent_classifier.rs LogRegIntentClassifier/IntentClassifier::get_intents
#ret r
#spec
requires real_scores(*self, input@)
ensures r is Ok ==> classified(*self, input@, None, r->Ok_0@)
#fn intent_classifier/log_reg_intent_classifier.rs LogRegIntentClassifier::compute_features
#ret r
#spec
ensures match self.featurizer { Some(f) => features_of(f, input@, r), None => r is Ok && a1(r->Ok_0).len() == 0 }
#closure 0 |featurizer: &Featurizer| -> (x: Result<Array1<f32>>)
ensures features_of(*featurizer, input@, x)
#closure 1 || -> (x: Result<Array1<f32>>)
ensures x is Ok && a1(x->Ok_0).len() == 0
#include fs
#raw
use std::sync::Arc;
#[verifier::external_body]
struct SharedResources { x: u8 }
uninterp spec fn featurizer_at(path: Seq<char>, s: Arc<SharedResources>, r: Result<Featurizer>) -> bool;
impl Featurizer { #[verifier::external_body] fn from_path(p: &PathBuf, s: Arc<SharedResources>) -> (r: Result<Featurizer>) ensures featurizer_at(p@, s, r) { unimplemented!() } }
#item models/intent_classifier.rs struct IntentClassifierModel
#raw
spec fn rectangular(c: Seq<Vec<f32>>, classes: int) -> bool { c.len() == classes && forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j])@.len() == (if classes == 0 { 0 } else { c[0]@.len() as int }) }
/// the coefficients are those of the file, one column per class
spec fn logreg_of(intercept: Option<Vec<f32>>, coeffs: Option<Vec<Vec<f32>>>, r: Option<MulticlassLogisticRegression>) -> bool {
    match (intercept, coeffs) {
        (Some(i), Some(c)) => rectangular(c@, i@.len() as int) && r is Some && wf_model(r->Some_0) && exists|w: Mat<f32>| #[trigger] model_of(r->Some_0, i@, w) && forall|j: int| 0 <= j < c@.len() ==> #[trigger] column(w, j) =~= c@[j]@,
        _ => r is None,
    }
}
spec fn loaded(path: Seq<char>, res: Arc<SharedResources>, c: LogRegIntentClassifier) -> bool {
    exists|m: IntentClassifierModel| #[trigger] json_of(path_join(path, "intent_classifier.json"@), Ok::<IntentClassifierModel, VxError>(m)) && c.intent_list == m.intent_list && logreg_of(m.intercept, m.coeffs, c.logreg)
        && match m.featurizer { None => c.featurizer is None, Some(n) => c.featurizer is Some && featurizer_at(path_join(path, n@), res, Ok(c.featurizer->Some_0)) }
}
#fn intent_classifier/log_reg_intent_classifier.rs LogRegIntentClassifier::from_path path
#ret r
#spec
ensures r is Ok ==> loaded(path.pv(), shared_resources, r->Ok_0) && wf_clf(r->Ok_0)
#closure 0 |row: &Vec<f32>| -> (n: usize)
ensures n == row@.len()
#closure 1 |row: &Vec<f32>| -> (b: bool)
ensures b == (row@.len() != nb_features)
#closure 2 |vx_p: (usize, usize)| -> (x: f32)
requires vx_p.1 < coeffs@.len(), vx_p.0 < coeffs@[vx_p.1 as int]@.len()
ensures x == coeffs@[vx_p.1 as int]@[vx_p.0 as int]
#at after-let model
let ghost m0 = model;
#at after-let arr_weights
proof {
    let w = a2(arr_weights);
    assert forall|j: int| 0 <= j < coeffs@.len() implies #[trigger] column(w, j) =~= coeffs@[j]@ by {
        assert forall|i: int| 0 <= i < w.rows.len() implies column(w, j)[i] == coeffs@[j]@[i] by { let (x, y) = (i as usize, j as usize); assert(w.rows[x as int][y as int] == coeffs@[y as int]@[x as int]); }
        assert(coeffs@[j]@.len() == nb_features);
    }
    assert(rectangular(coeffs@, nb_classes as int));
}
#at after-let logreg
proof {
    assert(json_of(path_join(path.pv(), "intent_classifier.json"@), Ok::<IntentClassifierModel, VxError>(m0)));
    if m0.intercept is Some && m0.coeffs is Some { assert(logreg is Some); assert(rectangular(m0.coeffs->Some_0@, m0.intercept->Some_0@.len() as int)); assert(wf_model(logreg->Some_0)); assert(exists|w: Mat<f32>| #[trigger] model_of(logreg->Some_0, m0.intercept->Some_0@, w)); } else { assert(logreg is None); }
    assert(logreg_of(m0.intercept, m0.coeffs, logreg));
}
