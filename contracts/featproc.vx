#include token
#raw
/// what a feature answers for a token, and its name
trait Feature {
    spec fn named(&self) -> Seq<char>;
    spec fn valued(&self, toks: Seq<Token>, i: int, v: Option<String>) -> bool;
    fn name(&self) -> (r: String) ensures r@ == self.named();
    fn compute(&self, tokens: &[Token], token_index: usize) -> (r: Result<Option<String>>)
        requires token_index < tokens@.len()
        ensures r is Ok ==> self.valued(tokens@, token_index as int, r->Ok_0);
}
#item slot_filler/feature_processor.rs struct FeatureOffsetter
#item slot_filler/feature_processor.rs struct ProbabilisticFeatureProcessor
#raw
spec fn key_of(o: FeatureOffsetter, q: int) -> Seq<char> {
    if o.offsets@[q] == 0 { o.feature.named() } else { o.feature.named() + "["@ + signed(o.offsets@[q] as int) + "]"@ }
}
#fn slot_filler/feature_processor.rs FeatureOffsetter::offsets_with_name
#ret r
#spec
ensures r@.len() == self.offsets@.len(), forall|q: int| 0 <= q < r@.len() ==> (#[trigger] r@[q]).0 == self.offsets@[q] && r@[q].1@ == key_of(*self, q)
#closure 0 |i: &i32| -> (x: (i32, String))
ensures x.0 == *i, x.1@ == (if *i == 0 { self.feature.named() } else { self.feature.named() + "["@ + signed(*i as int) + "]"@ })
#raw
type Pair = (Seq<char>, Seq<char>);
spec fn pv(s: Seq<(String, String)>) -> Seq<Pair> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1@)) }
/// what offsetter `o` attaches to token `j` for the value `x` its feature has at token `i` (its first `n` offsets)
spec fn at_offsets(o: FeatureOffsetter, j: int, i: int, x: Seq<char>, n: int) -> Seq<Pair>
    decreases n
{ if n <= 0 { Seq::empty() } else if i == j + o.offsets@[n - 1] { at_offsets(o, j, i, x, n - 1).push((key_of(o, n - 1), x)) } else { at_offsets(o, j, i, x, n - 1) } }
spec fn at_value(o: FeatureOffsetter, j: int, i: int, v: Option<String>) -> Seq<Pair> { match v { Some(x) => at_offsets(o, j, i, x@, o.offsets@.len() as int), None => Seq::empty() } }
/// ... for the values its feature has at the first `n` tokens
spec fn at_tokens(o: FeatureOffsetter, j: int, vals: Seq<Option<String>>, n: int) -> Seq<Pair>
    decreases n
{ if n <= 0 { Seq::empty() } else { at_tokens(o, j, vals, n - 1) + at_value(o, j, n - 1, vals[n - 1]) } }
spec fn at_all(os: Seq<FeatureOffsetter>, j: int, vals: Seq<Seq<Option<String>>>, n: int) -> Seq<Pair>
    decreases n
{ if n <= 0 { Seq::empty() } else { at_all(os, j, vals, n - 1) + at_tokens(os[n - 1], j, vals[n - 1], vals[n - 1].len() as int) } }
/// the values are answers of the feature, one per token
spec fn answers(o: FeatureOffsetter, toks: Seq<Token>, vals: Seq<Option<String>>, n: int) -> bool { vals.len() == n && forall|i: int| 0 <= i < n ==> o.feature.valued(toks, i, #[trigger] vals[i]) }
spec fn all_answers(os: Seq<FeatureOffsetter>, toks: Seq<Token>, vals: Seq<Seq<Option<String>>>, n: int) -> bool { vals.len() == n && forall|k: int| 0 <= k < n ==> answers(os[k], toks, #[trigger] vals[k], toks.len() as int) }
spec fn attached(os: Seq<FeatureOffsetter>, vals: Seq<Seq<Option<String>>>, f: Seq<Vec<(String, String)>>) -> bool { forall|j: int| 0 <= j < f.len() ==> pv((#[trigger] f[j])@) == at_all(os, j, vals, os.len() as int) }

/// exactly the value at token j + offset is attached to token j, under the name for that offset
spec fn justified(os: Seq<FeatureOffsetter>, vals: Seq<Seq<Option<String>>>, n: int, j: int, p: Pair) -> bool {
    exists|k: int, q: int| 0 <= k < n && 0 <= q < os[k].offsets@.len() && #[trigger] hit(os, vals, j, p, k, q)
}
spec fn hit(os: Seq<FeatureOffsetter>, vals: Seq<Seq<Option<String>>>, j: int, p: Pair, k: int, q: int) -> bool {
    let i = j + os[k].offsets@[q];
    0 <= i < vals[k].len() && vals[k][i] is Some && p == (key_of(os[k], q), vals[k][i]->Some_0@)
}
proof fn lemma_offsets(o: FeatureOffsetter, j: int, i: int, x: Seq<char>, n: int, p: Pair)
    requires 0 <= n <= o.offsets@.len()
    ensures at_offsets(o, j, i, x, n).contains(p) <==> exists|q: int| 0 <= q < n && i == j + (#[trigger] o.offsets@[q]) && p == (key_of(o, q), x)
    decreases n
{
    if n > 0 {
        lemma_offsets(o, j, i, x, n - 1, p);
        let a = at_offsets(o, j, i, x, n - 1);
        let y = (key_of(o, n - 1), x);
        assert(a.push(y)[a.len() as int] == y);
        assert(forall|z: int| 0 <= z < a.len() ==> a.push(y)[z] == a[z]);
    }
}
proof fn lemma_concat<A>(a: Seq<A>, b: Seq<A>, p: A) ensures (a + b).contains(p) <==> a.contains(p) || b.contains(p) {
    if a.contains(p) { let i = choose|i: int| 0 <= i < a.len() && a[i] == p; assert((a + b)[i] == p); }
    if b.contains(p) { let i = choose|i: int| 0 <= i < b.len() && b[i] == p; assert((a + b)[a.len() + i] == p); }
}
proof fn lemma_tokens(o: FeatureOffsetter, j: int, vals: Seq<Option<String>>, n: int, p: Pair)
    requires 0 <= n <= vals.len()
    ensures at_tokens(o, j, vals, n).contains(p) <==> exists|q: int| 0 <= q < o.offsets@.len() && 0 <= j + #[trigger] o.offsets@[q] < n && vals[j + o.offsets@[q]] is Some && p == (key_of(o, q), vals[j + o.offsets@[q]]->Some_0@)
    decreases n
{
    if n > 0 {
        lemma_tokens(o, j, vals, n - 1, p);
        lemma_concat(at_tokens(o, j, vals, n - 1), at_value(o, j, n - 1, vals[n - 1]), p);
        if vals[n - 1] is Some { lemma_offsets(o, j, n - 1, vals[n - 1]->Some_0@, o.offsets@.len() as int, p); }
    }
}
proof fn theorem_attached(os: Seq<FeatureOffsetter>, vals: Seq<Seq<Option<String>>>, n: int, j: int, p: Pair)
    requires 0 <= n <= os.len(), vals.len() == os.len()
    ensures at_all(os, j, vals, n).contains(p) <==> justified(os, vals, n, j, p)
    decreases n
{
    if n > 0 {
        theorem_attached(os, vals, n - 1, j, p);
        lemma_concat(at_all(os, j, vals, n - 1), at_tokens(os[n - 1], j, vals[n - 1], vals[n - 1].len() as int), p);
        lemma_tokens(os[n - 1], j, vals[n - 1], vals[n - 1].len() as int, p);
        if at_tokens(os[n - 1], j, vals[n - 1], vals[n - 1].len() as int).contains(p) {
            let o = os[n - 1];
            let q = choose|q: int| 0 <= q < o.offsets@.len() && 0 <= j + #[trigger] o.offsets@[q] < vals[n - 1].len() && vals[n - 1][j + o.offsets@[q]] is Some && p == (key_of(o, q), vals[n - 1][j + o.offsets@[q]]->Some_0@);
            assert(hit(os, vals, j, p, n - 1, q));
        }
        if justified(os, vals, n, j, p) {
            let (k, q) = choose|k: int, q: int| 0 <= k < n && 0 <= q < os[k].offsets@.len() && #[trigger] hit(os, vals, j, p, k, q);
            if k < n - 1 { assert(justified(os, vals, n - 1, j, p)); } else { assert(0 <= j + os[n - 1].offsets@[q] < vals[n - 1].len()); }
        }
    }
}
/// the feature lists f are the lists f0 with, at the end of each list j, what `add(j)` says
spec fn grown(f0: Seq<Vec<(String, String)>>, f: Seq<Vec<(String, String)>>, add: spec_fn(int) -> Seq<Pair>) -> bool {
    f.len() == f0.len() && forall|j: int| 0 <= j < f.len() ==> pv((#[trigger] f[j])@) == pv(f0[j]@) + add(j)
}
spec fn stepped(o: FeatureOffsetter, f0: Seq<Vec<(String, String)>>, f: Seq<Vec<(String, String)>>, i: int, v: Option<String>) -> bool { grown(f0, f, |j: int| at_value(o, j, i, v)) }
spec fn token_progress(o: FeatureOffsetter, toks: Seq<Token>, f0: Seq<Vec<(String, String)>>, f: Seq<Vec<(String, String)>>, vals: Seq<Option<String>>, n: int) -> bool { answers(o, toks, vals, n) && grown(f0, f, |j: int| at_tokens(o, j, vals, n)) }
spec fn progress(os: Seq<FeatureOffsetter>, toks: Seq<Token>, f: Seq<Vec<(String, String)>>, vals: Seq<Seq<Option<String>>>, n: int) -> bool {
    all_answers(os, toks, vals, n) && f.len() == toks.len() && forall|j: int| 0 <= j < f.len() ==> pv((#[trigger] f[j])@) == at_all(os, j, vals, n)
}
proof fn lemma_at_tokens_ext(o: FeatureOffsetter, j: int, v: Seq<Option<String>>, w: Option<String>, n: int)
    requires 0 <= n <= v.len()
    ensures at_tokens(o, j, v.push(w), n) == at_tokens(o, j, v, n)
    decreases n
{ if n > 0 { lemma_at_tokens_ext(o, j, v, w, n - 1); } }
proof fn lemma_at_all_ext(os: Seq<FeatureOffsetter>, j: int, v: Seq<Seq<Option<String>>>, w: Seq<Option<String>>, n: int)
    requires 0 <= n <= v.len()
    ensures at_all(os, j, v.push(w), n) == at_all(os, j, v, n)
    decreases n
{ if n > 0 { lemma_at_all_ext(os, j, v, w, n - 1); } }
proof fn lemma_token_step(o: FeatureOffsetter, toks: Seq<Token>, f0: Seq<Vec<(String, String)>>, f1: Seq<Vec<(String, String)>>, f2: Seq<Vec<(String, String)>>, vals: Seq<Option<String>>, n: int, w: Option<String>)
    requires token_progress(o, toks, f0, f1, vals, n), stepped(o, f1, f2, n, w), o.feature.valued(toks, n, w), n >= 0
    ensures token_progress(o, toks, f0, f2, vals.push(w), n + 1)
{
    let v2 = vals.push(w);
    assert forall|j: int| 0 <= j < f2.len() implies pv((#[trigger] f2[j])@) == pv(f0[j]@) + at_tokens(o, j, v2, n + 1) by {
        lemma_at_tokens_ext(o, j, vals, w, n);
        assert(pv(f2[j]@) == pv(f1[j]@) + at_value(o, j, n, w));
        assert(pv(f1[j]@) == pv(f0[j]@) + at_tokens(o, j, vals, n));
        assert(pv(f0[j]@) + at_tokens(o, j, vals, n) + at_value(o, j, n, w) =~= pv(f0[j]@) + (at_tokens(o, j, vals, n) + at_value(o, j, n, w)));
    }
}
proof fn lemma_offsetter_step(os: Seq<FeatureOffsetter>, toks: Seq<Token>, f0: Seq<Vec<(String, String)>>, f: Seq<Vec<(String, String)>>, vals: Seq<Seq<Option<String>>>, n: int, w: Seq<Option<String>>)
    requires progress(os, toks, f0, vals, n), token_progress(os[n], toks, f0, f, w, toks.len() as int), n >= 0
    ensures progress(os, toks, f, vals.push(w), n + 1)
{
    let v2 = vals.push(w);
    assert forall|j: int| 0 <= j < f.len() implies pv((#[trigger] f[j])@) == at_all(os, j, v2, n + 1) by {
        lemma_at_all_ext(os, j, vals, w, n);
        assert(pv(f[j]@) == pv(f0[j]@) + at_tokens(os[n], j, w, w.len() as int));
    }
}
#fn slot_filler/feature_processor.rs ProbabilisticFeatureProcessor::compute_features
#ret r
#spec
requires input@.len() <= 0x3fff_ffff_ffff_ffff
ensures r is Ok ==> r->Ok_0@.len() == input@.len() && exists|vals: Seq<Seq<Option<String>>>|
    #[trigger] all_answers(self.features_offsetters@, input@, vals, self.features_offsetters@.len() as int) && attached(self.features_offsetters@, vals, r->Ok_0@)
#at loop 0 before
proof {
    assert(forall|j: int| 0 <= j < features@.len() ==> pv((#[trigger] features@[j])@) =~= Seq::<Pair>::empty());
    assert(progress(self.features_offsetters@, input@, features@, Seq::empty(), 0));
}
#loop 0
invariant exists|vals: Seq<Seq<Option<String>>>| #[trigger] progress(self.features_offsetters@, input@, features@, vals, vx_k0)
#at loop 0 start
let ghost f0 = features@;
let ghost o = *offsetter;
proof { assert(token_progress(o, input@, f0, features@, Seq::empty(), 0)) by {
    assert forall|j: int| 0 <= j < f0.len() implies pv((#[trigger] f0[j])@) == pv(f0[j]@) + at_tokens(o, j, Seq::empty(), 0) by { assert(pv(f0[j]@) =~= pv(f0[j]@) + Seq::empty()); } } }
#at loop 0 end
proof {
    let w = choose|w: Seq<Option<String>>| #[trigger] token_progress(o, input@, f0, features@, w, input@.len() as int);
    let vals = choose|vals: Seq<Seq<Option<String>>>| #[trigger] progress(self.features_offsetters@, input@, f0, vals, vx_k0 - 1);
    lemma_offsetter_step(self.features_offsetters@, input@, f0, features@, vals, vx_k0 - 1, w);
}
#loop 1
invariant exists|w: Seq<Option<String>>| #[trigger] token_progress(o, input@, f0, features@, w, vx_k1)
#at loop 1 start
let ghost f1 = features@;
#at loop 1 end
proof {
    assert(exists|v: Option<String>| #[trigger] o.feature.valued(input@, vx_k1 - 1, v) && stepped(o, f1, features@, vx_k1 - 1, v));
    let v = choose|v: Option<String>| #[trigger] o.feature.valued(input@, vx_k1 - 1, v) && stepped(o, f1, features@, vx_k1 - 1, v);
    let w = choose|w: Seq<Option<String>>| #[trigger] token_progress(o, input@, f0, f1, w, vx_k1 - 1);
    lemma_token_step(o, input@, f0, f1, features@, w, vx_k1 - 1, v);
}
#at loop 2 before
proof { assert forall|j: int| 0 <= j < f1.len() implies pv((#[trigger] f1[j])@) == pv(f1[j]@) + at_offsets(o, j, i as int, value@, 0) by { assert(pv(f1[j]@) =~= pv(f1[j]@) + Seq::empty()); } }
#at loop 2 start
let ghost f2 = features@;
#at loop 2 end
proof {
    assert(offset == o.offsets@[vx_k2 - 1]);
    assert forall|j: int| 0 <= j < f1.len() implies pv((#[trigger] features@[j])@) == pv(f1[j]@) + at_offsets(o, j, i as int, value@, vx_k2) by {
        assert(pv(f2[j]@) == pv(f1[j]@) + at_offsets(o, j, i as int, value@, vx_k2 - 1));
        if i as int == j + offset {
            assert(pv(features@[j]@) =~= pv(f2[j]@).push((key_of(o, vx_k2 - 1), value@)));
            assert(pv(features@[j]@) =~= pv(f1[j]@) + at_offsets(o, j, i as int, value@, vx_k2));
        } else { assert(features@[j] == f2[j]); }
    }
}
#loop 2
invariant grown(f1, features@, |j: int| at_offsets(o, j, i as int, value@, vx_k2))
