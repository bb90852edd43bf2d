#include onto
#include float
#import sel
#import lang
#item resources/mod.rs struct SharedResources fields=builtin_entity_parser,custom_entity_parser,stop_words,word_clusterers,stemmer
#raw
use std::sync::Arc;
impl<'a> VxAsRef<'a, &'a str> for &'a String { open spec fn as_ref_is(self, r: &'a str) -> bool { r@ == self@ } #[verifier::external_body] fn vx_as_ref(self) -> (r: &'a str) { unimplemented!() } }
trait Stemmer: Send + Sync { spec fn stemmed(&self, v: Seq<char>) -> Seq<char>; fn stem(&self, value: &str) -> (r: String) ensures r@ == self.stemmed(value@); }
trait WordClusterer: Send + Sync { spec fn cluster(&self, w: Seq<char>) -> Option<Seq<char>>; fn get_cluster(&self, word: &str) -> (r: Option<String>) ensures (match r { Some(x) => Some(x@), None => None }) == self.cluster(word@); }
type WordPair = (String, String);
/// std::cmp::min
fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
#item intent_classifier/featurizer.rs struct CooccurrenceVectorizer
#item intent_classifier/featurizer.rs struct TfidfVectorizer
#item models/intent_classifier.rs struct CooccurrenceVectorizerModel
#item models/intent_classifier.rs struct CooccurrenceVectorizerConfiguration
#item models/intent_classifier.rs struct TfidfVectorizerModel
#item models/intent_classifier.rs struct TfidfVectorizerConfiguration
#item models/intent_classifier.rs struct SklearnVectorizerModel
#import ents
#raw
// ---------------------------------------------------------------- C22
/// words that take part in pairs
spec fn keeps(v: CooccurrenceVectorizer) -> spec_fn(String) -> bool {
    |t: String| !(v.filter_stop_words && v.shared_resources.stop_words@.contains(t)) && v.unknown_words_replacement_string != Some(t)
}
/// the words at positions i < j are at most the window size apart
spec fn near(v: CooccurrenceVectorizer, i: int, j: int) -> bool { match v.window_size { Some(w) => j - i <= w, None => true } }
/// in text order or in alphabetical order
spec fn pair_of(v: CooccurrenceVectorizer, a: String, b: String) -> WordPair { if v.keep_order || before(a@, b@) { (a, b) } else { (b, a) } }
spec fn paired(v: CooccurrenceVectorizer, kept: Seq<String>, i: int, j: int, p: WordPair) -> bool { 0 <= i < j < kept.len() && near(v, i, j) && p == pair_of(v, kept[i], kept[j]) }
spec fn is_pair(v: CooccurrenceVectorizer, kept: Seq<String>, p: WordPair) -> bool { exists|i: int, j: int| #[trigger] paired(v, kept, i, j, p) }
spec fn end_of(v: CooccurrenceVectorizer, n: int, i: int) -> int { match v.window_size { Some(w) => if i + w + 1 <= n { i + w + 1 } else { n }, None => n } }
/// the pairs that start at word i
spec fn row(v: CooccurrenceVectorizer, kept: Seq<String>, i: int) -> Seq<WordPair> { Seq::new((end_of(v, kept.len() as int, i) - i - 1) as nat, |k: int| pair_of(v, kept[i], kept[i + 1 + k])) }
proof fn lemma_rows(v: CooccurrenceVectorizer, kept: Seq<String>, o: Seq<It<WordPair>>, n: int)
    requires 0 <= n <= kept.len(), o.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] o[i])@ == row(v, kept, i)
    ensures forall|p: WordPair| #[trigger] flat_elems::<WordPair, It<WordPair>>(o).contains(p) <==> exists|i: int, j: int| i < n && #[trigger] paired(v, kept, i, j, p)
    decreases n
{
    if n > 0 {
        let q = o.drop_last();
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] q[i])@ == row(v, kept, i) by { assert(q[i] == o[i]); }
        lemma_rows(v, kept, q, n - 1);
        let (a, b, f) = (flat_elems::<WordPair, It<WordPair>>(q), row(v, kept, n - 1), flat_elems::<WordPair, It<WordPair>>(o));
        assert(o.last() == o[n - 1]);
        assert(f =~= a + b);
        assert forall|p: WordPair| #[trigger] f.contains(p) <==> exists|i: int, j: int| i < n && #[trigger] paired(v, kept, i, j, p) by {
            if f.contains(p) {
                let k = choose|k: int| 0 <= k < f.len() && f[k] == p;
                if k < a.len() { assert(a[k] == p); assert(a.contains(p)); }
                else { assert(b[k - a.len()] == p); assert(paired(v, kept, n - 1, n + (k - a.len()), p)); }
            }
            if exists|i: int, j: int| i < n && #[trigger] paired(v, kept, i, j, p) {
                let (i, j) = choose|i: int, j: int| i < n && #[trigger] paired(v, kept, i, j, p);
                if i < n - 1 { assert(a.contains(p)); let k = choose|k: int| 0 <= k < a.len() && a[k] == p; assert(f[k] == p); }
                else { assert(b[j - n] == p); assert(f[a.len() + (j - n)] == p); }
            }
        }
    } else {
        assert forall|p: WordPair, i: int, j: int| i < n implies !#[trigger] paired(v, kept, i, j, p) by { }
    }
}
proof fn lemma_pick_len<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures pick(s, p).len() <= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_pick_len(s.drop_last(), p); } }
#fn intent_classifier/featurizer.rs CooccurrenceVectorizer::extract_word_pairs ord
#ret r
#spec
requires tokens@.len() < usize::MAX
ensures forall|p: WordPair| #[trigger] r@.contains(p) <==> is_pair(*self, pick(tokens@, keeps(*self)), p)
#closure 0 |t: &String| -> (b: bool)
ensures b == keeps(*self)(*t)
#closure 1 |vx_p: (usize, &String)| -> (o: It<WordPair>)
requires vx_p.0 < filtered_tokens@.len(), *vx_p.1 == filtered_tokens@[vx_p.0 as int]
ensures o@ == row(*self, filtered_tokens@, vx_p.0 as int)
#closure 2 |window_size: usize| -> (m: usize)
requires i + 1 <= num_tokens, num_tokens < usize::MAX
ensures m == (if i + window_size + 1 <= num_tokens { (i + window_size + 1) as usize } else { num_tokens })
#closure 3 |other: &String| -> (p: WordPair)
ensures p == pair_of(*self, *t, *other)
#at after-let num_tokens
let ghost kept = filtered_tokens@;
proof {
    let (s, keep) = choose|s: Seq<String>, keep: spec_fn(int) -> bool| s == tokens@ && #[trigger] sel(s, keep) == kept && forall|i: int| #![trigger s[i]] #![trigger keep(i)] 0 <= i < s.len() ==> keep(i) == keeps(*self)(s[i]);
    lemma_sel_pick(s, keep, keeps(*self));
    lemma_pick_len(tokens0, keeps(*self));
}
#at entry
let ghost tokens0 = tokens@;
#at closure 1 tail vx_o
proof { assert(vx_o@ =~= row(*self, kept, i as int)); }
#at tail vx_r
proof {
    let o = choose|o: Seq<It<WordPair>>| #[trigger] flat_elems::<WordPair, It<WordPair>>(o).to_set() == vx_r@ && o.len() == kept.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i])@ == row(*self, kept, i);
    lemma_rows(*self, kept, o, o.len() as int);
    let f = flat_elems::<WordPair, It<WordPair>>(o);
    assert forall|p: WordPair| #[trigger] vx_r@.contains(p) <==> is_pair(*self, kept, p) by {
        assert(f.to_set().contains(p) == f.contains(p));
        if is_pair(*self, kept, p) { let (i, j) = choose|i: int, j: int| #[trigger] paired(*self, kept, i, j, p); assert(i < o.len() && paired(*self, kept, i, j, p)); }
    }
}
#use utils replace_entities
#raw
/// what stands for an entity in the text the pairs are taken from
spec fn label(l: NluUtilsLanguage, name: Seq<char>) -> Seq<char> { upper(join_seq(light_tokens(name, l), Seq::empty())) }
spec fn label_fn(l: NluUtilsLanguage) -> spec_fn(Seq<char>) -> Seq<char> { |n: Seq<char>| label(l, n) }
/// the entities both parsers find in the text are replaced; toks are the words of the outcome
spec fn seen(v: CooccurrenceVectorizer, text: Seq<char>, b: Result<Vec<BuiltinEntity>>, c: Result<Vec<CustomEntity>>, kept: Seq<MatchedEntity>, toks: Seq<String>) -> bool {
    &&& v.shared_resources.builtin_entity_parser.answers(text, Some(v.builtin_entity_scope@), 0, b) && b is Ok
    &&& v.shared_resources.custom_entity_parser.answers(text, None, 0, c) && c is Ok
    &&& ent_sel(of_builtins(b->Ok_0@) + of_customs(c->Ok_0@), kept) && disjoint_in_order(text, kept)
    &&& views(toks) == light_tokens(rep_full(text, kept, label_fn(v.language)), v.language)
}
spec fn has_pair_at(v: CooccurrenceVectorizer, kept: Seq<String>, i: int) -> bool { exists|p: WordPair| #[trigger] is_pair(v, kept, p) && v.word_pairs@.contains_key(p) && v.word_pairs@[p] == i }
/// 1 at the index of each known extracted pair, 0 elsewhere
spec fn pair_vector(v: CooccurrenceVectorizer, toks: Seq<String>, r: Seq<f32>) -> bool {
    r.len() == v.word_pairs@.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (if has_pair_at(v, pick(toks, keeps(v)), i) { 1.0f32 } else { 0.0f32 })
}
spec fn upto_at(v: CooccurrenceVectorizer, s: Seq<WordPair>, k: int, i: int) -> bool { exists|q: int| 0 <= q < k && v.word_pairs@.contains_key(#[trigger] s[q]) && v.word_pairs@[s[q]] == i }
spec fn lists_pairs(v: CooccurrenceVectorizer, words: Seq<String>, s: Seq<WordPair>) -> bool { forall|p: WordPair| #[trigger] s.contains(p) <==> is_pair(v, words, p) }
spec fn short(v: CooccurrenceVectorizer, name: Seq<char>, n: int) -> bool { label(v.language, name).len() <= room(n) }
/// the indices of the pairs are in range
impl CooccurrenceVectorizer { #[verifier::type_invariant] spec fn vx_inv(&self) -> bool { wf_pairs(*self) } }
spec fn wf_pairs(v: CooccurrenceVectorizer) -> bool { forall|p: WordPair| #[trigger] v.word_pairs@.contains_key(p) ==> v.word_pairs@[p] < v.word_pairs@.len() }
/// the parsers report proper ranges and entities with labels that fit (text of n characters)
spec fn wf_cooc(v: CooccurrenceVectorizer, n: int) -> bool {
    &&& sane_builtin(v.shared_resources.builtin_entity_parser) && sane_custom(v.shared_resources.custom_entity_parser)
    &&& forall|s: Seq<char>, k: Option<Seq<BuiltinEntityKind>>, m: usize, r: Result<Vec<BuiltinEntity>>| #[trigger] v.shared_resources.builtin_entity_parser.answers(s, k, m, r) && r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> short(v, #[trigger] kind_id(r->Ok_0@[i].entity_kind), n)
    &&& forall|s: Seq<char>, k: Option<Seq<String>>, m: usize, r: Result<Vec<CustomEntity>>| #[trigger] v.shared_resources.custom_entity_parser.answers(s, k, m, r) && r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> short(v, (#[trigger] r->Ok_0@[i]).entity_identifier@, n)
}
#fn intent_classifier/featurizer.rs CooccurrenceVectorizer::placeholder_fn
#ret r
#spec
ensures r@ == label(self.language, entity_kind@)
#at entry
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
#raw
spec fn cooc_out(v: CooccurrenceVectorizer, u: Seq<char>, r: Seq<f32>) -> bool { exists|b: Result<Vec<BuiltinEntity>>, c: Result<Vec<CustomEntity>>, kept: Seq<MatchedEntity>, toks: Seq<String>| #[trigger] seen(v, u, b, c, kept, toks) && pair_vector(v, toks, r) }
#fn intent_classifier/featurizer.rs CooccurrenceVectorizer::transform
#ret r
#spec
requires wf_cooc(*self, utterance@.len() as int), utterance@.len() <= i32::MAX
ensures r is Ok ==> cooc_out(*self, utterance@, r->Ok_0@)
#at entry
proof { use_type_invariant(self); assert(wf_pairs(*self)); }
#closure 0 |entity: BuiltinEntity| -> (m: MatchedEntity)
ensures m == of_builtin(entity)
#closure 1 |entity: CustomEntity| -> (m: MatchedEntity)
ensures m == of_custom(entity)
#closure 2 |ent_kind: &str| -> (l: String)
ensures l@ == label(self.language, ent_kind@)
#at after-let builtin_entities
let ghost b = core::result::Result::<Vec<BuiltinEntity>, VxError>::Ok(builtin_entities);
proof { assert(self.shared_resources.builtin_entity_parser.answers(utterance@, Some(self.builtin_entity_scope@), 0, b)); }
#at after-let custom_entities
let ghost c = core::result::Result::<Vec<CustomEntity>, VxError>::Ok(custom_entities);
proof { assert(self.shared_resources.custom_entity_parser.answers(utterance@, None, 0, c)); }
#at before-let enriched_utterance
let ghost items = matched_entities@;
proof {
    let n = utterance@.len() as int;
    lemma_room(n);
    assert(items =~= of_builtins(b->Ok_0@) + of_customs(c->Ok_0@));
    assert forall|i: int| 0 <= i < items.len() implies short(*self, (#[trigger] items[i]).entity_name@, n) by {
        let (bs, cs) = (b->Ok_0@, c->Ok_0@);
        if i < bs.len() { assert(short(*self, kind_id(bs[i].entity_kind), n)); assert(items[i] == of_builtin(bs[i])); } else { let j = i - bs.len(); assert(short(*self, cs[j].entity_identifier@, n)); assert(items[i] == of_custom(cs[j])); }
    }
}
#at after-let tokens
let ghost toks = tokens@;
let ghost kept = choose|kept: Seq<MatchedEntity>| #[trigger] ent_sel(items, kept) && disjoint_in_order(utterance@, kept) && enriched_utterance@ == rep_full(utterance@, kept, label_fn(self.language));
proof { assert(seen(*self, utterance@, b, c, kept, toks)); }
#loop 0
invariant lists_pairs(*self, pick(toks, keeps(*self)), vx_s0), features@.len() == self.word_pairs@.len(), forall|i: int| 0 <= i < features@.len() ==> #[trigger] features@[i] == (if upto_at(*self, vx_s0, vx_k0, i) { 1.0f32 } else { 0.0f32 })
#at loop 0 before
proof { assert(features@.len() == self.word_pairs@.len()); }
#at loop 0 end
proof {
    let k = vx_k0 - 1;
    assert forall|i: int| 0 <= i < features@.len() implies #[trigger] features@[i] == (if upto_at(*self, vx_s0, vx_k0, i) { 1.0f32 } else { 0.0f32 }) by {
        if upto_at(*self, vx_s0, k, i) { let q = choose|q: int| 0 <= q < k && self.word_pairs@.contains_key(#[trigger] vx_s0[q]) && self.word_pairs@[vx_s0[q]] == i; assert(upto_at(*self, vx_s0, vx_k0, i)); }
        if upto_at(*self, vx_s0, vx_k0, i) { let q = choose|q: int| 0 <= q < vx_k0 && self.word_pairs@.contains_key(#[trigger] vx_s0[q]) && self.word_pairs@[vx_s0[q]] == i; if q < k { assert(upto_at(*self, vx_s0, k, i)); } }
    }
}
#at loop 0 start
let ghost f0 = features@;
#at loop 0 after
proof {
    let words = pick(toks, keeps(*self));
    let s = choose|s: Seq<WordPair>| #[trigger] lists_pairs(*self, words, s) && forall|i: int| 0 <= i < features@.len() ==> #[trigger] features@[i] == (if upto_at(*self, s, s.len() as int, i) { 1.0f32 } else { 0.0f32 });
    assert forall|i: int| 0 <= i < features@.len() implies #[trigger] features@[i] == (if has_pair_at(*self, words, i) { 1.0f32 } else { 0.0f32 }) by {
        if upto_at(*self, s, s.len() as int, i) { let q = choose|q: int| 0 <= q < s.len() && self.word_pairs@.contains_key(#[trigger] s[q]) && self.word_pairs@[s[q]] == i; assert(s.contains(s[q])); assert(is_pair(*self, words, s[q])); }
        if has_pair_at(*self, words, i) { let p = choose|p: WordPair| #[trigger] is_pair(*self, words, p) && self.word_pairs@.contains_key(p) && self.word_pairs@[p] == i; assert(s.contains(p)); let q = choose|q: int| 0 <= q < s.len() && s[q] == p; assert(self.word_pairs@.contains_key(s[q])); }
    }
}
#at end
proof { 
    assert(pair_vector(*self, toks, features@)); }
#raw
/// every entry of a collected map is one of the pairs, and every key of a pair is in the map
proof fn lemma_pairs_any<K, V>(s: Seq<(K, V)>)
    ensures forall|k: K| #[trigger] pairs_map(s).contains_key(k) ==> s.contains((k, pairs_map(s)[k])), forall|i: int| 0 <= i < s.len() ==> pairs_map(s).contains_key((#[trigger] s[i]).0)
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_pairs_any(p);
        assert forall|k: K| #[trigger] pairs_map(s).contains_key(k) implies s.contains((k, pairs_map(s)[k])) by {
            if k == s.last().0 { assert(s[s.len() - 1] == (k, pairs_map(s)[k])); } else { assert(pairs_map(p).contains_key(k)); let i = choose|i: int| 0 <= i < p.len() && p[i] == (k, pairs_map(p)[k]); assert(s[i] == (k, pairs_map(s)[k])); }
        }
        assert forall|i: int| 0 <= i < s.len() implies pairs_map(s).contains_key((#[trigger] s[i]).0) by { if i < p.len() { assert(p[i] == s[i]); } }
    }
}
/// r gives each pair of m one of its indices
spec fn inverted(m: Map<usize, WordPair>, r: Map<WordPair, usize>) -> bool {
    &&& forall|p: WordPair| #[trigger] r.contains_key(p) ==> m.contains_key(r[p]) && m[r[p]] == p
    &&& forall|i: usize| #[trigger] m.contains_key(i) ==> r.contains_key(m[i])
}
spec fn kinds_are(ids: Seq<String>, ks: Seq<BuiltinEntityKind>) -> bool { ks.len() == ids.len() && forall|i: int| 0 <= i < ids.len() ==> #[trigger] kind_of(ids[i]@) == Some(ks[i]) }
spec fn language_is(code: Seq<char>, l: NluUtilsLanguage) -> bool { match language_of(code) { Some(x) => l == nlu_language(x), None => false } }
spec fn cooc_built(m: CooccurrenceVectorizerModel, v: CooccurrenceVectorizer) -> bool {
    &&& v.filter_stop_words == m.config.filter_stop_words && v.window_size == m.config.window_size && v.keep_order == m.config.keep_order
    &&& v.unknown_words_replacement_string == m.config.unknown_words_replacement_string
    &&& kinds_are(m.builtin_entity_scope@, v.builtin_entity_scope@) && language_is(m.language_code@, v.language)
    &&& inverted(m.word_pairs@, v.word_pairs@)
}
#fn intent_classifier/featurizer.rs CooccurrenceVectorizer::new
#ret r
#spec
ensures r is Ok ==> cooc_built(model, r->Ok_0) && wf_pairs(r->Ok_0) && r->Ok_0.shared_resources == shared_resources
#closure 0 |ent: &String| -> (k: Result<BuiltinEntityKind>)
ensures (match k { Ok(x) => Some(x), Err(_) => None }) == kind_of(ent@)
#closure 2 |vx_p: (usize, WordPair)| -> (o: (WordPair, usize))
ensures o.0 == vx_p.1, o.1 == vx_p.0
#closure 3 |index: &usize| -> (b: bool)
ensures b == (*index >= word_pairs@.len())
#at after-let builtin_entity_scope
proof { assert(kinds_are(model.builtin_entity_scope@, builtin_entity_scope@)); }
#at before-let word_pairs
let ghost m = model.word_pairs@;
#at tail vx_r
proof { if vx_r is Ok {
    let wp = vx_r->Ok_0.word_pairs@;
    let (l, s) = choose|l: Seq<(usize, WordPair)>, s: Seq<(WordPair, usize)>| #[trigger] lists_map(l, m) && #[trigger] pairs_map(s) == wp && s.len() == l.len() && forall|i: int| #![trigger l[i]] #![trigger s[i]] 0 <= i < s.len() ==> s[i] == (l[i].1, l[i].0);
    lemma_pairs_any(s);
    assert forall|i: usize| #[trigger] m.contains_key(i) implies wp.contains_key(m[i]) by { let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).0 == i; assert(s[j].0 == m[i]); }
    assert forall|p: WordPair| #[trigger] wp.contains_key(p) implies m.contains_key(wp[p]) && m[wp[p]] == p by { assert(s.contains((p, wp[p]))); let j = choose|j: int| 0 <= j < s.len() && s[j] == (p, wp[p]); assert(l[j].0 == wp[p]); }
    assert(inverted(m, wp));
} }
#raw
// ---------------------------------------------------------------- C21
spec fn stem_of(st: Option<Arc<dyn Stemmer>>, v: Seq<char>) -> Seq<char> { match st { Some(s) => s.stemmed(normal(v)), None => normal(v) } }
spec fn stems(st: Option<Arc<dyn Stemmer>>, t: Seq<Seq<char>>, r: Seq<String>) -> bool { r.len() == t.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == stem_of(st, t[i]) }
#fn intent_classifier/featurizer.rs normalize_stem
#ret r
#spec
ensures stems(opt_stemmer, views(tokens@), r@)
#closure 0 |stemmer: Arc<dyn Stemmer>| -> (o: Vec<String>)
ensures stems(Some(stemmer), views(tokens@), o@)
#closure 1 |t: &String| -> (x: String)
ensures x@ == stemmer.stemmed(normal(t@))
#closure 2 || -> (o: Vec<String>)
ensures stems(None, views(tokens@), o@)
#closure 3 |t: &String| -> (x: String)
ensures x@ == normal(t@)
#raw
uninterp spec fn ngrams_of(t: Seq<Seq<char>>, n: int) -> Seq<Seq<char>>;
spec fn first_views(s: Seq<(String, Vec<usize>)>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].0@) }
/// snips_nlu_utils::token::compute_all_ngrams
#[verifier::external_body]
fn compute_all_ngrams(tokens: &[&str], n: usize) -> (r: Vec<(String, Vec<usize>)>) ensures first_views(r@) == ngrams_of(str_views(tokens@), n as int) { unimplemented!() }
/// the clusters of the lowercased n-grams of the words
spec fn cluster_outs(c: Arc<dyn WordClusterer>, g: Seq<Seq<char>>, o: Seq<Option<String>>) -> bool { o.len() == g.len() && forall|i: int| 0 <= i < o.len() ==> (match #[trigger] o[i] { Some(x) => Some(x@), None => None }) == c.cluster(lower(g[i])) }
spec fn clusters_of(c: Arc<dyn WordClusterer>, t: Seq<Seq<char>>, r: Seq<String>) -> bool { exists|o: Seq<Option<String>>| #[trigger] cluster_outs(c, ngrams_of(t, t.len() as int), o) && is_perm(somes(o), r) }
#fn intent_classifier/featurizer.rs get_word_clusters
#ret r
#spec
ensures clusters_of(word_clusterer, views(query_tokens@), r@)
#closure 0 |t: &String| -> (x: &str)
ensures x@ == t@
#closure 1 |ngram: (String, Vec<usize>)| -> (x: Option<String>)
ensures (match x { Some(x) => Some(x@), None => None }) == word_clusterer.cluster(lower(ngram.0@))
#at after-let tokens_ref
proof { assert(str_views(tokens_ref@) =~= views(query_tokens@)); }
#at tail vx_r
proof {
    let g = ngrams_of(views(query_tokens@), query_tokens@.len() as int);
    let (s, o) = choose|s: Seq<(String, Vec<usize>)>, o: Seq<Option<String>>| #[trigger] first_views(s) == g && is_perm(#[trigger] somes(o), vx_r@) && o.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger o[i]] 0 <= i < s.len() ==> (match o[i] { Some(x) => Some(x@), None => None }) == word_clusterer.cluster(lower(s[i].0@));
    assert forall|i: int| 0 <= i < o.len() implies (match #[trigger] o[i] { Some(x) => Some(x@), None => None }) == word_clusterer.cluster(lower(g[i])) by { assert(g[i] == s[i].0@); }
    assert(cluster_outs(word_clusterer, g, o));
}
#fn intent_classifier/featurizer.rs get_builtin_entity_feature_name
#ret r
#spec
ensures r@ == builtin_name(entity_kind, language)
#fn intent_classifier/featurizer.rs get_custom_entity_feature_name
#ret r
#spec
ensures r@ == custom_name(entity_name@, language)
#raw
spec fn compact(v: Seq<char>, l: NluUtilsLanguage) -> Seq<char> { join_seq(light_tokens(lower(v), l), ""@) }
spec fn builtin_name(k: BuiltinEntityKind, l: NluUtilsLanguage) -> Seq<char> { "builtinentityfeature"@ + compact(kind_id(k), l) }
spec fn custom_name(n: Seq<char>, l: NluUtilsLanguage) -> Seq<char> { "entityfeature"@ + compact(n, l) }

spec fn builtin_names(b: Seq<BuiltinEntity>, l: NluUtilsLanguage, r: Seq<String>) -> bool { r.len() == b.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == builtin_name(b[i].entity_kind, l) }
spec fn custom_names(c: Seq<CustomEntity>, l: NluUtilsLanguage, r: Seq<String>) -> bool { r.len() == c.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == custom_name(c[i].entity_identifier@, l) }
spec fn builtin_words(v: TfidfVectorizer, text: Seq<char>, r: Seq<String>) -> bool {
    exists|b: Result<Vec<BuiltinEntity>>, n: Seq<String>| #[trigger] v.shared_resources.builtin_entity_parser.answers(text, Some(v.builtin_entity_scope@), 0, b) && b is Ok && #[trigger] builtin_names(b->Ok_0@, v.language, n) && is_perm(n, r)
}
spec fn custom_words(v: TfidfVectorizer, words: Seq<String>, r: Seq<String>) -> bool {
    exists|c: Result<Vec<CustomEntity>>| #[trigger] v.shared_resources.custom_entity_parser.answers(join_seq(views(words), " "@), None, 0, c) && c is Ok && custom_names(c->Ok_0@, v.language, r)
}
spec fn cluster_words(v: TfidfVectorizer, toks: Seq<Seq<char>>, r: Seq<String>) -> bool { match v.word_clusterer { Some(c) => clusters_of(c, toks, r), None => r.len() == 0 } }
/// the words of the text, the entities found in it and its word clusters
spec fn extracted(v: TfidfVectorizer, text: Seq<char>, f: Seq<Vec<String>>) -> bool {
    let toks = light_tokens(text, v.language);
    f.len() == 4 && stems(v.stemmer, toks, f[0]@) && builtin_words(v, text, f[1]@) && custom_words(v, f[0]@, f[2]@) && cluster_words(v, toks, f[3]@)
}
/// occurrences, among the first k words, of words with index i
spec fn nhits(voc: Map<String, usize>, w: Seq<String>, k: int, i: int) -> nat
    decreases k
{ if k <= 0 { 0 } else { nhits(voc, w, k - 1, i) + (if voc.contains_key(w[k - 1]) && voc[w[k - 1]] == i { 1nat } else { 0 }) } }
/// occurrences in the first n lists
spec fn all_hits(voc: Map<String, usize>, f: Seq<Vec<String>>, n: int, i: int) -> nat
    decreases n
{ if n <= 0 { 0 } else { all_hits(voc, f, n - 1, i) + nhits(voc, f[n - 1]@, f[n - 1]@.len() as int, i) } }
/// 1 added n times
spec fn ones(n: nat) -> f32
    decreases n
{ if n == 0 { 0.0f32 } else { fadd(ones((n - 1) as nat), 1.0f32) } }
spec fn raw_at(v: TfidfVectorizer, f: Seq<Vec<String>>, i: int) -> f32 { let n = all_hits(v.vocabulary@, f, 4, i); if n == 0 { 0.0f32 } else { fmul(ones(n), v.idf_diag@[i]) } }
spec fn squares(s: Seq<f32>, k: int) -> f32
    decreases k
{ if k <= 0 { 0.0f32 } else { fadd(squares(s, k - 1), fmul(s[k - 1], s[k - 1])) } }
/// the Euclidean norm, or 1 if it is zero (or not a number)
spec fn divisor(s: Seq<f32>) -> f32 { let n = fsqrt(squares(s, s.len() as int)); if fpos(n) { n } else { 1.0f32 } }
/// one component per vocabulary index
spec fn dims(voc: Map<String, usize>, n: int) -> bool {
    &&& forall|w: String| #[trigger] voc.contains_key(w) ==> voc[w] < n
    &&& n == 0 || exists|w: String| #[trigger] voc.contains_key(w) && voc[w] == n - 1
}
spec fn tfidf(v: TfidfVectorizer, f: Seq<Vec<String>>, raw: Seq<f32>, r: Seq<f32>) -> bool {
    &&& raw.len() == r.len() && dims(v.vocabulary@, r.len() as int)
    &&& forall|i: int| 0 <= i < r.len() ==> #[trigger] raw[i] == raw_at(v, f, i)
    &&& forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == fdiv(raw[i], divisor(raw))
    // words that are not there contribute nothing
    &&& forall|i: int| 0 <= i < r.len() && all_hits(v.vocabulary@, f, 4, i) == 0 ==> #[trigger] r[i] == 0.0f32
}
/// the occurrences in the first n lists are counted
#[verifier::opaque]
spec fn counted(voc: Map<String, usize>, f: Seq<Vec<String>>, n: int, c: Seq<f32>, m: Set<usize>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == ones(all_hits(voc, f, n, i))
    &&& forall|x: usize| #[trigger] m.contains(x) <==> x < c.len() && all_hits(voc, f, n, x as int) > 0
}
spec fn so_far(voc: Map<String, usize>, f: Seq<Vec<String>>, n: int, k: int, i: int) -> nat { all_hits(voc, f, n, i) + nhits(voc, f[n]@, k, i) }
#[verifier::opaque]
spec fn counting(voc: Map<String, usize>, f: Seq<Vec<String>>, n: int, k: int, c: Seq<f32>, m: Set<usize>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == ones(so_far(voc, f, n, k, i))
    &&& forall|x: usize| #[trigger] m.contains(x) <==> x < c.len() && so_far(voc, f, n, k, x as int) > 0
}
proof fn lemma_count_none(voc: Map<String, usize>, f: Seq<Vec<String>>, c: Seq<f32>, m: Set<usize>)
    requires forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == 0.0f32, m =~= Set::<usize>::empty()
    ensures counted(voc, f, 0, c, m)
{ reveal(counted); }
proof fn lemma_count_start(voc: Map<String, usize>, f: Seq<Vec<String>>, n: int, c: Seq<f32>, m: Set<usize>)
    requires counted(voc, f, n, c, m)
    ensures counting(voc, f, n, 0, c, m)
{
    reveal(counted); reveal(counting);
    assert forall|i: int| true implies #[trigger] so_far(voc, f, n, 0, i) == all_hits(voc, f, n, i) by { assert(nhits(voc, f[n]@, 0, i) == 0); }
}
proof fn lemma_count_end(voc: Map<String, usize>, f: Seq<Vec<String>>, n: int, c: Seq<f32>, m: Set<usize>)
    requires 0 <= n < f.len(), counting(voc, f, n, f[n]@.len() as int, c, m)
    ensures counted(voc, f, n + 1, c, m)
{
    reveal(counted); reveal(counting);
    assert forall|i: int| true implies #[trigger] all_hits(voc, f, n + 1, i) == so_far(voc, f, n, f[n]@.len() as int, i) by { }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] == ones(all_hits(voc, f, n + 1, i)) by { assert(all_hits(voc, f, n + 1, i) == so_far(voc, f, n, f[n]@.len() as int, i)); }
}
proof fn lemma_count_step(voc: Map<String, usize>, f: Seq<Vec<String>>, n: int, k: int, c: Seq<f32>, m: Set<usize>, c2: Seq<f32>, m2: Set<usize>)
    requires counting(voc, f, n, k, c, m), 0 <= n < f.len(), 0 <= k < f[n]@.len(), ({ let w = f[n]@[k];
        if voc.contains_key(w) { voc[w] < c.len() && c2 == c.update(voc[w] as int, fadd(c[voc[w] as int], 1.0f32)) && m2 == m.insert(voc[w]) } else { c2 == c && m2 == m } })
    ensures counting(voc, f, n, k + 1, c2, m2)
{
    reveal(counting);
    let w = f[n]@[k];
    assert forall|i: int| true implies #[trigger] so_far(voc, f, n, k + 1, i) == so_far(voc, f, n, k, i) + (if voc.contains_key(w) && voc[w] == i { 1nat } else { 0 }) by { }
    assert forall|i: int| 0 <= i < c2.len() implies #[trigger] c2[i] == ones(so_far(voc, f, n, k + 1, i)) by {
        let (a, b) = (so_far(voc, f, n, k, i), so_far(voc, f, n, k + 1, i));
        assert(c[i] == ones(a));
        if voc.contains_key(w) && voc[w] == i { assert(b == a + 1); assert((b - 1) as nat == a); } else { assert(b == a); }
    }
    assert forall|x: usize| #[trigger] m2.contains(x) <==> x < c2.len() && so_far(voc, f, n, k + 1, x as int) > 0 by { assert(m.contains(x) <==> x < c.len() && so_far(voc, f, n, k, x as int) > 0); }
}
/// the components at the first k indices of x are weighted
spec fn weighted(c: Seq<f32>, idf: Seq<f32>, x: Seq<usize>, k: int, r: Seq<f32>) -> bool {
    forall|i: int| 0 <= i < c.len() ==> #[trigger] r[i] == (if done(x, k, i) { fmul(c[i], idf[i]) } else { c[i] })
}
proof fn lemma_squares(s: Seq<f32>, a: Seq<f32>, k: int)
    requires 0 <= k <= s.len(), a.len() == s.len() + 1, a[0] == 0.0f32, forall|i: int| 0 <= i < s.len() ==> #[trigger] a[i + 1] == fadd(a[i], fmul(s[i], s[i]))
    ensures a[k] == squares(s, k)
    decreases k
{ if k > 0 { lemma_squares(s, a, k - 1); assert(a[(k - 1) + 1] == fadd(a[k - 1], fmul(s[k - 1], s[k - 1]))); } }
/// a counted index is the index of a word
proof fn lemma_some_word(v: TfidfVectorizer, f: Seq<Vec<String>>, n: int, i: int)
    requires wf_tfidf(v), all_hits(v.vocabulary@, f, n, i) > 0
    ensures i < v.idf_diag@.len()
    decreases n
{ if n > 0 { if all_hits(v.vocabulary@, f, n - 1, i) > 0 { lemma_some_word(v, f, n - 1, i); } else { lemma_some_in(v, f[n - 1]@, f[n - 1]@.len() as int, i); } } }
proof fn lemma_some_in(v: TfidfVectorizer, w: Seq<String>, k: int, i: int)
    requires wf_tfidf(v), nhits(v.vocabulary@, w, k, i) > 0
    ensures i < v.idf_diag@.len()
    decreases k
{ if k > 0 { if nhits(v.vocabulary@, w, k - 1, i) > 0 { lemma_some_in(v, w, k - 1, i); } } }
spec fn done(x: Seq<usize>, k: int, i: int) -> bool { exists|q: int| 0 <= q < k && #[trigger] x[q] == i }
/// every vocabulary index has a weight
impl TfidfVectorizer { #[verifier::type_invariant] spec fn vx_inv(&self) -> bool { wf_tfidf(*self) } }
spec fn wf_tfidf(v: TfidfVectorizer) -> bool { forall|w: String| #[trigger] v.vocabulary@.contains_key(w) ==> v.vocabulary@[w] < v.idf_diag@.len() }
spec fn tfidf_out(v: TfidfVectorizer, u: Seq<char>, r: Seq<f32>) -> bool { exists|f: Seq<Vec<String>>, raw: Seq<f32>| #[trigger] extracted(v, u, f) && #[trigger] tfidf(v, f, raw, r) }
#fn intent_classifier/featurizer.rs TfidfVectorizer::transform float
#ret r
#spec
ensures r is Ok ==> tfidf_out(*self, utterance@, r->Ok_0@)
#at entry
proof { use_type_invariant(self); assert(wf_tfidf(*self)); }
#closure 0 |ent: &BuiltinEntity| -> (x: String)
ensures x@ == builtin_name(ent.entity_kind, self.language)
#closure 1 |ent: CustomEntity| -> (x: String)
ensures x@ == custom_name(ent.entity_identifier@, self.language)
#closure 2 |clusterer: Arc<dyn WordClusterer>| -> (x: Vec<String>)
ensures clusters_of(clusterer, views(tokens@), x@)
#closure 3 || -> (x: Vec<String>)
ensures x@.len() == 0
#closure 4 |max: &usize| -> (x: usize)
requires *max < usize::MAX
ensures x == *max + 1
#closure 5 |norm: f32, v: &f32| -> (x: f32)
ensures x == fadd(norm, fmul(*v, *v))
#closure 6 |c: &f32| -> (x: f32)
ensures x == fdiv(*c, safe_l2_norm)
#at after-let builtin_entities
let ghost b = core::result::Result::<Vec<BuiltinEntity>, VxError>::Ok(builtin_entities);
#at after-let custom_entities
let ghost c = core::result::Result::<Vec<CustomEntity>, VxError>::Ok(custom_entities);
#at after-let builtin_entities_features
proof {
    let n = choose|n: Seq<String>| #[trigger] is_perm(n, builtin_entities_features@) && builtin_names(b->Ok_0@, self.language, n);
    assert(self.shared_resources.builtin_entity_parser.answers(utterance@, Some(self.builtin_entity_scope@), 0, b));
    assert(builtin_words(*self, utterance@, builtin_entities_features@));
}
#at after-let custom_entities_features
proof { assert(custom_names(c->Ok_0@, self.language, custom_entities_features@)); assert(custom_words(*self, normalized_tokens@, custom_entities_features@)); }
#at after-let features_it
let ghost f = features_it@;
proof { assert(extracted(*self, utterance@, f)); }
#at after-let vocabulary_size
let ghost voc = self.vocabulary@;
proof { assert(dims(voc, vocabulary_size as int)); }
#at loop 0 before
proof { lemma_count_none(voc, f, features@, match_idx@); }
#at loop 0 start
proof { lemma_count_start(voc, f, vx_k0 - 1, features@, match_idx@); }
#at loop 0 end
proof { lemma_count_end(voc, f, vx_k0 - 1, features@, match_idx@); }
#at loop 1 start
let ghost (c0, m0) = (features@, match_idx@);
#at loop 1 end
proof { lemma_count_step(voc, f, vx_k0 - 1, vx_k1 - 1, c0, m0, features@, match_idx@); }
#loop 0
invariant vx_s0 == refs::<Vec<String>>(f), features@.len() == vocabulary_size, counted(voc, f, vx_k0, features@, match_idx@)
#loop 1
invariant vx_s1 == refs::<String>(f[vx_k0 - 1]@), features@.len() == vocabulary_size, counting(voc, f, vx_k0 - 1, vx_k1, features@, match_idx@)
#at loop 2 before
let ghost cnt = features@;
let ghost idx = match_idx@;
proof { assert(counted(voc, f, 4, cnt, idx)); reveal(counted); }
#loop 2
invariant features@.len() == vocabulary_size, forall|i: usize| #[trigger] vx_s2.contains(i) <==> idx.contains(i), vx_s2.no_duplicates(), weighted(cnt, self.idf_diag@, vx_s2, vx_k2, features@)
#at loop 2 start
proof { assert(vx_s2.contains(vx_s2[vx_k2 - 1])); assert(idx.contains(vx_s2[vx_k2 - 1])); reveal(counted); lemma_some_word(*self, f, 4, vx_s2[vx_k2 - 1] as int); }
#at loop 2 after
proof {
    let s = choose|s: Seq<usize>| (forall|i: usize| #[trigger] s.contains(i) <==> idx.contains(i)) && #[trigger] weighted(cnt, self.idf_diag@, s, s.len() as int, features@);
    reveal(counted);
    assert forall|i: int| 0 <= i < features@.len() implies #[trigger] features@[i] == raw_at(*self, f, i) by {
        assert(cnt[i] == ones(all_hits(voc, f, 4, i)));
        if all_hits(voc, f, 4, i) > 0 { assert(idx.contains(i as usize)); assert(s.contains(i as usize)); let q = choose|q: int| 0 <= q < s.len() && s[q] == i as usize; assert(done(s, s.len() as int, i)); }
        else if done(s, s.len() as int, i) { let q = choose|q: int| 0 <= q < s.len() && #[trigger] s[q] == i; assert(s.contains(s[q])); }
    }
}
#at before-let l2_norm
let ghost raw = features@;
#at after-let l2_norm
proof {
    let a = choose|a: Seq<f32>| #[trigger] a.last() == a.last() && l2_norm == fsqrt(a.last()) && a.len() == raw.len() + 1 && a[0] == 0.0f32 && forall|i: int| 0 <= i < raw.len() ==> #[trigger] a[i + 1] == fadd(a[i], fmul(raw[i], raw[i]));
    lemma_squares(raw, a, raw.len() as int);
    assert(l2_norm == fsqrt(squares(raw, raw.len() as int)));
}
#at after-let safe_l2_norm
proof { assert(fpos(safe_l2_norm)); assert(safe_l2_norm == divisor(raw)); }
#at tail vx_r
proof { assert(tfidf(*self, f, raw, vx_r->Ok_0@)); assert(extracted(*self, utterance@, f)); assert(vx_r is Ok); assert(exists|f: Seq<Vec<String>>, raw: Seq<f32>| #[trigger] extracted(*self, utterance@, f) && #[trigger] tfidf(*self, f, raw, vx_r->Ok_0@)); }

#raw
spec fn tfidf_built(m: TfidfVectorizerModel, res: SharedResources, v: TfidfVectorizer) -> bool {
    &&& v.vocabulary == m.vectorizer.vocab && v.idf_diag == m.vectorizer.idf_diag
    &&& kinds_are(m.builtin_entity_scope@, v.builtin_entity_scope@) && language_is(m.language_code@, v.language)
    &&& v.stemmer == (if m.config.use_stemming { res.stemmer } else { None }) && (m.config.use_stemming ==> v.stemmer is Some)
    &&& match m.config.word_clusters_name { Some(n) => res.word_clusterers@.contains_key(n) && v.word_clusterer == Some(res.word_clusterers@[n]), None => v.word_clusterer is None }
}
#fn intent_classifier/featurizer.rs TfidfVectorizer::new
#ret r
#spec
ensures r is Ok ==> tfidf_built(model, *shared_resources, r->Ok_0) && wf_tfidf(r->Ok_0) && r->Ok_0.shared_resources == shared_resources
#closure 0 |word_idx: &usize| -> (b: bool)
ensures b == (*word_idx >= idf_diag@.len())
#closure 2 |ent: &String| -> (k: Result<BuiltinEntityKind>)
ensures (match k { Ok(x) => Some(x), Err(_) => None }) == kind_of(ent@)
#at after-let builtin_entity_scope
proof { assert(kinds_are(model.builtin_entity_scope@, builtin_entity_scope@)); }
#include nd
#include fs
#item intent_classifier/featurizer.rs struct Featurizer
#item models/intent_classifier.rs struct FeaturizerModel
#fn intent_classifier/featurizer.rs Featurizer::transform
#ret r
#spec
requires self.cooccurrence_vectorizer is Some ==> wf_cooc(self.cooccurrence_vectorizer->Some_0, input@.len() as int) && input@.len() <= i32::MAX
ensures r is Ok ==> exists|a: Seq<f32>, b: Seq<f32>| #[trigger] tfidf_out(self.tfidf_vectorizer, input@, a) && a1(r->Ok_0) == #[trigger] (a + b) && match self.cooccurrence_vectorizer { Some(v) => cooc_out(v, input@, b), None => b.len() == 0 }
#at after-let features
let ghost tf = features@;
proof { assert(tf + Seq::<f32>::empty() =~= tf); }
#raw
spec fn tfidf_loaded(path: Seq<char>, res: Arc<SharedResources>, v: TfidfVectorizer) -> bool { exists|m: TfidfVectorizerModel| #[trigger] json_of(path_join(path, "vectorizer.json"@), Ok::<TfidfVectorizerModel, VxError>(m)) && tfidf_built(m, *res, v) && v.shared_resources == res }
spec fn cooc_loaded(path: Seq<char>, res: Arc<SharedResources>, v: CooccurrenceVectorizer) -> bool { exists|m: CooccurrenceVectorizerModel| #[trigger] json_of(path_join(path, "vectorizer.json"@), Ok::<CooccurrenceVectorizerModel, VxError>(m)) && cooc_built(m, v) && v.shared_resources == res }
spec fn featurizer_loaded(path: Seq<char>, res: Arc<SharedResources>, f: Featurizer) -> bool { exists|m: FeaturizerModel| #[trigger] json_of(path_join(path, "featurizer.json"@), Ok::<FeaturizerModel, VxError>(m)) && tfidf_loaded(path_join(path, m.tfidf_vectorizer@), res, f.tfidf_vectorizer)
    && match m.cooccurrence_vectorizer { Some(n) => f.cooccurrence_vectorizer is Some && cooc_loaded(path_join(path, n@), res, f.cooccurrence_vectorizer->Some_0), None => f.cooccurrence_vectorizer is None } }
#fn intent_classifier/featurizer.rs TfidfVectorizer::from_path path
#ret r
#spec
ensures r is Ok ==> tfidf_loaded(path.pv(), shared_resources, r->Ok_0)
#fn intent_classifier/featurizer.rs CooccurrenceVectorizer::from_path path
#ret r
#spec
ensures r is Ok ==> cooc_loaded(path.pv(), shared_resources, r->Ok_0)
#fn intent_classifier/featurizer.rs Featurizer::from_path path
#ret r
#spec
ensures r is Ok ==> featurizer_loaded(path.pv(), shared_resources, r->Ok_0)
