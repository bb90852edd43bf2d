#include fs
#include token
#include io
#item resources/gazetteer.rs struct HashSetGazetteer
#item resources/stemmer.rs struct HashMapStemmer
#item resources/word_clusterer.rs struct HashMapWordClusterer
#raw
trait Stemmer: Send + Sync { spec fn stemmed(&self, v: Seq<char>) -> Seq<char>; fn stem(&self, value: &str) -> (r: String) ensures r@ == self.stemmed(value@); }
trait Gazetteer: Send + Sync { spec fn lists(&self, v: Seq<char>) -> bool; fn contains(&self, value: &str) -> (r: bool) ensures r == self.lists(value@); }
trait WordClusterer: Send + Sync { spec fn cluster(&self, w: Seq<char>) -> Option<Seq<char>>; fn get_cluster(&self, word: &str) -> (r: Option<String>) ensures (match r { Some(x) => Some(x@), None => None }) == self.cluster(word@); }
// ---------------------------------------------------------------- C31: lexical resources
use crate::io as csv;
use core::str::FromStr;
/// all the lines can be read
spec fn readable<T>(s: Seq<Result<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
/// some line among the first n is not empty and has this hash
spec fn line_hashed(s: Seq<Result<String>>, n: int, h: i32) -> bool { exists|i: int| 0 <= i < n && #[trigger] line_is(s, i, h) }
spec fn line_is(s: Seq<Result<String>>, i: int, h: i32) -> bool { s[i] is Ok && s[i]->Ok_0@.len() > 0 && hash_of(s[i]->Ok_0@) == h }
proof fn lemma_line_step(s: Seq<Result<String>>, n: int, h: i32)
    requires 0 <= n < s.len()
    ensures line_hashed(s, n + 1, h) <==> line_hashed(s, n, h) || line_is(s, n, h)
{
    if line_hashed(s, n, h) { let i = choose|i: int| 0 <= i < n && #[trigger] line_is(s, i, h); assert(0 <= i < n + 1); }
    if line_hashed(s, n + 1, h) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] line_is(s, i, h); if i < n { assert(line_hashed(s, n, h)); } }
    if line_is(s, n, h) { assert(0 <= n < n + 1); }
}
spec fn gazetteer_of(s: Seq<Result<String>>, v: Set<i32>) -> bool { forall|h: i32| #[trigger] v.contains(h) <==> line_hashed(s, s.len() as int, h) }
/// the hash does not confuse a word with a different line
spec fn no_collision(s: Seq<Result<String>>, w: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() && hash_of((#[trigger] s[i])->Ok_0@) == hash_of(w) ==> s[i]->Ok_0@ == w }
/// C31: the gazetteer loaded from a file contains a word exactly when a non-empty line of it is that word
proof fn lemma_gazetteer(s: Seq<Result<String>>, v: Set<i32>, w: Seq<char>)
    requires readable(s), gazetteer_of(s, v), no_collision(s, w)
    ensures v.contains(hash_of(w)) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])->Ok_0@ == w && w.len() > 0
{
    if v.contains(hash_of(w)) { assert(line_hashed(s, s.len() as int, hash_of(w))); let i = choose|i: int| 0 <= i < s.len() && #[trigger] line_is(s, i, hash_of(w)); assert(s[i]->Ok_0@ == w); }
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])->Ok_0@ == w && w.len() > 0 { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])->Ok_0@ == w && w.len() > 0; assert(line_is(s, i, hash_of(w))); assert(line_hashed(s, s.len() as int, hash_of(w))); }
}
#fn resources/gazetteer.rs HashSetGazetteer::from_reader
#ret r
#spec
ensures match r { Ok(g) => readable(lines_of(reader)) && gazetteer_of(lines_of(reader), g.values@), Err(_) => !readable(lines_of(reader)) }
#at entry
let ghost vx_r = reader;
#loop 0
invariant vx_s0 == lines_of(vx_r), forall|i: int| 0 <= i < vx_k0 ==> (#[trigger] vx_s0[i]) is Ok, forall|h: i32| #[trigger] values@.contains(h) <==> line_hashed(vx_s0, vx_k0 as int, h)
#at loop 0 end
proof { assert forall|h: i32| #[trigger] values@.contains(h) <==> line_hashed(vx_s0, vx_k0 as int, h) by { lemma_line_step(vx_s0, vx_k0 - 1, h); } }
#fn resources/gazetteer.rs HashSetGazetteer/Gazetteer::contains trait
#ret r
#impl
spec fn lists(&self, v: Seq<char>) -> bool { self.values@.contains(hash_of(v)) }

#raw
/// the words of the first n records, each with the stem of the (last) record listing it
spec fn record_map(stem: Seq<char>, words: Seq<Seq<char>>, m: Map<i32, Seq<char>>) -> Map<i32, Seq<char>>
    decreases words.len()
{ if words.len() == 0 { m } else { record_map(stem, words.drop_last(), m).insert(hash_of(words.last()), stem) } }
spec fn stem_map(s: Seq<Result<csv::StringRecord>>, n: int) -> Map<i32, Seq<char>>
    decreases n
{ if n <= 0 { Map::empty() } else { let r = s[n - 1]->Ok_0@; record_map(r[0], r.skip(1), stem_map(s, n - 1)) } }
spec fn same_text(m: Map<i32, String>, t: Map<i32, Seq<char>>) -> bool { m.dom() == t.dom() && forall|h: i32| #[trigger] m.contains_key(h) ==> m[h]@ == t[h] }
spec fn stems_csv() -> csv::Csv { csv::Csv { delimiter: 44u8, quoting: false, flexible: true, has_headers: false } }
/// the record lists this word (after its stem)
spec fn lists_word(r: Seq<Seq<char>>, w: Seq<char>) -> bool { exists|j: int| 1 <= j < r.len() && #[trigger] r[j] == w }
spec fn word_unconfused(r: Seq<Seq<char>>, w: Seq<char>) -> bool { forall|j: int| 1 <= j < r.len() && hash_of(#[trigger] r[j]) == hash_of(w) ==> r[j] == w }
proof fn lemma_record(stem: Seq<char>, words: Seq<Seq<char>>, m: Map<i32, Seq<char>>, w: Seq<char>)
    requires forall|j: int| 0 <= j < words.len() && hash_of(#[trigger] words[j]) == hash_of(w) ==> words[j] == w
    ensures ({ let x = record_map(stem, words, m); if exists|j: int| 0 <= j < words.len() && #[trigger] words[j] == w { x.contains_key(hash_of(w)) && x[hash_of(w)] == stem } else { x.contains_key(hash_of(w)) == m.contains_key(hash_of(w)) && x[hash_of(w)] == m[hash_of(w)] } })
    decreases words.len()
{
    if words.len() > 0 {
        let p = words.drop_last();
        assert forall|j: int| 0 <= j < p.len() && hash_of(#[trigger] p[j]) == hash_of(w) implies p[j] == w by { assert(p[j] == words[j]); }
        lemma_record(stem, p, m, w);
        if exists|j: int| 0 <= j < words.len() && #[trigger] words[j] == w {
            let j = choose|j: int| 0 <= j < words.len() && #[trigger] words[j] == w;
            if j < p.len() { assert(p[j] == w); } else { assert(words.last() == w); }
        } else {
            assert forall|j: int| 0 <= j < p.len() implies #[trigger] p[j] != w by { assert(p[j] == words[j]); }
            assert(words[words.len() - 1] == words.last());
            assert(words.last() != w);
        }
    }
}
/// C31: the stemmer loaded from a file knows exactly the listed words, each with the stem of the last line listing it
proof fn lemma_stems(s: Seq<Result<csv::StringRecord>>, n: int, w: Seq<char>)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> word_unconfused((#[trigger] s[i])->Ok_0@, w) && s[i]->Ok_0@.len() > 0
    ensures stem_map(s, n).contains_key(hash_of(w)) <==> exists|i: int| 0 <= i < n && lists_word((#[trigger] s[i])->Ok_0@, w),
        forall|i: int| 0 <= i < n && lists_word((#[trigger] s[i])->Ok_0@, w) && (forall|k: int| i < k < n ==> !lists_word((#[trigger] s[k])->Ok_0@, w)) ==> stem_map(s, n)[hash_of(w)] == s[i]->Ok_0@[0],
    decreases n
{
    if n > 0 {
        lemma_stems(s, n - 1, w);
        let r = s[n - 1]->Ok_0@;
        let words = r.skip(1);
        assert forall|j: int| 0 <= j < words.len() && hash_of(#[trigger] words[j]) == hash_of(w) implies words[j] == w by { assert(words[j] == r[j + 1]); }
        lemma_record(r[0], words, stem_map(s, n - 1), w);
        assert(lists_word(r, w) <==> exists|j: int| 0 <= j < words.len() && #[trigger] words[j] == w) by {
            if lists_word(r, w) { let j = choose|j: int| 1 <= j < r.len() && #[trigger] r[j] == w; assert(words[j - 1] == w); }
            if exists|j: int| 0 <= j < words.len() && #[trigger] words[j] == w { let j = choose|j: int| 0 <= j < words.len() && #[trigger] words[j] == w; assert(r[j + 1] == w); }
        }
        if stem_map(s, n).contains_key(hash_of(w)) && !lists_word(r, w) { let i = choose|i: int| 0 <= i < n - 1 && lists_word((#[trigger] s[i])->Ok_0@, w); assert(0 <= i < n); }
    }
}
#fn resources/stemmer.rs HashMapStemmer::from_reader mapindex=*
#ret r
#spec
ensures ({ let s = records_of(reader, stems_csv()); match r { Ok(g) => readable(s) && same_text(g.values@, stem_map(s, s.len() as int)), Err(_) => !readable(s) } })
#at entry
let ghost vx_r = reader;
#loop 0
invariant vx_s0 == records_of(vx_r, stems_csv()), forall|i: int| 0 <= i < vx_s0.len() && (#[trigger] vx_s0[i]) is Ok ==> vx_s0[i]->Ok_0@.len() > 0, forall|i: int| 0 <= i < vx_k0 ==> (#[trigger] vx_s0[i]) is Ok, same_text(values@, stem_map(vx_s0, vx_k0))
#loop 1
invariant vx_k0 > 0, vx_s0[vx_k0 - 1] is Ok, elements == vx_s0[vx_k0 - 1]->Ok_0, vx_s1 == elements.elems().skip(1), same_text(values@, record_map(elements@[0], str_views(vx_s1.take(vx_k1)), stem_map(vx_s0, vx_k0 - 1)))
#at loop 1 end
proof {
    let a = str_views(vx_s1.take(vx_k1)); let b = str_views(vx_s1.take(vx_k1 - 1));
    assert(a.drop_last() =~= b);
    assert(a.last() == vx_s1[vx_k1 - 1]@);
}
#at loop 0 end
proof { let e = vx_s0[vx_k0 - 1]->Ok_0; let t = str_views((&e).elems().skip(1)); assert(t.take(t.len() as int) =~= t); assert(t =~= e@.skip(1)); assert((&e).elems().skip(1).take(t.len() as int) =~= (&e).elems().skip(1)); }
#fn resources/stemmer.rs HashMapStemmer/Stemmer::stem trait
#ret r
#impl
spec fn stemmed(&self, v: Seq<char>) -> Seq<char> { if self.values@.contains_key(hash_of(normal(v))) { self.values@[hash_of(normal(v))]@ } else { v } }
#closure 0 |v: &String| -> (x: String)
ensures x@ == v@
#closure 1 || -> (x: String)
ensures x@ == value@

#raw
/// the cluster written for each word, the last line of a word staying
spec fn cluster_map(s: Seq<Result<csv::StringRecord>>, n: int) -> Map<i32, Seq<char>>
    decreases n
{ if n <= 0 { Map::empty() } else { cluster_map(s, n - 1).insert(hash_of(s[n - 1]->Ok_0@[0]), s[n - 1]->Ok_0@[1]) } }
spec fn numbers_text(m: Map<i32, u16>, t: Map<i32, Seq<char>>) -> bool { m.dom() == t.dom() && forall|h: i32| #[trigger] m.contains_key(h) ==> dec(m[h] as int) == t[h] }
spec fn clusters_csv() -> csv::Csv { csv::Csv { delimiter: 9u8, quoting: false, flexible: false, has_headers: false } }
spec fn clusters_are(v: Either<HashMap<i32, u16>, HashMap<i32, String>>, t: Map<i32, Seq<char>>) -> bool { match v { Either::Left(m) => numbers_text(m@, t), Either::Right(m) => same_text(m@, t) } }
/// every record has a word and a cluster
spec fn pairs_csv(s: Seq<Result<csv::StringRecord>>) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Ok ==> s[i]->Ok_0@.len() >= 2 }
/// C31: a listed word gets the cluster of its (last) line, other words nothing
proof fn lemma_clusters(s: Seq<Result<csv::StringRecord>>, n: int, w: Seq<char>)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (hash_of((#[trigger] s[i])->Ok_0@[0]) == hash_of(w) ==> s[i]->Ok_0@[0] == w)
    ensures cluster_map(s, n).contains_key(hash_of(w)) <==> exists|i: int| 0 <= i < n && (#[trigger] s[i])->Ok_0@[0] == w,
        forall|i: int| 0 <= i < n && (#[trigger] s[i])->Ok_0@[0] == w && (forall|k: int| i < k < n ==> (#[trigger] s[k])->Ok_0@[0] != w) ==> cluster_map(s, n)[hash_of(w)] == s[i]->Ok_0@[1],
    decreases n
{
    if n > 0 {
        lemma_clusters(s, n - 1, w);
        if cluster_map(s, n).contains_key(hash_of(w)) && s[n - 1]->Ok_0@[0] != w { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] s[i])->Ok_0@[0] == w; assert(0 <= i < n); }
    }
}
#fn resources/word_clusterer.rs HashMapWordClusterer::from_reader mapindex=*
#ret r
#spec
ensures ({ let s = records_of(reader, clusters_csv()); match r { Ok(g) => readable(s) && pairs_csv(s) && clusters_are(g.values, cluster_map(s, s.len() as int)), Err(_) => !readable(s) || !pairs_csv(s) } })
#at entry
let ghost vx_r = reader;
#loop 0
invariant vx_s0 == records_of(vx_r, clusters_csv()), forall|i: int| 0 <= i < vx_s0.len() && (#[trigger] vx_s0[i]) is Ok ==> vx_s0[i]->Ok_0@.len() > 0, forall|i: int| 0 <= i < vx_k0 ==> (#[trigger] vx_s0[i]) is Ok && vx_s0[i]->Ok_0@.len() >= 2,
    u16_casting_ok ==> numbers_text(u16_values@, cluster_map(vx_s0, vx_k0)) && str_values@ == Map::<i32, String>::empty(),
    !u16_casting_ok ==> same_text(str_values@, cluster_map(vx_s0, vx_k0)),
#loop 1
invariant lists_map_refs(vx_s1, u16_values@), forall|h: i32| #[trigger] str_values@.contains_key(h) <==> exists|j: int| 0 <= j < vx_k1 && *(#[trigger] vx_s1[j]).0 == h,
    forall|h: i32| #[trigger] str_values@.contains_key(h) ==> u16_values@.contains_key(h) && str_values@[h]@ == dec(u16_values@[h] as int)
#at loop 1 after
proof { assert forall|h: i32| u16_values@.contains_key(h) implies #[trigger] str_values@.contains_key(h) by { } assert(str_values@.dom() =~= cluster_map(vx_s0, vx_k0 - 1).dom()); assert(same_text(str_values@, cluster_map(vx_s0, vx_k0 - 1))); }
#fn resources/word_clusterer.rs HashMapWordClusterer/WordClusterer::get_cluster trait
#ret r
#impl
spec fn cluster(&self, w: Seq<char>) -> Option<Seq<char>> { match self.values { Either::Left(m) => if m@.contains_key(hash_of(w)) { Some(dec(m@[hash_of(w)] as int)) } else { None }, Either::Right(m) => if m@.contains_key(hash_of(w)) { Some(m@[hash_of(w)]@) } else { None } } }
#closure 0 |v: &u16| -> (x: String)
ensures x@ == dec(*v as int)
#item resources/loading.rs struct ResourcesMetadata
#raw
use std::sync::Arc;
/// a handle on the file at a path
spec fn opened(f: File, p: Seq<char>) -> bool { f.path() == p }
spec fn res_file(dir: Seq<char>, sub: Seq<char>, name: Seq<char>) -> Seq<char> { path_with_ext(path_join(path_join(dir, sub), name), "txt"@) }
/// C31: this gazetteer holds the non-empty lines of the file
spec fn gazetteer_at(p: Seq<char>, g: Arc<dyn Gazetteer>) -> bool { exists|f: File| #[trigger] opened(f, p) && readable(lines_of(f)) && forall|v: Seq<char>| #[trigger] g.lists(v) <==> line_hashed(lines_of(f), lines_of(f).len() as int, hash_of(v)) }
spec fn stemmed_by(m: Map<i32, Seq<char>>, v: Seq<char>) -> Seq<char> { if m.contains_key(hash_of(normal(v))) { m[hash_of(normal(v))] } else { v } }
spec fn stemmer_at(p: Seq<char>, g: Arc<dyn Stemmer>) -> bool { exists|f: File| #[trigger] opened(f, p) && ({ let s = records_of(f, stems_csv()); readable(s) && forall|v: Seq<char>| #[trigger] g.stemmed(v) == stemmed_by(stem_map(s, s.len() as int), v) }) }
spec fn cluster_at(p: Seq<char>, g: Arc<dyn WordClusterer>) -> bool { exists|f: File| #[trigger] opened(f, p) && ({ let s = records_of(f, clusters_csv()); readable(s) && pairs_csv(s) && forall|v: Seq<char>| #[trigger] g.cluster(v) == map_get(cluster_map(s, s.len() as int), hash_of(v)) }) }
spec fn stop_words_at(p: Seq<char>, g: Set<String>) -> bool { exists|f: File| #[trigger] opened(f, p) && readable(lines_of(f)) && forall|w: String| #[trigger] g.contains(w) <==> line_word(lines_of(f), lines_of(f).len() as int, w@) }
spec fn line_word(s: Seq<Result<String>>, n: int, w: Seq<char>) -> bool { w.len() > 0 && exists|i: int| 0 <= i < n && (#[trigger] s[i])->Ok_0@ == w }
#fn resources/loading.rs load_stop_words path
#at after-let file
let ghost vx_f = file;
proof { assert(opened(vx_f, path_with_ext(path_join(resources_dir.pv(), metadata.stop_words->Some_0@), "txt"@))); }
#ret r
#spec
ensures r is Ok ==> match metadata.stop_words { Some(n) => stop_words_at(path_with_ext(path_join(resources_dir.pv(), n@), "txt"@), r->Ok_0@), None => r->Ok_0@ == Set::<String>::empty() }
#loop 0
invariant vx_s0 == lines_of(vx_f), forall|i: int| 0 <= i < vx_k0 ==> (#[trigger] vx_s0[i]) is Ok, forall|w: String| #[trigger] stop_words@.contains(w) <==> line_word(vx_s0, vx_k0, w@)
#at loop 0 end
proof { assert forall|w: String| #[trigger] stop_words@.contains(w) <==> line_word(vx_s0, vx_k0, w@) by { lemma_word_step(vx_s0, vx_k0 - 1, w@); } }
#raw
proof fn lemma_word_step(s: Seq<Result<String>>, n: int, w: Seq<char>)
    requires 0 <= n < s.len()
    ensures line_word(s, n + 1, w) <==> line_word(s, n, w) || (w.len() > 0 && s[n]->Ok_0@ == w)
{
    if line_word(s, n, w) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i])->Ok_0@ == w; assert(0 <= i < n + 1); }
    if line_word(s, n + 1, w) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] s[i])->Ok_0@ == w; if i < n { assert(line_word(s, n, w)); } }
}
#fn resources/loading.rs load_stemmer path dyn
#at after-let stems_reader
proof { assert(opened(stems_reader, res_file(resources_dir.pv(), "stemming"@, metadata.stems->Some_0@))); }
#ret r
#spec
ensures r is Ok ==> match metadata.stems { Some(n) => r->Ok_0 is Some && stemmer_at(res_file(resources_dir.pv(), "stemming"@, n@), r->Ok_0->Some_0), None => r->Ok_0 is None }
#raw
proof fn lemma_inserts<K, V>(m: Map<K, V>, k: K)
    ensures forall|v: V| #![trigger m.insert(k, v)] m.insert(k, v).contains_key(k) && m.insert(k, v)[k] == v && forall|j: K| #![trigger m.insert(k, v).contains_key(j)] #![trigger m.insert(k, v)[j]] j != k ==> m.insert(k, v).contains_key(j) == m.contains_key(j) && m.insert(k, v)[j] == m[j]
{ }
proof fn lemma_empty_map<K, V>() ensures forall|k: K| !#[trigger] Map::<K, V>::empty().contains_key(k) { }
#fn resources/loading.rs load_gazetteers path dyn
#at entry
proof { lemma_empty_map::<String, Arc<dyn Gazetteer>>(); }
#at after-let file
proof { assert(opened(file, res_file(resources_dir.pv(), "gazetteers"@, vx_s0[vx_k0 - 1]@))); }
#at loop 0 start
let ghost vx_m = gazetteers@;
proof { lemma_inserts(gazetteers@, *vx_s0[vx_k0 - 1]); }
#at loop 0 end
proof { let x = *vx_s0[vx_k0 - 1]; assert forall|n: String| #[trigger] gazetteers@.contains_key(n) <==> exists|i: int| 0 <= i < vx_k0 && *(#[trigger] vx_s0[i]) == n by { assert(*vx_s0[vx_k0 - 1] == x); if exists|i: int| 0 <= i < vx_k0 - 1 && *(#[trigger] vx_s0[i]) == n { let i = choose|i: int| 0 <= i < vx_k0 - 1 && *(#[trigger] vx_s0[i]) == n; assert(0 <= i < vx_k0); } } }
#ret r
#spec
ensures r is Ok ==> ({ let names = match metadata.gazetteers { Some(n) => n@, None => Seq::<String>::empty() }; let m = r->Ok_0@;
    (forall|n: String| #[trigger] m.contains_key(n) <==> names.contains(n)) && forall|n: String| #[trigger] m.contains_key(n) ==> gazetteer_at(res_file(resources_dir.pv(), "gazetteers"@, n@), m[n]) })
#loop 0
invariant forall|n: String| #[trigger] gazetteers@.contains_key(n) <==> exists|i: int| 0 <= i < vx_k0 && *(#[trigger] vx_s0[i]) == n, forall|n: String| #[trigger] gazetteers@.contains_key(n) ==> gazetteer_at(res_file(resources_dir.pv(), "gazetteers"@, n@), gazetteers@[n])
#fn resources/loading.rs load_word_clusterers path dyn
#at entry
proof { lemma_empty_map::<String, Arc<dyn WordClusterer>>(); }
#at after-let word_clusters_reader
proof { assert(opened(word_clusters_reader, res_file(resources_dir.pv(), "word_clusters"@, vx_s0[vx_k0 - 1]@))); }
#at loop 0 start
let ghost vx_m = word_clusterers@;
proof { lemma_inserts(word_clusterers@, *vx_s0[vx_k0 - 1]); }
#at loop 0 end
proof { let x = *vx_s0[vx_k0 - 1]; assert forall|n: String| #[trigger] word_clusterers@.contains_key(n) <==> exists|i: int| 0 <= i < vx_k0 && *(#[trigger] vx_s0[i]) == n by { assert(*vx_s0[vx_k0 - 1] == x); if exists|i: int| 0 <= i < vx_k0 - 1 && *(#[trigger] vx_s0[i]) == n { let i = choose|i: int| 0 <= i < vx_k0 - 1 && *(#[trigger] vx_s0[i]) == n; assert(0 <= i < vx_k0); } } }
#ret r
#spec
ensures r is Ok ==> ({ let names = match metadata.word_clusters { Some(n) => n@, None => Seq::<String>::empty() }; let m = r->Ok_0@;
    (forall|n: String| #[trigger] m.contains_key(n) <==> names.contains(n)) && forall|n: String| #[trigger] m.contains_key(n) ==> cluster_at(res_file(resources_dir.pv(), "word_clusters"@, n@), m[n]) })
#loop 0
invariant forall|n: String| #[trigger] word_clusterers@.contains_key(n) <==> exists|i: int| 0 <= i < vx_k0 && *(#[trigger] vx_s0[i]) == n, forall|n: String| #[trigger] word_clusterers@.contains_key(n) ==> cluster_at(res_file(resources_dir.pv(), "word_clusters"@, n@), word_clusterers@[n])
#item resources/mod.rs struct SharedResources
#raw
trait BuiltinEntityParser: Send + Sync { }
trait CustomEntityParser: Send + Sync { }
#[verifier::external_body]
struct CachingBuiltinEntityParser { x: u8 }
#[verifier::external_body]
struct CachingCustomEntityParser { x: u8 }
impl BuiltinEntityParser for CachingBuiltinEntityParser { }
impl CustomEntityParser for CachingCustomEntityParser { }
impl CachingBuiltinEntityParser {
  uninterp spec fn loaded(p: Seq<char>, n: usize) -> Result<Self>;
  #[verifier::external_body] fn from_path<P: VxAsPath>(p: P, n: usize) -> (r: Result<Self>) ensures r == Self::loaded(p.pv(), n) { unimplemented!() } }
impl CachingCustomEntityParser {
  uninterp spec fn loaded(p: Seq<char>, n: usize) -> Result<Self>;
  #[verifier::external_body] fn from_path<P: VxAsPath>(p: P, n: usize) -> (r: Result<Self>) ensures r == Self::loaded(p.pv(), n) { unimplemented!() } }
spec fn loaded_with(dir: Seq<char>, m: ResourcesMetadata, r: SharedResources) -> bool {
    &&& match m.stems { Some(n) => r.stemmer is Some && stemmer_at(res_file(dir, "stemming"@, n@), r.stemmer->Some_0), None => r.stemmer is None }
    &&& forall|n: String| #[trigger] r.gazetteers@.contains_key(n) <==> (m.gazetteers is Some && m.gazetteers->Some_0@.contains(n))
    &&& forall|n: String| #[trigger] r.gazetteers@.contains_key(n) ==> gazetteer_at(res_file(dir, "gazetteers"@, n@), r.gazetteers@[n])
    &&& forall|n: String| #[trigger] r.word_clusterers@.contains_key(n) <==> (m.word_clusters is Some && m.word_clusters->Some_0@.contains(n))
    &&& forall|n: String| #[trigger] r.word_clusterers@.contains_key(n) ==> cluster_at(res_file(dir, "word_clusters"@, n@), r.word_clusterers@[n])
    &&& match m.stop_words { Some(n) => stop_words_at(path_with_ext(path_join(dir, n@), "txt"@), r.stop_words@), None => r.stop_words@ == Set::<String>::empty() }
}
spec fn shared_of(dir: Seq<char>, b: Seq<char>, c: Seq<char>, r: SharedResources) -> bool {
    exists|m: ResourcesMetadata| #[trigger] json_of(path_join(dir, "metadata.json"@), Ok::<ResourcesMetadata, VxError>(m)) && loaded_with(dir, m, r)
}
#fn resources/loading.rs load_shared_resources path dyn
#ret r
#spec
ensures r is Ok ==> shared_of(resources_dir.pv(), builtin_entity_parser_path.pv(), custom_entity_parser_path.pv(), *r->Ok_0)
