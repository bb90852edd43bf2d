use snips_nlu_lib::resources::gazetteer::Gazetteer;
use snips_nlu_lib::resources::stemmer::Stemmer;
use snips_nlu_lib::resources::word_clusterer::WordClusterer;
use snips_nlu_lib::slot_filler::feature_processor::*;
use snips_nlu_lib::slot_filler::features::*;
use snips_nlu_lib::slot_filler::features_utils::*;
use snips_nlu_utils::{language::Language as L, string::{get_shape, normalize}, token::tokenize};
use std::sync::Arc;
use vx_harness::*;

struct Stem;
impl Stemmer for Stem { fn stem(&self, v: &str) -> String { v.trim_end_matches('s').to_string() } }
struct Gaz;
impl Gazetteer for Gaz { fn contains(&self, v: &str) -> bool { v.chars().count() % 2 == 1 } }
struct Clu;
impl WordClusterer for Clu { fn get_cluster(&self, w: &str) -> Option<String> { if w.chars().count() > 2 { Some(format!("C{}", w)) } else { None } } }
fn main() {
    let mut h = H::new();
    while h.more() {
        // ---- chunks of arbitrary strings
        let s = gen_text(&mut h.rng, 3);
        let c: Vec<char> = s.chars().collect();
        let (size, start, rev) = (h.rng.range(0, 9), h.rng.range(0, c.len() + 2), h.rng.chance(1, 2));
        h.case(&format!("get_word_chunk({:?}, {}, {}, {})", s, size, start, rev), !s.is_empty(), || {
            let want = if rev { if size <= start && start <= c.len() { Some(c[start - size..start].iter().collect::<String>()) } else { None } } else if start + size <= c.len() { Some(c[start..start + size].iter().collect()) } else { None };
            expect_eq("chunk", get_word_chunk(&s, size, start, rev), want)
        });
        let mut text = gen_text(&mut h.rng, 7);
        if h.rng.chance(1, 3) { let e: &&str = h.rng.pick(&[" 4x", " x4 42", " 1２3", " ４２", " 2000"]); text.push_str(e); }
        let tokens = tokenize(&text, L::EN);
        if tokens.is_empty() { continue; }
        let i = h.rng.below(tokens.len());
        let n = if h.rng.chance(1, 15) { std::usize::MAX - h.rng.below(3) } else { h.rng.range(1, 5) };
        let (g, st) = (h.rng.chance(1, 2), h.rng.chance(1, 2));
        h.case(&format!("features of token {} of {:?}, size {}, gazetteer {}, stemmer {}", i, text, n, g, st), tokens.len() > 1, || {
            let e = |x: Result<Option<String>, failure::Error>| x.map_err(|e| e.to_string());
            let v = &tokens[i].value;
            let norm: Vec<char> = normalize(v).chars().collect();
            let (k, l) = (tokens.len(), norm.len());
            expect_eq("prefix", e(PrefixFeature { prefix_size: n }.compute(&tokens, i))?, if n <= l { Some(norm[..n].iter().collect()) } else { None })?;
            expect_eq("suffix", e(SuffixFeature { suffix_size: n }.compute(&tokens, i))?, if n <= l { Some(norm[l - n..].iter().collect()) } else { None })?;
            let word = |t: &str| { let w = if st { Stem.stem(&normalize(t)) } else { normalize(t) }; if g && !Gaz.contains(&w) { "rare_word".to_string() } else { w } };
            let fits = n <= k && i + n <= k;
            let ng = NgramFeature { ngram_size: n, opt_common_words_gazetteer: if g { Some(Arc::new(Gaz)) } else { None }, opt_stemmer: if st { Some(Arc::new(Stem)) } else { None } };
            expect_eq("ngram", e(ng.compute(&tokens, i))?, if fits { Some(tokens[i..i + n].iter().map(|t| word(&t.value)).collect::<Vec<_>>().join(" ")) } else { None })?;
            expect_eq("shape ngram", e(ShapeNgramFeature { ngram_size: n }.compute(&tokens, i))?, if fits { Some(tokens[i..i + n].iter().map(|t| get_shape(&t.value)).collect::<Vec<_>>().join(" ")) } else { None })?;
            let one = |b: bool| if b { Some("1".to_string()) } else { None };
            expect_eq("is_first", e(IsFirstFeature {}.compute(&tokens, i))?, one(i == 0))?;
            expect_eq("is_last", e(IsLastFeature {}.compute(&tokens, i))?, one(i + 1 == k))?;
            expect_eq("is_digit", e(IsDigitFeature {}.compute(&tokens, i))?, one(v.chars().all(|c| ('0'..='9').contains(&c))))?;
            expect_eq("length", e(LengthFeature {}.compute(&tokens, i))?, Some(v.chars().count().to_string()))?;
            expect_eq("word cluster", e(WordClusterFeature { cluster_name: "c".into(), word_clusterer: Arc::new(Clu) }.compute(&tokens, i))?, Clu.get_cluster(&v.to_lowercase()))
        });
    }
    h.finish("random strings and chunk positions, random texts, token positions and sizes; non-trivial: a non-empty string / at least two tokens");
}
