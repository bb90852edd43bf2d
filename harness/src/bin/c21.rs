use snips_nlu_lib::intent_classifier::{Featurizer, TfidfVectorizer};
use snips_nlu_ontology::{BuiltinEntity, BuiltinEntityKind, SlotValue};
use snips_nlu_lib::models::*;
use snips_nlu_lib::resources::stemmer::Stemmer;
use snips_nlu_lib::resources::word_clusterer::WordClusterer;
use snips_nlu_lib::SharedResources;
use snips_nlu_utils::{language::Language as L, string::normalize, token::tokenize_light};
use std::collections::HashMap;
use std::sync::Arc;
use vx_harness::*;

struct Stem;
impl Stemmer for Stem { fn stem(&self, v: &str) -> String { v.trim_end_matches('s').to_string() } }
struct Clu;
impl WordClusterer for Clu { fn get_cluster(&self, w: &str) -> Option<String> { match w { "tea" | "hello" => Some("c1".into()), "tea of" | "blue" => Some("c2".into()), "日本" => Some("make".into()), _ => None } } }
fn main() {
    let mut h = H::new();
    let dir = tempfile::Builder::new().prefix("c21").tempdir().unwrap();
    let mut count = 0;
    let words = ["make", "tea", "two", "of", "cup", "cups", "ete", "日本", "light", "blue", "builtinentityfeaturesnipsnumber", "entityfeatureroom", "entityfeaturemyentity", "builtinentityfeaturesnipsmusicartist", "UNK", "c1", "c2", "xxx", "42", "hello"];
    while h.more() {
        let mut vocab: Vec<&str> = words.iter().cloned().filter(|_| h.rng.chance(2, 3)).collect();
        if h.rng.chance(1, 60) { vocab.clear(); }
        h.rng.shuffle(&mut vocab);
        let idf: Vec<f32> = vocab.iter().map(|_| if h.rng.chance(1, 12) { 0.0 } else { 0.5 + h.rng.f01() * 4.0 }).collect();
        let mut text = gen_text(&mut h.rng, 8);
        if h.rng.chance(1, 2) { let e = *h.rng.pick(&[" room", " cups", " 42 tea", " Été"]); text.push_str(e); }
        let (stem, clu, scope) = (h.rng.chance(1, 2), h.rng.chance(1, 2), h.rng.chance(3, 4));
        let err = h.rng.below(20);
        count += 1;
        // an index without idf weight
        let beyond = if h.rng.chance(1, 20) { Some(vocab.len() + h.rng.below(2)) } else { None };
        let on_disk = count % 5 == 0 && err >= 2;
        let cooc = h.rng.chance(1, 2);
        h.case(&format!("text {:?} vocabulary {:?} idf {:?} stemming {} clusters {} builtin scope {} failing parser {} an index beyond {:?}", text, vocab, idf, stem, clu, scope, err, beyond), !vocab.is_empty() && !text.is_empty(), || {
            let dict = vec![("room".to_string(), "light".to_string(), "L".to_string()), ("My Entity".into(), "cup".into(), "C".into()), ("room".into(), "tea".into(), "T".into())];
            let cp = if err == 0 { res::Custom(Box::new(|_, _, _| Err(failure::err_msg("x")))) } else { res::custom_dict(dict.clone()) };
            let bp = if err == 1 { res::Builtin(Box::new(|_, _, _, _| Err(failure::err_msg("x")))) } else {
                let nb = res::builtin_numbers();
                res::Builtin(Box::new(move |s, k, u, n| {
                    let mut out = (nb.0)(s, k, u, n)?;
                    if k.map(|k| k.contains(&BuiltinEntityKind::MusicArtist)).unwrap_or(true) { for (a, b) in res::find_words(s, "Blue") { out.push(BuiltinEntity { value: "Blue".into(), range: a..b, entity: SlotValue::MusicArtist("Blue".into()), alternatives: vec![], entity_kind: BuiltinEntityKind::MusicArtist }); } }
                    Ok(out)
                }))
            };
            let mut wc: HashMap<String, Arc<dyn WordClusterer>> = HashMap::new();
            wc.insert("clusters".into(), Arc::new(Clu));
            let shared = Arc::new(SharedResources { builtin_entity_parser: Arc::new(bp), custom_entity_parser: Arc::new(cp), gazetteers: Default::default(), stemmer: Some(Arc::new(Stem)), word_clusterers: wc, stop_words: Default::default() });
            let model = TfidfVectorizerModel { language_code: "en".into(), builtin_entity_scope: if scope { vec!["snips/number".into(), "snips/musicArtist".into()] } else { vec![] }, vectorizer: SklearnVectorizerModel { idf_diag: idf.clone(), vocab: vocab.iter().enumerate().map(|(i, w)| (w.to_string(), i)).chain(beyond.map(|k| ("beyond".to_string(), k))).collect() }, config: TfidfVectorizerConfiguration { use_stemming: stem, word_clusters_name: if clu { Some("clusters".into()) } else { None } } };
            if beyond.is_some() { return ensure(TfidfVectorizer::new(model, shared).is_err(), "a word without idf weight was accepted"); }
            let (got, extra) = if on_disk {
                let d = dir.path().join(format!("f{}", count % 4));
                let _ = std::fs::remove_dir_all(&d);
                for x in &["tf", "co"] { std::fs::create_dir_all(d.join(x)).unwrap(); }
                let wr = |p: &str, v: serde_json::Value| std::fs::write(d.join(p), v.to_string()).unwrap();
                wr("featurizer.json", serde_json::json!({"language_code": "en", "tfidf_vectorizer": "tf", "cooccurrence_vectorizer": if cooc { Some("co") } else { None }}));
                wr("tf/vectorizer.json", serde_json::json!({"language_code": "en", "builtin_entity_scope": model.builtin_entity_scope, "vectorizer": {"idf_diag": model.vectorizer.idf_diag, "vocab": model.vectorizer.vocab}, "config": {"use_stemming": stem, "word_clusters_name": model.config.word_clusters_name}}));
                wr("co/vectorizer.json", serde_json::json!({"language_code": "en", "builtin_entity_scope": [], "word_pairs": {"0": ["make", "tea"], "1": ["never", "seen"]}, "config": {"window_size": null, "filter_stop_words": false, "keep_order": true, "unknown_words_replacement_string": null}}));
                let all = Featurizer::from_path(&d, shared).map_err(|e| e.to_string())?.transform(&text).map_err(|e| e.to_string())?.to_vec();
                let k = vocab.len();
                expect_eq("number of features of the featurizer", all.len(), if cooc { k + 2 } else { k })?;
                (Ok(all[..k].to_vec()), all[k..].to_vec())
            } else { (TfidfVectorizer::new(model, shared).map_err(|e| e.to_string())?.transform(&text), vec![]) };
            if !extra.is_empty() {
                let t = tokenize_light(&text, L::EN);
                let pair = t.iter().position(|x| x == "make").map(|i| t[i..].iter().any(|x| x == "tea")).unwrap_or(false);
                let ambiguous = res::find_words(&text, "tea").len() > 0;
                if !ambiguous { expect_eq("pairs", extra, vec![0.0, 0.0])?; } else { ensure(extra[1] == 0.0 && (extra[0] == 0.0 || pair), format!("pairs {:?}", extra))?; }
            }
            if err < 2 { return ensure(got.is_err(), "the error of an entity parser was swallowed"); }
            let got = got.map_err(|e| e.to_string())?;
            // the extracted features
            let tokens = tokenize_light(&text, L::EN);
            let norm: Vec<String> = tokens.iter().map(|t| { let n = normalize(t); if stem { Stem.stem(&n) } else { n } }).collect();
            let mut feats = norm.clone();
            if scope { for w in &["two", "42", "7", "twenty", "two hundred"] { for _ in res::find_words(&text, w) { feats.push("builtinentityfeaturesnipsnumber".into()); } } for _ in res::find_words(&text, "Blue") { feats.push("builtinentityfeaturesnipsmusicartist".into()); } }
            let joined = norm.join(" ");
            for (e, p, _) in &dict { for _ in res::find_words(&joined, p) { feats.push(format!("entityfeature{}", e.to_lowercase().replace(" ", ""))); } }
            if clu { for i in 0..tokens.len() { for j in i + 1..=tokens.len() { if let Some(c) = Clu.get_cluster(&tokens[i..j].join(" ").to_lowercase()) { feats.push(c); } } } }
            let raw: Vec<f64> = vocab.iter().enumerate().map(|(i, w)| feats.iter().filter(|f| f == w).count() as f64 * idf[i] as f64).collect();
            let norm2 = raw.iter().map(|x| x * x).sum::<f64>().sqrt();
            let want: Vec<f64> = raw.iter().map(|x| if norm2 > 0.0 { x / norm2 } else { 0.0 }).collect();
            expect_eq("size", got.len(), want.len())?;
            ensure(got.iter().zip(&want).all(|(g, w)| (*g as f64 - w).abs() < 1e-5), format!("got {:?}, expected {:?} for the features {:?}", got, want, feats))
        });
    }
    h.finish("random vocabularies, idf weights, texts and options; non-trivial: a vocabulary and a text that are not empty");
}
