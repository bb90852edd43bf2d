use serde_json::{json, Value};
use snips_nlu_lib::models::FeatureFactory;
use snips_nlu_lib::resources::gazetteer::Gazetteer;
use snips_nlu_lib::resources::stemmer::Stemmer;
use snips_nlu_lib::resources::word_clusterer::WordClusterer;
use snips_nlu_lib::slot_filler::crf_utils::TaggingScheme;
use snips_nlu_lib::slot_filler::feature_processor::*;
use snips_nlu_lib::slot_filler::features::*;
use snips_nlu_lib::SharedResources;
use snips_nlu_ontology::BuiltinEntityKind;
use snips_nlu_utils::{language::Language as L, token::tokenize};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use vx_harness::*;

struct Stem;
impl Stemmer for Stem { fn stem(&self, v: &str) -> String { v.trim_end_matches('s').to_string() } }
struct Gaz(usize);
impl Gazetteer for Gaz { fn contains(&self, v: &str) -> bool { v.chars().count() % 3 == self.0 } }
struct Clu(&'static str);
impl WordClusterer for Clu { fn get_cluster(&self, w: &str) -> Option<String> { if w.chars().count() > 2 { Some(format!("{}{}", self.0, w)) } else { None } } }
const KINDS: [&str; 11] = ["is_digit", "length", "is_first", "is_last", "ngram", "shape_ngram", "prefix", "suffix", "entity_match", "builtin_entity_match", "word_cluster"];
const ENTS: [&str; 3] = ["room", "color", "food"];
fn scheme(c: u64) -> TaggingScheme { match c { 0 => TaggingScheme::IO, 1 => TaggingScheme::BIO, _ => TaggingScheme::BILOU } }

fn main() {
    let mut h = H::new();
    while h.more() {
        let stem = h.rng.chance(3, 4);
        let dict: Vec<(String, String, String)> = [("room", "kitchen"), ("room", "living room"), ("color", "blue"), ("color", "big blue"), ("food", "two pizzas"), ("food", "pizza")].iter().map(|(e, p)| (e.to_string(), p.to_string(), p.to_string())).collect();
        let r = Arc::new(SharedResources {
            builtin_entity_parser: Arc::new(res::builtin_numbers()),
            custom_entity_parser: Arc::new(res::custom_dict(dict)),
            gazetteers: vec![("g0", 0), ("g1", 1)].into_iter().map(|(n, k)| (n.to_string(), Arc::new(Gaz(k)) as Arc<dyn Gazetteer>)).collect(),
            stemmer: if stem { Some(Arc::new(Stem)) } else { None },
            word_clusterers: vec![("c0", "X"), ("c1", "Y")].into_iter().map(|(n, k)| (n.to_string(), Arc::new(Clu(k)) as Arc<dyn WordClusterer>)).collect(),
            stop_words: HashSet::new(),
        });
        let n = h.rng.range(1, 4);
        let mut fs: Vec<(usize, Vec<i32>, HashMap<String, Value>)> = vec![];
        for _ in 0..n {
            let k = h.rng.below(11);
            let offsets: Vec<i32> = (0..h.rng.range(0, 3)).map(|_| h.rng.range(0, 5) as i32 - 3).collect();
            let size = h.rng.range(1, 4) as u64;
            let use_stem = stem && h.rng.chance(1, 2);
            let sch = h.rng.range(0, 2) as u64;
            let ents: Vec<&str> = ENTS.iter().cloned().filter(|_| h.rng.chance(1, 2)).collect();
            let labels: Vec<&str> = ["snips/number", "snips/ordinal"].iter().cloned().filter(|_| h.rng.chance(2, 3)).collect();
            let a = match k {
                4 => json!({"n": size, "common_words_gazetteer_name": match h.rng.below(3) { 0 => Value::Null, 1 => json!("g0"), _ => json!("g1") }, "use_stemming": use_stem}),
                5 => json!({"n": size}),
                6 => json!({"prefix_size": size, "suffix_size": size + 1}),
                7 => json!({"suffix_size": size, "prefix_size": size + 1}),
                8 => json!({"entities": ents, "tagging_scheme_code": sch, "use_stemming": use_stem}),
                9 => json!({"entity_labels": labels, "tagging_scheme_code": sch}),
                10 => json!({"cluster_name": if h.rng.chance(1, 2) { "c0" } else { "c1" }}),
                _ => json!({}),
            };
            fs.push((k, offsets, serde_json::from_value(a).unwrap()));
        }
        // 0 sound; something wrong with one factory: 1 unknown name, 2 an argument is missing, 3 or of the wrong type, 4 or designates nothing known
        let fault = if h.rng.chance(1, 3) { h.rng.range(1, 4) } else { 0 };
        let at = h.rng.below(n);
        let mut names: Vec<String> = fs.iter().map(|f| KINDS[f.0].to_string()).collect();
        let mut broken = false;
        {
            let f = &mut fs[at];
            let mut keys: Vec<String> = f.2.keys().cloned().filter(|k| !(f.0 == 6 && k == "suffix_size") && !(f.0 == 7 && k == "prefix_size")).collect();
            keys.sort();
            if fault == 1 { names[at] = h.rng.pick(&["", "isdigit", "is_digits", " length", "ngram ", "entity_match_room", "Length", "NgramFeature", "match"]).to_string(); broken = true; }
            if !keys.is_empty() {
                let key = h.rng.pick(&keys).clone();
                if fault == 2 { f.2.remove(&key); broken = true; }
                if fault == 3 {
                    let bad: Value = match &*key { "use_stemming" => h.rng.pick(&[json!(1), json!("true"), Value::Null]).clone(), "entities" | "entity_labels" => h.rng.pick(&[json!("room"), json!(["room", 1]), Value::Null]).clone(), "cluster_name" => h.rng.pick(&[json!(1), Value::Null]).clone(), "common_words_gazetteer_name" => h.rng.pick(&[json!(1), json!(false), json!(["g0"])]).clone(), _ => h.rng.pick(&[json!(-1), json!("1"), json!(1.5), Value::Null]).clone() };
                    f.2.insert(key.clone(), bad);
                    broken = true;
                }
                if fault == 4 {
                    let bad = match &*key { "common_words_gazetteer_name" => Some(json!("g2")), "cluster_name" => Some(json!("g0")), "tagging_scheme_code" => Some(h.rng.pick(&[json!(3), json!(255), json!(256), json!(258), json!(1u64 << 32)]).clone()), "entity_labels" => Some(json!(["snips/number", h.rng.pick(&["snips/none", "number", "", "SNIPS/NUMBER", "room", "snips/number "])])), "use_stemming" if !stem => Some(json!(true)), _ => None };
                    if let Some(b) = bad { f.2.insert(key, b); broken = true; }
                }
            }
        }
        let mut words: Vec<&str> = (0..h.rng.range(1, 6)).map(|_| *h.rng.pick(&["Kitchen", "living", "room", "big", "blue", "two", "pizzas", "pizza", "42", "été", "the", "7"])).collect();
        if h.rng.chance(1, 3) { words.extend(["two", "pizzas", "living", "room"].iter()); }
        let text = words.join(" ");
        let factories: Vec<FeatureFactory> = fs.iter().zip(&names).map(|(f, n)| FeatureFactory { factory_name: n.clone(), offsets: f.1.clone(), args: f.2.clone() }).collect();
        h.case(&format!("factories {:?} stemmer {} text {:?}", factories, stem, text), n > 1, || {
            let tokens = tokenize(&text, L::EN);
            let p = ProbabilisticFeatureProcessor::new(&factories, r.clone());
            ensure(p.is_ok() != broken, format!("{} factories are {}", if broken { "broken" } else { "sound" }, match &p { Ok(_) => "accepted".to_string(), Err(e) => format!("rejected: {}", e) }))?;
            let p = match p { Ok(p) => p, Err(_) => return Ok(()) };
            let got = p.compute_features(&tokens.as_slice()).map_err(|e| e.to_string())?;
            let mut want: Vec<Vec<(String, String)>> = vec![vec![]; tokens.len()];
            for (k, offsets, a) in &fs {
                let size = |n: &str| a[n].as_u64().unwrap() as usize;
                let st = || -> Option<Arc<dyn Stemmer>> { if a["use_stemming"] == json!(true) { Some(Arc::new(Stem)) } else { None } };
                let strs = |n: &str| -> Vec<String> { a[n].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect() };
                let list: Vec<(String, Box<dyn Feature>)> = match k {
                    0 => vec![("is_digit".to_string(), Box::new(IsDigitFeature {}))],
                    1 => vec![("length".to_string(), Box::new(LengthFeature {}))],
                    2 => vec![("is_first".to_string(), Box::new(IsFirstFeature {}))],
                    3 => vec![("is_last".to_string(), Box::new(IsLastFeature {}))],
                    4 => vec![(format!("ngram_{}", size("n")), Box::new(NgramFeature { ngram_size: size("n"), opt_common_words_gazetteer: a["common_words_gazetteer_name"].as_str().map(|n| Arc::new(Gaz(if n == "g0" { 0 } else { 1 })) as Arc<dyn Gazetteer>), opt_stemmer: st() }))],
                    5 => vec![(format!("shape_ngram_{}", size("n")), Box::new(ShapeNgramFeature { ngram_size: size("n") }))],
                    6 => vec![(format!("prefix_{}", size("prefix_size")), Box::new(PrefixFeature { prefix_size: size("prefix_size") }))],
                    7 => vec![(format!("suffix_{}", size("suffix_size")), Box::new(SuffixFeature { suffix_size: size("suffix_size") }))],
                    8 => strs("entities").into_iter().map(|e| (format!("entity_match_{}", e), Box::new(CustomEntityMatchFeature { entity_name: e, tagging_scheme: scheme(size("tagging_scheme_code") as u64), opt_stemmer: st(), custom_entity_parser: r.custom_entity_parser.clone() }) as Box<dyn Feature>)).collect(),
                    9 => strs("entity_labels").into_iter().map(|e| (format!("builtin_entity_match_{}", e), Box::new(BuiltinEntityMatchFeature { tagging_scheme: scheme(size("tagging_scheme_code") as u64), builtin_entity_kind: BuiltinEntityKind::from_identifier(&e).unwrap(), builtin_entity_parser: r.builtin_entity_parser.clone() }) as Box<dyn Feature>)).collect(),
                    _ => { let c = a["cluster_name"].as_str().unwrap(); vec![(format!("word_cluster_{}", c), Box::new(WordClusterFeature { cluster_name: c.to_string(), word_clusterer: Arc::new(Clu(if c == "c0" { "X" } else { "Y" })) }))] }
                };
                for (name, f) in list {
                    for j in 0..tokens.len() {
                        for o in offsets {
                            let i = j as i32 + o;
                            if i < 0 || i >= tokens.len() as i32 { continue; }
                            if let Some(v) = f.compute(&tokens, i as usize).map_err(|e| e.to_string())? { want[j].push((if *o == 0 { name.clone() } else { format!("{}[{:+}]", name, o) }, v)); }
                        }
                    }
                }
            }
            let sort = |v: Vec<Vec<(String, String)>>| -> Vec<Vec<(String, String)>> { v.into_iter().map(|mut x| { x.sort(); x }).collect() };
            expect_eq("features", sort(got), sort(want))
        });
    }
    h.finish("lists of up to 4 feature factories of the eleven kinds with random arguments and offsets, sound or with one unknown name, missing, ill-typed or dangling argument; non-trivial: several factories");
}
