use snips_nlu_lib::resources::gazetteer::{Gazetteer, HashSetGazetteer};
use snips_nlu_lib::resources::loading::*;
use snips_nlu_lib::resources::stemmer::{HashMapStemmer, Stemmer};
use snips_nlu_lib::resources::word_clusterer::{HashMapWordClusterer, WordClusterer};
use snips_nlu_utils::string::{hash_str_to_i32, normalize};
use std::collections::{HashMap, HashSet};
use std::fs;
use vx_harness::*;

fn word(r: &mut Rng) -> String {
    let w = ["dog", "cat", "été", "ete", "Été", "DOG", "a b", "a", "ab", "日本", "don't", "\"q", "\"", "x y z", "42", "7", "🙂", " dog", "dog "];
    if r.chance(1, 8) { format!("w{}", r.below(50)) } else { r.pick(&w).to_string() }
}
fn main() {
    let mut h = H::new();
    let dir = tempfile::Builder::new().prefix("c31").tempdir().unwrap();
    let clusters = ["0", "1", "42", "007", "+7", "7", "65535", "65536", "-1", "1.0", "", "cluster", "00", "111010110", " 5", "é", "70000"];
    let mut k = 0;
    while h.more() {
        k += 1;
        let probes: Vec<String> = (0..12).map(|_| word(&mut h.rng)).collect();
        let nl = if h.rng.chance(1, 3) { "\r\n" } else { "\n" };
        // gazetteer and stop words
        let mut lines: Vec<String> = (0..h.rng.range(0, 8)).map(|_| if h.rng.chance(1, 5) { String::new() } else { word(&mut h.rng) }).collect();
        let last_nl = h.rng.chance(1, 2);
        let gaz = lines.join(nl) + if last_nl { nl } else { "" };
        lines.retain(|l| !l.is_empty());
        // stems
        let stems: Vec<Vec<String>> = (0..h.rng.range(0, 5)).map(|_| { let s = word(&mut h.rng).trim().to_string(); let mut v = vec![if s.is_empty() { "s".into() } else { s }]; for _ in 0..h.rng.range(0, 4) { v.push(word(&mut h.rng)); } v }).collect();
        let stem_file = stems.iter().map(|v| v.join(",")).collect::<Vec<_>>().join(nl) + if last_nl { nl } else { "" };
        // clusters
        let numeric = h.rng.chance(1, 2);
        let cl: Vec<(String, String)> = (0..h.rng.range(0, 7)).map(|_| (word(&mut h.rng), if numeric { format!("{}", h.rng.below(65536)) } else { h.rng.pick(&clusters).to_string() })).collect();
        let cl_file = cl.iter().map(|(a, b)| format!("{}\t{}", a, b)).collect::<Vec<_>>().join(nl) + if last_nl { nl } else { "" };
        // words without clusters
        if h.rng.chance(1, 10) {
            let names: Vec<String> = cl.iter().map(|c| c.0.clone()).collect();
            let file = names.join(nl);
            h.case(&format!("clusters file without clusters {:?}", file), !names.is_empty(), || {
                let r = HashMapWordClusterer::from_reader(file.as_bytes());
                ensure(r.is_err() == names.iter().any(|w| !w.is_empty()), "words without clusters are accepted")
            });
            continue;
        }
        let sub = dir.path().join(format!("r{}", k % 4));
        let through_files = h.rng.chance(1, 6);
        h.case(&format!("gazetteer {:?} stems {:?} clusters {:?} probes {:?} loaded as resources {}", gaz, stem_file, cl_file, probes, through_files), !cl.is_empty() && !stems.is_empty(), || {
            let mut probes = probes.clone();
            probes.extend(lines.iter().cloned()); probes.extend(cl.iter().map(|c| c.0.clone())); probes.extend(stems.iter().flat_map(|s| s.iter().cloned()));
            let mut hashes: HashMap<i32, String> = HashMap::new();
            for p in &probes { for q in &[p.clone(), normalize(p)] { if hashes.entry(hash_str_to_i32(q)).or_insert(q.clone()) != q { return Ok(()); } } }
            let (g, s, c, sw): (std::sync::Arc<dyn Gazetteer>, std::sync::Arc<dyn Stemmer>, std::sync::Arc<dyn WordClusterer>, Option<HashSet<String>>) = if through_files {
                let _ = fs::remove_dir_all(&sub);
                for d in &["gazetteers", "stemming", "word_clusters", "b", "c/g"] { fs::create_dir_all(sub.join(d)).unwrap(); }
                fs::write(sub.join("gazetteers/G.txt"), &gaz).unwrap(); fs::write(sub.join("gazetteers/H.txt"), "other").unwrap();
                fs::write(sub.join("stemming/S.txt"), &stem_file).unwrap();
                fs::write(sub.join("word_clusters/W.txt"), &cl_file).unwrap();
                fs::write(sub.join("stop.txt"), &gaz).unwrap();
                fs::write(sub.join("metadata.json"), r#"{"language":"en","gazetteers":["G","H"],"word_clusters":["W"],"stems":"S","stop_words":"stop"}"#).unwrap();
                fs::write(sub.join("b/metadata.json"), r#"{"language":"en","gazetteer_parser":null}"#).unwrap();
                fs::write(sub.join("c/metadata.json"), r#"{"language":"en","parser_directory":"g","parser_usage":1}"#).unwrap();
                fs::write(sub.join("c/g/metadata.json"), r#"{"parsers_metadata":[]}"#).unwrap();
                let r = load_shared_resources(&sub, sub.join("b"), sub.join("c")).map_err(|e| e.to_string())?;
                expect_eq("gazetteer names", r.gazetteers.keys().cloned().collect::<HashSet<_>>(), vec!["G".to_string(), "H".into()].into_iter().collect())?;
                ensure(r.gazetteers["H"].contains("other"), "second gazetteer")?;
                // what the metadata does not name is not loaded; what it names has to be there
                fs::write(sub.join("metadata.json"), r#"{"language":"en","gazetteers":["H"]}"#).unwrap();
                let few = load_shared_resources(&sub, sub.join("b"), sub.join("c")).map_err(|e| e.to_string())?;
                ensure(few.gazetteers.len() == 1 && few.stemmer.is_none() && few.word_clusterers.is_empty() && few.stop_words.is_empty(), "resources are loaded that the metadata does not name")?;
                for (what, m) in &[("gazetteer", r#""gazetteers":["H","I"]"#), ("clusters", r#""word_clusters":["I"]"#), ("stemmer", r#""stems":"I""#), ("stop words", r#""stop_words":"I""#)] {
                    fs::write(sub.join("metadata.json"), format!(r#"{{"language":"en",{}}}"#, m)).unwrap();
                    ensure(load_shared_resources(&sub, sub.join("b"), sub.join("c")).is_err(), format!("a missing {} file is accepted", what))?;
                }
                (r.gazetteers["G"].clone(), r.stemmer.clone().ok_or("no stemmer")?, r.word_clusterers.get("W").ok_or("no clusterer")?.clone(), Some(r.stop_words.clone()))
            } else {
                (std::sync::Arc::new(HashSetGazetteer::from_reader(gaz.as_bytes()).map_err(|e| e.to_string())?), std::sync::Arc::new(HashMapStemmer::from_reader(stem_file.as_bytes()).map_err(|e| e.to_string())?), std::sync::Arc::new(HashMapWordClusterer::from_reader(cl_file.as_bytes()).map_err(|e| e.to_string())?), None)
            };
            if let Some(sw) = sw { expect_eq("stop words", sw, lines.iter().cloned().collect::<HashSet<_>>())?; }
            for p in &probes {
                expect_eq(&format!("gazetteer contains {:?}", p), g.contains(p), lines.contains(p))?;
                let n = normalize(p);
                // the last listing of a form counts
                let want = stems.iter().rev().filter(|v| v[1..].contains(&n)).next().map(|v| v[0].clone()).unwrap_or(p.clone());
                expect_eq(&format!("stem of {:?}", p), s.stem(p), want)?;
                let want = cl.iter().rev().find(|(w, _)| w == p).map(|(_, c)| c.clone());
                expect_eq(&format!("cluster of {:?}", p), c.get_cluster(p), want)?;
            }
            Ok(())
        });
    }
    h.finish("random resource files (empty lines, repeated and numeric-looking clusters, both line ends), read directly and through the resource loader; non-trivial: stems and clusters present");
}
