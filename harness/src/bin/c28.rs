use snips_nlu_lib::injection::NluInjector;
use snips_nlu_lib::resources::stemmer::Stemmer;
use snips_nlu_lib::SharedResources;
use snips_nlu_parsers::gazetteer_entity_parser::{render, EntityValue, Parser};
use snips_nlu_utils::{language::Language as L, token::tokenize_light};
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::Path;
use std::sync::Arc;
use vx_harness::*;

struct St;
impl Stemmer for St { fn stem(&self, v: &str) -> String { if v == "hot" { "hott".into() } else { v.trim_end_matches('s').to_string() } } }
fn snapshot(root: &Path, at: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
    for e in fs::read_dir(at).unwrap() { let p = e.unwrap().path(); let k = p.strip_prefix(root).unwrap().to_string_lossy().to_string(); if p.is_dir() { out.insert(k, None); snapshot(root, &p, out); } else { out.insert(k, Some(fs::read(&p).unwrap())); } }
}
fn ev(res: &str, raw: &str) -> EntityValue { EntityValue { resolved_value: res.into(), raw_value: raw.into() } }
fn main() {
    let mut h = H::new();
    let dir = tempfile::Builder::new().prefix("c28").tempdir().unwrap();
    let values = ["Hot", "hot", "HOT", "two Words", "Tables", "ÉTÉ", "a-b", "", "Straße", "room of rooms", "日本", "İs", " hot", "two Words ", "two  Words"];
    let customs = ["temp", "room", "orphan", "snips/city"];
    let builtins = ["snips/musicArtist", "snips/musicAlbum", "snips/country"];
    let others = ["snips/number", "snips/datetime", "unknown", "Temp", "snips/unknown", "snips/musicTrack", ""];
    let mut k = 0;
    while h.more() {
        k += 1;
        let usage = h.rng.below(3);
        let stemmer = h.rng.chance(5, 6);
        let has_gaz = h.rng.chance(4, 5);
        let orphan_declared = h.rng.chance(1, 4);
        let from_vanilla = h.rng.chance(1, 2);
        // adding to what was injected before is the default
        let by_default = !from_vanilla && h.rng.chance(1, 2);
        let mut vals: Vec<(String, String)> = vec![];
        let bad = h.rng.chance(1, 4);
        for _ in 0..h.rng.range(0, 7) {
            let e = if bad && h.rng.chance(1, 4) { h.rng.pick(&others).to_string() } else if h.rng.chance(1, 3) { h.rng.pick(&builtins[..2]).to_string() } else if h.rng.chance(1, 8) { h.rng.pick(&customs).to_string() } else { h.rng.pick(&customs[..2]).to_string() };
            vals.push((e, h.rng.pick(&values).to_string()));
        }
        let mut init: BTreeMap<String, Parser> = BTreeMap::new();
        let mk = |r: &mut Rng, tag: &str| Parser { vanilla: (0..r.below(3)).map(|i| ev(&format!("V{}{}", tag, i), "v")).collect(), injected: (0..r.below(3)).map(|i| ev(&format!("I{}{}", tag, i), "i")).collect() };
        for c in &customs { if *c != "orphan" || orphan_declared { let p = mk(&mut h.rng, c); init.insert(format!("c/g/p_{}", c.replace('/', "_")), p); } }
        for b in &builtins { let p = mk(&mut h.rng, b); init.insert(format!("b/gz/p_{}", b.replace('/', "_")), p); }
        let d = dir.path().join(format!("e{}", k % 4));
        h.case(&format!("values {:?} stems {} (0 with, 1 without, 2 both) stemmer {} builtin gazetteers {} orphan declared {} from original values {} parsers {:?}", vals, usage, stemmer, has_gaz, orphan_declared, from_vanilla, init), vals.len() > 1, || {
            let _ = fs::remove_dir_all(&d);
            for x in &["b/gz", "c/g"] { fs::create_dir_all(d.join(x)).unwrap(); }
            for (p, v) in &init { fs::create_dir_all(d.join(p)).unwrap(); fs::write(d.join(p).join("values.json"), render(v)).unwrap(); }
            fs::write(d.join("nlu_engine.json"), format!(r#"{{"dataset_metadata":{{"language_code":"en","entities":{{{}}},"slot_name_mappings":{{}}}},"intent_parsers":[],"model_version":"0.20.0","training_package_version":"0.20.0","builtin_entity_parser":"b","custom_entity_parser":"c"}}"#, customs.iter().map(|c| format!(r#"{:?}:{{"automatically_extensible":false}}"#, c)).collect::<Vec<_>>().join(","))).unwrap();
            fs::write(d.join("b/metadata.json"), format!(r#"{{"language":"en","gazetteer_parser":{}}}"#, if has_gaz { "\"gz\"" } else { "null" })).unwrap();
            let meta = |ids: Vec<&str>| format!(r#"{{"parsers_metadata":[{}]}}"#, ids.iter().map(|i| format!(r#"{{"entity_identifier":{:?},"entity_parser":"p_{}"}}"#, i, i.replace('/', "_"))).collect::<Vec<_>>().join(","));
            fs::write(d.join("b/gz/metadata.json"), meta(builtins.to_vec())).unwrap();
            fs::write(d.join("c/metadata.json"), format!(r#"{{"language":"en","parser_directory":"g","parser_usage":{}}}"#, usage)).unwrap();
            fs::write(d.join("c/g/metadata.json"), meta(customs.iter().cloned().filter(|c| *c != "orphan" || orphan_declared).collect())).unwrap();
            let mut before = BTreeMap::new();
            snapshot(&d, &d, &mut before);
            let res = Arc::new(SharedResources { builtin_entity_parser: Arc::new(res::builtin_numbers()), custom_entity_parser: Arc::new(res::custom_dict(vec![])), gazetteers: Default::default(), stemmer: if stemmer { Some(Arc::new(St)) } else { None }, word_clusterers: Default::default(), stop_words: Default::default() });
            let mut inj = NluInjector::new(&d).shared_resources(res);
            if !by_default { inj = inj.from_vanilla(from_vanilla); }
            for (e, v) in &vals { inj = inj.add_value(e.clone(), v.clone()); }
            let got = inj.inject();
            // oracle
            let mut ok = true;
            let mut per: HashMap<String, Vec<EntityValue>> = HashMap::new();
            for (e, _) in &vals {
                let custom = customs.contains(&&**e);
                let known = if custom { e != "orphan" || orphan_declared } else { has_gaz && builtins.contains(&&**e) };
                if !known || (custom && usage != 1 && !stemmer) { ok = false; }
            }
            if !ok {
                ensure(got.is_err(), "an injection that has to be rejected succeeded")?;
                let mut after = BTreeMap::new();
                snapshot(&d, &d, &mut after);
                return expect_eq("files after the rejected injection", after, before);
            }
            got.map_err(|e| format!("injection fails: {}", e))?;
            for (e, _) in &vals {
                let plain: Vec<EntityValue> = vals.iter().filter(|x| x.0 == *e).map(|x| ev(&x.1, &x.1.to_lowercase())).collect();
                if !customs.contains(&&**e) { per.insert(format!("b/gz/p_{}", e.replace('/', "_")), plain); continue; }
                let stems: Vec<EntityValue> = plain.iter().map(|p| ev(&p.resolved_value, &tokenize_light(&p.raw_value, L::EN).iter().map(|t| St.stem(t)).collect::<Vec<_>>().join(" "))).collect();
                let mut all = match usage { 0 => stems, 1 => plain, _ => plain.into_iter().chain(stems).collect() };
                if usage != 0 { let mut seen: Vec<EntityValue> = vec![]; all.retain(|v| if seen.contains(v) { false } else { seen.push(v.clone()); true }); }
                per.insert(format!("c/g/p_{}", e.replace('/', "_")), all);
            }
            let mut want = before.clone();
            for (p, v) in per { let mut q = init[&p].clone(); let mut all = v; if !from_vanilla { all.extend(q.injected.clone()); } q.injected = all; want.insert(format!("{}/values.json", p), Some(render(&q).into_bytes())); }
            let mut after = BTreeMap::new();
            snapshot(&d, &d, &mut after);
            let s = |m: BTreeMap<String, Option<Vec<u8>>>| m.into_iter().map(|(k, v)| (k, v.map(|v| String::from_utf8_lossy(&v).to_string()))).collect::<Vec<_>>();
            expect_eq("files after the injection", s(after), s(want))
        });
    }
    h.finish("random injections into scratch engines (custom, gazetteer, grammar, unknown and undeclared entities; with, without and with both stems); non-trivial: several values");
}
