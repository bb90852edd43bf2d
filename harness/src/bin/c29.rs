use snips_nlu_lib::SnipsNluEngine;
use std::fs;
use vx_harness::*;

fn body(version: &str, extra: &str) -> String {
    format!(r#"{{"dataset_metadata":{{"language_code":"en","entities":{{}},"slot_name_mappings":{{}}}},"intent_parsers":[],"model_version":{},"training_package_version":"0.20.0","builtin_entity_parser":"b","custom_entity_parser":"c"{}}}"#, version, extra)
}
fn main() {
    let mut h = H::new();
    let good = snips_nlu_lib::MODEL_VERSION;
    let dir = tempfile::Builder::new().prefix("c29").tempdir().unwrap();
    let fixed: Vec<String> = vec!["".into(), "0".into(), "0.20".into(), "0.20.00".into(), "0.20.0 ".into(), " 0.20.0".into(), "0.20.1".into(), "0.20.10".into(), "0.19.9".into(), "1.20.0".into(), "0.21.0".into(), "0.20.0-rc1".into(), "v0.20.0".into(), "00.20.0".into(), "0.20.0.0".into(), "é".into(), "0.20.0\u{0}".into(), "10.20.0".into(), "0.2.0".into(), "0.20.0+a".into()];
    let mut k = 0;
    while h.more() {
        let version = if k < fixed.len() { fixed[k].clone() } else if h.rng.chance(1, 4) { good.to_string() } else {
            let mut c: Vec<char> = good.chars().collect();
            for _ in 0..h.rng.range(0, 2) { match h.rng.below(3) { 0 if !c.is_empty() => { let i = h.rng.below(c.len()); c.remove(i); } 1 => { let i = h.rng.range(0, c.len()); c.insert(i, *h.rng.pick(&['0', '1', '.', '2', 'a', ' '])); } _ => if !c.is_empty() { let i = h.rng.below(c.len()); c[i] = *h.rng.pick(&['0', '1', '9', '.']); } } }
            c.into_iter().collect()
        };
        k += 1;
        // 0 well formed; 1 later format of an unsupported version; 2.. malformed
        let shape = *h.rng.pick(&[0usize, 0, 0, 1, 2, 3, 4, 5, 6, 7]);
        let q = serde_json::to_string(&version).unwrap();
        let d = dir.path().join(format!("engine{}", k % 8));
        let text: Option<Vec<u8>> = match shape {
            0 => Some(body(&q, "").into_bytes()),
            1 => Some(format!(r#"{{"model_version":{},"another":1}}"#, q).into_bytes()),
            2 => None,
            3 => Some(body(&q, "")[..body(&q, "").len() - 1].as_bytes().to_vec()),
            4 => Some(body("20", "").into_bytes()),
            5 => Some(r#"{"dataset_metadata":{}}"#.as_bytes().to_vec()),
            6 => Some(vec![0xff, 0xfe, b'{']),
            _ => Some(body(&q, "").replace("\"intent_parsers\":[]", "\"intent_parsers\":3").into_bytes()),
        };
        h.case(&format!("version {:?} file {:?}", version, text.as_ref().map(|t| String::from_utf8_lossy(t).to_string())), version != good, || {
            let _ = fs::remove_dir_all(&d);
            fs::create_dir(&d).unwrap();
            if let Some(t) = &text { fs::write(d.join("nlu_engine.json"), t).unwrap(); }
            let model = SnipsNluEngine::load_model(&d);
            let chain = |e: &failure::Error| e.iter_chain().map(|c| c.to_string()).collect::<Vec<_>>().join(" / ");
            let ok = shape == 0 && version == good;
            match &model {
                Ok(m) => { ensure(ok, "the model was loaded")?; expect_eq("loaded version", m.model_version.clone(), good.to_string())? }
                Err(e) => {
                    ensure(!ok, format!("a model of the supported version was rejected: {}", chain(e)))?;
                    if [0, 1, 7].contains(&shape) && version != good { let c = chain(e); ensure(c.contains(&format!("{}", version)) && c.contains(good), format!("the error names not both versions: {}", c))?; }
                }
            }
            let r = SnipsNluEngine::check_model_version(d.join("nlu_engine.json"));
            let declares = [0, 1, 7].contains(&shape) && version == good;
            expect_eq("version check", r.is_ok(), declares)?;
            ensure(SnipsNluEngine::from_path(&d).is_err(), "an engine without resources was loaded")
        });
    }
    // a complete engine of the supported version loads
    h.case("complete engine of the supported version", true, || {
        let d = dir.path().join("full");
        fs::create_dir_all(d.join("resources/en")).unwrap(); fs::create_dir_all(d.join("b")).unwrap(); fs::create_dir_all(d.join("c/g")).unwrap();
        fs::write(d.join("nlu_engine.json"), body(&format!("{:?}", good), "")).unwrap();
        fs::write(d.join("resources/en/metadata.json"), r#"{"language":"en"}"#).unwrap();
        fs::write(d.join("b/metadata.json"), r#"{"language":"en","gazetteer_parser":null}"#).unwrap();
        fs::write(d.join("c/metadata.json"), r#"{"language":"en","parser_directory":"g","parser_usage":1}"#).unwrap();
        fs::write(d.join("c/g/metadata.json"), r#"{"parsers_metadata":[]}"#).unwrap();
        SnipsNluEngine::from_path(&d).map(|_| ()).map_err(|e| e.to_string())?;
        fs::write(d.join("nlu_engine.json"), body("\"0.19.0\"", "")).unwrap();
        ensure(SnipsNluEngine::from_path(&d).is_err(), "an engine of version 0.19.0 was loaded")
    });
    h.finish("model files with versions near the supported one, malformed and unreadable files; non-trivial: another version");
}
