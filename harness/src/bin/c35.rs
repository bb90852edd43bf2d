use snips_nlu_lib::slot_filler::crf_slot_filler::encode_tag;
use snips_nlu_utils::string::hash_str_to_i32;
use snips_nlu_lib::SnipsNluEngine;
use std::fs;
use vx_harness::*;

#[derive(Debug, Clone)]
struct Unit { dir: String, kind: usize, fillers: Vec<(String, String)>, stop: bool }
const UNITS: [&str; 5] = ["deterministic_intent_parser", "lookup_intent_parser", "probabilistic_intent_parser", "crf_slot_filler", "log_reg_intent_classifier"];
fn main() {
    let mut h = H::new();
    let root = tempfile::Builder::new().prefix("c35").tempdir().unwrap();
    let mut k = 0;
    while h.more() {
        k += 1;
        let d = root.path().join(format!("e{}", k % 4));
        let lang = *h.rng.pick(&["en", "fr"]);
        let n = h.rng.range(1, 4);
        let units: Vec<Unit> = (0..n).map(|i| {
            let kind = h.rng.below(3);
            // the slot fillers of intent P<i> and of other intents; an intent may be listed twice
            let mut fillers: Vec<(String, String)> = (0..h.rng.range(0, 2)).map(|j| (format!("Q{}", j), format!("sfq{}", j))).collect();
            let at = h.rng.range(0, fillers.len());
            fillers.insert(at, (format!("P{}", i), "sfp".to_string()));
            if h.rng.chance(1, 4) { let at = h.rng.range(0, fillers.len()); fillers.insert(at, (format!("P{}", i), "sfx".to_string())); }
            // named like its kind, like another kind, or otherwise
            let dir = match h.rng.below(4) { 0 => format!("parser_{}", (b'a' + ((i * 7 + 3) % 26) as u8) as char), 1 => format!("{}. parser/é", 9 - i), 2 => UNITS[kind].to_string(), _ => UNITS[h.rng.below(3)].to_string() };
            Unit { dir, kind, fillers, stop: h.rng.chance(1, 2) }
        }).collect();
        let mut units: Vec<Unit> = units;
        for i in 1..n { if units[..i].iter().any(|u| u.dir == units[i].dir) { units[i].dir = format!("{}_{}", units[i].dir, i); } }
        let mut listed: Vec<usize> = (0..n).collect();
        h.rng.shuffle(&mut listed);
        if h.rng.chance(1, 3) { listed.pop(); }
        if h.rng.chance(1, 5) { listed.push(0); }
        // 0 sound; something wrong with a listed parser: 1 kind, 2 metadata, 3 model, 4 kind of a nested unit, 5 wrong directory of the resources, 6 unknown tagging scheme, 7 references to something the model does not have
        let fault = if h.rng.chance(1, 3) { h.rng.range(1, 7) } else { 0 };
        let odd = if listed.is_empty() { None } else { Some(*h.rng.pick(&listed)) };
        let at = h.rng.below(n);
        let (b, c) = *h.rng.pick(&[("b", "c"), ("builtin_entity_parser", "custom_entity_parser"), ("custom", "builtin"), ("p/b", "p/c")]);
        let desc = format!("language {} units {:?} listed {:?} fault {} at {:?} query {}", lang, units, listed, fault, odd, at);
        h.case(&desc, listed.len() > 1, || {
            let _ = fs::remove_dir_all(&d);
            let mk = |p: &str| fs::create_dir_all(d.join(p)).unwrap();
            let wr = |p: &str, t: &str| { fs::create_dir_all(d.join(p).parent().unwrap()).unwrap(); fs::write(d.join(p), t).unwrap() };
            mk(b); mk(&format!("{}/g", c));
            let names = listed.iter().map(|i| format!("{:?}", units[*i].dir)).collect::<Vec<_>>().join(",");
            wr("nlu_engine.json", &format!(r#"{{"dataset_metadata":{{"language_code":"{}","entities":{{"thing":{{"automatically_extensible":true}}}},"slot_name_mappings":{{}}}},"intent_parsers":[{}],"model_version":"{}","training_package_version":"0.20.0","builtin_entity_parser":{:?},"custom_entity_parser":{:?}}}"#, lang, names, snips_nlu_lib::MODEL_VERSION, b, c));
            let other = if lang == "en" { "fr" } else { "en" };
            wr(&format!("resources/{}/metadata.json", if fault == 5 { other } else { lang }), &format!(r#"{{"language":"{}","stop_words":"stop"}}"#, lang));
            wr(&format!("resources/{}/stop.txt", lang), "please\n");
            wr(&format!("resources/{}/stop.txt", other), "never\n");
            wr(&format!("{}/metadata.json", b), r#"{"language":"en","gazetteer_parser":null}"#);
            wr(&format!("{}/metadata.json", c), r#"{"language":"en","parser_directory":"g","parser_usage":1}"#);
            wr(&format!("{}/g/metadata.json", c), r#"{"parsers_metadata":[]}"#);
            let mut broken = fault == 5;
            let h7 = fault == 7;
            for (i, u) in units.iter().enumerate() {
                let hit = Some(i) == odd;
                let kind = if fault == 1 && hit { broken = true; 3 + i % 2 } else { u.kind };
                if fault == 2 && hit { broken = true } else { wr(&format!("{}/metadata.json", u.dir), &format!(r#"{{"unit_name":"{}"}}"#, UNITS[kind])); }
                let text = match u.kind {
                    0 => format!(r#"{{"language_code":"{}","patterns":{{"P{}":["^ *hello *$","^ *only{} *$"]}},"group_names_to_slot_names":{{}},"slot_names_to_entities":{{"P{}":{{}}}},"config":{{"ignore_stop_words":{}}}}}"#, lang, i, i, i, u.stop),
                    1 => format!(r#"{{"language_code":"{}","slots_names":[],"intents_names":["P{}"],"map":{{"{}":[0,[]],"{}":[0,[]]}},"entity_scopes":[{{"intent_group":["P{}"],"entity_scope":{{"builtin":[],"custom":[]}}}}],"stop_words_whitelist":{{}},"config":{{"ignore_stop_words":{}}}}}"#, lang, i, hash_str_to_i32("hello"), hash_str_to_i32(&format!("only{}", i)), i, u.stop),
                    _ => format!(r#"{{"slot_fillers":[{}]}}"#, u.fillers.iter().map(|f| format!(r#"{{"intent":{:?},"slot_filler_name":{:?}}}"#, f.0, f.1)).collect::<Vec<_>>().join(",")),
                };
                let bad = h7 && hit;
                let text = if !bad { text } else { broken = true; match u.kind {
                    0 => text.replace(&format!("^ *only{} *$", i), &format!("^ *only{} (?P<g0>x)*$", i)).replace(r#""group_names_to_slot_names":{}"#, ["\"group_names_to_slot_names\":{}", "\"group_names_to_slot_names\":{\"g0\":\"s\"}", "\"group_names_to_slot_names\":{\"g1\":\"s\"}"][k % 3]),
                    1 => text.replacen("[0,[]]", ["[1,[]]", "[-1,[]]", "[0,[0]]", "[0,[-1]]"][k % 4], 1),
                    _ => text,
                } };
                if fault == 3 && hit { broken = true; wr(&format!("{}/intent_parser.json", u.dir), &text[..text.len() - 1]); } else { wr(&format!("{}/intent_parser.json", u.dir), &text); }
                if u.kind == 2 {
                    let nested = fault == 4 && hit;
                    broken |= nested || (fault == 6 && hit);
                    wr(&format!("{}/intent_classifier/metadata.json", u.dir), &format!(r#"{{"unit_name":"{}"}}"#, if nested && i % 2 == 0 { UNITS[3] } else { UNITS[4] }));
                    wr(&format!("{}/intent_classifier/intent_classifier.json", u.dir), &format!(r#"{{"featurizer":null,"intercept":{},"coeffs":{},"intent_list":["P{}"{}]}}"#, if bad { ["[0.5]", "[0.5,1.0]"][k % 2] } else { "null" }, if bad { ["[[]]", "[[],[]]"][k % 2] } else { "null" }, i, if bad { r#","Q","R""# } else { "" }));
                    for f in &u.fillers {
                        wr(&format!("{}/{}/metadata.json", u.dir, f.1), &format!(r#"{{"unit_name":"{}"}}"#, if nested && i % 2 == 1 { UNITS[0] } else { UNITS[3] }));
                        // the tags of this filler: the first token is a slot, under the BIO or BILOU scheme
                        let (scheme, tag) = if i % 2 == 0 { (1, "B-") } else { (2, "U-") };
                        wr(&format!("{}/{}/model.crf", u.dir, f.1), &format!("{}\n{}", encode_tag(&format!("{}{}_{}", tag, f.1, i)), encode_tag("O")));
                        wr(&format!("{}/{}/slot_filler.json", u.dir, f.1), &format!(r#"{{"language_code":"{}","intent":{:?},"slot_name_mapping":{{"{}_{}":"thing"}},"crf_model_file":"model.crf","config":{{"tagging_scheme":{},"feature_factory_configs":[]}}}}"#, lang, f.0, f.1, i, if fault == 6 && hit { 3 } else { scheme }));
                    }
                }
            }
            if fault == 4 || fault == 6 { if odd.map(|i| units[i].kind != 2).unwrap_or(true) { broken = false; } }
            let e = SnipsNluEngine::from_path(&d);
            // the resources of the engine, alone
            let r = snips_nlu_lib::resources::loading::load_engine_shared_resources(&d);
            ensure(r.is_ok() == (fault != 5), format!("loading the resources: {:?}", r.as_ref().map(|_| ()).map_err(|e| e.to_string())))?;
            if let Ok(r) = r { expect_eq("stop words of the engine", r.stop_words.iter().cloned().collect::<Vec<_>>(), vec!["please".to_string()])?; }
            ensure(e.is_ok() != broken, format!("loading {}: {}", if broken { "a broken engine" } else { "a sound engine" }, match &e { Ok(_) => "accepted".to_string(), Err(e) => e.to_string() }))?;
            let e = match e { Ok(e) => e, Err(_) => return Ok(()) };
            // who answers: the first listed parser that knows the text (probabilistic ones know every text)
            for (text, stop) in &[("hello".to_string(), false), (format!("only{}", at), false), ("please hello".to_string(), true), ("never hello".to_string(), true), ("nothing".to_string(), false)] {
                let who = listed.iter().map(|i| (*i, &units[*i])).find(|(i, u)| u.kind == 2 || ((text == "hello" || text == &format!("only{}", i)) && !stop) || (text == "please hello" && u.stop));
                let got = e.parse(text, None, None).map_err(|e| e.to_string())?;
                expect_eq(&format!("intent of {:?}", text), got.intent.intent_name.clone(), who.map(|(i, _)| format!("P{}", i)))?;
                let slots: Vec<(String, String, String)> = got.slots.iter().map(|s| (s.slot_name.clone(), s.entity.clone(), s.raw_value.clone())).collect();
                let want = match who { Some((i, u)) if u.kind == 2 => { let f = u.fillers.iter().rev().find(|f| f.0 == format!("P{}", i)).unwrap(); vec![(format!("{}_{}", f.1, i), "thing".to_string(), text.split(' ').next().unwrap().to_string())] } _ => vec![] };
                expect_eq(&format!("slots of {:?}", text), slots, want)?;
            }
            Ok(())
        });
    }
    h.finish("engines of up to 5 listed parsers of the three kinds, sound or with one unit of the wrong kind a missing or malformed file or a reference to something that does not exist; non-trivial: more than one parser");
}
