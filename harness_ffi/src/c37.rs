use ffi_utils::{CStringArray, BOXES, SNIPS_RESULT, STRINGS};
use snips_nlu_ffi::*;
use std::result::Result;
use snips_nlu_lib::SnipsNluEngine;
use snips_nlu_ontology_ffi_macros::{CIntentClassifierResultArray, CIntentParserResult, CSlotList};
use snips_nlu_utils::string::hash_str_to_i32;
use std::ffi::{CStr, CString};
use std::fs;
use std::path::Path;
use std::ptr::null;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use vx_harness::*;

/// bytes of a C string, and the text they are if they are UTF-8
fn cstr(r: &mut Rng, t: &str) -> (CString, Option<String>) {
    if r.chance(1, 12) {
        let mut b = t.as_bytes().to_vec();
        let at = r.range(0, b.len());
        b.insert(at, 0xff);
        (CString::new(b).unwrap(), None)
    } else { (CString::new(t).unwrap(), Some(t.to_string())) }
}
struct Arr { _own: Vec<CString>, _ptrs: Vec<*const libc::c_char>, arr: CStringArray, text: Option<Vec<String>>, desc: String }
fn arr(r: &mut Rng, words: &[&str]) -> Option<Arr> {
    if r.chance(1, 2) { return None; }
    let n = r.range(0, 4);
    let v: Vec<(CString, Option<String>)> = (0..n).map(|_| { let w: &&str = r.pick(words); if r.chance(1, 3) { cstr(r, w) } else { (CString::new(*w).unwrap(), Some(w.to_string())) } }).collect();
    let text = v.iter().map(|x| x.1.clone()).collect::<Option<Vec<_>>>();
    let own: Vec<CString> = v.into_iter().map(|x| x.0).collect();
    let ptrs: Vec<*const libc::c_char> = own.iter().map(|c| c.as_ptr()).collect();
    let a = CStringArray { data: ptrs.as_ptr(), size: n as i32 };
    Some(Arr { desc: format!("{:?}", own), _own: own, _ptrs: ptrs, arr: a, text })
}
fn ptr(a: &Option<Arr>) -> *const CStringArray { a.as_ref().map(|a| &a.arr as *const _).unwrap_or(null()) }
fn desc(a: &Option<Arr>) -> String { a.as_ref().map(|a| a.desc.clone()).unwrap_or("none".into()) }
const OK: SNIPS_RESULT = SNIPS_RESULT::SNIPS_RESULT_OK;
/// an address nothing lives at: what an output argument holds before the call
fn nowhere<T>() -> *const T { 0x10 as *const T }
fn wr(d: &Path, p: &str, t: &str) { fs::create_dir_all(d.join(p).parent().unwrap()).unwrap(); fs::write(d.join(p), t).unwrap() }
/// a small engine whose only intent is `name`
fn engine_dir(d: &Path, name: &str, broken: bool) {
    let _ = fs::remove_dir_all(d);
    fs::create_dir_all(d.join("b")).unwrap();
    wr(d, "nlu_engine.json", &format!(r#"{{"dataset_metadata":{{"language_code":"en","entities":{{}},"slot_name_mappings":{{}}}},"intent_parsers":["p"],"model_version":"{}","training_package_version":"0.20.0","builtin_entity_parser":"b","custom_entity_parser":"c"}}"#, if broken { "0.0.0" } else { snips_nlu_lib::MODEL_VERSION }));
    wr(d, "resources/en/metadata.json", r#"{"language":"en","stop_words":"stop"}"#);
    wr(d, "resources/en/stop.txt", "please\n");
    wr(d, "b/metadata.json", r#"{"language":"en","gazetteer_parser":null}"#);
    wr(d, "c/metadata.json", r#"{"language":"en","parser_directory":"g","parser_usage":1}"#);
    wr(d, "c/g/metadata.json", r#"{"parsers_metadata":[]}"#);
    wr(d, "p/metadata.json", r#"{"unit_name":"lookup_intent_parser"}"#);
    wr(d, "p/intent_parser.json", &format!(r#"{{"language_code":"en","slots_names":[],"intents_names":["{}"],"map":{{"{}":[0,[]]}},"entity_scopes":[{{"intent_group":["{}"],"entity_scope":{{"builtin":[],"custom":[]}}}}],"stop_words_whitelist":{{}},"config":{{"ignore_stop_words":false}}}}"#, name, hash_str_to_i32("hello"), name));
}
fn files(d: &Path, at: &Path, out: &mut Vec<(String, Vec<u8>)>) {
    for e in fs::read_dir(at).unwrap() {
        let p = e.unwrap().path();
        let n = format!("engine/{}", p.strip_prefix(d).unwrap().to_string_lossy());
        if p.is_dir() { out.push((n + "/", vec![])); files(d, &p, out); } else { out.push((n, fs::read(&p).unwrap())); }
    }
}
fn taken<T>(res: SNIPS_RESULT, p: *const T, read: impl Fn(&T) -> String, destroy: impl Fn(*mut T) -> SNIPS_RESULT) -> Result<Result<String, ()>, String> {
    if res != OK { ensure(p == nowhere(), "a failing call stored something")?; return Ok(Err(())); }
    ensure(p != nowhere() && !p.is_null(), "a call reported success and stored nothing")?;
    let before = BOXES.load(Ordering::SeqCst);
    let s = read(unsafe { &*p });
    expect_eq("destroying the answer", destroy(p as *mut T), OK)?;
    expect_eq("objects alive after destroying the answer", BOXES.load(Ordering::SeqCst), before - 1)?;
    Ok(Ok(s))
}
fn taken_text(res: SNIPS_RESULT, p: *const libc::c_char) -> Result<Result<String, ()>, String> {
    if res != OK { ensure(p == nowhere(), "a failing call stored something")?; return Ok(Err(())); }
    ensure(p != nowhere() && !p.is_null(), "a call reported success and stored nothing")?;
    let before = STRINGS.load(Ordering::SeqCst);
    let s = unsafe { CStr::from_ptr(p) }.to_str().map_err(|e| e.to_string())?.to_string();
    expect_eq("destroying the answer", snips_nlu_engine_destroy_string(p as *mut _), OK)?;
    expect_eq("strings alive after destroying the answer", STRINGS.load(Ordering::SeqCst), before - 1)?;
    Ok(Ok(s))
}
fn main() {
    let mut h = H::new();
    let root = tempfile::Builder::new().prefix("c37").tempdir().unwrap();
    let mut k = 0;
    while h.more() {
        k += 1;
        if k % 40 == 0 {
            // ---- creation
            let d = root.path().join(format!("é {}", k % 3));
            let name = format!("Intent{}", h.rng.below(1000));
            let broken = h.rng.chance(1, 4);
            let zip = h.rng.chance(1, 2);
            let cut = if h.rng.chance(1, 5) { 1 + h.rng.below(400) } else { 0 };
            let bad = h.rng.chance(1, 8);
            let pad = if h.rng.chance(1, 3) { *h.rng.pick(&[300usize, 70_000, 200_000]) } else { 0 };
            h.case(&format!("creation from {} of an engine knowing {} broken {} bytes cut {} padding {} bad path {}", if zip { "zip" } else { "directory" }, name, broken, cut, pad, bad), true, || {
                engine_dir(&d, &name, broken);
                let mut c: *const CSnipsNluEngine = nowhere();
                let (res, sound) = if zip {
                    let mut v = vec![];
                    files(&d, &d, &mut v);
                    v.insert(0, ("engine/".into(), vec![]));
                    if pad > 0 { v.insert(1, ("engine/notes.txt".into(), vec![b'x'; pad])); }
                    let mut b = zip::build(&v.iter().map(|(n, d)| (&**n, &**d)).collect::<Vec<_>>());
                    let want = SnipsNluEngine::from_zip(std::io::Cursor::new(b[..b.len() - cut].to_vec())).is_ok();
                    let n = b.len() - cut;
                    if cut == 0 { b.extend(b"trailing"); }
                    (snips_nlu_engine_create_from_zip(b.as_ptr(), n as u32, &mut c), want)
                } else {
                    let mut p = d.to_str().unwrap().as_bytes().to_vec();
                    if bad { p.push(0xff); }
                    let p = CString::new(p).unwrap();
                    (snips_nlu_engine_create_from_dir(p.as_ptr(), &mut c), !broken && !bad)
                };
                ensure((res == OK) == sound, format!("creation answered {:?}", res))?;
                if res != OK { return ensure(c == nowhere(), "a failing creation stored something"); }
                ensure(c != nowhere() && !c.is_null(), "a successful creation stored nothing")?;
                let mut out: *const libc::c_char = nowhere();
                let t = CString::new("hello").unwrap();
                let r = snips_nlu_engine_run_get_intents_into_json(c, t.as_ptr(), &mut out);
                let got = taken_text(r, out)?;
                ensure(got.as_ref().map(|g| g.contains(&format!("{:?}", name))).unwrap_or(false), format!("the created engine answers {:?}", got))?;
                let before = BOXES.load(Ordering::SeqCst);
                expect_eq("destroying the client", snips_nlu_engine_destroy_client(c as *mut _), OK)?;
                expect_eq("clients alive after destroying the client", BOXES.load(Ordering::SeqCst), before - 1)
            });
            continue;
        }
        // ---- queries
        let text = eng::text(&mut h.rng);
        let log: eng::Log = Default::default();
        let mut parsers = eng::mocks(&mut h.rng, &text, &log);
        // no two scores are the same: the order among equals is not fixed
        let mut u = 0;
        for p in parsers.iter_mut() {
            for i in p.intents.iter_mut() { u += 1; i.1 += u as f32 * 0.0005; }
            p.intents.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
        }
        let (cin, input) = cstr(&mut h.rng, &text);
        let mut names: Vec<&str> = eng::INTENTS.to_vec();
        names.push("unknown");
        let (cint, intent) = { let n = *h.rng.pick(&names); cstr(&mut h.rng, n) };
        let w = arr(&mut h.rng, &names);
        let b = arr(&mut h.rng, &names);
        let (ia, sa) = (*h.rng.pick(&[0u32, 1, 2, 3, 100]), *h.rng.pick(&[0u32, 1, 2, 3, 100]));
        let call = h.rng.below(10);
        let client = if h.rng.chance(1, 20) { h.rng.range(1, 2) } else { 0 };
        h.case(&format!("call {} text {:?} intent {:?} whitelist {} blacklist {} alternatives {} {} client {} parsers {:?}", call, cin, cint, desc(&w), desc(&b), ia, sa, ["usable", "poisoned", "null"][client], parsers), parsers.len() > 0, || {
            let (bp, cp) = (Arc::new(res::builtin_numbers()), Arc::new(res::custom_dict(eng::dict())));
            let mk = || eng::engine(eng::metadata(eng::MAPPINGS, eng::CUSTOMS), parsers.clone(), bp.clone(), cp.clone());
            let reference = mk();
            let c = CSnipsNluEngine(Mutex::new(mk()));
            if client == 1 { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = c.0.lock().unwrap(); panic!("poison"); })); }
            let p: *const CSnipsNluEngine = if client == 2 { null() } else { &c };
            let alt = match call { 0 | 2 | 5 | 7 => (0, 0), _ => (ia as usize, sa as usize) };
            fn filter(a: &Option<Arr>) -> Option<Option<Vec<&str>>> { match a { None => Some(None), Some(a) => a.text.as_ref().map(|t| Some(t.iter().map(|s| &**s).collect())) } }
            // ---- what the engine itself answers
            let js = |v: serde_json::Result<String>| v.map_err(|_| ());
            let want: Result<String, ()> = (|| {
                if client != 0 { return Err(()); }
                let t = input.clone().ok_or(())?;
                match call {
                    0 | 1 | 5 | 6 => { let (w, b) = (filter(&w).ok_or(())?, filter(&b).ok_or(())?); let r = if alt == (0, 0) { reference.parse(&t, w, b) } else { reference.parse_with_alternatives(&t, w, b, alt.0, alt.1) }.map_err(|_| ())?; if call < 5 { Ok(format!("{:?}", r)) } else { js(serde_json::to_string(&r)) } }
                    2 | 3 | 7 | 8 => { let i = intent.clone().ok_or(())?; let r = if alt.1 == 0 { reference.get_slots(&t, &i) } else { reference.get_slots_with_alternatives(&t, &i, alt.1) }.map_err(|_| ())?; if call < 5 { Ok(format!("{:?}", r)) } else { js(serde_json::to_string(&r)) } }
                    _ => { let r = reference.get_intents(&t).map_err(|_| ())?; if call < 5 { Ok(format!("{:?}", r)) } else { js(serde_json::to_string(&r)) } }
                }
            })();
            let want_log: Vec<String> = log.lock().unwrap().drain(..).collect();
            // ---- the call
            let (i, n) = (cin.as_ptr(), cint.as_ptr());
            let got = if call < 2 {
                let mut o: *const CIntentParserResult = nowhere();
                let r = if call == 0 { snips_nlu_engine_run_parse(p, i, ptr(&w), ptr(&b), &mut o) } else { snips_nlu_engine_run_parse_with_alternatives(p, i, ptr(&w), ptr(&b), ia, sa, &mut o) };
                taken(r, o, |x| format!("{:?}", x.0), |x| snips_nlu_engine_destroy_result(x))?
            } else if call < 4 {
                let mut o: *const CSlotList = nowhere();
                let r = if call == 2 { snips_nlu_engine_run_get_slots(p, i, n, &mut o) } else { snips_nlu_engine_run_get_slots_with_alternatives(p, i, n, sa, &mut o) };
                taken(r, o, |x| format!("{:?}", x.0), |x| snips_nlu_engine_destroy_slots(x))?
            } else if call == 4 {
                let mut o: *const CIntentClassifierResultArray = nowhere();
                let r = snips_nlu_engine_run_get_intents(p, i, &mut o);
                taken(r, o, |x| format!("{:?}", x.0), |x| snips_nlu_engine_destroy_intent_classifier_results(x))?
            } else {
                let mut o: *const libc::c_char = nowhere();
                let r = match call {
                    5 => snips_nlu_engine_run_parse_into_json(p, i, ptr(&w), ptr(&b), &mut o),
                    6 => snips_nlu_engine_run_parse_with_alternatives_into_json(p, i, ptr(&w), ptr(&b), ia, sa, &mut o),
                    7 => snips_nlu_engine_run_get_slots_into_json(p, i, n, &mut o),
                    8 => snips_nlu_engine_run_get_slots_with_alternatives_into_json(p, i, n, sa, &mut o),
                    _ => snips_nlu_engine_run_get_intents_into_json(p, i, &mut o),
                };
                taken_text(r, o)?
            };
            expect_eq("answer", got, want)?;
            expect_eq("queries to the parsers", log.lock().unwrap().clone(), want_log)?;
            ensure(client == 2 || c.0.is_poisoned() == (client == 1), "the client was left unusable")?;
            ensure(client == 2 || client == 1 || c.0.try_lock().is_ok(), "the client was left locked")?;
            let mut v: *const libc::c_char = nowhere();
            let r = snips_nlu_engine_get_model_version(&mut v);
            expect_eq("model version", taken_text(r, v)?, Ok(snips_nlu_lib::MODEL_VERSION.to_string()))?;
            expect_eq("destroying nothing", (snips_nlu_engine_destroy_result(std::ptr::null_mut()) == OK, snips_nlu_engine_destroy_string(std::ptr::null_mut()) == OK, snips_nlu_engine_destroy_client(std::ptr::null_mut()) == OK, snips_nlu_engine_destroy_slots(std::ptr::null_mut()) == OK, snips_nlu_engine_destroy_intent_classifier_results(std::ptr::null_mut()) == OK), (false, false, false, false, false))
        });
    }
    h.finish("random queries through the C interface of random engines of recording parsers, with texts and filters that are sometimes not UTF-8, sometimes unusable clients, and creation from directories and archives; non-trivial: at least one parser");
}
