use snips_nlu_lib::intent_classifier::IntentClassifier;
use snips_nlu_lib::intent_parser::probabilistic_intent_parser::ProbabilisticIntentParser;
use snips_nlu_lib::intent_parser::IntentParser;
use snips_nlu_lib::slot_filler::SlotFiller;
use snips_nlu_lib::slot_utils::InternalSlot;
use snips_nlu_ontology::IntentClassifierResult;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use vx_harness::*;

type Log = Arc<Mutex<Vec<String>>>;
struct C { res: (Option<String>, f32), all: Vec<(Option<String>, f32)>, err: bool, log: Log }
fn ires(x: &(Option<String>, f32)) -> IntentClassifierResult { IntentClassifierResult { intent_name: x.0.clone(), confidence_score: x.1 } }
impl IntentClassifier for C {
    fn get_intent(&self, input: &str, w: Option<&[&str]>) -> Result<IntentClassifierResult, failure::Error> { self.log.lock().unwrap().push(format!("intent {:?} {:?}", input, w)); if self.err { return Err(failure::err_msg("x")); } Ok(ires(&self.res)) }
    fn get_intents(&self, input: &str) -> Result<Vec<IntentClassifierResult>, failure::Error> { self.log.lock().unwrap().push(format!("intents {:?}", input)); if self.err { return Err(failure::err_msg("x")); } Ok(self.all.iter().map(ires).collect()) }
}
struct F { name: String, slots: Vec<InternalSlot>, err: bool, log: Log }
impl SlotFiller for F {
    fn get_slots(&self, text: &str) -> Result<Vec<InternalSlot>, failure::Error> { self.log.lock().unwrap().push(format!("slots {} {:?}", self.name, text)); if self.err { return Err(failure::err_msg("x")); } Ok(self.slots.clone()) }
    fn get_sequence_probability(&self, _: &[snips_nlu_utils::token::Token], _: Vec<String>) -> Result<f64, failure::Error> { Ok(0.0) }
    fn get_tagging_scheme(&self) -> snips_nlu_lib::slot_filler::crf_utils::TaggingScheme { snips_nlu_lib::slot_filler::crf_utils::TaggingScheme::IO }
}
fn main() {
    let mut h = H::new();
    let names = ["A", "B", "é", "a", ""];
    while h.more() {
        let mut text = gen_text(&mut h.rng, 6);
        if h.rng.chance(1, 6) { text.push_str("  "); }
        if h.rng.chance(1, 6) { text.insert(0, ' '); }
        if h.rng.chance(1, 20) { text = text.to_uppercase(); }
        let len = char_len(&text);
        let scores = [0.0f32, 0.3, 0.5, 1.0];
        let fillers: Vec<(String, Vec<InternalSlot>, bool)> = names.iter().filter_map(|n| if h.rng.chance(2, 3) { let r = &mut h.rng; Some((n.to_string(), eng::rand_slots(r, &text, len), r.chance(1, 12))) } else { None }).collect();
        let res = (if h.rng.chance(1, 5) { None } else { Some(h.rng.pick(&names).to_string()) }, *h.rng.pick(&scores));
        let all: Vec<(Option<String>, f32)> = (0..h.rng.below(4)).map(|_| (if h.rng.chance(1, 4) { None } else { Some(h.rng.pick(&names).to_string()) }, *h.rng.pick(&scores))).collect();
        let err = h.rng.chance(1, 15);
        let w: Option<Vec<&str>> = h.rng.pick(&[None, Some(vec![]), Some(vec!["A"]), Some(vec!["B", "é"])]).clone();
        h.case(&format!("text {:?} classifier {:?} listing {:?} classifier fails {} fillers (intent, slots, fails) {:?} filter {:?}", text, res, all, err, fillers, w), res.0.is_some(), || {
            let log: Log = Default::default();
            let mut m: HashMap<String, Box<dyn SlotFiller>> = HashMap::new();
            for (n, s, e) in &fillers { m.insert(n.clone(), Box::new(F { name: n.clone(), slots: s.clone(), err: *e, log: log.clone() })); }
            let p = ProbabilisticIntentParser { intent_classifier: Box::new(C { res: res.clone(), all: all.clone(), err, log: log.clone() }), slot_fillers: m };
            let r = p.parse(&text, w.as_ref().map(|v| &**v));
            let calls: Vec<String> = log.lock().unwrap().drain(..).collect();
            ensure(calls.get(0) == Some(&format!("intent {:?} {:?}", text, w)), format!("classifier was asked {:?}", calls))?;
            ensure(calls[1..].iter().all(|c| res.0.as_ref().map(|n| *c == format!("slots {} {:?}", n, text)).unwrap_or(false)), format!("slot fillers were asked {:?}", calls))?;
            let filler = |n: &str| fillers.iter().find(|f| f.0 == n);
            let want: Result<Vec<InternalSlot>, ()> = match &res.0 { _ if err => Err(()), None => Ok(vec![]), Some(n) => match filler(n) { None => Err(()), Some(f) if f.2 => Err(()), Some(f) => Ok(f.1.clone()) } };
            match (r, &want) {
                (Ok(r), Ok(s)) => { expect_eq("intent", (r.intent.intent_name, r.intent.confidence_score), res.clone())?; expect_eq("slots", r.slots, s.clone())? }
                (Err(_), Err(_)) => {}
                (r, _) => return Err(format!("parse gives {:?}, expected {:?}", r.map(|r| r.slots).map_err(|e| e.to_string()), want)),
            }
            match p.get_intents(&text) { Ok(v) => { ensure(!err, "error swallowed")?; expect_eq("intents", v.into_iter().map(|i| (i.intent_name, i.confidence_score)).collect::<Vec<_>>(), all.clone())? } Err(_) => ensure(err, "get_intents fails")? }
            for n in &names {
                log.lock().unwrap().clear();
                match (p.get_slots(&text, n), filler(n)) { (Ok(s), Some(f)) if !f.2 => expect_eq("slots of an intent", s, f.1.clone())?, (Err(_), None) => {}, (Err(_), Some(f)) if f.2 => {}, (r, _) => return Err(format!("get_slots {:?} gives {:?}", n, r.map_err(|e| e.to_string()))) }
                let calls = log.lock().unwrap().clone();
                ensure(calls.iter().all(|c| *c == format!("slots {} {:?}", n, text)), format!("slot fillers were asked {:?}", calls))?;
            }
            Ok(())
        });
    }
    h.finish("random classifiers and slot fillers, with missing and failing fillers; non-trivial: an intent was classified");
}
