//! Replay engine: searches for a failing input of a property on the real code (a mechanical
//! pub-ified copy of /repo/src) and reports it.  Bounded, never counted as proof.
use serde_json::{json, Value};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn f01(&mut self) -> f32 { (self.next() % 100_000) as f32 / 100_000.0 }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}

pub struct H {
    pub rng: Rng,
    pub thorough: bool,
    start: Instant,
    budget: Duration,
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    failures: Vec<Value>,
    out: String,
    known_kinds: HashSet<String>,
    known_seen: HashSet<String>,
}
fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }
impl H {
    pub fn new() -> H {
        let a: Vec<String> = std::env::args().collect();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
        let secs: f64 = std::env::var("VX_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(3.0);
        std::panic::set_hook(Box::new(|_| {}));
        H { rng: Rng::new(seed), thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false), start: Instant::now(), budget: Duration::from_secs_f64(secs),
            evaluations: 0, distinct: HashSet::new(), samples: vec![], failures: vec![], out: a.get(1).cloned().unwrap_or_default(),
            known_kinds: std::env::var("VX_KNOWN").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(), known_seen: HashSet::new() }
    }
    pub fn more(&self) -> bool { self.start.elapsed() < self.budget && self.failures.len() < 5 }
    /// fraction of the budget used so far is below f
    pub fn within(&self, f: f64) -> bool { self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * f && self.failures.len() < 5 }
    /// one evaluation: `input` describes it completely, `check` returns Err(what differs)
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, input: &str, nontrivial: bool, check: F) -> bool { self.case_kind("", input, nontrivial, check) }
    pub fn case_kind<F: FnOnce() -> Result<(), String>>(&mut self, kind: &str, input: &str, nontrivial: bool, check: F) -> bool {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 2_000_000 { self.distinct.insert(hash(input)); }
        if nontrivial && self.samples.len() < 3 && self.evaluations % 7 == 1 { let mut s = input.to_string(); if s.len() > 600 { s = s.chars().take(600).collect(); } self.samples.push(json!(s)); }
        let r = match catch_unwind(AssertUnwindSafe(check)) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        };
        if let Err(e) = r {
            if !kind.is_empty() && self.known_kinds.contains(kind) { self.known_seen.insert(kind.to_string()); return false; }
            if self.failures.len() < 5 { self.failures.push(json!({"input": input.chars().take(20000).collect::<String>(), "difference": e, "kind": kind})); }
            return false;
        }
        true
    }
    pub fn finish(self, rule: &str) {
        let v = json!({"evaluations": self.evaluations, "distinct_nontrivial": self.distinct.len(), "rule": rule, "samples": self.samples, "failures": self.failures,
            "known_seen": self.known_seen.into_iter().collect::<Vec<_>>(), "wall_s": self.start.elapsed().as_secs_f64()});
        if self.out.is_empty() { println!("{}", serde_json::to_string_pretty(&v).unwrap()); } else { std::fs::write(&self.out, serde_json::to_string(&v).unwrap()).unwrap(); }
    }
}
pub fn expect_eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}
pub fn ensure(c: bool, msg: impl Into<String>) -> Result<(), String> { if c { Ok(()) } else { Err(msg.into()) } }

// ---------------------------------------------------------------- generators
pub const WORDS: &[&str] = &["make", "tea", "two", "Cups", "ÉTÉ", "straße", "日本", "of", "x", "light", "Blue", "naïve", "42", "7", "İzmir", "ﬁn", "🙂", "A", "hello", "world", "the", "in", "über", "ǅ"];
pub const SEPS: &[&str] = &[" ", "  ", ", ", " - ", "\t", ". ", " 🙂 ", "-", "'", " / "];
pub fn gen_text(r: &mut Rng, max_words: usize) -> String {
    let n = r.range(0, max_words);
    let mut s = String::new();
    if r.chance(1, 6) { let p: &&str = r.pick(SEPS); s.push_str(p); }
    for i in 0..n {
        if i > 0 { if r.chance(3, 5) { s.push(' ') } else { let p: &&str = r.pick(SEPS); s.push_str(p) } }
        let w: &&str = r.pick(WORDS);
        s.push_str(w);
    }
    if r.chance(1, 6) { let p: &&str = r.pick(SEPS); s.push_str(p); }
    s
}
/// characters a..b of s
pub fn char_sub(s: &str, a: usize, b: usize) -> String { s.chars().skip(a).take(b.saturating_sub(a)).collect() }
pub fn char_len(s: &str) -> usize { s.chars().count() }

// ---------------------------------------------------------------- programmable resources
pub mod res {
    use snips_nlu_lib::entity_parser::{BuiltinEntityParser, CustomEntity, CustomEntityParser};
    use snips_nlu_lib::SharedResources;
    use snips_nlu_ontology::*;
    use std::collections::HashSet;
    use std::sync::{Arc, Mutex};
    pub type Res<T> = Result<T, failure::Error>;
    pub struct Builtin(pub Box<dyn Fn(&str, Option<&[BuiltinEntityKind]>, bool, usize) -> Res<Vec<BuiltinEntity>> + Send + Sync>);
    pub struct Custom(pub Box<dyn Fn(&str, Option<&[String]>, usize) -> Res<Vec<CustomEntity>> + Send + Sync>);
    impl BuiltinEntityParser for Builtin {
        fn extract_entities(&self, s: &str, k: Option<&[BuiltinEntityKind]>, c: bool, n: usize) -> Res<Vec<BuiltinEntity>> { (self.0)(s, k, c, n) }
    }
    impl CustomEntityParser for Custom {
        fn extract_entities(&self, s: &str, k: Option<&[String]>, n: usize) -> Res<Vec<CustomEntity>> { (self.0)(s, k, n) }
    }
    pub fn number(value: &str, range: std::ops::Range<usize>, v: f64) -> BuiltinEntity {
        BuiltinEntity { value: value.to_string(), range, entity: SlotValue::Number(NumberValue { value: v }), alternatives: vec![], entity_kind: BuiltinEntityKind::Number }
    }
    /// whole-word matches of the listed phrases, as (start, end) character ranges
    pub fn find_words(s: &str, phrase: &str) -> Vec<(usize, usize)> {
        let c: Vec<char> = s.chars().collect();
        let p: Vec<char> = phrase.chars().collect();
        let mut out = vec![];
        if p.is_empty() { return out; }
        let w = |x: char| x.is_alphanumeric() || x == '_';
        let mut i = 0;
        while i + p.len() <= c.len() {
            if c[i..i + p.len()] == p[..] && (i == 0 || !w(c[i - 1])) && (i + p.len() == c.len() || !w(c[i + p.len()])) { out.push((i, i + p.len())); i += p.len(); } else { i += 1; }
        }
        out
    }
    pub fn builtin_numbers() -> Builtin {
        Builtin(Box::new(|s, k, _, _| {
            if k.map(|k| !k.contains(&BuiltinEntityKind::Number)).unwrap_or(false) { return Ok(vec![]); }
            let mut out = vec![];
            for (w, v) in &[("two", 2.0), ("42", 42.0), ("7", 7.0), ("twenty", 20.0), ("two hundred", 200.0)] { for (a, b) in find_words(s, w) { out.push(number(w, a..b, *v)); } }
            Ok(out)
        }))
    }
    /// (entity, phrase, resolved)
    pub fn custom_dict(d: Vec<(String, String, String)>) -> Custom {
        Custom(Box::new(move |s, k, n| {
            let mut out: Vec<CustomEntity> = vec![];
            for (e, p, r) in &d {
                if k.map(|k| !k.contains(e)).unwrap_or(false) { continue; }
                for (a, b) in find_words(s, p) {
                    if let Some(m) = out.iter_mut().find(|m| m.entity_identifier == *e && m.range == (a..b)) {
                        if m.alternative_resolved_values.len() < n { m.alternative_resolved_values.push(r.clone()); }
                    } else { out.push(CustomEntity { value: p.clone(), range: a..b, entity_identifier: e.clone(), resolved_value: r.clone(), alternative_resolved_values: vec![] }); }
                }
            }
            Ok(out)
        }))
    }
    /// the same matches, but what they resolve to depends on the whole sentence the parser is given
    pub fn in_context(b: Builtin, c: Custom) -> (Builtin, Custom) {
        (Builtin(Box::new(move |s, k, u, n| Ok((b.0)(s, k, u, n)?.into_iter().map(|mut e| { if let SlotValue::Number(ref mut v) = e.entity { v.value += 1000.0 * s.chars().count() as f64; } e }).collect()))),
         Custom(Box::new(move |s, k, n| Ok((c.0)(s, k, n)?.into_iter().map(|mut e| { e.resolved_value = format!("{} in {}", e.resolved_value, s); e }).collect()))))
    }
    pub fn shared(b: Builtin, c: Custom, stop_words: &[&str]) -> Arc<SharedResources> {
        Arc::new(SharedResources { builtin_entity_parser: Arc::new(b), custom_entity_parser: Arc::new(c), gazetteers: Default::default(), stemmer: None, word_clusterers: Default::default(), stop_words: stop_words.iter().map(|s| s.to_string()).collect::<HashSet<_>>() })
    }
    pub fn log<T: Send>() -> Arc<Mutex<Vec<T>>> { Arc::new(Mutex::new(vec![])) }
}

// ---------------------------------------------------------------- engines over programmable parsers
pub mod eng {
    use super::Rng;
    use snips_nlu_lib::entity_parser::{BuiltinEntityParser, CustomEntityParser};
    use snips_nlu_lib::intent_parser::{InternalParsingResult, IntentParser};
    use snips_nlu_lib::models::{DatasetMetadata, Entity};
    use snips_nlu_lib::slot_utils::InternalSlot;
    use snips_nlu_lib::{SharedResources, SnipsNluEngine};
    use snips_nlu_ontology::IntentClassifierResult;
    use std::collections::HashMap;
    use std::sync::{Arc, Mutex};
    pub type Log = Arc<Mutex<Vec<String>>>;
    #[derive(Clone, Debug, Default)]
    pub struct Mock {
        pub id: usize,
        /// (intent, score) in the order the parser lists them
        pub intents: Vec<(Option<String>, f32)>,
        pub parse_none_score: f32,
        /// what parse finds: the first of these the filter permits
        pub finds: Vec<(String, f32)>,
        pub slots: HashMap<String, Vec<InternalSlot>>,
        pub parse_err: bool, pub intents_err: bool, pub slots_err: bool,
        pub log: Log,
    }
    pub fn ires(n: Option<String>, s: f32) -> IntentClassifierResult { IntentClassifierResult { intent_name: n, confidence_score: s } }
    impl IntentParser for Mock {
        fn parse(&self, input: &str, w: Option<&[&str]>) -> Result<InternalParsingResult, failure::Error> {
            self.log.lock().unwrap().push(format!("parse {} {:?} {:?}", self.id, input, w.map(|w| w.iter().collect::<std::collections::BTreeSet<_>>())));
            if self.parse_err { return Err(failure::err_msg("parser failed")); }
            for (i, s) in &self.finds {
                if w.map(|w| w.contains(&&**i)).unwrap_or(true) { return Ok(InternalParsingResult { intent: ires(Some(i.clone()), *s), slots: self.slots.get(i).cloned().unwrap_or_default() }); }
            }
            Ok(InternalParsingResult { intent: ires(None, self.parse_none_score), slots: vec![] })
        }
        fn get_intents(&self, input: &str) -> Result<Vec<IntentClassifierResult>, failure::Error> {
            self.log.lock().unwrap().push(format!("intents {} {:?}", self.id, input));
            if self.intents_err { return Err(failure::err_msg("parser failed")); }
            Ok(self.intents.iter().map(|(n, s)| ires(n.clone(), *s)).collect())
        }
        fn get_slots(&self, input: &str, intent: &str) -> Result<Vec<InternalSlot>, failure::Error> {
            self.log.lock().unwrap().push(format!("slots {} {:?} {}", self.id, input, intent));
            if self.slots_err { return Err(failure::err_msg("parser failed")); }
            Ok(self.slots.get(intent).cloned().unwrap_or_default())
        }
    }
    pub fn metadata(mappings: &[(&str, &[(&str, &str)])], customs: &[(&str, bool)]) -> DatasetMetadata {
        let snm: HashMap<String, HashMap<String, String>> = mappings.iter().map(|(i, m)| (i.to_string(), m.iter().map(|(s, e)| (s.to_string(), e.to_string())).collect())).collect();
        let ents = customs.iter().map(|(n, a)| (n.to_string(), Entity { automatically_extensible: *a })).collect();
        DatasetMetadata { language_code: "en".into(), entities: ents, slot_name_mappings: snm }
    }
    pub fn engine(meta: DatasetMetadata, parsers: Vec<Mock>, b: Arc<dyn BuiltinEntityParser>, c: Arc<dyn CustomEntityParser>) -> SnipsNluEngine {
        SnipsNluEngine {
            dataset_metadata: meta,
            intent_parsers: parsers.into_iter().map(|p| Box::new(p) as Box<dyn IntentParser>).collect(),
            shared_resources: Arc::new(SharedResources { builtin_entity_parser: b, custom_entity_parser: c, gazetteers: Default::default(), stemmer: None, word_clusterers: Default::default(), stop_words: Default::default() }),
        }
    }
    pub const INTENTS: &[&str] = &["MakeTea", "MakeCoffee", "PlayMusic", "turnLightOn", "é"];
    pub const MAPPINGS: &[(&str, &[(&str, &str)])] = &[
        ("MakeTea", &[("n", "snips/number"), ("t", "temp"), ("x", "ext")]), ("MakeCoffee", &[("n", "snips/number"), ("x", "ext")]), ("PlayMusic", &[("a", "snips/musicArtist"), ("t", "temp")]), ("turnLightOn", &[("r", "room")]), ("é", &[])];
    pub const CUSTOMS: &[(&str, bool)] = &[("temp", false), ("ext", true), ("room", false)];
    /// random parsers; listings are consistent with `finds` or not, each intent once, None included
    pub fn mocks(r: &mut Rng, text: &str, log: &Log) -> Vec<Mock> {
        let n = r.range(0, 3);
        let len = super::char_len(text);
        let scores = [0.0f32, 0.1, 0.25, 0.25, 0.5, 0.6, 0.75, 0.9, 1.0];
        (0..n).map(|id| {
            let mut names: Vec<Option<String>> = INTENTS.iter().filter(|_| r.chance(5, 6)).map(|s| Some(s.to_string())).collect();
            names.push(None);
            r.shuffle(&mut names);
            let mut intents: Vec<(Option<String>, f32)> = names.into_iter().map(|n| (n, *r.pick(&scores))).collect();
            intents.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
            let finds: Vec<(String, f32)> = if r.chance(1, 2) { intents.iter().filter_map(|(n, s)| n.clone().map(|n| (n, *s))).take(r.range(0, 5)).collect() } else { INTENTS.iter().filter_map(|s| if r.chance(1, 4) { Some((s.to_string(), *r.pick(&scores))) } else { None }).collect() };
            let mut slots = HashMap::new();
            for i in INTENTS { if r.chance(1, 2) { slots.insert(i.to_string(), rand_slots(r, text, len)); } }
            Mock { id, intents, finds, slots, parse_none_score: *r.pick(&scores), parse_err: r.chance(1, 25), intents_err: r.chance(1, 25), slots_err: r.chance(1, 25), log: log.clone() }
        }).collect()
    }
    pub fn rand_slots(r: &mut Rng, text: &str, len: usize) -> Vec<InternalSlot> {
        let ents = ["snips/number", "temp", "ext", "room", "snips/musicArtist"];
        let n = if r.chance(1, 30) { r.range(9, 20) } else { r.range(0, 4) };
        let twice = r.chance(1, 8);
        (0..n).map(|k| {
            let k = if twice { k / 2 } else { k };
            let cand: Vec<(usize, usize)> = ["two", "42", "7", "hot", "x", "light", "tea"].iter().flat_map(|w| super::res::find_words(text, w)).collect();
            let (a, b) = if !cand.is_empty() && r.chance(2, 3) { *r.pick(&cand) } else { let a = r.range(0, len); (a, r.range(a, len)) };
            InternalSlot { value: super::char_sub(text, a, b), char_range: a..b, entity: r.pick(&ents).to_string(), slot_name: format!("slot{}", k) }
        }).collect()
    }
    pub fn text(r: &mut Rng) -> String {
        let w = ["two", "42", "7", "hot", "x", "light", "tea", "make", "é", "日本", "tea light"];
        let mut t = String::new();
        for _ in 0..r.range(0, 7) { t.push_str(*r.pick(&w)); t.push_str(*r.pick(&[" ", " ", "  ", ", "])); }
        t
    }
    pub fn dict() -> Vec<(String, String, String)> {
        vec![("temp", "hot", "Hot"), ("temp", "tea", "lukewarm"), ("room", "light", "LR1"), ("room", "light", "LR2"), ("room", "tea light", "candle"), ("room", "light", "LR3"), ("ext", "x", "the x"), ("ext", "tea", "TEA")].into_iter().map(|(a, b, c)| (a.to_string(), b.to_string(), c.to_string())).collect()
    }
}
/// independent statement of slot resolution and of the parser cascades
pub mod oracle {
    use super::eng::Mock;
    use snips_nlu_lib::entity_parser::{BuiltinEntityParser, CustomEntityParser};
    use snips_nlu_lib::slot_utils::InternalSlot;
    use snips_nlu_ontology::*;
    use std::collections::HashMap;
    pub fn custom(s: String) -> SlotValue { SlotValue::Custom(StringValue { value: s }) }
    pub fn resolve(text: &str, slots: &[InternalSlot], customs: &[(&str, bool)], bp: &dyn BuiltinEntityParser, cp: &dyn CustomEntityParser, alts: usize) -> Vec<Slot> {
        let mut out = vec![];
        for s in slots {
            let found = if let Some((_, ext)) = customs.iter().find(|(n, _)| *n == s.entity) {
                let names = vec![s.entity.clone()];
                let on_range = cp.extract_entities(text, Some(&names), alts).unwrap().into_iter().find(|e| e.range == s.char_range);
                let m = on_range.or_else(|| cp.extract_entities(&s.value, Some(&names), alts).unwrap().pop().filter(|e| super::char_len(&e.value) == super::char_len(&s.value)));
                match m {
                    Some(e) => Some((custom(e.resolved_value), e.alternative_resolved_values.into_iter().map(custom).collect())),
                    None => if *ext { Some((custom(s.value.clone()), vec![])) } else { None },
                }
            } else {
                let kind = BuiltinEntityKind::from_identifier(&s.entity).unwrap();
                let on_range = bp.extract_entities(text, Some(&[kind]), false, alts).unwrap().into_iter().find(|e| e.range == s.char_range);
                on_range.or_else(|| bp.extract_entities(&s.value, Some(&[kind]), false, alts).unwrap().pop()).map(|e| (e.entity, e.alternatives))
            };
            if let Some((value, alternatives)) = found {
                out.push(Slot { raw_value: s.value.clone(), value, alternatives, range: s.char_range.clone(), entity: s.entity.clone(), slot_name: s.slot_name.clone(), confidence_score: None });
            }
        }
        out
    }
    /// what parsing finds: (intent, score, slots before resolution); Err when the parser consulted fails
    pub fn cascade(ps: &[Mock], allowed: &dyn Fn(&str) -> bool) -> Result<(Option<String>, f32, Vec<InternalSlot>), ()> {
        let mut none = 0.0;
        for p in ps {
            if p.parse_err { return Err(()); }
            if let Some((i, s)) = p.finds.iter().find(|(i, _)| allowed(i)) { return Ok((Some(i.clone()), *s, p.slots.get(i).cloned().unwrap_or_default())); }
            none = p.parse_none_score;
        }
        Ok((None, none, vec![]))
    }
    pub fn slots(ps: &[Mock], intent: &str) -> Result<Vec<InternalSlot>, ()> {
        for p in ps {
            if p.slots_err { return Err(()); }
            if let Some(s) = p.slots.get(intent) { if !s.is_empty() { return Ok(s.clone()); } }
        }
        Ok(vec![])
    }
    /// best score per intent; an intent first listed after the first parser counts when its score is positive
    /// best score of every reported intent, and whether it has to be listed (reported by the first parser, or with a positive score)
    pub fn ranking(ps: &[Mock]) -> HashMap<Option<String>, (f32, bool)> {
        let mut m: HashMap<Option<String>, (f32, bool)> = HashMap::new();
        for (k, p) in ps.iter().enumerate() {
            for (i, s) in &p.intents { let e = m.entry(i.clone()).or_insert((*s, false)); e.0 = e.0.max(*s); e.1 |= k == 0 || *s > 0.0; }
        }
        m
    }
}
