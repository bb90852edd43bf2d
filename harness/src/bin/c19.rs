use ndarray::prelude::*;
use snips_nlu_lib::intent_classifier::log_reg_intent_classifier::LogRegIntentClassifier;
use snips_nlu_lib::intent_classifier::logreg::MulticlassLogisticRegression;
use snips_nlu_lib::intent_classifier::{Featurizer, IntentClassifier, TfidfVectorizer};
use snips_nlu_lib::models::*;
use vx_harness::*;

pub fn featurizer(vocab: &[&str]) -> Featurizer {
    let model = TfidfVectorizerModel { language_code: "en".into(), builtin_entity_scope: vec!["snips/number".into()], vectorizer: SklearnVectorizerModel { idf_diag: vocab.iter().enumerate().map(|(i, _)| 1.0 + i as f32 * 0.3).collect(), vocab: vocab.iter().enumerate().map(|(i, w)| (w.to_string(), i)).collect() }, config: TfidfVectorizerConfiguration { use_stemming: false, word_clusters_name: None } };
    Featurizer { tfidf_vectorizer: TfidfVectorizer::new(model, res::shared(res::builtin_numbers(), res::custom_dict(vec![]), &[])).unwrap(), cooccurrence_vectorizer: None }
}
fn main() {
    let mut h = H::new();
    let vocab = ["make", "tea", "two", "of", "hello", "42", "builtinentityfeaturesnipsnumber"];
    while h.more() {
        let n = h.rng.range(0, 5);
        let mut list: Vec<Option<String>> = (0..n).map(|i| Some(format!("intent{}", i))).collect();
        if h.rng.chance(3, 4) { list.push(None); }
        h.rng.shuffle(&mut list);
        let text = if h.rng.chance(1, 6) { String::new() } else { gen_text(&mut h.rng, 6) };
        let filter: Option<Vec<String>> = if h.rng.chance(1, 2) { Some((0..n + 1).filter(|_| h.rng.chance(1, 2)).map(|i| format!("intent{}", i)).collect()) } else { None };
        let (has_f, has_m) = (h.rng.chance(7, 8), h.rng.chance(7, 8));
        let classes = match list.len() { 0 | 1 => 1, 2 => 1 + h.rng.below(2), k => k };
        let ties = h.rng.chance(1, 6);
        let w: Vec<Vec<f32>> = (0..vocab.len()).map(|_| (0..classes).map(|_| if ties { 0.0 } else { h.rng.f01() * 8.0 - 4.0 }).collect()).collect();
        let b: Vec<f32> = (0..classes).map(|_| if ties { 0.5 } else { h.rng.f01() * 4.0 - 2.0 }).collect();
        let trained = has_f && has_m;
        h.case(&format!("text {:?} intents {:?} filter {:?} featurizer {} model {} weights {:?} intercept {:?}", text, list, filter, has_f, has_m, w, b), list.len() > 1 && trained && !text.is_empty(), || {
            let mk = || MulticlassLogisticRegression::new(Array::from_vec(b.clone()), Array::from_shape_fn((vocab.len(), classes), |(i, j)| w[i][j])).unwrap();
            let c = LogRegIntentClassifier { intent_list: list.clone(), featurizer: if has_f { Some(featurizer(&vocab)) } else { None }, logreg: if has_m { Some(mk()) } else { None } };
            let f: Option<Vec<&str>> = filter.as_ref().map(|f| f.iter().map(|s| &**s).collect());
            let ok = |i: &Option<String>| match (i, &filter) { (Some(i), Some(f)) => f.contains(i), _ => true };
            let one = c.get_intent(&text, f.as_ref().map(|f| &f[..])).map_err(|e| e.to_string())?;
            let got = c.get_intents_with_whitelist(&text, f.as_ref().map(|f| &f[..])).map_err(|e| e.to_string())?;
            let all = c.get_intents(&text).map_err(|e| e.to_string())?;
            if list.len() <= 1 {
                let want = list.first().cloned().unwrap_or(None);
                let want_f = if ok(&want) { want.clone() } else { None };
                expect_eq("single intent", (one.intent_name, one.confidence_score), (want_f.clone(), 1.0))?;
                expect_eq("intents", got.iter().map(|r| (r.intent_name.clone(), r.confidence_score)).collect::<Vec<_>>(), vec![(want_f, 1.0)])?;
                return expect_eq("all intents", all.iter().map(|r| (r.intent_name.clone(), r.confidence_score)).collect::<Vec<_>>(), vec![(want, 1.0)]);
            }
            let scores: Vec<f32> = if trained && !text.is_empty() {
                let x = featurizer(&vocab).transform(&text).map_err(|e| e.to_string())?;
                mk().run(&x.view()).map_err(|e| e.to_string())?.to_vec()
            } else { list.iter().map(|i| if i.is_none() { 1.0 } else { 0.0 }).collect() };
            for (what, got, allow) in vec![("intents", &got, true), ("all intents", &all, false)] {
                let mut want: Vec<(Option<String>, f32)> = list.iter().cloned().zip(scores.iter().cloned()).filter(|(i, _)| !allow || ok(i)).collect();
                let mut g: Vec<(Option<String>, f32)> = got.iter().map(|r| (r.intent_name.clone(), r.confidence_score)).collect();
                ensure(g.windows(2).all(|w| w[0].1 >= w[1].1), format!("{}: not in decreasing order: {:?}", what, g))?;
                want.sort_by(|a, b| a.0.cmp(&b.0)); g.sort_by(|a, b| a.0.cmp(&b.0));
                ensure(g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| a.0 == b.0 && (a.1 - b.1).abs() < 1e-6), format!("{}: got {:?}, expected {:?}", what, g, want))?;
            }
            match got.first() {
                None => expect_eq("intent", (one.intent_name, one.confidence_score), (None, 1.0)),
                Some(r) => { ensure(one.intent_name == r.intent_name, format!("intent {:?} is not the first of {:?}", one, got))?; ensure(ok(&one.intent_name), "the intent is not permitted by the filter")?; ensure(got.iter().any(|r| r.intent_name == one.intent_name && r.confidence_score == one.confidence_score), "the intent is not one of the intents")?; ensure(one.confidence_score == r.confidence_score, format!("intent {:?} is not the best of {:?}", one, got)) }
            }
        });
    }
    h.finish("random intent lists (with and without the absence of intent), filters, models and texts; non-trivial: a trained model of several intents and a non-empty text");
}
