use ndarray::prelude::*;
use snips_nlu_lib::intent_classifier::logreg::*;
use snips_nlu_lib::intent_classifier::LogRegIntentClassifier;
use vx_harness::*;

fn main() {
    let mut h = H::new();
    let dir = tempfile::Builder::new().prefix("c20").tempdir().unwrap();
    while h.more() {
        let (f, c) = (h.rng.range(1, 6), h.rng.range(1, 5));
        let scale = *h.rng.pick(&[0.1f32, 1.0, 5.0, 100.0]);
        let mut v = |n: usize| -> Vec<f32> { (0..n).map(|_| (h.rng.f01() * 2.0 - 1.0) * scale).collect() };
        let w: Vec<Vec<f32>> = (0..f).map(|_| v(c)).collect();
        let b = v(c);
        let x = v(f);
        let df = h.rng.range(0, 8); let dc = h.rng.range(1, 6);
        h.case(&format!("weights {:?} intercept {:?} features {:?}", w, b, x), c > 1, || {
            let wm = Array::from_shape_fn((f, c), |(i, j)| w[i][j]);
            let m = MulticlassLogisticRegression::new(Array::from_vec(b.clone()), wm.clone()).map_err(|e| e.to_string())?;
            let got = m.run(&Array::from_vec(x.clone()).view()).map_err(|e| e.to_string())?.to_vec();
            let p: Vec<f64> = (0..c).map(|j| { let d: f64 = b[j] as f64 + (0..f).map(|i| w[i][j] as f64 * x[i] as f64).sum::<f64>(); 1.0 / (1.0 + (-d).exp()) }).collect();
            let want = if c == 1 { vec![1.0 - p[0], p[0]] } else { p };
            expect_eq("number of scores", got.len(), want.len())?;
            for (g, e) in got.iter().zip(&want) { ensure((0.0..=1.0).contains(g), format!("score {} is not between 0 and 1", g))?; ensure((*g as f64 - e).abs() < 1e-3, format!("scores {:?}, expected {:?}", got, want))?; }
            if df != f { ensure(m.run(&Array::from_vec(vec![0.5; df]).view()).is_err(), format!("{} features are accepted by a model of {}", df, f))?; }
            if dc != c { ensure(MulticlassLogisticRegression::new(Array::from_vec(vec![0.5; dc]), wm).is_err(), format!("{} intercepts are accepted with weights for {} classes", dc, c))?; }
            Ok(())
        });
        // a stored model: one row of coefficients per intercept, all of the same length
        let rows: Vec<usize> = if h.rng.chance(1, 2) { vec![f; h.rng.range(0, 4)] } else { (0..h.rng.range(0, 4)).map(|_| h.rng.range(0, 3)).collect() };
        let ni = if h.rng.chance(1, 2) { rows.len() } else { h.rng.range(0, 4) };
        let intents: Vec<String> = (0..if ni == 1 { 2 } else { ni }).map(|i| format!("intent{}", i)).collect();
        let d = dir.path().to_path_buf();
        h.case(&format!("stored model with rows of {:?} coefficients and {} intercepts", rows, ni), rows.len() > 1, || {
            std::fs::write(d.join("intent_classifier.json"), format!(r#"{{"featurizer":null,"intercept":{:?},"coeffs":{:?},"intent_list":{:?}}}"#, vec![0.5; ni], rows.iter().map(|n| vec![0.25; *n]).collect::<Vec<_>>(), intents)).unwrap();
            let r = LogRegIntentClassifier::from_path(&d, res::shared(res::builtin_numbers(), res::custom_dict(vec![]), &[]));
            if rows.len() != ni || rows.iter().any(|r| *r != rows[0]) { ensure(r.is_err(), "a model with coefficients of the wrong size is accepted")?; }
            else if ni > 0 { ensure(r.is_ok(), format!("a well formed model is rejected: {}", r.err().map(|e| e.to_string()).unwrap_or_default()))?; }
            Ok(())
        });
        // the link function
        let (a, b) = ((h.rng.f01() - 0.5) * 40.0, (h.rng.f01() - 0.5) * 40.0);
        let (lo, hi) = if a < b { (a, b) } else { (b, a) };
        h.case(&format!("logit of {} and {}", lo, hi), true, || {
            ensure((logit(lo) as f64 - 1.0 / (1.0 + (-(lo as f64)).exp())).abs() < 1e-5, format!("logit({}) = {}", lo, logit(lo)))?;
            ensure(logit(lo) <= logit(hi) && (0.0..=1.0).contains(&logit(lo)) && (0.0..=1.0).contains(&logit(hi)), format!("logit({}) = {}, logit({}) = {}", lo, logit(lo), hi, logit(hi)))?;
            ensure(logit(1e30) == 1.0 && logit(-1e30) == 0.0 && logit(0.0) == 0.5, "limits of the logistic function")
        });
    }
    h.finish("random models of up to 6 features and 5 classes, and sizes that do not fit; non-trivial: more than one class");
}
