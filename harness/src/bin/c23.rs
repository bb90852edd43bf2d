use snips_nlu_lib::errors::Result as Res;
use snips_nlu_lib::slot_filler::feature_processor::*;
use snips_nlu_lib::SharedResources;
use snips_nlu_utils::{language::Language as L, token::{tokenize, Token}};
use std::collections::HashMap;
use std::sync::Arc;
use vx_harness::*;

struct F { name: String, values: Vec<Option<String>>, fails: Option<usize> }
impl FeatureKindRepr for F { fn feature_kind(&self) -> FeatureKind { FeatureKind::IsDigitFeature } }
impl Feature for F {
    fn name(&self) -> String { self.name.clone() }
    fn build_features(_: &HashMap<String, serde_json::Value>, _: Arc<SharedResources>) -> Res<Vec<Box<dyn Feature>>> { Ok(vec![]) }
    fn compute(&self, _: &[Token], i: usize) -> Res<Option<String>> { if self.fails == Some(i) { return Err(failure::err_msg("x")); } Ok(self.values[i].clone()) }
}
fn main() {
    let mut h = H::new();
    while h.more() {
        let text = gen_text(&mut h.rng, 7);
        let tokens = tokenize(&text, L::EN);
        let n = tokens.len();
        let m = h.rng.range(0, 4);
        let feats: Vec<(String, Vec<i32>, Vec<Option<String>>)> = (0..m).map(|k| {
            let mut offs: Vec<i32> = (0..h.rng.range(0, 4)).map(|_| if h.rng.chance(1, 15) { *h.rng.pick(&[std::i32::MIN, std::i32::MIN + 1, std::i32::MAX]) } else { h.rng.range(0, 10) as i32 - 5 }).collect();
            offs.dedup();
            (format!("feat{}", k), offs, (0..n).map(|i| if h.rng.chance(2, 3) { Some(format!("v{}_{}", k, i)) } else { None }).collect())
        }).collect();
        let fails = if m > 0 && n > 0 && h.rng.chance(1, 12) { Some(h.rng.below(n)) } else { None };
        h.case(&format!("{} tokens, features (name, offsets, values) {:?} failing at {:?}", n, feats, fails), n > 0 && m > 0, || {
            let p = ProbabilisticFeatureProcessor { features_offsetters: feats.iter().enumerate().map(|(k, (name, o, v))| FeatureOffsetter { feature: Box::new(F { name: name.clone(), values: v.clone(), fails: if k == 0 { fails } else { None } }), offsets: o.clone() }).collect() };
            let got = p.compute_features(&&tokens[..]);
            if fails.is_some() { return ensure(got.is_err(), "the error of a feature was swallowed"); }
            let mut got = got.map_err(|e| e.to_string())?;
            let mut want: Vec<Vec<(String, String)>> = vec![vec![]; n];
            for (name, offs, vals) in &feats { for i in 0..n { for o in offs {
                let j = i as i64 + *o as i64;
                if j >= 0 && (j as usize) < n { if let Some(v) = &vals[j as usize] { want[i].push((if *o == 0 { name.clone() } else if *o > 0 { format!("{}[+{}]", name, o) } else { format!("{}[{}]", name, o) }, v.clone())); } }
            } } }
            for v in got.iter_mut() { v.sort(); }
            for v in want.iter_mut() { v.sort(); }
            expect_eq("features", got, want)
        });
    }
    h.finish("random features with random offsets over random texts; non-trivial: at least one token and one feature");
}
