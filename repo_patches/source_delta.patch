From 2f5c72ad90a724a0fdb89dc2110e7dbb7ffc99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 01/21] fix: keep entity replacement offsets exact in texts
 longer than 32767 characters

---
 src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e3c00f..45b2441 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -146,13 +146,13 @@ where
     let mut current_ix = 0;
 
     for matched_entity in dedup_matches {
-        let range_start = (matched_entity.range.start as i16 + offset) as usize;
+        let range_start = (matched_entity.range.start as isize + offset) as usize;
         let prefix_text =
             substring_with_char_range(text.to_string(), &(current_ix..matched_entity.range.start));
         let entity_text = placeholder_fn(&*matched_entity.entity_name);
         processed_text = format!("{}{}{}", processed_text, prefix_text, entity_text);
-        offset += entity_text.chars().count() as i16 - matched_entity.range.clone().count() as i16;
-        let range_end = (matched_entity.range.end as i16 + offset) as usize;
+        offset += entity_text.chars().count() as isize - matched_entity.range.clone().count() as isize;
+        let range_end = (matched_entity.range.end as isize + offset) as usize;
         let new_range = range_start..range_end;
         current_ix = matched_entity.range.end;
         range_mapping.insert(new_range, matched_entity.range);
-- 
2.43.0


From f64aa8ae29461cd4c767e9addf04e08275164c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 02/21] fix: never repeat the main intent in the intent
 alternatives

---
 src/nlu_engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 6b995e8..551622a 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -212,7 +212,8 @@ impl SnipsNluEngine {
                     })
                     .unwrap_or(true)
             })
-            .skip(1) // We do not duplicate the top result in the list of alternatives
+            // We do not duplicate the top result in the list of alternatives
+            .filter(|res| res.intent_name != parsing_result.intent.intent_name)
             .take(intents_alternatives)
             .map(|res| {
                 res.intent_name
-- 
2.43.0


From b78a8de6b4034e289309c660d535d7a7249713f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 03/21] fix: report archive entries that cannot be written
 instead of panicking

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 45b2441..7092dd9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -79,7 +79,7 @@ pub fn extract_nlu_engine_zip_archive<R: io::Read + io::Seek>(
                     fs::create_dir_all(&p)?;
                 }
             }
-            let mut outfile = fs::File::create(&outpath).unwrap();
+            let mut outfile = fs::File::create(&outpath)?;
             io::copy(&mut file, &mut outfile)?;
         }
     }
-- 
2.43.0


From 455101b2b42fdf64f17c61aff54db9c25a43d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 04/21] fix: keep word clusters exactly as written when they
 are not canonical numbers

---
 src/resources/word_clusterer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 3c7ff03..7c7b00e 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -35,10 +35,11 @@ impl HashMapWordClusterer {
             // successfully
             if u16_casting_ok {
                 match u16::from_str(elements[1].as_ref()) {
-                    Ok(u16_value) => {
+                    // Only canonical representations can be restored from their value
+                    Ok(u16_value) if u16_value.to_string() == elements[1] => {
                         u16_values.insert(hashed_key, u16_value);
                     }
-                    Err(_) => {
+                    _ => {
                         // A word cluster cannot be converted into a u16, let's move all the
                         // previously stored clusters into a raw string representation
                         for (hash, value) in u16_values.iter() {
-- 
2.43.0


From b6c83e34f7336968c721b6cce1920967dd233fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 05/21] fix: apply the intents filter when the classifier
 answers without scoring

---
 .../log_reg_intent_classifier.rs                  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 19f88b3..c21395e 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -105,7 +105,12 @@ impl LogRegIntentClassifier {
     ) -> Result<Vec<IntentClassifierResult>> {
         if self.intent_list.len() <= 1 {
             return Ok(vec![IntentClassifierResult {
-                intent_name: self.intent_list.first().cloned().unwrap_or(None),
+                intent_name: self
+                    .intent_list
+                    .first()
+                    .filter(|intent_name| is_allowed(intent_name, intents_whitelist))
+                    .cloned()
+                    .unwrap_or(None),
                 confidence_score: 1.0,
             }]);
         }
@@ -114,6 +119,7 @@ impl LogRegIntentClassifier {
             return Ok(self
                 .intent_list
                 .iter()
+                .filter(|intent_name| is_allowed(intent_name, intents_whitelist))
                 .map(|intent_name| IntentClassifierResult {
                     intent_name: intent_name.clone(),
                     confidence_score: if intent_name.is_none() { 1.0 } else { 0.0 },
@@ -163,6 +169,13 @@ impl LogRegIntentClassifier {
     }
 }
 
+fn is_allowed(intent_name: &Option<IntentName>, intents_whitelist: Option<&[&str]>) -> bool {
+    match (intent_name, intents_whitelist) {
+        (Some(intent), Some(whitelist)) => whitelist.contains(&&**intent),
+        _ => true,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From db456b0f4bdc1b0fbdd97297a84f9ba65bcb8210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 06/21] fix: vectorize utterances with an empty vocabulary
 instead of panicking

---
 src/intent_classifier/featurizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 36cb84f..05349f6 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -217,7 +217,7 @@ impl TfidfVectorizer {
             word_clusters,
         ];
 
-        let vocabulary_size = self.vocabulary.values().max().unwrap() + 1;
+        let vocabulary_size = self.vocabulary.values().max().map_or(0, |max| max + 1);
         let mut features: Vec<f32> = vec![0.; vocabulary_size];
         let mut match_idx: HashSet<usize> = HashSet::new();
         for extracted_features in features_it.iter() {
-- 
2.43.0


From 050e6204b48df66b06ebe92187c75d0cbedeebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 07/21] fix: report engine models in directories whose name is
 not unicode instead of panicking

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 551622a..5f2f8b5 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -68,7 +68,7 @@ impl SnipsNluEngine {
     fn load_model<P: AsRef<Path>>(path: P) -> Result<NluEngineModel> {
         let engine_model_path = path.as_ref().join("nlu_engine.json");
         Self::check_model_version(&engine_model_path).with_context(|_| {
-            SnipsNluError::ModelLoad(engine_model_path.to_str().unwrap().to_string())
+            SnipsNluError::ModelLoad(engine_model_path.to_string_lossy().to_string())
         })?;
         let model_file = fs::File::open(&engine_model_path)
             .with_context(|_| format!("Could not open nlu engine file {:?}", &engine_model_path))?;
-- 
2.43.0


From 65a89f3299fe08c625e772cf041fe5c818778a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 08/21] fix: reject intercepts of the wrong size with an error
 instead of panicking

---
 src/intent_classifier/logreg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intent_classifier/logreg.rs b/src/intent_classifier/logreg.rs
index d6b57a3..e71d416 100644
--- a/src/intent_classifier/logreg.rs
+++ b/src/intent_classifier/logreg.rs
@@ -33,7 +33,7 @@ impl MulticlassLogisticRegression {
     pub fn new(intercept: Array1<f32>, weights: Array2<f32>) -> Result<Self> {
         let nb_classes = intercept.dim();
         let reshaped_intercept = intercept.into_shape((1, nb_classes))?;
-        let weights_with_intercept = stack![Axis(0), reshaped_intercept, weights];
+        let weights_with_intercept = stack(Axis(0), &[reshaped_intercept.view(), weights.view()])?;
         Ok(Self {
             weights: weights_with_intercept,
         })
-- 
2.43.0


From b08486a94b57689a9c85368431d7d3431c09c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 09/21] fix: reject classifier models with ragged coefficients
 instead of panicking

---
 src/intent_classifier/log_reg_intent_classifier.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index c21395e..ea63d3f 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -4,7 +4,7 @@ use std::iter::FromIterator;
 use std::path::Path;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::{debug, info};
 use ndarray::prelude::*;
@@ -53,7 +53,14 @@ impl LogRegIntentClassifier {
         let logreg = if let (Some(intercept), Some(coeffs)) = (model.intercept, model.coeffs) {
             let arr_intercept = Array::from_vec(intercept);
             let nb_classes = arr_intercept.dim();
-            let nb_features = coeffs[0].len();
+            let nb_features = coeffs.first().map(|row| row.len()).unwrap_or(0);
+            if coeffs.len() != nb_classes || coeffs.iter().any(|row| row.len() != nb_features) {
+                bail!(
+                    "Expected {} coefficients rows of {} values each",
+                    nb_classes,
+                    nb_features
+                );
+            }
             // Note: the deserialized coeffs matrix is transposed
             let arr_weights =
                 Array::from_shape_fn((nb_features, nb_classes), |(i, j)| coeffs[j][i]);
-- 
2.43.0


From 255b8770f299b3cbd1b6bab7f13bfa4b79b2e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 10/21] fix: reject tagging scheme codes above 255 instead of
 truncating them

---
 src/slot_filler/features.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index b7f9657..be626d0 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::convert::TryFrom;
 use std::sync::Arc;
 
 use failure::format_err;
@@ -278,7 +279,7 @@ impl Feature for CustomEntityMatchFeature {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Vec<Box<dyn Feature>>> {
         let entities = parse_as_vec_string(args, "entities")?;
-        let tagging_scheme_code = parse_as_u64(args, "tagging_scheme_code")? as u8;
+        let tagging_scheme_code = u8::try_from(parse_as_u64(args, "tagging_scheme_code")?)?;
         let tagging_scheme = TaggingScheme::from_u8(tagging_scheme_code)?;
         let use_stemming = parse_as_bool(args, "use_stemming")?;
         let opt_stemmer = if use_stemming {
@@ -343,7 +344,7 @@ impl Feature for BuiltinEntityMatchFeature {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Vec<Box<dyn Feature>>> {
         let builtin_entity_labels = parse_as_vec_string(args, "entity_labels")?;
-        let tagging_scheme_code = parse_as_u64(args, "tagging_scheme_code")? as u8;
+        let tagging_scheme_code = u8::try_from(parse_as_u64(args, "tagging_scheme_code")?)?;
         let tagging_scheme = TaggingScheme::from_u8(tagging_scheme_code)?;
 
         builtin_entity_labels
-- 
2.43.0


From 4a2010e4139de06b68ae6efb370e48b3a42df311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:46 +0000
Subject: [PATCH 11/21] fix: reject a gazetteer name that is not a string
 instead of ignoring it

---
 src/slot_filler/features.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index be626d0..f7e8c5f 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -447,11 +447,17 @@ fn parse_as_opt_string(
     args: &HashMap<String, serde_json::Value>,
     arg_name: &str,
 ) -> Result<Option<String>> {
-    Ok(args
+    let arg = args
         .get(arg_name)
-        .ok_or_else(|| format_err!("can't retrieve '{}' parameter", arg_name))?
-        .as_str()
-        .map(|s| s.to_string()))
+        .ok_or_else(|| format_err!("can't retrieve '{}' parameter", arg_name))?;
+    if arg.is_null() {
+        return Ok(None);
+    }
+    Ok(Some(
+        arg.as_str()
+            .ok_or_else(|| format_err!("'{}' isn't a string", arg_name))?
+            .to_string(),
+    ))
 }
 
 fn parse_as_vec_string(
-- 
2.43.0


From 83884947c4775eb0016990d151a694019581238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:12 +0000
Subject: [PATCH 12/21] fix: reject word clusters files without clusters
 instead of panicking

---
 src/resources/word_clusterer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 7c7b00e..bcee055 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -1,4 +1,5 @@
 use crate::errors::*;
+use failure::bail;
 use itertools::Either;
 use snips_nlu_ontology::Language;
 use snips_nlu_utils::string::hash_str_to_i32;
@@ -30,6 +31,9 @@ impl HashMapWordClusterer {
         let mut str_values = HashMap::new();
         for record in csv_reader.records() {
             let elements = record?;
+            if elements.len() < 2 {
+                bail!("Missing cluster for word '{}'", &elements[0]);
+            }
             let hashed_key = hash_str_to_i32(elements[0].as_ref());
             // Casting into u16 is attempted only when all previous clusters were converted
             // successfully
-- 
2.43.0


From 9da7e19843d33a234c497904cb2fdeb0c16a1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 13/21] fix: reject a vocabulary index without idf weight when
 loading the tf-idf vectorizer

---
 src/intent_classifier/featurizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 05349f6..4a60283 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use itertools::Itertools;
 use ndarray::prelude::*;
 use snips_nlu_ontology::{BuiltinEntityKind, Language};
@@ -122,6 +122,9 @@ impl TfidfVectorizer {
     ) -> Result<Self> {
         let vocabulary = model.vectorizer.vocab;
         let idf_diag = model.vectorizer.idf_diag;
+        if vocabulary.values().any(|word_idx| *word_idx >= idf_diag.len()) {
+            bail!("Found a vocabulary index without idf weight");
+        }
 
         let ontology_language = Language::from_str(model.language_code.as_ref())?;
         let language = NluUtilsLanguage::from_language(ontology_language);
-- 
2.43.0


From b9142a7ac8a1ce8face65e829fae6f9270d3eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 14/21] fix: reject a word pair index out of range when loading
 the cooccurrence vectorizer

---
 src/intent_classifier/featurizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 4a60283..9af6c14 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -287,11 +287,14 @@ impl CooccurrenceVectorizer {
             })
             .collect::<Result<Vec<BuiltinEntityKind>>>()?;
 
-        let word_pairs = model
+        let word_pairs: HashMap<WordPair, usize> = model
             .word_pairs
             .into_iter()
             .map(|(index, pairs)| (pairs, index))
             .collect();
+        if word_pairs.values().any(|index| *index >= word_pairs.len()) {
+            bail!("Found a word pair index out of range");
+        }
 
         let filter_stop_words = model.config.filter_stop_words;
         let window_size = model.config.window_size;
-- 
2.43.0


From fb34e00abf72475d92f7f52efa1e10327ba40f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 15/21] fix: do not overflow on large cooccurrence windows

---
 src/intent_classifier/featurizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 9af6c14..d85f310 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -373,7 +373,7 @@ impl CooccurrenceVectorizer {
             .enumerate()
             .flat_map(|(i, t)| {
                 let max_index = self.window_size.map_or(num_tokens, |window_size| {
-                    min(i + window_size + 1, num_tokens)
+                    min(window_size.saturating_add(i + 1), num_tokens)
                 });
                 filtered_tokens[i + 1..max_index].iter().map(move |other| {
                     if self.keep_order || t < other {
-- 
2.43.0


From d4b2cef5f0e9e20b801a71ecdb59045daf5b30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 16/21] fix: do not overflow on large n-gram sizes

---
 src/slot_filler/features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index f7e8c5f..8398453 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -150,7 +150,7 @@ impl Feature for NgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         // TODO we should precompute the lowercase value somewhere, perhaps use NormalizedToken ?
-        if token_index + self.ngram_size > tokens.len() {
+        if token_index.saturating_add(self.ngram_size) > tokens.len() {
             return Ok(None);
         }
         let result = tokens[token_index..token_index + self.ngram_size]
@@ -196,7 +196,7 @@ impl Feature for ShapeNgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         let max_len = tokens.len();
-        let end = token_index + self.ngram_size;
+        let end = token_index.saturating_add(self.ngram_size);
         Ok(if token_index < end && end <= max_len {
             Some(
                 tokens[token_index..end]
-- 
2.43.0


From cbc0e1b095e2b19d0e8eb3e9dff232559f278bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 17/21] fix: do not overflow on large feature offsets

---
 src/slot_filler/feature_processor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/slot_filler/feature_processor.rs b/src/slot_filler/feature_processor.rs
index 5d118ca..146802d 100644
--- a/src/slot_filler/feature_processor.rs
+++ b/src/slot_filler/feature_processor.rs
@@ -40,8 +40,9 @@ impl ProbabilisticFeatureProcessor {
             for i in 0..input.len() {
                 if let Some(value) = offsetter.feature.compute(input, i)? {
                     offsetter.offsets_with_name().iter().for_each(|&(offset, ref key)| {
-                        if i as i32 - offset >= 0 && i as i32 - offset < input.len() as i32 {
-                            features[(i as i32 - offset) as usize].push(
+                        let index = i as i64 - i64::from(offset);
+                        if index >= 0 && index < input.len() as i64 {
+                            features[index as usize].push(
                                 (key.clone(), value.clone())
                             );
                         }
-- 
2.43.0


From 9cf8055daac5f4dd91ae8f2466ec2d40bc91f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 18/21] fix: reject unknown intent and slot identifiers when
 loading the lookup parser

---
 src/intent_parser/lookup_intent_parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 32f5e08..fc9fa72 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -7,7 +7,7 @@ use crate::slot_utils::*;
 use crate::utils::{deduplicate_overlapping_entities, IntentName, MatchedEntity, SlotName};
 use crate::IntentParser;
 use crate::{EntityScope, GroupedEntityScope, InputHash, IntentId, SlotId};
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::debug;
 use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, Language};
@@ -61,6 +61,14 @@ impl LookupIntentParser {
     /// create a parser instance
     pub fn new(model: LookupParserModel, shared_resources: Arc<SharedResources>) -> Result<Self> {
         let language = Language::from_str(&model.language_code)?;
+        let nb_intents = model.intents_names.len();
+        let nb_slots = model.slots_names.len();
+        if model.map.values().any(|(intent_id, slots_ids)| {
+            is_out_of_range(*intent_id, nb_intents)
+                || slots_ids.iter().any(|id| is_out_of_range(*id, nb_slots))
+        }) {
+            bail!("Found an unknown intent or slot identifier in the lookup table");
+        }
         let stop_words = if model.config.ignore_stop_words {
             shared_resources.stop_words.clone()
         } else {
@@ -371,6 +379,10 @@ fn replace_entities_with_placeholders(text: &str, entities: &[MatchedEntity]) ->
     }
 }
 
+fn is_out_of_range(id: i32, len: usize) -> bool {
+    id < 0 || id as usize >= len
+}
+
 fn get_items_combinations<T>(items: Vec<T>) -> Vec<Vec<T>>
 where
     T: Clone,
-- 
2.43.0


From bcfde5e1fe1f58b6e8d105b2195858139fdc0085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 19/21] fix: list an intent only once when the lookup parser
 model repeats its name

---
 src/intent_parser/lookup_intent_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index fc9fa72..75e7bc2 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -142,7 +142,7 @@ impl IntentParser for LookupIntentParser {
             .iter()
             .filter_map(|res| res.intent_name.clone())
             .collect();
-        for intent in self.intents_names.iter() {
+        for intent in self.intents_names.iter().unique() {
             if !matched_intents.contains(intent) {
                 top_intents.push(IntentClassifierResult {
                     intent_name: Some(intent.to_string()),
-- 
2.43.0


From f8c9ecec4c7385e41f84bd9ce572c7c19357e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 20/21] fix: reject capture groups without slot when loading
 the deterministic parser

---
 .../deterministic_intent_parser.rs            | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 0ee4ca7..dc55d68 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use log::{debug, info};
 use regex::{Regex, RegexBuilder};
 use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, Language};
@@ -109,10 +109,20 @@ impl DeterministicIntentParser {
                 )
             })
             .collect();
+        let regexes_per_intent = compile_regexes_per_intent(model.patterns)?;
+        let group_names_to_slot_names = model.group_names_to_slot_names;
+        for (intent, regexes) in regexes_per_intent.iter() {
+            let slots_to_entities = model.slot_names_to_entities.get(intent);
+            if !regexes.iter().all(|regex| {
+                has_configured_groups(regex, &group_names_to_slot_names, slots_to_entities)
+            }) {
+                bail!("Found a group without slot in a pattern of '{}'", intent);
+            }
+        }
         Ok(DeterministicIntentParser {
             language,
-            regexes_per_intent: compile_regexes_per_intent(model.patterns)?,
-            group_names_to_slot_names: model.group_names_to_slot_names,
+            regexes_per_intent,
+            group_names_to_slot_names,
             slot_names_to_entities: model.slot_names_to_entities,
             stop_words,
             specific_stop_words,
@@ -382,6 +392,21 @@ fn compile_regexes_per_intent(
         .collect()
 }
 
+fn has_configured_groups(
+    regex: &Regex,
+    group_names_to_slot_names: &HashMap<String, SlotName>,
+    slots_to_entities: Option<&HashMap<SlotName, EntityName>>,
+) -> bool {
+    regex.capture_names().flatten().all(|group_name| {
+        match group_names_to_slot_names.get(group_name.split('_').collect::<Vec<&str>>()[0]) {
+            Some(slot_name) => slots_to_entities
+                .map(|entities| entities.contains_key(slot_name))
+                .unwrap_or(false),
+            None => false,
+        }
+    })
+}
+
 fn deduplicate_overlapping_slots(
     slots: Vec<InternalSlot>,
     language: Language,
-- 
2.43.0


From 59170e7c4dbd71bb546d2fd56939fa7195f685e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 21/21] fix: reject a classifier whose intents and scores
 differ in number

---
 src/intent_classifier/log_reg_intent_classifier.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index ea63d3f..5af4d31 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -61,6 +61,15 @@ impl LogRegIntentClassifier {
                     nb_features
                 );
             }
+            // A binary model gives two complementary scores
+            let nb_scores = if nb_classes == 1 { 2 } else { nb_classes };
+            if model.intent_list.len() > 1 && model.intent_list.len() != nb_scores {
+                bail!(
+                    "Expected {} intents, found {}",
+                    nb_scores,
+                    model.intent_list.len()
+                );
+            }
             // Note: the deserialized coeffs matrix is transposed
             let arr_weights =
                 Array::from_shape_fn((nb_features, nb_classes), |(i, j)| coeffs[j][i]);
-- 
2.43.0

