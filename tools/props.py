PROPS = {
 'C01': dict(level='proof', units={'crf': ['tag_name_to_slot_name', 'is_start_of_io_slot', 'is_end_of_io_slot', 'is_start_of_bio_slot', 'is_end_of_bio_slot', 'is_start_of_bilou_slot', 'is_end_of_bilou_slot', '_tags_to_slots', 'tags_to_slot_ranges', 'tags_to_slots', 'CRFSlotFiller/SlotFiller::get_slots']}, bins=['c01'],
   assumptions=['tokens are in text order with byte ranges on character boundaries (snips-nlu-utils tokenizer)', 'the sequence tagger gives one label of the scheme per feature row, and feature processing one row per token (C23)', 'String equality is equality of characters']),
 'C02': dict(level='proof', units={'crf': ['get_scheme_prefix']}, bins=['c02']),
 'C03': dict(level='proof', units={'crf': ['decode_tag', 'encode_tag', 'get_substitution_label', 'CRFSlotFiller/SlotFiller::get_sequence_probability']}, bins=['c03'], assumptions=['the sequence tagger is a relation between label table, features and answer; it has at least one label', 'base64 and UTF-8 decoding invert encoding']),
 'C04': dict(level='proof', units={'engine': ['SnipsNluEngine::get_intents_whitelist', 'I/IterOps::intersect']}, bins=['c04'], assumptions=['intent and entity parsers are modelled as arbitrary relations between query and answer','BuiltinEntityKind::from_str and from_identifier agree','scores are not NaN; each parser ranks an intent once (C15, C19) where noted']),
 'C05': dict(level='proof', units={'engine': ['SnipsNluEngine::parse_with_alternatives', 'SnipsNluEngine::parse']}, bins=['c05'], assumptions=['intent and entity parsers are modelled as arbitrary relations between query and answer','BuiltinEntityKind::from_str and from_identifier agree','scores are not NaN; each parser ranks an intent once (C15, C19) where noted']),
 'C06': dict(level='proof', units={'engine': ['SnipsNluEngine::parse_with_alternatives']}, bins=['c06'], assumptions=['intent and entity parsers are modelled as arbitrary relations between query and answer','BuiltinEntityKind::from_str and from_identifier agree','scores are not NaN; each parser ranks an intent once (C15, C19) where noted']),
 'C07': dict(level='proof', units={'engine': ['SnipsNluEngine::get_intents']}, bins=['c07'], assumptions=['intent and entity parsers are modelled as arbitrary relations between query and answer','BuiltinEntityKind::from_str and from_identifier agree','scores are not NaN; each parser ranks an intent once (C15, C19) where noted']),
 'C08': dict(level='proof', units={'engine': ['SnipsNluEngine::resolve_slots', 'SnipsNluEngine::get_slots', 'SnipsNluEngine::get_slots_with_alternatives']}, bins=['c08'], assumptions=['intent and entity parsers are modelled as arbitrary relations between query and answer','BuiltinEntityKind::from_str and from_identifier agree','scores are not NaN; each parser ranks an intent once (C15, C19) where noted']),
 'C09': dict(level='proof', units={'engine': ['resolve_builtin_slot', 'resolve_custom_slot', 'convert_to_custom_slot', 'convert_to_builtin_slot']}, bins=['c09'], assumptions=['intent and entity parsers are modelled as arbitrary relations between query and answer','BuiltinEntityKind::from_str and from_identifier agree','scores are not NaN; each parser ranks an intent once (C15, C19) where noted']),
 'C10': dict(level='proof', units={'engine': ['SnipsNluEngine::extract_slot', 'SnipsNluEngine::extract_slot_with_alternatives', 'extract_custom_slot', 'extract_builtin_slot']}, bins=['c10'], assumptions=['intent and entity parsers are modelled as arbitrary relations between query and answer','BuiltinEntityKind::from_str and from_identifier agree','scores are not NaN; each parser ranks an intent once (C15, C19) where noted']),
 'C11': dict(level='proof', units={'utils': ['deduplicate_overlapping_items','deduplicate_overlapping_entities'], 'deter': ['deduplicate_overlapping_slots']}, bins=['c11'], assumptions=['a stable sort by key yields a permutation ordered by the key (std)', 'the length of a slot is its number of characters plus its number of tokens, as the code ranks slots']),
 'C12': dict(level='proof', units={'utils': ['replace_entities','deduplicate_overlapping_entities','deduplicate_overlapping_items']}, bins=['c12']),
 'C13': dict(level='proof', units={'deter': ['get_range_shift', 'get_entity_placeholder', 'DeterministicIntentParser::get_matching_result', 'internal_parsing_result', 'DeterministicIntentParser::parse_top_intents']}, bins=['c13'], assumptions=['a regular expression is modelled as an arbitrary function from text to matches with proper character ranges', 'the entity parsers report proper, in-range matches (sane_builtin, sane_custom)', 'every group of a pattern has a configured slot and entity name (wf_parser)', 'texts with placeholders of at most 0x3fffffff characters (the code computes shifts in i32)']),
 'C14': dict(level='proof', units={'deter': ['DeterministicIntentParser::preprocess_text', 'DeterministicIntentParser::new', 'compile_regexes_per_intent'], 'lookup': ['LookupIntentParser::preprocess_text', 'LookupIntentParser::new']}, bins=['c14'], assumptions=['tokenize_light answers tokens in text order with faithful character ranges', 'normalisation is a function of the word', 'RegexBuilder is modelled by its settings']),
 'C15': dict(level='proof', units={'deter': ['DeterministicIntentParser::parse', 'DeterministicIntentParser::get_intents', 'DeterministicIntentParser::get_slots'], 'lookup': ['LookupIntentParser::parse', 'LookupIntentParser::get_intents', 'LookupIntentParser::get_slots']}, bins=['c15'], assumptions=['the entity parsers report proper, in-range matches (sane_builtin, sane_custom)', 'ids in the lookup map are within the name tables and intent names are distinct (wf_parser)', 'f32 comparison of the confidence with one half is as the code computes it']),
 'C16': dict(level='proof', units={'deter': ['DeterministicIntentParser::parse_top_intents'], 'lookup': ['LookupIntentParser::parse_top_intents']}, bins=['c16'], assumptions=['f32 arithmetic is uninterpreted apart from a few sign axioms: confidences are stated as the float expression w_i / sum(w)', 'a stable sort with a comparison yields an ordered permutation (std)', 'the entity parsers report proper, in-range matches', 'intent names of the lookup parser are distinct']),
 'C17': dict(level='proof', units={'lookup': ['get_items_combinations', 'get_entity_placeholder', 'replace_entities_with_placeholders', 'LookupIntentParser::preprocess_text', 'LookupIntentParser::get_all_entities', 'LookupIntentParser::get_candidates']}, bins=['c17'], assumptions=['the entity parsers report proper, in-range matches (sane_builtin, sane_custom); inputs of at most i32::MAX characters', 'Itertools::combinations and ::unique are specified from their documentation', 'tokenize_light, normalize and to_lowercase are functions of their input']),
 'C18': dict(level='proof', units={'lookup': ['LookupIntentParser::parse_map_output']}, bins=['c18'], assumptions=['ids in the lookup map are within the name tables (wf_output)']),
 'C19': dict(level='proof', units={'clf': ['is_allowed', 'LogRegIntentClassifier::get_intents_with_whitelist', 'LogRegIntentClassifier/IntentClassifier::get_intent', 'LogRegIntentClassifier/IntentClassifier::get_intents', 'LogRegIntentClassifier::compute_features']}, bins=['c19'], assumptions=['the features of a query are a relation (C21, C22)', 'class scores are not NaN (C20)', 'a stable sort with a comparison yields an ordered permutation (std)']),
 'C20': dict(level='proof', units={'clf': ['MulticlassLogisticRegression::nb_features', 'MulticlassLogisticRegression::nb_classes', 'MulticlassLogisticRegression::is_binary', 'MulticlassLogisticRegression::new', 'MulticlassLogisticRegression::run', 'logit', 'LogRegIntentClassifier::from_path']}, bins=['c20'], assumptions=['ndarray into_shape, stack, dot and from_shape_fn are specified from their documentation; the inner product is an uninterpreted function of the two vectors', 'f32 exp, negation, addition and division are monotone and in range as IEEE 754 prescribes', 'JSON file content is a relation between path and value; features are not NaN']),
 'C21': dict(level='proof', units={'feat': ['TfidfVectorizer::transform', 'TfidfVectorizer::new', 'TfidfVectorizer::from_path', 'Featurizer::transform', 'Featurizer::from_path', 'normalize_stem', 'get_word_clusters', 'get_builtin_entity_feature_name', 'get_custom_entity_feature_name']}, bins=['c21'], assumptions=['every vocabulary index has an idf weight (wf_tfidf)', 'f32 arithmetic is uninterpreted: a count is the repeated float addition the code performs', 'stemmer, word clusterer and normalisation are functions of the word']),
 'C22': dict(level='proof', units={'feat': ['CooccurrenceVectorizer::extract_word_pairs', 'CooccurrenceVectorizer::placeholder_fn', 'CooccurrenceVectorizer::transform', 'CooccurrenceVectorizer::new', 'CooccurrenceVectorizer::from_path', 'Featurizer::transform', 'Featurizer::from_path']}, bins=['c22'], assumptions=['pair indices are in range and the window fits isize (wf_cooc)', 'the entity parsers report proper, in-range matches; texts of at most i32::MAX characters', 'string order is the order of code points']),
 'C23': dict(level='proof', units={'featproc': ['FeatureOffsetter::offsets_with_name', 'ProbabilisticFeatureProcessor::compute_features']}, bins=['c23'], assumptions=['each feature is modelled as an arbitrary relation between tokens, position and answer', 'at most 0x3fffffff tokens, offsets within the same bound (the code computes positions in i32)']),
 'C24': dict(level='proof', units={'features': ['get_word_chunk', 'IsDigitFeature/Feature::compute', 'LengthFeature/Feature::compute', 'IsFirstFeature/Feature::compute', 'IsLastFeature/Feature::compute', 'PrefixFeature/Feature::compute', 'SuffixFeature/Feature::compute', 'NgramFeature/Feature::compute', 'ShapeNgramFeature/Feature::compute', 'WordClusterFeature/Feature::compute']}, bins=['c24'], assumptions=['word shape, common-words gazetteer and word clusterer are functions of the word', 'the position is one of the tokens (C23); position plus n-gram size fits in usize']),
 'C25': dict(level='proof', units={'features': ['initial_string_from_tokens', 'transform_tokens', 'CustomEntityMatchFeature/Feature::compute', 'BuiltinEntityMatchFeature/Feature::compute']}, bins=['c25'], assumptions=['the entity parsers are relations between query and answer', 'total token lengths fit in usize']),
 'C26': dict(level='proof', units={'builtin': ['Cache::new', 'Cache::try_cache', 'CachingBuiltinEntityParser/BuiltinEntityParser::extract_entities', 'CachingBuiltinEntityParser::from_path'], 'custom': ['CachingCustomEntityParser/CustomEntityParser::extract_entities', 'CachingCustomEntityParser::from_path']}, bins=['c26'], assumptions=['the underlying parsers are relations between query and answer', 'the Mutex is modelled by its lock invariant', 'an LruCache may forget any entry but returns only what was put under an equal key']),
 'C27': dict(level='proof', units={'custom': ['compute_char_shifts', 'CachingCustomEntityParser::_extract_entities']}, bins=['c27'], assumptions=['gazetteer matches lie within the joined text', 'tokens are faithful to the text; texts of at most 0x3fffffff characters']),
 'C28': dict(level='proof', units={'inject': ['normalize', 'normalize_entity_value', 'stem_entity_value', 'get_entity_parsers_dirs', 'get_builtin_parser_info', 'get_custom_parser_info', 'get_nlu_engine_info', 'NluInjector::new', 'NluInjector::add_value', 'NluInjector::from_vanilla', 'NluInjector::shared_resources', 'NluInjector::inject']}, bins=['c28'], assumptions=['the gazetteer parser is modelled by the history of the operations performed on it; its load, inject and dump may fail at any point', 'JSON file content is a relation between path and value', 'stemmer, tokenizer and normalisation are functions of the word', 'the order of a hash map is arbitrary but fixed for one map']),
 'C29': dict(level='proof', units={'load': ['SnipsNluEngine::check_model_version', 'SnipsNluEngine::load_model', 'SnipsNluEngine::from_path']}, bins=['c29'], assumptions=['the file system is a relation between path and content', 'loading of the intent parsers and resources is assumed to answer a Result (their own property: C35)']),
 'C30': dict(level='proof', units={'archive': ['extract_nlu_engine_zip_archive', 'SnipsNluEngine::from_zip']}, bins=['c30'], assumptions=['writes are permission predicates on paths below the destination; the sanitised name of an entry is relative and without .. (zip crate)', 'zip and file operations may fail at any point', 'that a created directory exists persists during extraction']),
 'C31': dict(level='proof', units={'resources': ['HashSetGazetteer::from_reader', 'HashSetGazetteer/Gazetteer::contains', 'HashMapStemmer::from_reader', 'HashMapStemmer/Stemmer::stem', 'HashMapWordClusterer::from_reader', 'HashMapWordClusterer/WordClusterer::get_cluster', 'load_stop_words', 'load_stemmer', 'load_gazetteers', 'load_word_clusterers', 'load_shared_resources']}, bins=['c31'], assumptions=['the lines or CSV records of a file are a function of its reader; the word hash is a function of the word, injective on the words at hand where the property says up to collisions', 'word cluster records have at least two columns', 'the file system is a relation between path and content']),
 'C32': dict(level='proof', units={'prob': ['ProbabilisticIntentParser/IntentParser::parse', 'ProbabilisticIntentParser/IntentParser::get_intents', 'ProbabilisticIntentParser/IntentParser::get_slots']}, bins=['c32'], assumptions=['intent classifier and slot fillers are modelled as arbitrary relations between query and answer']),
 'C35': dict(level='proof', units={'wire': ['build_intent_classifier', 'build_slot_filler', 'TaggingScheme::from_u8', 'CRFSlotFiller::from_path', 'LookupIntentParser::from_path', 'DeterministicIntentParser::from_path', 'ProbabilisticIntentParser::from_path', 'build_intent_parser', 'SnipsNluEngine::load_intent_parsers', 'SnipsNluEngine::from_path', 'load_engine_shared_resources']}, bins=['c35'], assumptions=['JSON file content is a relation between path and value', 'the constructors of the units (their own properties: C14, C20, C21, C23, C26, C31) are relations between what they are given and what they build', 'the tagger is a relation between its file and the sequence model']),
 'C36': dict(level='proof', units={'factory': ['parse_as_string', 'parse_as_opt_string', 'parse_as_vec_string', 'parse_as_bool', 'parse_as_u64', 'TaggingScheme::from_u8', 'FeatureKind::identifier', 'IsDigitFeature/FeatureKindRepr::feature_kind', 'IsDigitFeature/Feature::name', 'IsDigitFeature/Feature::build_features', 'LengthFeature/FeatureKindRepr::feature_kind', 'LengthFeature/Feature::name', 'LengthFeature/Feature::build_features', 'IsFirstFeature/FeatureKindRepr::feature_kind', 'IsFirstFeature/Feature::name', 'IsFirstFeature/Feature::build_features', 'IsLastFeature/FeatureKindRepr::feature_kind', 'IsLastFeature/Feature::name', 'IsLastFeature/Feature::build_features', 'NgramFeature/FeatureKindRepr::feature_kind', 'NgramFeature/Feature::name', 'NgramFeature/Feature::build_features', 'ShapeNgramFeature/FeatureKindRepr::feature_kind', 'ShapeNgramFeature/Feature::name', 'ShapeNgramFeature/Feature::build_features', 'PrefixFeature/FeatureKindRepr::feature_kind', 'PrefixFeature/Feature::name', 'PrefixFeature/Feature::build_features', 'SuffixFeature/FeatureKindRepr::feature_kind', 'SuffixFeature/Feature::name', 'SuffixFeature/Feature::build_features', 'CustomEntityMatchFeature/FeatureKindRepr::feature_kind', 'CustomEntityMatchFeature/Feature::name', 'CustomEntityMatchFeature/Feature::build_features', 'BuiltinEntityMatchFeature/FeatureKindRepr::feature_kind', 'BuiltinEntityMatchFeature/Feature::name', 'BuiltinEntityMatchFeature/Feature::build_features', 'WordClusterFeature/FeatureKindRepr::feature_kind', 'WordClusterFeature/Feature::name', 'WordClusterFeature/Feature::build_features', 'get_features', 'ProbabilisticFeatureProcessor::new']}, bins=['c36'], assumptions=['JSON values are modelled by the answers of their projections (serde_json); 64-bit target', 'BuiltinEntityKind::from_identifier is a function of the identifier', 'the get_features! macro of the repository is expanded by the extractor', 'resources are maps from name to resource']),
 'C37': dict(level='proof', units={'ffi': ['convert_to_rust_vec', 'create_from_dir', 'create_from_zip', 'run_parse_with_alternatives', 'run_get_slots', 'run_get_intents', 'run_parse_with_alternatives_into_json', 'run_get_slots_into_json', 'run_get_intents_into_json', 'get_model_version', 'snips_nlu_engine_create_from_dir', 'snips_nlu_engine_create_from_zip', 'snips_nlu_engine_run_parse', 'snips_nlu_engine_run_parse_with_alternatives', 'snips_nlu_engine_run_get_slots', 'snips_nlu_engine_run_get_slots_with_alternatives', 'snips_nlu_engine_run_get_intents', 'snips_nlu_engine_run_parse_into_json', 'snips_nlu_engine_run_parse_with_alternatives_into_json', 'snips_nlu_engine_run_get_slots_into_json', 'snips_nlu_engine_run_get_slots_with_alternatives_into_json', 'snips_nlu_engine_run_get_intents_into_json', 'snips_nlu_engine_get_model_version', 'snips_nlu_engine_destroy_string', 'snips_nlu_engine_destroy_client', 'snips_nlu_engine_destroy_result', 'snips_nlu_engine_destroy_slots', 'snips_nlu_engine_destroy_intent_classifier_results']}, bins=['c37'], crate='harness_ffi', assumptions=['C callers pass valid pointers and proper arrays (no null cells, size not negative)', 'wrap!, create_rust_string_from!, point_to_string, raw_borrow and into/from_raw_pointer of ffi-utils and the C result types are specified from their documentation; neither crate is available offline', 'what the engine answers is C04 to C10 and C29, C30']),
}

NOT_APPLICABLE = {
 'C33': 'Verus and Kani give no model of the std Mutex/thread schedules used here (Kani has no threads, Verus needs its own permission types), so interference and deadlock freedom over all schedules cannot be stated as a contract on this code.',
 'C34': 'Leaks, double release and unwinding across the C boundary are properties of raw memory and of the wrap!/into_raw_pointer code of ffi-utils, whose source is not available offline; a contract assumed for it would be the property itself. What the C functions in /repo do with those operations is C37.',
}
