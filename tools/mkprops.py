import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe or [], hook_needed=None)))
S='src/'
p('C01','Tag sequences decode to exact, ordered, disjoint slot spans',
 "For every tagging scheme and every tag sequence that is well formed for that scheme, decoding a tagged tokenised text yields slots in text order such that each tagged token belongs to exactly one slot and no untagged token belongs to any. Each slot runs from the start of its first token to the end of its last token, boundaries fall exactly where the scheme says a slot starts or ends, its name is the last token's tag without the scheme prefix, and its value is the text of that span. A slot name without an entity mapping is an error, never a silently dropped or altered slot.",
 ['inputs'],'all texts, token lists, tag sequences and the three tagging schemes','unit tests sample a few fixed tag lists per scheme; boundary behaviour depends on every adjacent pair of tags and on first/last positions',
 [S+'slot_filler/crf_utils.rs'],[('boundary predicates','crf_utils.rs is_start/end_of_{io,bio,bilou}_slot'),('span accumulation','crf_utils.rs _tags_to_slots, tags_to_slot_ranges, tags_to_slots')])
p('C02','Scheme prefixes of an entity decode back to exactly that entity',
 "The prefix given to each token of an entity by a tagging scheme is the one the scheme prescribes for its position (inside only; begin then inside; unit, or begin-inside-last). Tagging any set of consecutive tokens with these prefixes and decoding the result gives back exactly one slot covering those tokens.",
 ['inputs'],'all token counts, entity positions and the three schemes','tests check one entity length per scheme; the round trip couples two functions and every entity length',
 [S+'slot_filler/crf_utils.rs'],[('prefix choice','crf_utils.rs get_scheme_prefix'),('decoding','crf_utils.rs _tags_to_slots')])
p('C03','Sequence labels are transported and substituted faithfully',
 "Every label sent to the sequence tagger decodes back to the same label, and malformed encoded labels give an error. When the probability of a tag sequence is asked for, every tag known to the tagger is passed unchanged and every unknown tag is replaced by the outside label when the tagger knows it and by the tagger's first label otherwise, one output per input tag in order; without a tagger the probability is 1 when all tags are the outside tag and 0 otherwise.",
 ['inputs'],'all label strings, label sets and tag sequences','no test covers probability or the encoding; correctness must hold for arbitrary (non-ASCII) labels',
 [S+'slot_filler/crf_slot_filler.rs',S+'slot_filler/crf_utils.rs'],[('tag transport','crf_slot_filler.rs decode_tag, encode_tag'),('substitution','crf_utils.rs get_substitution_label, crf_slot_filler.rs get_sequence_probability')])
p('C04','Intent filters mean whitelist minus blacklist',
 "With a whitelist, a blacklist or both, the intents a query may return are exactly the whitelisted intents that are not blacklisted (all intents when there is no whitelist); without either there is no restriction. A filter naming an intent the engine does not know is rejected with an error before any parsing.",
 ['inputs','configurations'],'all intent sets, whitelists and blacklists, including empty, overlapping and duplicated lists','tests use one whitelist and one blacklist on one model',
 [S+'nlu_engine.rs',S+'utils.rs'],[('filter computation','nlu_engine.rs get_intents_whitelist'),('intersection','utils.rs IterOps::intersect')])
p('C05','Parsing takes the first parser that finds an intent',
 "Parsers are consulted in configured order with the same input and filter; the parse result is the intent found by the first parser that finds one, with its slots resolved, and later parsers are not consulted. If no parser finds an intent the result has no intent, no slots and the confidence given by the last parser. The result echoes the input unchanged, and a parser error is reported, never swallowed.",
 ['inputs','configurations'],'all inputs, all parser lists and all outcomes each parser may return, including errors','tests use two or three mocked parsers with fixed outputs',
 [S+'nlu_engine.rs'],[('parser cascade','nlu_engine.rs SnipsNluEngine::parse_with_alternatives, parse')])
p('C06','Intent alternatives are distinct, allowed, ordered and bounded',
 "When alternatives are requested, at most the requested number is returned; they are the best remaining intents in decreasing confidence, every one is permitted by the intents filter (the absence of intent is always permitted), none repeats the returned intent, and each comes with its own resolved slots. Asking for alternatives never changes the main intent or its slots, and asking for none returns none.",
 ['inputs','configurations'],'all inputs, filters, parser outputs and alternative counts','tests use a single model where the parser that wins is also ranked first',
 [S+'nlu_engine.rs'],[('alternatives','nlu_engine.rs SnipsNluEngine::parse_with_alternatives')])
p('C07','Intent ranking keeps every intent once with its best score',
 "Listing the intents of an input returns each intent reported by any parser at most once, with the highest confidence any parser gave it, in decreasing order of confidence. Every intent the first parser reports is present.",
 ['inputs','configurations'],'all inputs and all lists of per-parser rankings','tests check one combination of two rankings',
 [S+'nlu_engine.rs'],[('score merging','nlu_engine.rs SnipsNluEngine::get_intents')])
p('C08','Slots come from the first parser with slots and resolve in place',
 "Slots of an intent are those of the first parser that yields any, and an empty list when none does; a parser error is reported. Resolution keeps the order of the slots, drops only those with no admissible value, and treats an entity as custom exactly when the dataset declares it.",
 ['inputs','configurations'],'all parser outputs, datasets and entity matches','tests fix the parsers and the entities',
 [S+'nlu_engine.rs',S+'slot_utils.rs'],[('cascade','nlu_engine.rs get_slots, get_slots_with_alternatives'),('resolution','nlu_engine.rs resolve_slots')])
p('C09','Resolving a slot keeps its identity and takes the right value',
 "A resolved slot has the same text, range, entity and name as the slot before resolution. Its value and alternatives come from the entity match of the same entity on exactly the same range if there is one, otherwise from a match on the slot text alone (for custom entities only when it covers the whole slot text), otherwise the slot text itself for automatically extensible custom entities; in any other case the slot is dropped.",
 ['inputs'],'all slots, entity matches, parser answers and extensibility settings','tests sample one slot per branch',
 [S+'slot_utils.rs'],[('builtin resolution','slot_utils.rs resolve_builtin_slot'),('custom resolution','slot_utils.rs resolve_custom_slot'),('conversion','slot_utils.rs convert_to_custom_slot, convert_to_builtin_slot')])
p('C10','Single slot extraction is total, filtered and positioned',
 "Extracting a given slot from an input rejects unknown intents and unknown slots with an error, looks only for the entity of that slot, and returns a slot carrying the requested slot name and entity, with the range and value of the entity match used. For a custom entity without match the whole input is returned as the value exactly when the entity is automatically extensible; otherwise nothing is returned.",
 ['inputs'],'all inputs, datasets, matches','tests use one model and few inputs',
 [S+'nlu_engine.rs'],[('dispatch','nlu_engine.rs extract_slot, extract_slot_with_alternatives'),('extraction','nlu_engine.rs extract_custom_slot, extract_builtin_slot')])
p('C11','Overlapping entities are reduced to a maximal disjoint selection',
 "De-duplicating overlapping entities or slots returns only given items, no two of which overlap, in text order; every item left out overlaps a kept one that is at least as long. Nothing is invented, altered or duplicated.",
 ['inputs'],'all lists of ranges and names','tests use one list of entities',
 [S+'utils.rs',S+'intent_parser/deterministic_intent_parser.rs'],[('greedy selection','utils.rs deduplicate_overlapping_items'),('entities','utils.rs deduplicate_overlapping_entities'),('slots','deterministic_intent_parser.rs deduplicate_overlapping_slots')])
p('C12','Entity replacement rewrites only the entities and maps positions back',
 "Replacing entities by placeholders leaves all text outside the kept entities unchanged and in order, and puts exactly the placeholder of each kept entity in its place. The returned mapping has one entry per kept entity, from the exact character range of its placeholder in the new text to its range in the original text, for texts of any length.",
 ['inputs'],'all texts (any length, any script), entity lists and placeholder functions','tests use short texts with two or three entities',
 [S+'utils.rs',S+'intent_parser/lookup_intent_parser.rs'],[('replacement','utils.rs replace_entities'),('lookup replacement','lookup_intent_parser.rs replace_entities_with_placeholders')])
p('C13','Pattern matches are mapped back to the original text',
 "A slot found by the deterministic parser in the text with placeholders is reported at its position in the original input: a match that is a placeholder gets the range of the entity it stands for, and any other match is moved by the length difference accumulated up to the last placeholder that ends before it. The reported value is the original input's text at the reported range, and entity and slot name are those configured for the matched group.",
 ['inputs'],'all texts, entity mappings and match positions','tests check a handful of sentences',
 [S+'intent_parser/deterministic_intent_parser.rs'],[('shift','deterministic_intent_parser.rs get_range_shift'),('match conversion','deterministic_intent_parser.rs get_matching_result')])
p('C14','Stop-word removal preserves character positions',
 "Preparing a text for pattern matching yields a text of the same number of characters, in which every token that is not a stop word of the intent is at its original character position and every other position is a space. Words whitelisted for an intent are never treated as its stop words, and when stop words are disabled no word is blanked.",
 ['inputs','configurations'],'all texts, stop word sets and whitelists','tests use one sentence; offsets must hold for every script and stop word placement',
 [S+'intent_parser/deterministic_intent_parser.rs'],[('blanking','deterministic_intent_parser.rs preprocess_text'),('stop word sets','deterministic_intent_parser.rs DeterministicIntentParser::new')])
p('C15','Rule parsers list every intent once and refuse ambiguity',
 "The deterministic and lookup parsers return an intent only when its confidence is above one half and otherwise report the absence of intent with confidence 1 and no slots. Their intent listing contains every known intent exactly once and the absence of intent last with score 0, and asking for the slots of an unknown intent is an error.",
 ['inputs','configurations'],'all inputs, intent sets and match outcomes','tests sample a few models and sentences',
 [S+'intent_parser/deterministic_intent_parser.rs',S+'intent_parser/lookup_intent_parser.rs'],[('ambiguity','parse of both parsers'),('listing','get_intents of both parsers'),('slots','get_slots of both parsers')])
p('C16','Match confidences are a normalised inverse-slot-count ranking',
 "When several intents match, each gets a confidence proportional to 1/(1+number of its slots), confidences are returned in decreasing order, at most the requested number of results is returned, there is at most one result per intent, and only intents permitted by the filter appear.",
 ['inputs','configurations'],'all match sets and filters','tests check two fixed ambiguous datasets',
 [S+'intent_parser/deterministic_intent_parser.rs',S+'intent_parser/lookup_intent_parser.rs'],[('ranking','parse_top_intents of both parsers')])
p('C17','The lookup parser tries every subset of entities once',
 "The candidates tried for an input are built from all subsets of the detected entities, each subset exactly once and keeping text order, starting with none and then from the largest to the smallest; intents excluded by the filter contribute no candidate.",
 ['inputs'],'all entity lists','tests list the combinations of one three-element list',
 [S+'intent_parser/lookup_intent_parser.rs'],[('subsets','lookup_intent_parser.rs get_items_combinations'),('candidates','lookup_intent_parser.rs get_candidates')])
p('C18','Lookup results bind the i-th slot to the i-th entity',
 "A lookup hit yields the configured intent, unless the filter excludes it, and one slot per entity: the i-th slot has the i-th configured slot name, the entity's name and range, and the input's text at that range as value.",
 ['inputs'],'all hits, entity lists and filters','tests sample few utterances',
 [S+'intent_parser/lookup_intent_parser.rs'],[('output conversion','lookup_intent_parser.rs parse_map_output')])
p('C19','Intent classification is filtered, sorted and total',
 "The classifier returns each of its intents permitted by the filter exactly once, together with the absence of intent when it knows that class (it is never filtered out), with the score the model gives to that intent, in decreasing order of score; the chosen intent is the first. With at most one intent, an empty input or no trained model it answers deterministically without scoring, giving full confidence to its single permitted intent or to the absence of intent.",
 ['inputs','configurations'],'all intent lists, scores, filters and inputs','tests use one trained model',
 [S+'intent_classifier/log_reg_intent_classifier.rs'],[('classification','log_reg_intent_classifier.rs get_intent, get_intents_with_whitelist')])
p('C20','Logistic scores are probabilities with the right shape',
 "The logistic model gives one score per class (two complementary scores for a binary model), each the logistic function of intercept plus weighted features and hence between 0 and 1, increasing with the decision value. Features or intercepts of the wrong size are rejected with an error.",
 ['inputs'],'all weights, intercepts and features of any size','two tests with fixed matrices',
 [S+'intent_classifier/logreg.rs'],[('model','logreg.rs MulticlassLogisticRegression::new, run'),('link','logreg.rs logit')])
p('C21','The tf-idf vector is the normalised weighted count vector',
 "The tf-idf vector has one component per vocabulary index; a component is non-zero only if its word is among the extracted features, before normalisation it is the number of occurrences times the word's idf weight, and the vector is divided by its Euclidean norm unless that is zero. Words outside the vocabulary contribute nothing.",
 ['inputs','configurations'],'all vocabularies, idf weights and inputs','tests check two sentences',
 [S+'intent_classifier/featurizer.rs'],[('vectoriser','featurizer.rs TfidfVectorizer::transform')])
p('C22','Co-occurrence features are exactly the word pairs in the window',
 "The word pairs extracted from an utterance are exactly the pairs of kept words at most the window size apart (adjacent kept words are one apart; any distance without window), in text order or alphabetical order as configured, where stop words (if filtered) and the unknown-word marker are not kept. The feature vector is 1 at the index of each known extracted pair and 0 elsewhere.",
 ['inputs','configurations'],'all token lists, windows and settings','tests check a few windows on one sentence',
 [S+'intent_classifier/featurizer.rs'],[('pairs','featurizer.rs extract_word_pairs'),('vector','featurizer.rs CooccurrenceVectorizer::transform')])
p('C23','Context features land on the token at the configured offset',
 "For every configured feature and offset, the value the feature has at token i+offset is attached to token i under the feature's name suffixed by the signed offset (no suffix for offset 0) whenever token i+offset exists, and nothing else is attached. There is exactly one feature list per token.",
 ['inputs','configurations'],'all token lists, features and offsets','tests use three tokens and two features',
 [S+'slot_filler/feature_processor.rs'],[('shifting','feature_processor.rs compute_features'),('naming','feature_processor.rs offsets_with_name')])
p('C24','Token features are computed from the right tokens and characters',
 "Prefix and suffix features are the first and last n characters of the normalised token, absent when it is shorter; n-gram features join exactly n consecutive tokens starting at the position and are absent when they do not fit; first, last, length and digit features describe the token itself. All are counted in characters, not bytes, and never fail on any text.",
 ['inputs'],'all tokens, sizes and positions','tests sample ASCII words',
 [S+'slot_filler/features.rs',S+'slot_filler/features_utils.rs'],[('chunks','features_utils.rs get_word_chunk'),('features','features.rs compute of each feature')])
p('C25','Entity-match features tag exactly the tokens of the matched entity',
 "An entity-match feature is present on a token exactly when an entity of the configured kind overlaps it in the text rebuilt from the tokens, and is then the scheme prefix of that token among the entity's tokens. The rebuilt text puts every token at its own character position, and stemmed tokens are laid out one space apart with consistent character and byte ranges.",
 ['inputs'],'all token lists, stemmers, entity matches','tests use one sentence per scheme',
 [S+'slot_filler/features.rs',S+'slot_filler/features_utils.rs'],[('matching','features.rs CustomEntityMatchFeature/BuiltinEntityMatchFeature::compute'),('layout','features.rs transform_tokens, features_utils.rs initial_string_from_tokens')])
p('C26','Entity parser caching is transparent',
 "A cached entity extraction returns what an uncached extraction with the same lower-cased sentence, the same entity scope and the same number of alternatives would return, whatever was asked before. Errors are reported and not cached.",
 ['histories','inputs'],'all histories of queries, all capacities','one test repeats one sentence',
 [S+'entity_parser/utils.rs',S+'entity_parser/builtin_entity_parser.rs',S+'entity_parser/custom_entity_parser.rs'],[('cache','entity_parser/utils.rs Cache::try_cache'),('keys','CacheKey in both parsers')],
 [('cache','map from key to result','entity_parser/utils.rs Cache')])
p('C27','Custom entity ranges point into the given sentence',
 "Custom entities are searched in the tokens joined by single spaces, and each match is reported with the range it has in the (lower-cased) sentence the tokens came from, whatever spacing or punctuation separates the tokens there. Everything else in the match is unchanged.",
 ['inputs'],'all sentences and tokenisations','tests use one sentence',
 [S+'entity_parser/custom_entity_parser.rs'],[('shifts','custom_entity_parser.rs compute_char_shifts'),('remapping','custom_entity_parser.rs _extract_entities')])
p('C28','Injection validates everything before changing anything',
 "Entity injection rejects unknown entities, grammar entities, entities without a declared parser and stemming without a stemmer before any parser on disk is modified. On success each injected value is added to the parser of its own entity with the value as given for resolution and its lower-cased form (with stems if the parser uses them) for matching, prepended to existing values, with earlier injections dropped only when restarting from the original values; parsers of other entities are untouched.",
 ['inputs','configurations'],'all entity/value sets, parser usages, engines','one test injects two values',
 [S+'injection/injection.rs'],[('validation','injection.rs get_entity_parsers_dirs'),('values','injection.rs normalize_entity_value, stem_entity_value'),('sequence','injection.rs NluInjector::inject')])
p('C29','Only models of the supported version are loaded',
 "An engine is loaded only if its model declares exactly the supported model version; any other version is rejected with an error naming both versions before the model is interpreted, and unreadable or malformed model files give an error.",
 ['inputs','configurations'],'all model files','one test uses one wrong version',
 [S+'nlu_engine.rs'],[('gate','nlu_engine.rs check_model_version, load_model')])
p('C30','Archives unpack inside the destination and fail cleanly',
 "Loading an engine from an archive writes every entry at its sanitised path below the destination directory and nowhere else, creating the parent directories it needs, and returns the first directory of the archive's first entry. Malformed archives and entries that cannot be written give an error, never a crash.",
 ['inputs','fault_sequences'],'all archives, entry names and write failures','one well-formed archive is tested',
 [S+'utils.rs'],[('extraction','utils.rs extract_nlu_engine_zip_archive')])
p('C31','Lexical resources answer exactly what their files say',
 "Up to collisions of the 32-bit word hash, a gazetteer contains a word exactly when a non-empty line of its file is that word; a stemmer maps each word whose normalised form is listed to the stem of the (last) line listing it and leaves other words unchanged; a word clusterer gives each listed word the cluster written in its file and nothing for other words, whether or not clusters are numeric. A language's resources are exactly those its metadata names.",
 ['inputs'],'all resource files and queried words (up to hash collisions)','tests use three-line files',
 [S+'resources/gazetteer.rs',S+'resources/stemmer.rs',S+'resources/word_clusterer.rs'],[('loading and lookup','from_reader and contains/stem/get_cluster')])
p('C32','The probabilistic parser fills the slots of the classified intent',
 "The probabilistic parser returns the classifier's intent and confidence unchanged, together with the slots its slot filler for exactly that intent extracts, and no slots when there is no intent; an intent without slot filler is an error.",
 ['inputs','configurations'],'all classifier and slot filler behaviours','tests use one trained model',
 [S+'intent_parser/probabilistic_intent_parser.rs'],[('composition','probabilistic_intent_parser.rs parse, get_slots, get_intents')])
p('C33','Concurrent queries do not interfere',
 "Queries issued concurrently from several threads on one engine give the answers they would give one at a time, and no query blocks forever.",
 ['schedules'],'all interleavings','tests are single threaded',
 [S+'entity_parser/builtin_entity_parser.rs',S+'entity_parser/custom_entity_parser.rs',S+'slot_filler/crf_slot_filler.rs'],[('locks','Mutex around caches and tagger')])
p('C34','The C interface neither leaks, double-frees nor crosses the boundary unsafely',
 "Every object handed out by the C interface is valid until its destroy function is called once and releases everything it owns; null or non-UTF-8 arguments and internal errors give an error code and never unwind across the boundary.",
 ['inputs','histories'],'all call sequences','no tests',
 ['ffi/src/lib.rs'],[('wrappers','ffi/src/lib.rs wrap!, snips_nlu_engine_destroy_*')])
p('C35','An engine is assembled exactly as its files describe',
 "A loaded engine asks its intent parsers in the order its model lists them; each parser, intent classifier and slot filler is of the kind the metadata of its own directory names and is built from that directory's files, a probabilistic parser fills the slots of each intent with the slot filler listed (last) for that intent, and shared resources are those of the engine's language. A missing or malformed file, or a unit of the wrong kind, gives an error, never a partly built engine or a crash.",
 ['inputs','configurations'],'all engine directories','tests load one fixed trained engine',
 [S+'nlu_engine.rs',S+'intent_parser/mod.rs',S+'intent_parser/probabilistic_intent_parser.rs',S+'slot_filler/mod.rs',S+'slot_filler/crf_slot_filler.rs',S+'intent_classifier/mod.rs',S+'resources/loading.rs'],[('engine','nlu_engine.rs from_path, load_intent_parsers'),('units','build_intent_parser, build_intent_classifier, build_slot_filler and the from_path constructors'),('resources','resources/loading.rs load_engine_shared_resources')])
p('C36','Slot-filling features are built exactly as the model configures them',
 "Each feature factory of a slot filler model builds features of exactly the kind its name designates, with the configured sizes, flags, gazetteer, clusters, and one feature per listed entity or label under the configured tagging scheme; the stemmer is used exactly when asked for. Features are named after kind and parameters, read at the configured offsets, and kept in the order of the model. An unknown kind or scheme, a missing or malformed argument, or a missing resource gives an error, never a silently different feature.",
 ['inputs','configurations'],'all model configurations and resources','tests build a few hand-picked features',
 [S+'slot_filler/feature_processor.rs',S+'slot_filler/features.rs',S+'slot_filler/macros.rs',S+'slot_filler/crf_utils.rs'],[('factories','slot_filler/features.rs build_features, name, feature_kind'),('dispatch','slot_filler/macros.rs get_features!, feature_processor.rs ProbabilisticFeatureProcessor::new'),('arguments','slot_filler/features.rs parse_as_*')])
p('C37','The C interface passes queries and answers through faithfully',
 "Each C query function passes the given text, intent, filters (a null filter meaning none) and numbers of alternatives to the engine unchanged, stores exactly the engine's answer, or its JSON form, at the result pointer, and reports success exactly when it did; texts that are not UTF-8, unusable engines and engine errors are reported as failures. Creation stores an engine loaded from exactly the given directory or bytes. Each destroy function releases an object of its own kind.",
 ['inputs','histories'],'all arguments and engine answers','no tests',
 ['ffi/src/lib.rs'],[('queries','ffi/src/lib.rs run_*, snips_nlu_engine_run_*'),('creation and release','ffi/src/lib.rs create_from_*, snips_nlu_engine_destroy_*'),('filters','ffi/src/lib.rs convert_to_rust_vec')])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
