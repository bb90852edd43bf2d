//! Stand-in for snips-nlu-parsers 0.4.3: dictionary based parsers persisted as json.
use failure::{format_err, Error};
use serde::{Deserialize, Serialize};
use snips_nlu_ontology::*;
use std::ops::Range;
use std::path::Path;

type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct GazetteerEntityMatch<T> {
    pub value: String,
    pub range: Range<usize>,
    pub entity_identifier: T,
    pub resolved_value: String,
    pub alternative_resolved_values: Vec<String>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GazetteerParserMetadata {
    pub parsers_metadata: Vec<EntityParserMetadata>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EntityParserMetadata {
    pub entity_identifier: String,
    pub entity_parser: String,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BuiltinParserMetadata {
    pub language: String,
    pub gazetteer_parser: Option<String>,
}

pub mod gazetteer_entity_parser {
    use super::Result;
    use failure::format_err;
    use serde::{Deserialize, Serialize};
    use std::fs;
    use std::path::Path;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct EntityValue {
        pub resolved_value: String,
        pub raw_value: String,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
    pub struct Parser {
        pub vanilla: Vec<EntityValue>,
        pub injected: Vec<EntityValue>,
    }
    impl Parser {
        pub fn from_folder<P: AsRef<Path>>(p: P) -> Result<Self> {
            let f = p.as_ref().join("values.json");
            let s = fs::read_to_string(&f).map_err(|e| format_err!("{:?}: {}", f, e))?;
            parse(&s)
        }
        /// `prepend`: injected values come first; `from_vanilla`: previous injections are dropped first
        pub fn inject_new_values(
            &mut self,
            values: Vec<EntityValue>,
            prepend: bool,
            from_vanilla: bool,
        ) -> Result<()> {
            if from_vanilla {
                self.injected.clear();
            }
            if values.iter().any(|v| v.raw_value == "__FAIL_INJECTION__") {
                return Err(format_err!("injected fault"));
            }
            if prepend {
                let mut v = values;
                v.append(&mut self.injected);
                self.injected = v;
            } else {
                self.injected.extend(values);
            }
            Ok(())
        }
        pub fn dump<P: AsRef<Path>>(&self, p: P) -> Result<()> {
            fs::create_dir(p.as_ref())?;
            fs::write(p.as_ref().join("values.json"), render(self))?;
            Ok(())
        }
        pub fn values(&self) -> impl Iterator<Item = &EntityValue> {
            self.injected.iter().chain(self.vanilla.iter())
        }
    }
    pub fn render(p: &Parser) -> String {
        serde_json::to_string(p).unwrap()
    }
    fn parse(s: &str) -> Result<Parser> {
        Ok(serde_json::from_str(s)?)
    }
}

/// Behaviour override used by harnesses: (sentence, scope, max alternatives) -> matches
pub type Hook<T, M> = Box<dyn Fn(&str, Option<&[T]>, usize) -> Result<Vec<M>> + Send + Sync>;

pub struct GazetteerParser<T> {
    pub entries: Vec<(T, gazetteer_entity_parser::Parser)>,
    pub hook: Option<Hook<T, GazetteerEntityMatch<T>>>,
}

impl GazetteerParser<String> {
    pub fn from_path<P: AsRef<Path>>(p: P) -> Result<Self> {
        let f = std::fs::File::open(p.as_ref().join("metadata.json"))?;
        let m: GazetteerParserMetadata = serde_json::from_reader(f)?;
        let mut entries = vec![];
        for e in m.parsers_metadata {
            let parser =
                gazetteer_entity_parser::Parser::from_folder(p.as_ref().join(&e.entity_parser))
                    .unwrap_or_default();
            entries.push((e.entity_identifier, parser));
        }
        Ok(GazetteerParser { entries, hook: None })
    }
    pub fn extract_entities(
        &self,
        sentence: &str,
        scope: Option<&[String]>,
        max_alternatives: usize,
    ) -> Result<Vec<GazetteerEntityMatch<String>>> {
        if let Some(h) = &self.hook {
            return h(sentence, scope, max_alternatives);
        }
        let chars: Vec<char> = sentence.chars().collect();
        let mut out = vec![];
        for (id, parser) in &self.entries {
            if scope.map(|s| !s.contains(id)).unwrap_or(false) {
                continue;
            }
            let mut i = 0;
            while i < chars.len() {
                let boundary = i == 0 || chars[i - 1] == ' ';
                let mut best: Vec<(usize, String)> = vec![];
                if boundary {
                    for v in parser.values() {
                        let raw: Vec<char> = v.raw_value.chars().collect();
                        if !raw.is_empty()
                            && chars[i..].starts_with(&raw)
                            && (i + raw.len() == chars.len() || chars[i + raw.len()] == ' ')
                        {
                            best.push((raw.len(), v.resolved_value.clone()));
                        }
                    }
                }
                let m = best.iter().map(|b| b.0).max();
                if let Some(m) = m {
                    let res: Vec<String> =
                        best.into_iter().filter(|b| b.0 == m).map(|b| b.1).collect();
                    out.push(GazetteerEntityMatch {
                        value: chars[i..i + m].iter().collect(),
                        range: i..i + m,
                        entity_identifier: id.clone(),
                        resolved_value: res[0].clone(),
                        alternative_resolved_values: res[1..]
                            .iter()
                            .take(max_alternatives)
                            .cloned()
                            .collect(),
                    });
                    i += m;
                } else {
                    i += 1;
                }
            }
        }
        out.sort_by_key(|m| m.range.start);
        Ok(out)
    }
}

pub struct BuiltinEntityParser {
    pub hook: Option<Hook<BuiltinEntityKind, BuiltinEntity>>,
}

impl BuiltinEntityParser {
    pub fn from_path<P: AsRef<Path>>(p: P) -> Result<Self> {
        if !p.as_ref().join("metadata.json").exists() {
            return Err(format_err!("no builtin parser in {:?}", p.as_ref()));
        }
        Ok(BuiltinEntityParser { hook: None })
    }
    pub fn extract_entities(
        &self,
        sentence: &str,
        scope: Option<&[BuiltinEntityKind]>,
        max_alternatives: usize,
    ) -> Result<Vec<BuiltinEntity>> {
        if let Some(h) = &self.hook {
            return h(sentence, scope, max_alternatives);
        }
        let mut out = vec![];
        if scope.map(|s| !s.contains(&BuiltinEntityKind::Number)).unwrap_or(false) {
            return Ok(out);
        }
        let words = ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine"];
        let mut start = 0;
        for w in sentence.split(' ') {
            let n = w.chars().count();
            let v = w
                .parse::<u32>()
                .ok()
                .map(f64::from)
                .or_else(|| words.iter().position(|x| *x == w).map(|i| i as f64));
            if let Some(v) = v {
                out.push(BuiltinEntity {
                    value: w.to_string(),
                    range: start..start + n,
                    entity: SlotValue::Number(NumberValue { value: v }),
                    alternatives: vec![],
                    entity_kind: BuiltinEntityKind::Number,
                });
            }
            start += n + 1;
        }
        Ok(out)
    }
}
