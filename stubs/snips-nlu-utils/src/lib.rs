//! Stand-in for snips-nlu-utils 0.9.1 (the source is not available offline). Same signatures; behaviour
//! follows the documented one closely enough for the repository's own unit tests.
pub mod range {
    use std::ops::Range;
    pub fn ranges_overlap<T: PartialOrd>(r1: &Range<T>, r2: &Range<T>) -> bool {
        r1.start < r2.end && r1.end > r2.start
    }
}

pub mod language {
    use std::str::FromStr;
    #[allow(non_camel_case_types)]
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum Language {
        DE,
        EN,
        ES,
        FR,
        IT,
        JA,
        KO,
        PT_PT,
        PT_BR,
    }
    impl FromStr for Language {
        type Err = failure::Error;
        fn from_str(s: &str) -> Result<Self, failure::Error> {
            match &*s.to_lowercase() {
                "de" => Ok(Language::DE),
                "en" => Ok(Language::EN),
                "es" => Ok(Language::ES),
                "fr" => Ok(Language::FR),
                "it" => Ok(Language::IT),
                "ja" => Ok(Language::JA),
                "ko" => Ok(Language::KO),
                "pt_pt" => Ok(Language::PT_PT),
                "pt_br" => Ok(Language::PT_BR),
                _ => Err(failure::format_err!("Unknown language {}", s)),
            }
        }
    }
    impl Language {
        pub fn is_cjk(self) -> bool {
            self == Language::JA || self == Language::KO
        }
    }
}

pub mod string {
    use std::ops::Range;

    pub fn convert_to_char_range(string: &str, range: &Range<usize>) -> Range<usize> {
        convert_to_char_index(range.start, string)..convert_to_char_index(range.end, string)
    }
    pub fn convert_to_char_index(byte_index: usize, string: &str) -> usize {
        if string.is_empty() {
            return 0;
        }
        let mut acc = 0;
        let mut last = 0;
        for (char_index, ch) in string.chars().enumerate() {
            if acc >= byte_index {
                return char_index;
            }
            acc += ch.len_utf8();
            last = char_index;
        }
        last + 1
    }
    pub fn convert_to_byte_index(char_index: usize, string: &str) -> usize {
        string.chars().take(char_index).map(|c| c.len_utf8()).sum()
    }
    pub fn convert_to_byte_range(range: &Range<usize>, string: &str) -> Range<usize> {
        convert_to_byte_index(range.start, string)..convert_to_byte_index(range.end, string)
    }
    pub fn suffix_from_char_index(string: String, i: usize) -> String {
        string.chars().skip(i).collect()
    }
    pub fn prefix_until_char_index(string: String, i: usize) -> String {
        string.chars().take(i).collect()
    }
    pub fn substring_with_char_range(string: String, range: &Range<usize>) -> String {
        string
            .chars()
            .skip(range.start)
            .take(range.end.saturating_sub(range.start))
            .collect()
    }
    fn unaccent(c: char) -> char {
        match c {
            'à' | 'á' | 'â' | 'ã' | 'ä' | 'å' => 'a',
            'ç' => 'c',
            'è' | 'é' | 'ê' | 'ë' => 'e',
            'ì' | 'í' | 'î' | 'ï' => 'i',
            'ñ' => 'n',
            'ò' | 'ó' | 'ô' | 'õ' | 'ö' => 'o',
            'ù' | 'ú' | 'û' | 'ü' => 'u',
            'ý' | 'ÿ' => 'y',
            c => c,
        }
    }
    pub fn normalize(string: &str) -> String {
        string.trim().to_lowercase().chars().map(unaccent).collect()
    }
    pub fn get_shape(string: &str) -> &'static str {
        let up = |c: char| c.is_uppercase();
        let low = |c: char| c.is_lowercase();
        if !string.is_empty() && string.chars().all(low) {
            "xxx"
        } else if !string.is_empty() && string.chars().all(up) {
            "XXX"
        } else if string.chars().next().map(up).unwrap_or(false)
            && string.chars().count() > 1
            && string.chars().skip(1).all(low)
        {
            "Xxx"
        } else {
            "xX"
        }
    }
    pub fn hash_str_to_i32(input: &str) -> i32 {
        let mut h: u32 = 0x811c_9dc5;
        for b in input.as_bytes() {
            h ^= u32::from(*b);
            h = h.wrapping_mul(0x0100_0193);
        }
        h as i32
    }
}

pub mod token {
    use crate::language::Language;
    use crate::string::{convert_to_char_range, normalize};
    use std::ops::Range;

    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct Token {
        pub value: String,
        pub range: Range<usize>,
        pub char_range: Range<usize>,
        normalized_value: String,
    }
    impl Token {
        pub fn new(value: String, range: Range<usize>, char_range: Range<usize>) -> Self {
            let normalized_value = normalize(&value);
            Token { value, range, char_range, normalized_value }
        }
        pub fn with_normalized_value(mut self, v: String) -> Self {
            self.normalized_value = v;
            self
        }
        pub fn normalized_value(&self) -> String {
            self.normalized_value.clone()
        }
    }
    fn is_word(c: char) -> bool {
        c.is_alphanumeric() || c == '_'
    }
    fn is_symbol(c: char) -> bool {
        "?!&%{}[]()*+=$£€#@<>|§°¿¡".contains(c)
    }
    pub fn tokenize(input: &str, language: Language) -> Vec<Token> {
        let mut out: Vec<Range<usize>> = vec![];
        let mut cur: Option<(usize, u8)> = None;
        for (i, c) in input.char_indices() {
            let k = if is_word(c) {
                1
            } else if is_symbol(c) {
                2
            } else {
                0
            };
            let split = match cur {
                Some((_, kk)) => kk != k || k == 2 || language.is_cjk(),
                None => true,
            };
            if split {
                if let Some((s, _)) = cur {
                    out.push(s..i);
                }
                cur = if k > 0 { Some((i, k)) } else { None };
            }
        }
        if let Some((s, _)) = cur {
            out.push(s..input.len());
        }
        out.into_iter()
            .map(|r| {
                let cr = convert_to_char_range(input, &r);
                Token::new(input[r.clone()].to_string(), r, cr)
            })
            .collect()
    }
    pub fn tokenize_light(input: &str, language: Language) -> Vec<String> {
        tokenize(input, language).into_iter().map(|t| t.value).collect()
    }
    pub fn compute_all_ngrams(tokens: &[&str], max_ngram_size: usize) -> Vec<(String, Vec<usize>)> {
        let mut out = vec![];
        for start in 0..tokens.len() {
            let mut s = String::new();
            let mut idx = vec![];
            for end in start..tokens.len().min(start + max_ngram_size) {
                if end > start {
                    s.push(' ');
                }
                s.push_str(tokens[end]);
                idx.push(end);
                out.push((s.clone(), idx.clone()));
            }
        }
        out
    }
}
