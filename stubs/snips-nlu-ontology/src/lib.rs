//! Stand-in for snips-nlu-ontology 0.67.1.
use failure::{format_err, Error};
use serde::{Deserialize, Serialize};
use std::fmt;
use std::ops::Range;
use std::str::FromStr;

#[allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Language {
    DE,
    EN,
    ES,
    FR,
    IT,
    JA,
    KO,
    PT_PT,
    PT_BR,
}
impl Language {
    pub fn all() -> &'static [Language] {
        &[
            Language::DE,
            Language::EN,
            Language::ES,
            Language::FR,
            Language::IT,
            Language::JA,
            Language::KO,
            Language::PT_PT,
            Language::PT_BR,
        ]
    }
}
impl fmt::Display for Language {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", format!("{:?}", self).to_lowercase())
    }
}
impl FromStr for Language {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        Language::all()
            .iter()
            .find(|l| l.to_string() == s.to_lowercase())
            .cloned()
            .ok_or_else(|| format_err!("Unknown language {}", s))
    }
}

macro_rules! kinds {
    ($name:ident: $( $v:ident => $id:expr ),* $(,)?) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum $name { $( $v ),* }
        impl $name {
            pub fn all() -> &'static [$name] { &[ $( $name::$v ),* ] }
            pub fn identifier(&self) -> &'static str { match self { $( $name::$v => $id ),* } }
            pub fn from_identifier(id: &str) -> Result<Self, Error> {
                match id { $( $id => Ok($name::$v), )* _ => Err(format_err!("Unknown {} identifier: {}", stringify!($name), id)) }
            }
        }
        impl FromStr for $name {
            type Err = Error;
            fn from_str(id: &str) -> Result<Self, Error> { Self::from_identifier(id) }
        }
    }
}
kinds!(BuiltinEntityKind:
    AmountOfMoney => "snips/amountOfMoney",
    Duration => "snips/duration",
    Number => "snips/number",
    Ordinal => "snips/ordinal",
    Temperature => "snips/temperature",
    Datetime => "snips/datetime",
    Date => "snips/date",
    Time => "snips/time",
    DatePeriod => "snips/datePeriod",
    TimePeriod => "snips/timePeriod",
    Percentage => "snips/percentage",
    MusicAlbum => "snips/musicAlbum",
    MusicArtist => "snips/musicArtist",
    MusicTrack => "snips/musicTrack",
    City => "snips/city",
    Country => "snips/country",
    Region => "snips/region",
);
kinds!(GrammarEntityKind:
    AmountOfMoney => "snips/amountOfMoney",
    Duration => "snips/duration",
    Number => "snips/number",
    Ordinal => "snips/ordinal",
    Temperature => "snips/temperature",
    Datetime => "snips/datetime",
    Date => "snips/date",
    Time => "snips/time",
    DatePeriod => "snips/datePeriod",
    TimePeriod => "snips/timePeriod",
    Percentage => "snips/percentage",
);
kinds!(BuiltinGazetteerEntityKind:
    MusicAlbum => "snips/musicAlbum",
    MusicArtist => "snips/musicArtist",
    MusicTrack => "snips/musicTrack",
    City => "snips/city",
    Country => "snips/country",
    Region => "snips/region",
);

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct IntentClassifierResult {
    pub intent_name: Option<String>,
    pub confidence_score: f32,
}

#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct IntentParserResult {
    pub input: String,
    pub intent: IntentClassifierResult,
    pub slots: Vec<Slot>,
    pub alternatives: Vec<IntentParserAlternative>,
}

#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct IntentParserAlternative {
    pub intent: IntentClassifierResult,
    pub slots: Vec<Slot>,
}

#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct Slot {
    pub raw_value: String,
    pub value: SlotValue,
    pub alternatives: Vec<SlotValue>,
    pub range: Range<usize>,
    pub entity: String,
    pub slot_name: String,
    pub confidence_score: Option<f32>,
}

#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct BuiltinEntity {
    pub value: String,
    pub range: Range<usize>,
    pub entity: SlotValue,
    pub alternatives: Vec<SlotValue>,
    #[serde(skip)]
    pub entity_kind: BuiltinEntityKind,
}

#[derive(Debug, Clone, PartialEq, Serialize)]
pub enum SlotValue {
    Custom(StringValue),
    Number(NumberValue),
    Ordinal(OrdinalValue),
    Percentage(PercentageValue),
    InstantTime(InstantTimeValue),
    TimeInterval(TimeIntervalValue),
    AmountOfMoney(AmountOfMoneyValue),
    Temperature(TemperatureValue),
    Duration(DurationValue),
    MusicAlbum(StringValue),
    MusicArtist(StringValue),
    MusicTrack(StringValue),
    City(StringValue),
    Country(StringValue),
    Region(StringValue),
}

#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct StringValue {
    pub value: String,
}
impl From<String> for StringValue {
    fn from(value: String) -> Self {
        StringValue { value }
    }
}
impl<'a> From<&'a str> for StringValue {
    fn from(value: &str) -> Self {
        StringValue { value: value.to_string() }
    }
}
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct NumberValue {
    pub value: f64,
}
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct OrdinalValue {
    pub value: i64,
}
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct PercentageValue {
    pub value: f64,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize)]
pub enum Grain {
    Year,
    Quarter,
    Month,
    Week,
    Day,
    Hour,
    Minute,
    Second,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize)]
pub enum Precision {
    Approximate,
    Exact,
}
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct InstantTimeValue {
    pub value: String,
    pub grain: Grain,
    pub precision: Precision,
}
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct TimeIntervalValue {
    pub from: Option<String>,
    pub to: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct AmountOfMoneyValue {
    pub value: f32,
    pub precision: Precision,
    pub unit: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct TemperatureValue {
    pub value: f32,
    pub unit: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct DurationValue {
    pub years: i64,
    pub quarters: i64,
    pub months: i64,
    pub weeks: i64,
    pub days: i64,
    pub hours: i64,
    pub minutes: i64,
    pub seconds: i64,
    pub precision: Precision,
}
