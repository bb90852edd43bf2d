//! Stand-in for snips-nlu-ontology-ffi-macros: each C object keeps the value it was made of.
use snips_nlu_ontology::{IntentClassifierResult, IntentParserResult, Slot};
macro_rules! obj {
    ($n:ident, $t:ty) => {
        #[derive(Debug)]
        pub struct $n(pub $t);
        impl From<$t> for $n { fn from(v: $t) -> Self { $n(v) } }
    };
}
obj!(CIntentParserResult, IntentParserResult);
obj!(CSlotList, Vec<Slot>);
obj!(CIntentClassifierResultArray, Vec<IntentClassifierResult>);
