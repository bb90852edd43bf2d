#raw
use std::marker::PhantomData;
// ---------------------------------------------------------------- C37: the C interface
type c_uint = u32;
type c_uchar = u8;
#[verifier::external_body]
struct c_char { x: u8 }
/// ffi_utils
struct CStringArray { data: *const *const c_char, size: i32 }
enum SNIPS_RESULT { SNIPS_RESULT_OK, SNIPS_RESULT_KO }
/// the text a C string pointer refers to: none for a null pointer or bytes that are not UTF-8
uninterp spec fn text_at(p: *const c_char) -> Option<Seq<char>>;
#[verifier::external_body]
fn vx_rust_string(p: *const c_char) -> (r: Result<String>) ensures match r { Ok(s) => text_at(p) == Some(s@), Err(_) => text_at(p) is None } { unimplemented!() }
#[verifier::external_body]
fn vx_wrap<T>(x: Result<T>) -> (r: SNIPS_RESULT) ensures r is SNIPS_RESULT_OK <==> x is Ok { unimplemented!() }
/// the array of strings behind a pointer, and the cells of an array
uninterp spec fn array_at(p: *const CStringArray) -> CStringArray;
uninterp spec fn cells<T>(p: *const T, n: usize) -> Seq<T>;
spec fn null<T>(p: *const T) -> bool { p@.addr == 0 }
trait VxPtr { spec fn nullp(&self) -> bool; fn vx_is_null(&self) -> (r: bool) ensures r == self.nullp(); }
impl<T> VxPtr for *const T { spec fn nullp(&self) -> bool { null(*self) } #[verifier::external_body] fn vx_is_null(&self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
fn vx_deref<'a>(p: *const CStringArray) -> (r: &'a CStringArray) requires !null(p) ensures *r == array_at(p) { unimplemented!() }
#[verifier::external_body]
fn from_raw_parts<'a, T>(p: *const T, n: usize) -> (r: &'a [T]) ensures r@ == cells(p, n), r@.len() == n { unimplemented!() }
#[verifier::external_body]
struct CStr { x: u8 }
#[verifier::external_body]
struct Utf8Error { x: u8 }
struct Error { x: u8 }
impl Error { #[verifier::external_body] fn from(e: Utf8Error) -> (r: VxError) { unimplemented!() } }
impl CStr {
  uninterp spec fn text(&self) -> Option<Seq<char>>;
  #[verifier::external_body] fn from_ptr<'a>(p: *const c_char) -> (r: &'a CStr) requires !null(p) ensures r.text() == text_at(p) { unimplemented!() }
  #[verifier::external_body] fn to_str(&self) -> (r: core::result::Result<&str, Utf8Error>) ensures match r { Ok(s) => self.text() == Some(s@), Err(_) => self.text() is None } { unimplemented!() }
}
spec fn str_cells(p: *const CStringArray) -> Seq<*const c_char> { cells(array_at(p).data, array_at(p).size as usize) }
/// what C callers promise about an array of strings
spec fn proper(p: *const CStringArray) -> bool { array_at(p).size >= 0 && str_cells(p).len() == array_at(p).size && forall|i: int| 0 <= i < str_cells(p).len() ==> !null(#[trigger] str_cells(p)[i]) }
spec fn all_text(c: Seq<*const c_char>) -> bool { forall|i: int| 0 <= i < c.len() ==> text_at(#[trigger] c[i]) is Some }
spec fn texts(c: Seq<*const c_char>) -> Seq<Seq<char>> { Seq::new(c.len(), |i: int| text_at(c[i])->Some_0) }
spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
spec fn ovs(v: Option<Vec<&str>>) -> Option<Seq<Seq<char>>> { match v { Some(x) => Some(views(x@)), None => None } }
/// a filter argument: a null pointer is no filter
spec fn filter_ok(p: *const CStringArray) -> bool { null(p) || all_text(str_cells(p)) }
spec fn filter_at(p: *const CStringArray) -> Option<Seq<Seq<char>>> { if null(p) { None } else { Some(texts(str_cells(p))) } }
// ---- the engine: its answers are C04 to C10
#[verifier::external_body]
struct SnipsNluEngine { x: u8 }
#[verifier::external_body]
struct IntentParserResult { x: u8 }
#[verifier::external_body]
struct Slot { x: u8 }
#[verifier::external_body]
struct IntentClassifierResult { x: u8 }
uninterp spec fn parses(e: SnipsNluEngine, input: Seq<char>, w: Option<Seq<Seq<char>>>, b: Option<Seq<Seq<char>>>, ia: usize, sa: usize, r: Option<IntentParserResult>) -> bool;
uninterp spec fn slots(e: SnipsNluEngine, input: Seq<char>, intent: Seq<char>, sa: usize, r: Option<Vec<Slot>>) -> bool;
uninterp spec fn intents(e: SnipsNluEngine, input: Seq<char>, r: Option<Vec<IntentClassifierResult>>) -> bool;
uninterp spec fn loaded(dir: Seq<char>, e: Option<SnipsNluEngine>) -> bool;
uninterp spec fn unzipped(bytes: Seq<u8>, e: Option<SnipsNluEngine>) -> bool;
spec fn got<T>(r: Result<T>) -> Option<T> { match r { Ok(a) => Some(a), Err(_) => None } }
trait VxSliceOwned<T> { spec fn so(&self) -> Seq<T>; fn vx_to_owned(&self) -> (r: Vec<T>) ensures r@ == self.so(); fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.so(); }
impl<T> VxSliceOwned<T> for [T] { spec fn so(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<T>) { unimplemented!() } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
#[verifier::external_body]
struct Cursor { x: u8 }
impl Cursor { uninterp spec fn bytes(&self) -> Seq<u8>; #[verifier::external_body] fn new(v: Vec<u8>) -> (r: Cursor) ensures r.bytes() == v@ { unimplemented!() } }
impl SnipsNluEngine {
  #[verifier::external_body] fn from_path(p: String) -> (r: Result<SnipsNluEngine>) ensures loaded(p@, got(r)) { unimplemented!() }
  #[verifier::external_body] fn from_zip(c: Cursor) -> (r: Result<SnipsNluEngine>) ensures unzipped(c.bytes(), got(r)) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Mutex<T> { x: PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct MutexGuard<T> { x: PhantomData<T> }
impl<T> Mutex<T> {
  uninterp spec fn view(&self) -> T;
  #[verifier::external_body] fn vx_new(v: T, i: Ghost<bool>) -> (r: Self) ensures r@ == v { unimplemented!() }
  #[verifier::external_body] fn vx_lock_res(&self) -> (r: Result<MutexGuard<T>>) ensures match r { Ok(g) => g@ == self@, Err(_) => poisoned(*self) } { unimplemented!() }
}
uninterp spec fn poisoned<T>(m: Mutex<T>) -> bool;
impl<T> MutexGuard<T> { uninterp spec fn view(&self) -> T; }
impl MutexGuard<SnipsNluEngine> {
  #[verifier::external_body] fn parse_with_alternatives(&self, input: &str, w: Option<Vec<&str>>, b: Option<Vec<&str>>, ia: usize, sa: usize) -> (r: Result<IntentParserResult>) ensures parses(self@, input@, ovs(w), ovs(b), ia, sa, got(r)) { unimplemented!() }
  #[verifier::external_body] fn parse(&self, input: &str, w: Option<Vec<&str>>, b: Option<Vec<&str>>) -> (r: Result<IntentParserResult>) ensures parses(self@, input@, ovs(w), ovs(b), 0, 0, got(r)) { unimplemented!() }
  #[verifier::external_body] fn get_slots_with_alternatives(&self, input: &str, intent: &str, sa: usize) -> (r: Result<Vec<Slot>>) ensures slots(self@, input@, intent@, sa, got(r)) { unimplemented!() }
  #[verifier::external_body] fn get_slots(&self, input: &str, intent: &str) -> (r: Result<Vec<Slot>>) ensures slots(self@, input@, intent@, 0, got(r)) { unimplemented!() }
  #[verifier::external_body] fn get_intents(&self, input: &str) -> (r: Result<Vec<IntentClassifierResult>>) ensures intents(self@, input@, got(r)) { unimplemented!() }
}
#item ../ffi/src/lib.rs struct CSnipsNluEngine
#raw
/// the client behind a pointer; a pointer that is refused
uninterp spec fn client_at(p: *const CSnipsNluEngine, c: CSnipsNluEngine) -> bool;
uninterp spec fn refused(p: *const CSnipsNluEngine) -> bool;
#[verifier::external_body]
fn vx_raw_borrow<'a>(p: *const CSnipsNluEngine) -> (r: Result<&'a CSnipsNluEngine>) ensures match r { Ok(c) => client_at(p, *c), Err(_) => refused(p) } { unimplemented!() }
spec fn unusable(p: *const CSnipsNluEngine) -> bool { refused(p) || exists|c: CSnipsNluEngine| #[trigger] client_at(p, c) && poisoned(c.0) }
/// a C object was made of a value and handed out as a pointer
uninterp spec fn points_to<T>(p: *const T, v: T) -> bool;
/// a pointer may be, and was, stored in an output argument
uninterp spec fn may_write<T>(out: *mut T, v: T) -> bool;
uninterp spec fn written<T>(out: *mut T, v: T) -> bool;
#[verifier::external_body]
fn vx_write<T>(out: *mut T, v: T) requires may_write(out, v) ensures written(out, v) { unimplemented!() }
uninterp spec fn may_text(out: *mut *const c_char, s: Seq<char>) -> bool;
uninterp spec fn wrote_text(out: *mut *const c_char, s: Seq<char>) -> bool;
/// ffi_utils::point_to_string; it refuses texts with a zero byte
uninterp spec fn has_zero(s: Seq<char>) -> bool;
#[verifier::external_body]
fn point_to_string(out: *mut *const c_char, s: String) -> (r: Result<()>) requires may_text(out, s@) ensures match r { Ok(_) => wrote_text(out, s@), Err(_) => has_zero(s@) } { unimplemented!() }
impl CSnipsNluEngine {
  #[verifier::external_body] fn into_raw_pointer(self) -> (r: *const CSnipsNluEngine) ensures points_to(r, self) { unimplemented!() }
  #[verifier::external_body] fn from_raw_pointer(p: *mut CSnipsNluEngine) -> (r: Result<CSnipsNluEngine>) ensures r is Ok <==> released(p) { unimplemented!() }
}
/// the object behind a pointer was released as a T; only valid pointers are accepted
uninterp spec fn released<T>(p: *mut T) -> bool;
uninterp spec fn released_text(p: *mut c_char) -> bool;
#[verifier::external_body]
struct CString { x: u8 }
impl CString { #[verifier::external_body] fn from_raw_pointer(p: *mut c_char) -> (r: Result<CString>) ensures r is Ok <==> released_text(p) { unimplemented!() } }
#[verifier::external_body]
struct CIntentParserResult { x: u8 }
impl CIntentParserResult {
  uninterp spec fn view(&self) -> IntentParserResult;
  #[verifier::external_body] fn from(v: IntentParserResult) -> (r: Self) ensures r@ == v { unimplemented!() }
  #[verifier::external_body] fn into_raw_pointer(self) -> (r: *const Self) ensures points_to(r, self) { unimplemented!() }
  #[verifier::external_body] fn from_raw_pointer(p: *mut Self) -> (r: Result<Self>) ensures r is Ok <==> released(p) { unimplemented!() }
}
#[verifier::external_body]
struct CSlotList { x: u8 }
impl CSlotList {
  uninterp spec fn view(&self) -> Vec<Slot>;
  #[verifier::external_body] fn from(v: Vec<Slot>) -> (r: Self) ensures r@ == v { unimplemented!() }
  #[verifier::external_body] fn into_raw_pointer(self) -> (r: *const Self) ensures points_to(r, self) { unimplemented!() }
  #[verifier::external_body] fn from_raw_pointer(p: *mut Self) -> (r: Result<Self>) ensures r is Ok <==> released(p) { unimplemented!() }
}
#[verifier::external_body]
struct CIntentClassifierResultArray { x: u8 }
impl CIntentClassifierResultArray {
  uninterp spec fn view(&self) -> Vec<IntentClassifierResult>;
  #[verifier::external_body] fn from(v: Vec<IntentClassifierResult>) -> (r: Self) ensures r@ == v { unimplemented!() }
  #[verifier::external_body] fn into_raw_pointer(self) -> (r: *const Self) ensures points_to(r, self) { unimplemented!() }
  #[verifier::external_body] fn from_raw_pointer(p: *mut Self) -> (r: Result<Self>) ensures r is Ok <==> released(p) { unimplemented!() }
}
/// serde_json::to_string
uninterp spec fn json_out<T>(v: T, s: Seq<char>) -> bool;
uninterp spec fn json_fails<T>(v: T) -> bool;
#[verifier::external_body]
fn to_string<T>(v: &T) -> (r: Result<String>) ensures match r { Ok(s) => json_out(*v, s@) && (has_zero(s@) ==> json_bad(*v)), Err(_) => json_bad(*v) } { unimplemented!() }

// ---- what the entry points answer
spec fn parse_out(c: *const CSnipsNluEngine, input: *const c_char, w: *const CStringArray, b: *const CStringArray, ia: c_uint, sa: c_uint, a: Option<IntentParserResult>) -> bool {
  text_at(input) is Some && filter_ok(w) && filter_ok(b) && exists|x: CSnipsNluEngine| #[trigger] client_at(c, x) && parses(x.0@, text_at(input)->Some_0, filter_at(w), filter_at(b), ia as usize, sa as usize, a)
}
spec fn slots_out(c: *const CSnipsNluEngine, input: *const c_char, intent: *const c_char, sa: c_uint, a: Option<Vec<Slot>>) -> bool {
  text_at(input) is Some && text_at(intent) is Some && exists|x: CSnipsNluEngine| #[trigger] client_at(c, x) && slots(x.0@, text_at(input)->Some_0, text_at(intent)->Some_0, sa as usize, a)
}
spec fn intents_out(c: *const CSnipsNluEngine, input: *const c_char, a: Option<Vec<IntentClassifierResult>>) -> bool {
  text_at(input) is Some && exists|x: CSnipsNluEngine| #[trigger] client_at(c, x) && intents(x.0@, text_at(input)->Some_0, a)
}
/// turning an answer into JSON failed
spec fn json_bad<T>(a: T) -> bool { json_fails(a) || exists|s: Seq<char>| #[trigger] json_out(a, s) && has_zero(s) }
spec fn parse_bad(c: *const CSnipsNluEngine, input: *const c_char, w: *const CStringArray, b: *const CStringArray, ia: c_uint, sa: c_uint) -> bool {
  text_at(input) is None || unusable(c) || !filter_ok(w) || !filter_ok(b) || parse_out(c, input, w, b, ia, sa, None)
}
spec fn slots_bad(c: *const CSnipsNluEngine, input: *const c_char, intent: *const c_char, sa: c_uint) -> bool {
  text_at(input) is None || text_at(intent) is None || unusable(c) || slots_out(c, input, intent, sa, None)
}
spec fn intents_bad(c: *const CSnipsNluEngine, input: *const c_char) -> bool {
  text_at(input) is None || unusable(c) || intents_out(c, input, None)
}
/// only answers may be stored
spec fn parse_may(c: *const CSnipsNluEngine, input: *const c_char, w: *const CStringArray, b: *const CStringArray, ia: c_uint, sa: c_uint, out: *mut *const CIntentParserResult) -> bool {
  forall|p: *const CIntentParserResult, o: CIntentParserResult| #[trigger] points_to(p, o) && parse_out(c, input, w, b, ia, sa, Some(o@)) ==> may_write(out, p)
}
spec fn parse_done(c: *const CSnipsNluEngine, input: *const c_char, w: *const CStringArray, b: *const CStringArray, ia: c_uint, sa: c_uint, out: *mut *const CIntentParserResult) -> bool {
  exists|p: *const CIntentParserResult, o: CIntentParserResult| #[trigger] points_to(p, o) && parse_out(c, input, w, b, ia, sa, Some(o@)) && written(out, p)
}
spec fn slots_may(c: *const CSnipsNluEngine, input: *const c_char, intent: *const c_char, sa: c_uint, out: *mut *const CSlotList) -> bool {
  forall|p: *const CSlotList, o: CSlotList| #[trigger] points_to(p, o) && slots_out(c, input, intent, sa, Some(o@)) ==> may_write(out, p)
}
spec fn slots_done(c: *const CSnipsNluEngine, input: *const c_char, intent: *const c_char, sa: c_uint, out: *mut *const CSlotList) -> bool {
  exists|p: *const CSlotList, o: CSlotList| #[trigger] points_to(p, o) && slots_out(c, input, intent, sa, Some(o@)) && written(out, p)
}
spec fn intents_may(c: *const CSnipsNluEngine, input: *const c_char, out: *mut *const CIntentClassifierResultArray) -> bool {
  forall|p: *const CIntentClassifierResultArray, o: CIntentClassifierResultArray| #[trigger] points_to(p, o) && intents_out(c, input, Some(o@)) ==> may_write(out, p)
}
spec fn intents_done(c: *const CSnipsNluEngine, input: *const c_char, out: *mut *const CIntentClassifierResultArray) -> bool {
  exists|p: *const CIntentClassifierResultArray, o: CIntentClassifierResultArray| #[trigger] points_to(p, o) && intents_out(c, input, Some(o@)) && written(out, p)
}
spec fn parse_jmay(c: *const CSnipsNluEngine, input: *const c_char, w: *const CStringArray, b: *const CStringArray, ia: c_uint, sa: c_uint, out: *mut *const c_char) -> bool {
  forall|a: IntentParserResult, s: Seq<char>| #[trigger] json_out(a, s) && parse_out(c, input, w, b, ia, sa, Some(a)) ==> may_text(out, s)
}
spec fn parse_jdone(c: *const CSnipsNluEngine, input: *const c_char, w: *const CStringArray, b: *const CStringArray, ia: c_uint, sa: c_uint, out: *mut *const c_char) -> bool {
  exists|a: IntentParserResult, s: Seq<char>| #[trigger] json_out(a, s) && parse_out(c, input, w, b, ia, sa, Some(a)) && wrote_text(out, s)
}
spec fn parse_jbad(c: *const CSnipsNluEngine, input: *const c_char, w: *const CStringArray, b: *const CStringArray, ia: c_uint, sa: c_uint) -> bool {
  parse_bad(c, input, w, b, ia, sa) || exists|a: IntentParserResult| parse_out(c, input, w, b, ia, sa, Some(a)) && #[trigger] json_bad(a)
}
spec fn slots_jmay(c: *const CSnipsNluEngine, input: *const c_char, intent: *const c_char, sa: c_uint, out: *mut *const c_char) -> bool {
  forall|a: Vec<Slot>, s: Seq<char>| #[trigger] json_out(a, s) && slots_out(c, input, intent, sa, Some(a)) ==> may_text(out, s)
}
spec fn slots_jdone(c: *const CSnipsNluEngine, input: *const c_char, intent: *const c_char, sa: c_uint, out: *mut *const c_char) -> bool {
  exists|a: Vec<Slot>, s: Seq<char>| #[trigger] json_out(a, s) && slots_out(c, input, intent, sa, Some(a)) && wrote_text(out, s)
}
spec fn slots_jbad(c: *const CSnipsNluEngine, input: *const c_char, intent: *const c_char, sa: c_uint) -> bool {
  slots_bad(c, input, intent, sa) || exists|a: Vec<Slot>| slots_out(c, input, intent, sa, Some(a)) && #[trigger] json_bad(a)
}
spec fn intents_jmay(c: *const CSnipsNluEngine, input: *const c_char, out: *mut *const c_char) -> bool {
  forall|a: Vec<IntentClassifierResult>, s: Seq<char>| #[trigger] json_out(a, s) && intents_out(c, input, Some(a)) ==> may_text(out, s)
}
spec fn intents_jdone(c: *const CSnipsNluEngine, input: *const c_char, out: *mut *const c_char) -> bool {
  exists|a: Vec<IntentClassifierResult>, s: Seq<char>| #[trigger] json_out(a, s) && intents_out(c, input, Some(a)) && wrote_text(out, s)
}
spec fn intents_jbad(c: *const CSnipsNluEngine, input: *const c_char) -> bool {
  intents_bad(c, input) || exists|a: Vec<IntentClassifierResult>| intents_out(c, input, Some(a)) && #[trigger] json_bad(a)
}
spec fn dir_may(dir: *const c_char, out: *mut *const CSnipsNluEngine) -> bool {
  forall|p: *const CSnipsNluEngine, o: CSnipsNluEngine| #[trigger] points_to(p, o) && text_at(dir) is Some && loaded(text_at(dir)->Some_0, Some(o.0@)) ==> may_write(out, p)
}
spec fn dir_done(dir: *const c_char, out: *mut *const CSnipsNluEngine) -> bool {
  exists|p: *const CSnipsNluEngine, o: CSnipsNluEngine| #[trigger] points_to(p, o) && text_at(dir) is Some && loaded(text_at(dir)->Some_0, Some(o.0@)) && written(out, p)
}
spec fn dir_bad(dir: *const c_char) -> bool { text_at(dir) is None || loaded(text_at(dir)->Some_0, None) }
spec fn zip_may(zip: *const c_uchar, n: c_uint, out: *mut *const CSnipsNluEngine) -> bool {
  forall|p: *const CSnipsNluEngine, o: CSnipsNluEngine| #[trigger] points_to(p, o) && unzipped(cells(zip, n as usize), Some(o.0@)) ==> may_write(out, p)
}
spec fn zip_done(zip: *const c_uchar, n: c_uint, out: *mut *const CSnipsNluEngine) -> bool {
  exists|p: *const CSnipsNluEngine, o: CSnipsNluEngine| #[trigger] points_to(p, o) && unzipped(cells(zip, n as usize), Some(o.0@)) && written(out, p)
}
spec fn zip_bad(zip: *const c_uchar, n: c_uint) -> bool { unzipped(cells(zip, n as usize), None) }
#item lib.rs const MODEL_VERSION
#fn ../ffi/src/lib.rs convert_to_rust_vec ffi
#ret r
#spec
requires !null(c_array), proper(c_array)
ensures match r { Ok(v) => all_text(str_cells(c_array)) && views(v@) == texts(str_cells(c_array)), Err(_) => !all_text(str_cells(c_array)) }
#closure 0 |ptr: &*const c_char| -> (x: Result<&'a str>)
requires !null(*ptr)
ensures match x { Ok(s) => text_at(*ptr) == Some(s@), Err(_) => text_at(*ptr) is None }
#fn ../ffi/src/lib.rs create_from_dir ffi
#ret r
#spec
requires dir_may(root_dir, client)
ensures match r { Ok(_) => dir_done(root_dir, client), Err(_) => dir_bad(root_dir) }
#at entry
let ghost vx_inv = true;
#fn ../ffi/src/lib.rs create_from_zip ffi
#ret r
#spec
requires zip_may(zip, zip_size, client)
ensures match r { Ok(_) => zip_done(zip, zip_size, client), Err(_) => zip_bad(zip, zip_size) }
#at entry
let ghost vx_inv = true;
#fn ../ffi/src/lib.rs run_parse_with_alternatives ffi
#ret r
#spec
requires null(intents_whitelist) || proper(intents_whitelist), null(intents_blacklist) || proper(intents_blacklist), parse_may(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives, result)
ensures match r { Ok(_) => parse_done(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives, result), Err(_) => parse_bad(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives) }
#fn ../ffi/src/lib.rs run_get_slots ffi
#ret r
#spec
requires slots_may(client, input, intent, slots_alternatives, result)
ensures match r { Ok(_) => slots_done(client, input, intent, slots_alternatives, result), Err(_) => slots_bad(client, input, intent, slots_alternatives) }
#fn ../ffi/src/lib.rs run_get_intents ffi
#ret r
#spec
requires intents_may(client, input, result)
ensures match r { Ok(_) => intents_done(client, input, result), Err(_) => intents_bad(client, input) }
#fn ../ffi/src/lib.rs run_parse_with_alternatives_into_json ffi
#ret r
#spec
requires null(intents_whitelist) || proper(intents_whitelist), null(intents_blacklist) || proper(intents_blacklist), parse_jmay(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives, result_json)
ensures match r { Ok(_) => parse_jdone(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives, result_json), Err(_) => parse_jbad(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives) }
#fn ../ffi/src/lib.rs run_get_slots_into_json ffi
#ret r
#spec
requires slots_jmay(client, input, intent, slots_alternatives, result_json)
ensures match r { Ok(_) => slots_jdone(client, input, intent, slots_alternatives, result_json), Err(_) => slots_jbad(client, input, intent, slots_alternatives) }
#fn ../ffi/src/lib.rs run_get_intents_into_json ffi
#ret r
#spec
requires intents_jmay(client, input, result_json)
ensures match r { Ok(_) => intents_jdone(client, input, result_json), Err(_) => intents_jbad(client, input) }
#fn ../ffi/src/lib.rs get_model_version ffi
#ret r
#spec
requires may_text(version, MODEL_VERSION@)
ensures match r { Ok(_) => wrote_text(version, MODEL_VERSION@), Err(_) => has_zero(MODEL_VERSION@) }
#fn ../ffi/src/lib.rs snips_nlu_engine_create_from_dir ffi
#ret r
#spec
requires dir_may(root_dir, client)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => dir_done(root_dir, client), SNIPS_RESULT::SNIPS_RESULT_KO => dir_bad(root_dir) }
#fn ../ffi/src/lib.rs snips_nlu_engine_create_from_zip ffi
#ret r
#spec
requires zip_may(zip, zip_size, client)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => zip_done(zip, zip_size, client), SNIPS_RESULT::SNIPS_RESULT_KO => zip_bad(zip, zip_size) }
#fn ../ffi/src/lib.rs snips_nlu_engine_run_parse ffi
#ret r
#spec
requires null(intents_whitelist) || proper(intents_whitelist), null(intents_blacklist) || proper(intents_blacklist), parse_may(client, input, intents_whitelist, intents_blacklist, 0, 0, result)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => parse_done(client, input, intents_whitelist, intents_blacklist, 0, 0, result), SNIPS_RESULT::SNIPS_RESULT_KO => parse_bad(client, input, intents_whitelist, intents_blacklist, 0, 0) }
#fn ../ffi/src/lib.rs snips_nlu_engine_run_parse_with_alternatives ffi
#ret r
#spec
requires null(intents_whitelist) || proper(intents_whitelist), null(intents_blacklist) || proper(intents_blacklist), parse_may(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives, result)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => parse_done(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives, result), SNIPS_RESULT::SNIPS_RESULT_KO => parse_bad(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives) }
#fn ../ffi/src/lib.rs snips_nlu_engine_run_get_slots ffi
#ret r
#spec
requires slots_may(client, input, intent, 0, result)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => slots_done(client, input, intent, 0, result), SNIPS_RESULT::SNIPS_RESULT_KO => slots_bad(client, input, intent, 0) }
#fn ../ffi/src/lib.rs snips_nlu_engine_run_get_slots_with_alternatives ffi
#ret r
#spec
requires slots_may(client, input, intent, slots_alternatives, result)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => slots_done(client, input, intent, slots_alternatives, result), SNIPS_RESULT::SNIPS_RESULT_KO => slots_bad(client, input, intent, slots_alternatives) }
#fn ../ffi/src/lib.rs snips_nlu_engine_run_get_intents ffi
#ret r
#spec
requires intents_may(client, input, result)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => intents_done(client, input, result), SNIPS_RESULT::SNIPS_RESULT_KO => intents_bad(client, input) }
#fn ../ffi/src/lib.rs snips_nlu_engine_run_parse_into_json ffi
#ret r
#spec
requires null(intents_whitelist) || proper(intents_whitelist), null(intents_blacklist) || proper(intents_blacklist), parse_jmay(client, input, intents_whitelist, intents_blacklist, 0, 0, result_json)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => parse_jdone(client, input, intents_whitelist, intents_blacklist, 0, 0, result_json), SNIPS_RESULT::SNIPS_RESULT_KO => parse_jbad(client, input, intents_whitelist, intents_blacklist, 0, 0) }
#fn ../ffi/src/lib.rs snips_nlu_engine_run_parse_with_alternatives_into_json ffi
#ret r
#spec
requires null(intents_whitelist) || proper(intents_whitelist), null(intents_blacklist) || proper(intents_blacklist), parse_jmay(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives, result_json)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => parse_jdone(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives, result_json), SNIPS_RESULT::SNIPS_RESULT_KO => parse_jbad(client, input, intents_whitelist, intents_blacklist, intents_alternatives, slots_alternatives) }
#fn ../ffi/src/lib.rs snips_nlu_engine_run_get_slots_into_json ffi
#ret r
#spec
requires slots_jmay(client, input, intent, 0, result_json)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => slots_jdone(client, input, intent, 0, result_json), SNIPS_RESULT::SNIPS_RESULT_KO => slots_jbad(client, input, intent, 0) }
#fn ../ffi/src/lib.rs snips_nlu_engine_run_get_slots_with_alternatives_into_json ffi
#ret r
#spec
requires slots_jmay(client, input, intent, slots_alternatives, result_json)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => slots_jdone(client, input, intent, slots_alternatives, result_json), SNIPS_RESULT::SNIPS_RESULT_KO => slots_jbad(client, input, intent, slots_alternatives) }
#fn ../ffi/src/lib.rs snips_nlu_engine_run_get_intents_into_json ffi
#ret r
#spec
requires intents_jmay(client, input, result_json)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => intents_jdone(client, input, result_json), SNIPS_RESULT::SNIPS_RESULT_KO => intents_jbad(client, input) }
#fn ../ffi/src/lib.rs snips_nlu_engine_get_model_version ffi
#ret r
#spec
requires may_text(version, MODEL_VERSION@)
ensures match r { SNIPS_RESULT::SNIPS_RESULT_OK => wrote_text(version, MODEL_VERSION@), SNIPS_RESULT::SNIPS_RESULT_KO => has_zero(MODEL_VERSION@) }
#fn ../ffi/src/lib.rs snips_nlu_engine_destroy_string ffi
#ret r
#spec
ensures r is SNIPS_RESULT_OK <==> released_text(string)
#fn ../ffi/src/lib.rs snips_nlu_engine_destroy_client ffi
#ret r
#spec
ensures r is SNIPS_RESULT_OK <==> released(client)
#fn ../ffi/src/lib.rs snips_nlu_engine_destroy_result ffi
#ret r
#spec
ensures r is SNIPS_RESULT_OK <==> released(result)
#fn ../ffi/src/lib.rs snips_nlu_engine_destroy_slots ffi
#ret r
#spec
ensures r is SNIPS_RESULT_OK <==> released(result)
#fn ../ffi/src/lib.rs snips_nlu_engine_destroy_intent_classifier_results ffi
#ret r
#spec
ensures r is SNIPS_RESULT_OK <==> released(result)
