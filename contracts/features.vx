#include onto
#include token
#item slot_filler/crf_utils.rs const BEGINNING_PREFIX
#item slot_filler/crf_utils.rs const INSIDE_PREFIX
#item slot_filler/crf_utils.rs const LAST_PREFIX
#item slot_filler/crf_utils.rs const UNIT_PREFIX
#item slot_filler/crf_utils.rs enum TaggingScheme clone copy
#raw
use std::sync::Arc;
/// snips_nlu_utils::string
uninterp spec fn shape(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn get_shape(s: &str) -> (r: String) ensures r@ == shape(s@) { unimplemented!() }
uninterp spec fn digit(c: char, radix: u32) -> bool;
trait VxChar { fn vx_is_digit(self, radix: u32) -> (r: bool); }
impl VxChar for char { #[verifier::external_body] fn vx_is_digit(self, radix: u32) -> (r: bool) ensures r == digit(self, radix) { unimplemented!() } }
trait Stemmer: Send + Sync { spec fn stemmed(&self, v: Seq<char>) -> Seq<char>; fn stem(&self, value: &str) -> (r: String) ensures r@ == self.stemmed(value@); }
trait Gazetteer: Send + Sync { spec fn lists(&self, v: Seq<char>) -> bool; fn contains(&self, value: &str) -> (r: bool) ensures r == self.lists(value@); }
trait WordClusterer: Send + Sync { spec fn cluster(&self, w: Seq<char>, r: Option<String>) -> bool; fn get_cluster(&self, word: &str) -> (r: Option<String>) ensures self.cluster(word@, r); }
spec fn ov(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
// ---------------------------------------------------------------- C24
spec fn chunk(w: Seq<char>, from: int, n: int) -> Option<Seq<char>> { if 0 <= from && from + n <= w.len() { Some(w.subrange(from, from + n)) } else { None } }
#fn slot_filler/features_utils.rs get_word_chunk
#ret r
#spec
requires !reverse ==> chunk_start + chunk_size <= usize::MAX
ensures ov(r) == (if reverse { if chunk_start <= word@.len() || chunk_size > chunk_start { chunk(word@, chunk_start - chunk_size, chunk_size as int) } else { None } } else { chunk(word@, chunk_start as int, chunk_size as int) })
#item slot_filler/features.rs struct IsDigitFeature
#item slot_filler/features.rs struct LengthFeature
#item slot_filler/features.rs struct IsFirstFeature
#item slot_filler/features.rs struct IsLastFeature
#item slot_filler/features.rs struct NgramFeature
#item slot_filler/features.rs struct ShapeNgramFeature
#item slot_filler/features.rs struct PrefixFeature
#item slot_filler/features.rs struct SuffixFeature
#fn slot_filler/features.rs IsDigitFeature/Feature::compute rename=is_digit
#ret r
#spec
requires token_index < tokens@.len()
ensures r is Ok && ov(r->Ok_0) == (if forall|i: int| 0 <= i < tokens@[token_index as int].value@.len() ==> #[trigger] digit(tokens@[token_index as int].value@[i], 10) { Some("1"@) } else { None })
#closure 0 |c: char| -> (b: bool)
ensures b == digit(c, 10)
#fn slot_filler/features.rs LengthFeature/Feature::compute
#ret r
#spec
requires token_index < tokens@.len()
ensures r is Ok && ov(r->Ok_0) == Some(dec(tokens@[token_index as int].value@.len() as int))
#fn slot_filler/features.rs IsFirstFeature/Feature::compute
#ret r
#spec
ensures r is Ok && ov(r->Ok_0) == (if token_index == 0 { Some("1"@) } else { None })
#fn slot_filler/features.rs IsLastFeature/Feature::compute
#ret r
#spec
requires token_index < tokens@.len()
ensures r is Ok && ov(r->Ok_0) == (if token_index == tokens@.len() - 1 { Some("1"@) } else { None })
#fn slot_filler/features.rs PrefixFeature/Feature::compute
#ret r
#spec
requires token_index < tokens@.len()
ensures r is Ok && ov(r->Ok_0) == chunk(normal(tokens@[token_index as int].value@), 0, self.prefix_size as int)
#fn slot_filler/features.rs SuffixFeature/Feature::compute
#ret r
#spec
requires token_index < tokens@.len()
ensures r is Ok && ov(r->Ok_0) == chunk(normal(tokens@[token_index as int].value@), normal(tokens@[token_index as int].value@).len() - self.suffix_size, self.suffix_size as int)
#raw
/// the word an n-gram feature uses for a token
spec fn gram(s: NgramFeature, v: Seq<char>) -> Seq<char> {
    let w = match s.opt_stemmer { Some(st) => st.stemmed(normal(v)), None => normal(v) };
    match s.opt_common_words_gazetteer { Some(g) => if g.lists(w) { w } else { "rare_word"@ }, None => w }
}
spec fn grams(s: NgramFeature, toks: Seq<Token>) -> Seq<Seq<char>> { Seq::new(toks.len(), |i: int| gram(s, toks[i].value@)) }
spec fn shapes(toks: Seq<Token>) -> Seq<Seq<char>> { Seq::new(toks.len(), |i: int| shape(toks[i].value@)) }
#fn slot_filler/features.rs NgramFeature/Feature::compute keep=contains
#ret r
#spec
requires token_index < tokens@.len(), tokens@.len() < usize::MAX
ensures r is Ok && ov(r->Ok_0) == (if token_index + self.ngram_size <= tokens@.len() { Some(join_seq(grams(*self, tokens@.subrange(token_index as int, token_index + self.ngram_size)), " "@)) } else { None })
#closure 0 |token: &Token| -> (x: String)
ensures x@ == gram(*self, token.value@)
#closure 1 |stemmer: &Arc<dyn Stemmer>| -> (x: String)
ensures x@ == stemmer.stemmed(normal(token.value@))
#closure 2 || -> (x: String)
ensures x@ == normal(token.value@)
#at entry
proof { if token_index + self.ngram_size <= tokens@.len() { lemma_views_are(grams(*self, tokens@.subrange(token_index as int, token_index + self.ngram_size))); } }
#fn slot_filler/features.rs ShapeNgramFeature/Feature::compute
#ret r
#spec
requires token_index < tokens@.len(), tokens@.len() < usize::MAX
ensures r is Ok && ov(r->Ok_0) == (if self.ngram_size > 0 && token_index + self.ngram_size <= tokens@.len() { Some(join_seq(shapes(tokens@.subrange(token_index as int, token_index + self.ngram_size)), " "@)) } else { None })
#closure 0 |token: &Token| -> (x: String)
ensures x@ == shape(token.value@)
#at entry
proof { if token_index + self.ngram_size <= tokens@.len() { lemma_views_are(shapes(tokens@.subrange(token_index as int, token_index + self.ngram_size))); } }
#raw
// ---------------------------------------------------------------- C25
spec fn spaces(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| ' ') }
spec fn end_before(t: Seq<Token>, n: int) -> int { if n <= 0 { 0 } else { t[n - 1].char_range.end as int } }
spec fn rebuilt(t: Seq<Token>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { rebuilt(t, n - 1) + spaces(t[n - 1].char_range.start - end_before(t, n - 1)) + t[n - 1].value@ } }
/// tokens in order whose character range has the length of their text
spec fn in_place(t: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> end_before(t, i) <= (#[trigger] t[i]).char_range.start && t[i].char_range.end == t[i].char_range.start + t[i].value@.len()
}
spec fn in_token(t: Seq<Token>, n: int, c: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] t[i]).char_range.start <= c < t[i].char_range.end }
/// the rebuilt text has every token at its own character position and spaces elsewhere
proof fn theorem_rebuilt(t: Seq<Token>, n: int)
    requires in_place(t), 0 <= n <= t.len()
    ensures rebuilt(t, n).len() == end_before(t, n),
        forall|i: int| 0 <= i < n ==> (#[trigger] t[i]).char_range.end <= end_before(t, n) && rebuilt(t, n).subrange(t[i].char_range.start as int, t[i].char_range.end as int) == t[i].value@,
        forall|c: int| 0 <= c < end_before(t, n) && !in_token(t, n, c) ==> #[trigger] rebuilt(t, n)[c] == ' ',
    decreases n
{
    if n > 0 {
        theorem_rebuilt(t, n - 1);
        let (p, r, x) = (rebuilt(t, n - 1), rebuilt(t, n), t[n - 1]);
        assert(end_before(t, n - 1) <= x.char_range.start);
        assert(r.len() == x.char_range.end);
        assert forall|i: int| 0 <= i < n implies (#[trigger] t[i]).char_range.end <= end_before(t, n) && r.subrange(t[i].char_range.start as int, t[i].char_range.end as int) == t[i].value@ by {
            if i < n - 1 {
                assert(t[i].char_range.start <= t[i].char_range.end <= end_before(t, n - 1));
                assert(p.subrange(t[i].char_range.start as int, t[i].char_range.end as int) == t[i].value@);
                assert(r.subrange(t[i].char_range.start as int, t[i].char_range.end as int) =~= p.subrange(t[i].char_range.start as int, t[i].char_range.end as int));
            } else { assert(r.subrange(x.char_range.start as int, x.char_range.end as int) =~= x.value@); }
        }
        assert forall|c: int| 0 <= c < end_before(t, n) && !in_token(t, n, c) implies #[trigger] r[c] == ' ' by {
            if c < end_before(t, n - 1) {
                if in_token(t, n - 1, c) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] t[i]).char_range.start <= c < t[i].char_range.end; assert(in_token(t, n, c)); }
                assert(p[c] == ' ');
            } else if c >= x.char_range.start { assert(in_token(t, n, c)); }
        }
    }
}
#fn slot_filler/features_utils.rs initial_string_from_tokens
#ret r
#spec
requires tokens@.len() > 0, 2 * tokens@.len() <= usize::MAX
ensures r@ == rebuilt(tokens@, tokens@.len() as int)
#at loop 0 before
proof { assert(views(chunks@) =~= Seq::empty()); }
#loop 0
invariant current_index == end_before(tokens@, vx_k0), join_seq(views(chunks@), Seq::empty()) == rebuilt(tokens@, vx_k0)
#at loop 0 start
let ghost c0 = chunks@;
let ghost gap = spaces(token.char_range.start - current_index);
#at loop 0 end
proof {
    lemma_join_push(views(c0), gap); lemma_join_push(views(c0).push(gap), token.value@); lemma_join_push(views(c0), token.value@);
    if chunks@.len() == c0.len() + 2 {
        assert(views(chunks@)[c0.len() as int] =~= gap);
        assert(views(chunks@) =~= views(c0).push(gap).push(token.value@));
    } else {
        assert(views(chunks@) =~= views(c0).push(token.value@));
        assert(gap =~= Seq::empty());
        assert(rebuilt(tokens@, vx_k0) =~= rebuilt(tokens@, vx_k0 - 1) + token.value@);
    }
}
#at tail vx_r
proof { reveal_strlit(""); assert(""@ =~= Seq::empty()); }
#raw
spec fn stem_of(st: Option<Arc<dyn Stemmer>>, v: Seq<char>) -> Seq<char> { match st { Some(s) => s.stemmed(normal(v)), None => normal(v) } }
spec fn total_bytes(st: Option<Arc<dyn Stemmer>>, t: Seq<Token>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { total_bytes(st, t, n - 1) + 1 + byte_len(stem_of(st, t[n - 1].value@)) } }
spec fn total_chars(st: Option<Arc<dyn Stemmer>>, t: Seq<Token>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { total_chars(st, t, n - 1) + 1 + stem_of(st, t[n - 1].value@).len() } }
/// stemmed tokens laid out one space apart, with consistent character and byte ranges
spec fn laid_out(st: Option<Arc<dyn Stemmer>>, t: Seq<Token>, r: Seq<Token>, n: int) -> bool {
    &&& r.len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).value@ == stem_of(st, t[i].value@)
        && r[i].char_range.start == (if i == 0 { 0 } else { r[i - 1].char_range.end + 1 }) && r[i].char_range.end == r[i].char_range.start + r[i].value@.len()
        && r[i].range.start == (if i == 0 { 0 } else { r[i - 1].range.end + 1 }) && r[i].range.end == r[i].range.start + byte_len(r[i].value@)
}
proof fn lemma_totals(st: Option<Arc<dyn Stemmer>>, t: Seq<Token>, a: int, b: int)
    requires 0 <= a <= b
    ensures 0 <= total_bytes(st, t, a) <= total_bytes(st, t, b), 0 <= total_chars(st, t, a) <= total_chars(st, t, b)
    decreases b
{ if b > a { lemma_totals(st, t, a, b - 1); } else if a > 0 { lemma_totals(st, t, a - 1, a - 1); } }
spec fn one_laid(st: Option<Arc<dyn Stemmer>>, v: Seq<char>, c: int, b: int, x: Token) -> bool {
    x.value@ == stem_of(st, v) && x.char_range.start == c && x.char_range.end == c + x.value@.len() && x.range.start == b && x.range.end == b + byte_len(x.value@)
}
spec fn laid_upto(st: Option<Arc<dyn Stemmer>>, t: Seq<Token>, r: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> one_laid(st, t[i].value@, total_chars(st, t, i), total_bytes(st, t, i), #[trigger] r[i])
}
#fn slot_filler/features.rs transform_tokens rename=len
#ret r
#spec
requires total_bytes(stemmer, tokens@, tokens@.len() as int) <= usize::MAX, total_chars(stemmer, tokens@, tokens@.len() as int) <= usize::MAX
ensures laid_out(stemmer, tokens@, r@, tokens@.len() as int), in_place(r@)
#closure 0 |s: Arc<dyn Stemmer>| -> (x: String)
ensures x@ == s.stemmed(normal(t.value@))
#loop 0
invariant vx_out@.len() == vx_k0, laid_upto(stemmer, tokens@, vx_out@), current_char_index == total_chars(stemmer, tokens@, vx_k0), current_byte_index == total_bytes(stemmer, tokens@, vx_k0)
#at loop 0 start
proof { lemma_totals(stemmer, tokens@, vx_k0 - 1, tokens@.len() as int); lemma_totals(stemmer, tokens@, vx_k0, tokens@.len() as int); }
let ghost o0 = vx_out@;
#at loop 0 after
proof { lemma_in_place(stemmer, tokens@, vx_out@); }
#at after-let normalized_value
proof { assert(normalized_value@ == stem_of(stemmer, tokens@[vx_k0 - 1].value@)); }
#at after-let vx_y
proof { assert(one_laid(stemmer, tokens@[vx_k0 - 1].value@, total_chars(stemmer, tokens@, vx_k0 - 1), total_bytes(stemmer, tokens@, vx_k0 - 1), vx_y)); }
#raw
proof fn lemma_in_place(st: Option<Arc<dyn Stemmer>>, t: Seq<Token>, r: Seq<Token>)
    requires laid_upto(st, t, r), r.len() == t.len()
    ensures in_place(r), laid_out(st, t, r, t.len() as int)
{
    assert forall|i: int| 0 <= i < r.len() implies end_before(r, i) <= (#[trigger] r[i]).char_range.start && r[i].char_range.end == r[i].char_range.start + r[i].value@.len() && r[i].range.start == (if i == 0 { 0 } else { r[i - 1].range.end + 1 }) && r[i].char_range.start == (if i == 0 { 0 } else { r[i - 1].char_range.end + 1 }) by {
        assert(one_laid(st, t[i].value@, total_chars(st, t, i), total_bytes(st, t, i), r[i]));
        if i > 0 { assert(one_laid(st, t[i - 1].value@, total_chars(st, t, i - 1), total_bytes(st, t, i - 1), r[i - 1])); }
    }
}

spec fn prefix_of(sch: TaggingScheme, index: int, first: int, last: int, count: int) -> Seq<char> {
    match sch {
        TaggingScheme::IO => "I-"@,
        TaggingScheme::BIO => if index == first { "B-"@ } else { "I-"@ },
        TaggingScheme::BILOU => if count == 1 { "U-"@ } else if index == first { "B-"@ } else if index == last { "L-"@ } else { "I-"@ },
    }
}
#use crf get_scheme_prefix
#item slot_filler/features.rs struct CustomEntityMatchFeature
#item slot_filler/features.rs struct BuiltinEntityMatchFeature
#item slot_filler/features.rs struct WordClusterFeature
#raw
/// the tokens an entity at `range` touches
spec fn touched(t: Seq<Token>, range: Range<usize>) -> Seq<int> { kept_ix(t.len() as int, |i: int| overlap(t[i].char_range, range)) }
/// the prefix of token `index` among the tokens of an entity at `range`
spec fn tag_in(sch: TaggingScheme, t: Seq<Token>, index: int, range: Range<usize>) -> Seq<char> { let x = touched(t, range); prefix_of(sch, index, x[0], x[x.len() - 1], x.len() as int) }
/// present exactly when some entity overlaps the token, and then the prefix for one that does (the first)
spec fn match_tag(sch: TaggingScheme, t: Seq<Token>, index: int, rs: Seq<Range<usize>>, r: Option<Seq<char>>) -> bool {
    match r {
        None => forall|i: int| 0 <= i < rs.len() ==> !overlap(#[trigger] rs[i], t[index].char_range),
        Some(x) => exists|i: int| 0 <= i < rs.len() && #[trigger] overlap(rs[i], t[index].char_range) && (forall|j: int| 0 <= j < i ==> !overlap(#[trigger] rs[j], t[index].char_range)) && x == tag_in(sch, t, index, rs[i]),
    }
}
spec fn custom_ranges(v: Seq<CustomEntity>) -> Seq<Range<usize>> { Seq::new(v.len(), |i: int| v[i].range) }
spec fn builtin_ranges(v: Seq<BuiltinEntity>) -> Seq<Range<usize>> { Seq::new(v.len(), |i: int| v[i].range) }
spec fn custom_first(v: Seq<CustomEntity>, sch: TaggingScheme, t: Seq<Token>, index: int, r: Option<Seq<char>>) -> bool {
    match r {
        None => forall|i: int| 0 <= i < v.len() ==> !overlap((#[trigger] v[i]).range, t[index].char_range),
        Some(x) => exists|i: int| 0 <= i < v.len() && overlap((#[trigger] v[i]).range, t[index].char_range) && (forall|j: int| 0 <= j < i ==> !overlap((#[trigger] v[j]).range, t[index].char_range)) && x == tag_in(sch, t, index, v[i].range),
    }
}
proof fn lemma_custom_first(v: Seq<CustomEntity>, sch: TaggingScheme, t: Seq<Token>, index: int, r: Option<Seq<char>>)
    requires custom_first(v, sch, t, index, r)
    ensures match_tag(sch, t, index, custom_ranges(v), r)
{
    let rs = custom_ranges(v);
    assert forall|i: int| 0 <= i < rs.len() implies v[i].range == #[trigger] rs[i] by {}
    if let Some(x) = r {
        let i = choose|i: int| 0 <= i < v.len() && overlap((#[trigger] v[i]).range, t[index].char_range) && (forall|j: int| 0 <= j < i ==> !overlap((#[trigger] v[j]).range, t[index].char_range)) && x == tag_in(sch, t, index, v[i].range);
        assert(overlap(rs[i], t[index].char_range));
        assert forall|j: int| 0 <= j < i implies !overlap(#[trigger] rs[j], t[index].char_range) by { assert(v[j].range == rs[j]); }
    }
}
spec fn custom_match(s: CustomEntityMatchFeature, t: Seq<Token>, index: int, r: Result<Option<String>>) -> bool {
    exists|nt: Seq<Token>, ks: Seq<String>, a: Result<Vec<CustomEntity>>| #[trigger] laid_out(s.opt_stemmer, t, nt, t.len() as int)
        && #[trigger] s.custom_entity_parser.answers(rebuilt(nt, nt.len() as int), Some(ks), 0, a) && ks.len() == 1 && ks[0] == s.entity_name
        && match a { Err(_) => r is Err, Ok(v) => r is Ok && match_tag(s.tagging_scheme, nt, index, custom_ranges(v@), ov(r->Ok_0)) }
}
spec fn builtin_first(v: Seq<BuiltinEntity>, sch: TaggingScheme, t: Seq<Token>, index: int, r: Option<Seq<char>>) -> bool {
    match r {
        None => forall|i: int| 0 <= i < v.len() ==> !overlap((#[trigger] v[i]).range, t[index].char_range),
        Some(x) => exists|i: int| 0 <= i < v.len() && overlap((#[trigger] v[i]).range, t[index].char_range) && (forall|j: int| 0 <= j < i ==> !overlap((#[trigger] v[j]).range, t[index].char_range)) && x == tag_in(sch, t, index, v[i].range),
    }
}
proof fn lemma_builtin_first(v: Seq<BuiltinEntity>, sch: TaggingScheme, t: Seq<Token>, index: int, r: Option<Seq<char>>)
    requires builtin_first(v, sch, t, index, r)
    ensures match_tag(sch, t, index, builtin_ranges(v), r)
{
    let rs = builtin_ranges(v);
    assert forall|i: int| 0 <= i < rs.len() implies v[i].range == #[trigger] rs[i] by {}
    if let Some(x) = r {
        let i = choose|i: int| 0 <= i < v.len() && overlap((#[trigger] v[i]).range, t[index].char_range) && (forall|j: int| 0 <= j < i ==> !overlap((#[trigger] v[j]).range, t[index].char_range)) && x == tag_in(sch, t, index, v[i].range);
        assert(overlap(rs[i], t[index].char_range));
        assert forall|j: int| 0 <= j < i implies !overlap(#[trigger] rs[j], t[index].char_range) by { assert(v[j].range == rs[j]); }
    }
}
spec fn builtin_match(s: BuiltinEntityMatchFeature, t: Seq<Token>, index: int, r: Result<Option<String>>) -> bool {
    exists|ks: Seq<BuiltinEntityKind>, a: Result<Vec<BuiltinEntity>>|
        #[trigger] s.builtin_entity_parser.answers(rebuilt(t, t.len() as int), Some(ks), 0, a) && ks.len() == 1 && ks[0] == s.builtin_entity_kind
        && match a { Err(_) => r is Err, Ok(v) => r is Ok && match_tag(s.tagging_scheme, t, index, builtin_ranges(v@), ov(r->Ok_0)) }
}
spec fn same_ix(s: Seq<usize>, x: Seq<int>) -> bool { s.len() == x.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == x[k] }
proof fn lemma_kept_ext(n: int, a: spec_fn(int) -> bool, b: spec_fn(int) -> bool)
    requires forall|i: int| 0 <= i < n ==> #[trigger] a(i) == b(i)
    ensures kept_ix(n, a) == kept_ix(n, b)
    decreases n
{ if n > 0 { lemma_kept_ext(n - 1, a, b); } }
proof fn lemma_touched(t: Seq<Token>, range: Range<usize>, index: int)
    requires 0 <= index < t.len() <= usize::MAX, overlap(t[index].char_range, range)
    ensures forall|keep: spec_fn(int) -> bool| (forall|i: int| 0 <= i < t.len() ==> #[trigger] keep(i) == overlap(t[i].char_range, range))
        ==> same_ix(#[trigger] sel(range_seq(0, t.len() as usize), keep), touched(t, range)),
        touched(t, range).len() > 0,
{
    let s = range_seq(0, t.len() as usize);
    assert forall|keep: spec_fn(int) -> bool| (forall|i: int| 0 <= i < t.len() ==> #[trigger] keep(i) == overlap(t[i].char_range, range))
        implies same_ix(#[trigger] sel(s, keep), touched(t, range)) by {
        lemma_sel_ix(s, keep);
        lemma_kept_ext(t.len() as int, keep, |i: int| overlap(t[i].char_range, range));
    }
    let k0 = |i: int| overlap(t[i].char_range, range);
    lemma_sel_ix(s, k0);
    assert(k0(index));
}
#fn slot_filler/features.rs CustomEntityMatchFeature/Feature::compute
#ret r
#spec
requires token_index < tokens@.len(), 2 * tokens@.len() <= usize::MAX,
  total_bytes(self.opt_stemmer, tokens@, tokens@.len() as int) <= usize::MAX, total_chars(self.opt_stemmer, tokens@, tokens@.len() as int) <= usize::MAX
ensures custom_match(*self, tokens@, token_index as int, r)
#closure 0 |e: &CustomEntity| -> (b: bool)
ensures b == overlap(e.range, normalized_tokens@[token_index as int].char_range)
#closure 1 |e: CustomEntity| -> (x: String)
requires overlap(e.range, normalized_tokens@[token_index as int].char_range)
ensures x@ == tag_in(self.tagging_scheme, normalized_tokens@, token_index as int, e.range)
#at closure 1 start
proof { lemma_touched(normalized_tokens@, e.range, token_index as int); }
#closure 2 |i: &usize| -> (b: bool)
requires *i < normalized_tokens@.len()
ensures b == overlap(normalized_tokens@[*i as int].char_range, e.range)
#at after-let entity_token_indexes
proof {
    let gg = normalized_tokens@.len() as usize;
    assert(normalized_tokens@.len() <= usize::MAX);
    assert(gg == normalized_tokens@.len());
    lemma_touched(normalized_tokens@, e.range, token_index as int);
    assert(exists|keep: spec_fn(int) -> bool| entity_token_indexes@ == sel(range_seq(0, gg), keep) && (forall|i: int| 0 <= i < gg ==> #[trigger] keep(i) == overlap(normalized_tokens@[i].char_range, e.range)));
    assert(same_ix(entity_token_indexes@, touched(normalized_tokens@, e.range)));
}
#at tail vx_r
proof {
    let (ks, a) = choose|ks: Seq<String>, a: Result<Vec<CustomEntity>>| #[trigger] self.custom_entity_parser.answers(normalized_text@, Some(ks), 0, a) && ks.len() == 1 && ks[0] == self.entity_name && a is Ok && custom_first(a->Ok_0@, self.tagging_scheme, normalized_tokens@, token_index as int, ov(vx_r->Ok_0));
    assert(self.custom_entity_parser.answers(normalized_text@, Some(ks), 0, a) && ks.len() == 1 && ks[0] == self.entity_name && a is Ok && custom_first(a->Ok_0@, self.tagging_scheme, normalized_tokens@, token_index as int, ov(vx_r->Ok_0)));
    lemma_custom_first(a->Ok_0@, self.tagging_scheme, normalized_tokens@, token_index as int, ov(vx_r->Ok_0));
}
#fn slot_filler/features.rs BuiltinEntityMatchFeature/Feature::compute
#ret r
#spec
requires token_index < tokens@.len(), 2 * tokens@.len() <= usize::MAX,
ensures builtin_match(*self, tokens@, token_index as int, r)
#closure 0 |e: &BuiltinEntity| -> (b: bool)
ensures b == overlap(e.range, tokens@[token_index as int].char_range)
#closure 1 |e: BuiltinEntity| -> (x: String)
requires overlap(e.range, tokens@[token_index as int].char_range)
ensures x@ == tag_in(self.tagging_scheme, tokens@, token_index as int, e.range)
#at closure 1 start
proof { lemma_touched(tokens@, e.range, token_index as int); }
#closure 2 |i: &usize| -> (b: bool)
requires *i < tokens@.len()
ensures b == overlap(tokens@[*i as int].char_range, e.range)
#at after-let entity_token_indexes
proof {
    let gg = tokens@.len() as usize;
    assert(tokens@.len() <= usize::MAX);
    assert(gg == tokens@.len());
    lemma_touched(tokens@, e.range, token_index as int);
    assert(exists|keep: spec_fn(int) -> bool| entity_token_indexes@ == sel(range_seq(0, gg), keep) && (forall|i: int| 0 <= i < gg ==> #[trigger] keep(i) == overlap(tokens@[i].char_range, e.range)));
    assert(same_ix(entity_token_indexes@, touched(tokens@, e.range)));
}
#at tail vx_r
proof {
    let (ks, a) = choose|ks: Seq<BuiltinEntityKind>, a: Result<Vec<BuiltinEntity>>| #[trigger] self.builtin_entity_parser.answers(text@, Some(ks), 0, a) && ks.len() == 1 && ks[0] == self.builtin_entity_kind && a is Ok && builtin_first(a->Ok_0@, self.tagging_scheme, tokens@, token_index as int, ov(vx_r->Ok_0));
    assert(self.builtin_entity_parser.answers(text@, Some(ks), 0, a) && ks.len() == 1 && ks[0] == self.builtin_entity_kind && a is Ok && builtin_first(a->Ok_0@, self.tagging_scheme, tokens@, token_index as int, ov(vx_r->Ok_0)));
    lemma_builtin_first(a->Ok_0@, self.tagging_scheme, tokens@, token_index as int, ov(vx_r->Ok_0));
}
#fn slot_filler/features.rs WordClusterFeature/Feature::compute
#ret r
#spec
requires token_index < tokens@.len()
ensures r is Ok && self.word_clusterer.cluster(lower(tokens@[token_index as int].value@), r->Ok_0)
