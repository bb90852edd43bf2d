use snips_nlu_lib::intent_parser::lookup_intent_parser as lookup;
use snips_nlu_lib::intent_parser::deterministic_intent_parser as det;
use snips_nlu_lib::utils::*;
use snips_nlu_utils::{language::Language as L, token::tokenize_light};
use std::collections::HashMap;
use std::ops::Range;
use vx_harness::*;

fn placeholder(e: &str) -> String { format!("%{}%", tokenize_light(e, L::EN).join("").to_uppercase()) }
fn expected(text: &str, kept: &[MatchedEntity], ph: &dyn Fn(&str) -> String) -> (HashMap<Range<usize>, Range<usize>>, String) {
    let chars: Vec<char> = text.chars().collect();
    let (mut out, mut n, mut cur, mut map) = (String::new(), 0, 0, HashMap::new());
    for e in kept {
        out.extend(&chars[cur..e.range.start]); n += e.range.start - cur;
        let p = ph(&e.entity_name);
        let l = char_len(&p);
        map.insert(n..n + l, e.range.clone());
        out.push_str(&p); n += l; cur = e.range.end;
    }
    out.extend(&chars[cur..]);
    (map, out)
}
fn run(h: &mut H, text: &str, ents: Vec<MatchedEntity>, mode: usize) {
    let shown: String = if text.len() > 300 { format!("{:?}... ({} characters: its {} first characters repeated)", text.chars().take(60).collect::<String>(), char_len(text), 60) } else { format!("{:?}", text) };
    let ph: Box<dyn Fn(&str) -> String> = match mode { 0 => Box::new(placeholder), 1 => Box::new(|_: &str| String::from("X")), _ => Box::new(|e: &str| format!("<é{}日本>", e)) };
    h.case(&format!("text {} entities {:?} placeholders {}", shown, ents, ["%NAME%", "X", "<éname日本>"][mode]), ents.len() > 0, || {
        let kept = deduplicate_overlapping_entities(ents.clone());
        let got = replace_entities(text, ents.clone(), |e| ph(e));
        let want = expected(text, &kept, &ph);
        if got.1 != want.1 { return Err(format!("new text {:?}, expected {:?}", short(&got.1), short(&want.1))); }
        expect_eq("mapping", got.0, want.0)?;
        if mode == 0 {
            let want = expected(text, &kept, &placeholder).1;
            let got = lookup::replace_entities_with_placeholders(text, &kept);
            if got != want { return Err(format!("lookup parser: new text {:?}, expected {:?}", short(&got), short(&want))); }
            for e in &kept { expect_eq("placeholder", det::get_entity_placeholder(&e.entity_name), placeholder(&e.entity_name))?; expect_eq("placeholder", lookup::get_entity_placeholder(&e.entity_name), placeholder(&e.entity_name))?; }
        }
        Ok(())
    });
}
fn short(s: &str) -> String { if s.len() > 400 { format!("{}... ({} characters)", s.chars().take(200).collect::<String>(), char_len(s)) } else { s.to_string() } }
const ENT: &[&str] = &["snips/number", "snips/musicArtist", "room", "my entity", "é-日", "%", "a_b"];
fn main() {
    let mut h = H::new();
    let mut round = 0;
    while h.more() {
        round += 1;
        let mut text = gen_text(&mut h.rng, 10);
        // texts longer than 2^15 and 2^16 characters
        if round % 40 == 5 { let unit: String = format!("{} ", text); let m = h.rng.range(33_000, 70_000); text = unit.chars().cycle().take(m).collect(); }
        let len = char_len(&text);
        if len == 0 { continue; }
        let m = h.rng.range(0, 5);
        let ents: Vec<MatchedEntity> = (0..m).map(|_| { let a = if h.rng.chance(1, 6) { 0 } else { h.rng.below(len) }; let b = if h.rng.chance(1, 8) { len.min(a + 40) } else { h.rng.range(a + 1, len.min(a + 7)) }; let e: &&str = h.rng.pick(ENT); MatchedEntity { range: a..b, entity_name: e.to_string() } }).collect();
        let mode = h.rng.below(3);
        run(&mut h, &text, ents, mode);
    }
    h.finish("random unicode texts (one in 40 longer than 33000 characters) with random possibly overlapping entities and three placeholder functions; non-trivial: at least one entity");
}
