use snips_nlu_lib::slot_filler::crf_utils::*;
use snips_nlu_utils::language::Language;
use snips_nlu_utils::token::tokenize;
use vx_harness::*;
fn main() {
    let mut h = H::new();
    let scheme = |k: usize| TaggingScheme::from_u8(k as u8).unwrap();
    for n in 1..14usize {
        for a in 0..n {
            for b in a..n {
                for k in 0..3usize {
                    h.case(&format!("scheme {} tokens {} entity {}..={}", k, n, a, b), true, || {
                        let text = (0..n).map(|i| format!("w{}", i)).collect::<Vec<_>>().join(" ");
                        let tokens = tokenize(&text, Language::EN);
                        let idx: Vec<usize> = (a..=b).collect();
                        let tags: Vec<String> = (0..n).map(|i| if i < a || i > b { "O".to_string() } else { format!("{}name", get_scheme_prefix(i, &idx, scheme(k))) }).collect();
                        for i in a..=b {
                            let want = match k { 0 => "I-", 1 => if i == a { "B-" } else { "I-" }, _ => if a == b { "U-" } else if i == a { "B-" } else if i == b { "L-" } else { "I-" } };
                            expect_eq("prefix", get_scheme_prefix(i, &idx, scheme(k)), want)?;
                        }
                        let got: Vec<_> = tags_to_slot_ranges(&tokens, &tags, scheme(k)).into_iter().map(|s| (s.char_range, s.slot_name)).collect();
                        expect_eq("decoded slots", got, vec![(tokens[a].char_range.start..tokens[b].char_range.end, "name".to_string())])
                    });
                }
            }
        }
    }
    // any set of token indexes, for the prefix alone
    while h.more() {
        let mut idx: Vec<usize> = (0..12).filter(|_| h.rng.chance(1, 2)).collect();
        if idx.is_empty() { idx.push(h.rng.below(9)); }
        let k = h.rng.below(3);
        for &i in idx.clone().iter() {
            h.case(&format!("scheme {} index {} of {:?}", k, i, idx), true, || {
                let (a, b) = (idx[0], idx[idx.len() - 1]);
                let want = match k { 0 => "I-", 1 => if i == a { "B-" } else { "I-" }, _ => if idx.len() == 1 { "U-" } else if i == a { "B-" } else if i == b { "L-" } else { "I-" } };
                expect_eq("prefix", get_scheme_prefix(i, &idx, scheme(k)), want)
            });
        }
    }
    h.finish("every entity position in texts up to 13 tokens for each scheme, then random index sets; all non-trivial");
}
