use crate::optimize_bytes::{BytesOptimizer, HuffOptimizer};
use crate::stats2::TokenStats;
use crate::tokenset::{Token, TokenSet, TokenType};
use crate::vxc::*;
use crate::vxtk::*;

pub fn freq(rng: &mut Rng, style: usize) -> u64 {
    match style {
        0 => 0,
        1 => rng.next() % 4,
        2 => rng.next() % 1000,
        3 => 1u64 << rng.below(40),
        4 => if rng.chance(1, 20) { rng.next() % 100000 } else { 0 },
        5 => 7,
        _ => rng.next() >> rng.range(24, 63),
    }
}

pub fn main() {
    let mut run = Run::new("C11");
    let mut rng = run.rng(11);
    for i in 0..run.n(700, 40000) {
        if !run.time_left() {
            break;
        }
        let pr = processing(&mut rng);
        // the set whose statistics are used: all bytes, or an earlier result
        let mut ts = TokenSet::new_bytes(pr);
        if i % 2 == 1 {
            let s0 = TokenStats::new(ts.clone(), None);
            ts = HuffOptimizer::optimize_bytes(&s0, rng.range(3, 270));
        }
        for _ in 0..rng.range(0, 6) {
            let s = random_string(&mut rng, b"abc", 2, 4);
            if !ts.tokens.iter().any(|t| matches!(t, Token::Str(x) if *x == s)) {
                ts.add_token(&s);
            }
        }
        if rng.chance(1, 3) {
            ts.sort();
        }
        let mut stats = TokenStats::new(ts.clone(), None);
        let style = rng.below(7);
        for c in stats.token_counts.iter_mut() {
            *c = freq(&mut rng, style);
        }
        for c in stats.seq_counts.iter_mut() {
            *c = freq(&mut rng, style);
        }
        let budget = match rng.below(5) {
            0 => rng.range(3, 13),
            1 => rng.range(250, 270),
            2 => rng.range(3, 600),
            _ => rng.range(3, 256),
        };
        run.case("random frequency tables", || format!("budget {} from {} token counts {:?} sequence counts {:?}", budget, show(&ts), stats.token_counts, stats.seq_counts), || {
            let r = HuffOptimizer::optimize_bytes(&stats, budget);
            check_bytes_encoded(&r)?;
            if !matches!(r.token_type, TokenType::BytesHuff) || format!("{:?}", r.processing) != format!("{:?}", pr) {
                return Err("kind or processing mode differs".into());
            }
            let ext = r.tokens.iter().filter(|t| matches!(t, Token::Ext(_))).count();
            let one = r.tokens.iter().filter(|t| matches!(t, Token::Str(s) if s.len() == 1)).count();
            if ext != r.n_ext_tokens {
                return Err("extension token count".into());
            }
            for k in 0..ext {
                if r.tokens[k] != Token::Ext(k as u8) {
                    return Err("extension tokens are not first and numbered from zero".into());
                }
            }
            if ext + one > budget {
                return Err(format!("{} byte and extension tokens for a budget of {}", ext + one, budget));
            }
            if one < 256 && ext + one != budget {
                return Err(format!("{} byte and extension tokens, the budget of {} is not used up", ext + one, budget));
            }
            if long_tokens(&r) != long_tokens(&ts) {
                return Err("multi-byte tokens differ".into());
            }
            for q in &r.sequences {
                let ok = q.tokens.len() >= 2 && matches!(&r.tokens[q.tokens[0]], Token::Str(s) if s.len() == 1) && q.tokens[1..].iter().all(|&t| matches!(r.tokens[t], Token::Ext(_)));
                if !ok {
                    return Err(format!("sequence {:?} is not a byte token followed by extension tokens", q));
                }
            }
            Ok(())
        });
    }
    run.finish();
}
