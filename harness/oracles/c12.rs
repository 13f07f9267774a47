use crate::optimize_bytes::{BytesOptimizer, SimpleBytesOptimizer};
use crate::stats2::TokenStats;
use crate::tokenset::{Token, TokenSet};
use crate::vxc::*;
use crate::vxh::freq;
use crate::vxtk::*;

fn header(a: &TokenSet) -> String {
    format!("{} {:?} {:?} {}", a.n_ext_tokens, a.token_type, a.processing, a.split_paragraphs)
}

pub fn main() {
    let mut run = Run::new("C12");
    let mut rng = run.rng(12);
    for _ in 0..run.n(2500, 100000) {
        if !run.time_left() {
            break;
        }
        let pr = processing(&mut rng);
        let split = rng.chance(1, 2);
        let mut ts = match rng.below(3) {
            0 => TokenSet::new_bits1(pr, split),
            1 => TokenSet::new_bits2(pr, split),
            _ => TokenSet::new_bits4(pr, split),
        };
        let next = ts.n_ext_tokens;
        let mut bytes: Vec<u8> = (0..=255).collect();
        rng.shuffle(&mut bytes);
        let n = match rng.below(4) { 0 => 0, 1 => 256, _ => rng.range(0, 256) };
        for b in &bytes[..n] {
            ts.add_token(&[*b]);
        }
        for _ in 0..rng.range(0, 8) {
            let s = random_string(&mut rng, b"abc", 2, 4);
            if !ts.tokens.iter().any(|t| matches!(t, Token::Str(x) if *x == s)) {
                ts.add_token(&s);
            }
        }
        if rng.chance(1, 3) {
            ts.sort();
        }
        let mut stats = TokenStats::new(ts.clone(), None);
        let style = rng.below(7);
        for c in stats.token_counts.iter_mut() {
            *c = freq(&mut rng, style);
        }
        for c in stats.seq_counts.iter_mut() {
            *c = freq(&mut rng, style);
        }
        let budget = match rng.below(5) {
            0 => next,
            1 => next + rng.range(250, 300),
            _ => next + rng.range(0, 256),
        };
        run.case("random statistics", || format!("budget {} from {} token counts {:?} sequence counts {:?}", budget, show(&ts), stats.token_counts, stats.seq_counts), || {
            let mut cnt = [0u64; 256];
            for (i, t) in ts.tokens.iter().enumerate() {
                if let Token::Str(s) = t {
                    if s.len() == 1 {
                        cnt[s[0] as usize] = stats.token_counts[i];
                    }
                }
            }
            for (i, q) in ts.sequences.iter().enumerate() {
                cnt[q.string[0] as usize] = stats.seq_counts[i];
            }
            let r = SimpleBytesOptimizer::optimize_bytes(&stats, budget);
            if header(&r) != header(&ts) {
                return Err(format!("{} became {}", header(&ts), header(&r)));
            }
            check_bytes_encoded(&r)?;
            let mut has = [false; 256];
            let mut one = 0;
            let mut ext = 0;
            for t in &r.tokens {
                match t {
                    Token::Ext(_) => ext += 1,
                    Token::Str(s) if s.len() == 1 => {
                        has[s[0] as usize] = true;
                        one += 1;
                    }
                    _ => {}
                }
            }
            if ext != next || one != (budget - next).min(256) {
                return Err(format!("{} extension and {} one-byte tokens for a budget of {}", ext, one, budget));
            }
            for a in 0..256 {
                for b in 0..256 {
                    if has[a] && !has[b] && cnt[b] > cnt[a] {
                        return Err(format!("byte {} (count {}) has a token, byte {} (count {}) has none", a, cnt[a], b, cnt[b]));
                    }
                }
            }
            if long_tokens(&r) != long_tokens(&ts) {
                return Err("multi-byte tokens differ".into());
            }
            Ok(())
        });
    }
    run.finish();
}
