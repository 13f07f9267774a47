use crate::input::memory_sampler::MemorySampler;
use crate::optimize::Optimizer;
use crate::processing::Processing;
use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::tokenset::{Token, TokenSet, TokenType};
use crate::vxc::*;
use crate::vxtk::*;

fn fresh(ts: &TokenSet, text: &str) -> TokenStats {
    let tk = FragmentTokenizer::new(ts.clone());
    let mut st = TokenStats::new(ts.clone(), None);
    let mut buf = Vec::new();
    tk.process_slice(text.as_bytes(), &mut st, &mut buf);
    st
}

fn kind(k: usize) -> (TokenType, usize) {
    match k {
        0 => (TokenType::Bits1, 2),
        1 => (TokenType::Bits2, 4),
        2 => (TokenType::Bits4, 16),
        3 => (TokenType::Bytes, 256),
        _ => (TokenType::BytesHuff, 3),
    }
}

pub fn check_result(r: &TokenStats, n: usize, text: &str, k: usize, initial: Option<u64>) -> Result<(), String> {
    let ts = &r.token_set;
    if ts.tokens.len() > n {
        return Err(format!("{} tokens for a budget of {}", ts.tokens.len(), n));
    }
    if std::mem::discriminant(&ts.token_type) != std::mem::discriminant(&kind(k).0) {
        return Err(format!("kind {:?}", ts.token_type));
    }
    check_bytes_encoded(ts)?;
    for (i, t) in ts.tokens.iter().enumerate() {
        if ts.tokens[..i].contains(t) {
            return Err(format!("token {:?} twice", t));
        }
    }
    let f = fresh(ts, text);
    if f.total_tokens != r.total_tokens || f.scanned_bytes != r.scanned_bytes || f.token_counts != r.token_counts || f.seq_counts != r.seq_counts || r.initial_size != initial {
        return Err(format!("reported {} tokens {} bytes; the set itself gives {} tokens {} bytes", r.total_tokens, r.scanned_bytes, f.total_tokens, f.scanned_bytes));
    }
    Ok(())
}

pub fn main() {
    let mut run = Run::new("C14");
    let mut rng = run.rng(14);
    let dir = run.scratch.clone();
    for i in 0..run.n(160, 4000) {
        if !run.time_left() {
            break;
        }
        let k = i % 5;
        let (ty, min) = kind(k);
        let pr = if rng.chance(1, 2) { Processing::Raw } else { Processing::CapsWords };
        let text = match rng.below(4) {
            0 => String::from_utf8(random_string(&mut rng, b"ab", 1, 60)).unwrap(),
            1 => String::from_utf8(random_string(&mut rng, b"abc \n", 1, 120)).unwrap(),
            2 => {
                let w = ["the ", "cat ", "sat ", "on\n\n", "mat ", "é中"];
                (0..rng.range(1, 30)).map(|_| *rng.pick::<&str>(&w)).collect()
            }
            _ => (0..rng.range(1, 60)).map(|_| (b' ' + rng.below(90) as u8) as char).collect(),
        };
        let n = match rng.below(4) {
            0 => min,
            1 => min + rng.range(0, 3),
            // all bytes promoted; slow, so on few inputs
            2 if k < 3 && i % 15 < 3 => min + rng.range(254, 258),
            _ => min + rng.range(0, if k == 3 || k == 4 { 8 } else { 20 }),
        };
        let text = if n > 200 && k < 3 { text.chars().take(10).collect() } else { text };
        let initial = if rng.chance(1, 2) { Some(123) } else { None };
        let pretrained = i % 7 == 3;
        let t0 = std::time::Instant::now();
        run.case("optimizer runs", || format!("{:?} budget {} data {:?} pretrained {}", ty, n, text, pretrained), || {
            let sampler = MemorySampler::from_str(&text, 1 << 20);
            let o = Optimizer::new(n, pr, ty, initial, &dir);
            let start = match k {
                0 => Some(TokenSet::new_bits1(pr, true)),
                1 => Some(TokenSet::new_bits2(pr, true)),
                2 => Some(TokenSet::new_bits4(pr, true)),
                3 => Some(TokenSet::new_bytes(pr)),
                _ => None,
            };
            let r = o.optimize(&sampler, None);
            check_result(&r, n, &text, k, initial)?;
            if let Some(s) = &start {
                let f = fresh(s, &text);
                if r.total_tokens > f.total_tokens {
                    return Err(format!("{} tokens after optimizing, {} before", r.total_tokens, f.total_tokens));
                }
            }
            if pretrained {
                let r2 = o.optimize(&sampler, Some(r.token_set.clone()));
                check_result(&r2, n, &text, k, initial)?;
                if r2.total_tokens > r.total_tokens {
                    return Err(format!("optimizing again went from {} to {} tokens", r.total_tokens, r2.total_tokens));
                }
            }
            Ok(())
        });
        if std::env::var("VX_TIMES").is_ok() {
            eprintln!("kind {} budget {} data {} bytes: {:?}", k, n, text.len(), t0.elapsed());
        }
        #[cfg(feature = "deep")]
        {
            use crate::batch_tokenize::TokenizerCache;
            use crate::optimize_bytes::*;
            use std::collections::HashMap;
            run.case("single steps", || format!("{:?} budget {} data {:?}", ty, n, text), || {
                let sampler = MemorySampler::from_str(&text, 1 << 20);
                let mut cache = TokenizerCache::new(&sampler, initial);
                let mut removal: HashMap<Vec<u8>, usize> = HashMap::new();
                let mut ts = match k {
                    0 => TokenSet::new_bits1(pr, true),
                    1 => TokenSet::new_bits2(pr, true),
                    2 => TokenSet::new_bits4(pr, true),
                    3 => TokenSet::new_bytes(pr),
                    _ => HuffOptimizer::optimize_bytes(&fresh(&TokenSet::new_bytes(pr), &text), n),
                };
                for step in 0..400 {
                    let next = match k {
                        0 | 1 | 2 => crate::optimize::vx_step(&ts, n, &SimpleBytesOptimizer {}, &mut cache, &mut removal),
                        3 => crate::optimize::vx_step(&ts, n, &NoopBytesOptimizer {}, &mut cache, &mut removal),
                        _ => crate::optimize::vx_step(&ts, n, &HuffOptimizer {}, &mut cache, &mut removal),
                    };
                    let next = match next {
                        Some(x) => x,
                        None => break,
                    };
                    if next.tokens.len() > n {
                        return Err(format!("step {}: {} tokens for a budget of {}", step, next.tokens.len(), n));
                    }
                    check_bytes_encoded(&next).map_err(|m| format!("step {}: {}", step, m))?;
                    let (a, b) = (fresh(&ts, &text).total_tokens, fresh(&next, &text).total_tokens);
                    if next.tokens.len() <= ts.tokens.len() && b >= a {
                        return Err(format!("step {}: no token added and {} tokens instead of {} ({} -> {})", step, b, a, show(&ts), show(&next)));
                    }
                    if b > a {
                        return Err(format!("step {}: {} tokens instead of {}", step, b, a));
                    }
                    ts = next;
                }
                Ok(())
            });
        }
        let _ = Token::Ext(0);
    }
    run.finish();
}
