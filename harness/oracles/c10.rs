use crate::processing::Processing;
use crate::stats2::TokenStats;
use crate::tokenset::{Token, TokenSet, TokenType};
use crate::vxc::*;
use crate::vxtk::*;

fn header(a: &TokenSet) -> String {
    format!("{} {:?} {:?} {}", a.n_ext_tokens, a.token_type, a.processing, a.split_paragraphs)
}

fn check(ts: &TokenSet) -> Result<(), String> {
    let direct = TokenSet::from_json(ts.to_json());
    let text = serde_json::to_string(&ts.to_json()).unwrap();
    let through_text = TokenSet::from_json(serde_json::from_str(&text).unwrap());
    let with_stats = TokenSet::from_json(TokenStats::new(ts.clone(), Some(5)).to_json());
    for (how, got) in [("value", direct), ("text", through_text), ("statistics file", with_stats)] {
        if header(&got) != header(ts) {
            return Err(format!("via {}: kind/mode/flag {} became {}", how, header(ts), header(&got)));
        }
        if got.tokens != ts.tokens {
            return Err(format!("via {}: tokens differ: {}", how, show(&got)));
        }
        let mut a = spelled(&got);
        let mut b = spelled(ts);
        a.sort_by(|x, y| x.0.cmp(&y.0));
        b.sort_by(|x, y| x.0.cmp(&y.0));
        if a != b {
            return Err(format!("via {}: fallback sequences differ: {} against {}", how, show(&got), show(ts)));
        }
        for w in a.windows(2) {
            if w[0].0 == w[1].0 {
                return Err(format!("via {}: {:?} is encoded twice", how, w[0].0));
            }
        }
        crate::tokenizer2::FragmentTokenizer::new(got);
    }
    Ok(())
}

/// A set as the program produces them: ext tokens first, byte fallbacks longer than one token.
pub fn program_set(rng: &mut Rng) -> TokenSet {
    let pr = if rng.chance(1, 2) { Processing::Raw } else { Processing::CapsWords };
    let split = rng.chance(1, 2);
    let mut ts = match rng.below(5) {
        0 => TokenSet::new_bits1(pr, split),
        1 => TokenSet::new_bits2(pr, split),
        2 => TokenSet::new_bits4(pr, split),
        3 => {
            let mut t = TokenSet::new_bytes(pr);
            t.split_paragraphs = split;
            t
        }
        _ => {
            let ne = rng.range(3, 10);
            let mut ts = TokenSet::new(ne, pr, TokenType::BytesHuff, split);
            let n = rng.range(1, 256);
            let mut bytes: Vec<u8> = (0..=255).collect();
            rng.shuffle(&mut bytes);
            let toks: Vec<usize> = bytes[..n].iter().map(|b| ts.add_token(&[*b])).collect();
            let mut k = 0;
            for b in &bytes[n..] {
                // distinct codes: a token and one digit, or a token, the last extension token and digits
                let mut enc = vec![toks[k % n]];
                let mut x = k / n;
                if x < ne - 1 {
                    enc.push(x);
                } else {
                    x -= ne - 1;
                    enc.push(ne - 1);
                    loop {
                        enc.push(x % (ne - 1));
                        x /= ne - 1;
                        if x == 0 { break; }
                    }
                }
                ts.add_sequence(vec![*b], enc);
                k += 1;
            }
            ts
        }
    };
    let any: Vec<u8> = (0..=255).collect();
    for _ in 0..rng.range(0, 25) {
        let s = match rng.below(4) {
            0 => random_string(rng, &any, 1, 4),
            1 => random_string(rng, b"\n\"\\{} \x00\x14\x7f", 1, 4),
            2 => "é中😀a".chars().nth(rng.below(4)).unwrap().to_string().into_bytes(),
            _ => random_string(rng, b"abc", 1, 4),
        };
        if !ts.tokens.iter().any(|t| matches!(t, Token::Str(x) if *x == s)) {
            // a byte used inside fallback sequences stays as it is
            ts.add_token(&s);
        }
    }
    ts
}

pub fn main() {
    let mut run = Run::new("C10");
    let mut rng = run.rng(10);
    for pr in [Processing::Raw, Processing::CapsWords] {
        for split in [false, true] {
            let mut v = vec![TokenSet::new_bits1(pr, split), TokenSet::new_bits2(pr, split), TokenSet::new_bits4(pr, split), TokenSet::new_bytes(pr)];
            v[3].split_paragraphs = split;
            for ts in v {
                run.case("built-in sets", || show(&ts), || check(&ts));
            }
        }
    }
    for _ in 0..run.n(400, 20000) {
        if !run.time_left() {
            break;
        }
        let mut ts = program_set(&mut rng);
        run.case("edited sets", || show(&ts), || check(&ts));
        ts.sort();
        run.case("sorted sets", || show(&ts), || check(&ts));
        let cand: Vec<usize> = (0..ts.tokens.len()).filter(|i| matches!(&ts.tokens[*i], Token::Str(s) if s.len() > 1)).collect();
        if !cand.is_empty() {
            let i = *rng.pick(&cand);
            ts.remove_token(i);
            run.case("sets after removing a token", || show(&ts), || check(&ts));
        }
    }
    run.finish();
}
