use crate::input::memory_sampler::MemorySampler;
use crate::optimize::Optimizer;
use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::tokenset::{Token, TokenSet, TokenType};
use crate::vxc::*;
use crate::vxtk::*;

/// No byte other than a line feed after two line feeds.
pub fn within_paragraph(s: &[u8]) -> bool {
    !s.windows(3).any(|w| w[0] == b'\n' && w[1] == b'\n' && w[2] != b'\n')
}

fn tokenized(ts: &TokenSet, data: &[&[u8]]) -> TokenStats {
    let tk = FragmentTokenizer::new(ts.clone());
    let mut st = TokenStats::new(ts.clone(), None);
    let mut buf = Vec::new();
    for d in data {
        tk.process_slice(d, &mut st, &mut buf);
    }
    st
}

/// The highest adjacency count of a permitted pair, and every string having it.
fn best(st: &TokenStats) -> (u64, Vec<Vec<u8>>) {
    let n = st.token_set.tokens.len();
    let mut top = 0;
    let mut v = Vec::new();
    for (i, &c) in st.pair_counts.iter().enumerate() {
        if c == 0 {
            continue;
        }
        if let (Token::Str(a), Token::Str(b)) = (&st.token_set.tokens[i / n], &st.token_set.tokens[i % n]) {
            let s = [a.as_slice(), b.as_slice()].concat();
            if !within_paragraph(&s) {
                continue;
            }
            if c > top {
                top = c;
                v.clear();
            }
            if c == top {
                v.push(s);
            }
        }
    }
    (top, v)
}

/// Where the cheapest cover of each part is the only one, the counted
/// adjacencies are those of the covers.
fn adjacencies(ts: &TokenSet, data: &[&[u8]], st: &TokenStats) -> Result<(), String> {
    let ps = pieces(ts);
    let mut want = Counts { tokens: vec![0; ts.tokens.len()], seqs: vec![0; ts.sequences.len()], ..Default::default() };
    for d in data {
        match unique_cover(&ps, d) {
            Some(c) => want = add_counts(&want, &cover_counts(ts, &c, d.len())),
            None => return Ok(()),
        }
    }
    let got = counts_of(st).pairs;
    for k in want.pairs.keys().chain(got.keys()) {
        let (g, w) = (got.get(k).copied().unwrap_or(0), want.pairs.get(k).copied().unwrap_or(0));
        if g != w {
            return Err(format!("tokens {} and {} are adjacent {} times in the one cheapest cover, counted {}", k.0, k.1, w, g));
        }
    }
    Ok(())
}

fn judge(ts: &TokenSet, st: &TokenStats, new: Option<&TokenSet>) -> Result<(), String> {
    let (top, cands) = best(st);
    match new {
        None => {
            if top > 0 {
                return Err(format!("nothing is proposed although {:?} occur {} times", cands, top));
            }
        }
        Some(r) => {
            let mut add: Vec<Vec<u8>> = Vec::new();
            let mut left = ts.tokens.clone();
            for t in &r.tokens {
                if let Some(i) = left.iter().position(|x| x == t) {
                    left.remove(i);
                } else if let Token::Str(s) = t {
                    add.push(s.clone());
                } else {
                    return Err("an extension token was added".into());
                }
            }
            if !left.is_empty() || add.len() != 1 {
                return Err(format!("tokens removed {:?}, added {:?}", left, add));
            }
            let s = &add[0];
            if !within_paragraph(s) {
                return Err(format!("the proposed token {:?} continues past a paragraph break", String::from_utf8_lossy(s)));
            }
            if ts.tokens.iter().any(|t| matches!(t, Token::Str(x) if x == s)) {
                return Err(format!("the proposed token {:?} exists already", String::from_utf8_lossy(s)));
            }
            if !cands.contains(s) {
                return Err(format!("proposed {:?}; the best permitted pairs are {:?} with count {}", String::from_utf8_lossy(s), cands.iter().map(|c| String::from_utf8_lossy(c).to_string()).collect::<Vec<_>>(), top));
            }
        }
    }
    Ok(())
}

pub fn main() {
    let mut run = Run::new("C13");
    let mut rng = run.rng(13);
    let dir = run.scratch.clone();
    let alphas: [&[u8]; 4] = [b"ab\n", b"a\n", b"abc", b"ab\n\n"];
    for i in 0..run.n(400, 20000) {
        if !run.time_left() {
            break;
        }
        let alpha: &[u8] = alphas[rng.below(4)];
        let data = random_string(&mut rng, alpha, 1, 200);
        // the merge step itself, on sets reached by merging
        #[cfg(feature = "deep")]
        {
            let pr = processing(&mut rng);
            let mut ts = match rng.below(3) {
                0 => TokenSet::new_bytes(pr),
                1 => {
                    let mut t = TokenSet::new_bits2(pr, true);
                    for &c in alpha {
                        if !t.tokens.iter().any(|x| matches!(x, Token::Str(s) if *s == [c])) && rng.chance(3, 4) {
                            t.add_token(&[c]);
                        }
                    }
                    t
                }
                _ => TokenSet::new_bits4(pr, true),
            };
            for step in 0..8 {
                let parts: Vec<&[u8]> = data.chunks(rng.range(1, 300)).collect();
                let st = tokenized(&ts, &parts);
                let mut next = None;
                run.case("merge step on a reached set", || format!("step {} of set {} over {:?}", step, show(&ts), String::from_utf8_lossy(&data)), || {
                    let r = crate::optimize::vx_add_token_bpe(&st);
                    adjacencies(&ts, &parts, &st)?;
                    judge(&ts, &st, r.as_ref().map(|x| &x.0))?;
                    if let Some((_, c)) = &r {
                        if *c as u64 != best(&st).0 {
                            return Err(format!("reported count {}, adjacency count {}", c, best(&st).0));
                        }
                    }
                    next = r.map(|x| x.0);
                    Ok(())
                });
                match next {
                    Some(n) => ts = n,
                    None => break,
                }
            }
        }
        // through the public optimizer: 256 byte tokens, one more allowed
        if i % 4 == 0 {
            let text = String::from_utf8(data.clone()).unwrap();
            run.case("optimizer with room for one token", || format!("data {:?}", text), || {
                let ts = TokenSet::new_bytes(crate::processing::Processing::Raw);
                let sampler = MemorySampler::from_str(&text, 1 << 20);
                let o = Optimizer::new(257, crate::processing::Processing::Raw, TokenType::Bytes, None, &dir);
                let r = o.optimize(&sampler, None).token_set;
                let st = tokenized(&ts, &[text.as_bytes()]);
                adjacencies(&ts, &[text.as_bytes()], &st)?;
                if r.tokens.len() == 256 {
                    judge(&ts, &st, None)
                } else {
                    judge(&ts, &st, Some(&r))
                }
            });
        }
    }
    run.finish();
}
