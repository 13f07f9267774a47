use crate::batch_tokenize::TokenizerCache;
use crate::input::memory_sampler::MemorySampler;
use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::tokenset::TokenSet;
use crate::vxc::*;
use crate::vxtk::*;

fn fresh(ts: &TokenSet, text: &str) -> TokenStats {
    let tk = FragmentTokenizer::new(ts.clone());
    let mut st = TokenStats::new(ts.clone(), None);
    let mut buf = Vec::new();
    tk.process_slice(text.as_bytes(), &mut st, &mut buf);
    st
}

fn header(a: &TokenSet) -> String {
    format!("{} {:?} {:?} {}", a.n_ext_tokens, a.token_type, a.processing, a.split_paragraphs)
}

/// Close variants of one another, so that any key confusion shows.
fn variants(rng: &mut Rng) -> Vec<TokenSet> {
    let mut base = random_set(rng, b"abc", 6);
    // saved forms keep only fallback sequences of two or more tokens, the
    // only ones the program makes
    for q in base.sequences.iter_mut() {
        if q.tokens.len() < 2 {
            q.tokens.push(0);
        }
    }
    let mut v = vec![base.clone()];
    let mut sorted = base.clone();
    sorted.sort();
    v.push(sorted);
    for _ in 0..3 {
        let mut t = base.clone();
        let s = random_string(rng, b"abc", 1, 3);
        if !t.tokens.iter().any(|x| matches!(x, crate::tokenset::Token::Str(y) if *y == s)) {
            t.add_token(&s);
        }
        v.push(t);
    }
    // same tokens, other fallback spelling of the same length or another one
    let mut t = base.clone();
    if !t.sequences.is_empty() {
        let i = rng.below(t.sequences.len());
        let j = rng.below(t.sequences[i].tokens.len());
        t.sequences[i].tokens[j] = rng.below(t.n_ext_tokens.max(1));
        v.push(t.clone());
        t.sequences[i].tokens.push(0);
        v.push(t);
    }
    let pr = processing(rng);
    v.push(TokenSet::new_bits1(pr, true));
    v.push(TokenSet::new_bits2(pr, true));
    v.push(TokenSet::new_bits4(pr, true));
    v.push(TokenSet::new_bytes(pr));
    let mut b1 = TokenSet::new_bits1(pr, true);
    b1.add_token(b"ab");
    let mut b2 = TokenSet::new_bits1(pr, true);
    b2.add_token(b"ba");
    v.push(b1);
    v.push(b2);
    v
}

pub fn main() {
    let mut run = Run::new("C15");
    let mut rng = run.rng(15);
    for _ in 0..run.n(300, 20000) {
        if !run.time_left() {
            break;
        }
        let text = String::from_utf8(random_string(&mut rng, b"abc", 1, 80)).unwrap();
        let vs = variants(&mut rng);
        let plan: Vec<(usize, bool)> = (0..rng.range(2, 24)).map(|_| (rng.below(vs.len()), rng.chance(1, 2))).collect();
        let initial = if rng.chance(1, 2) { Some(rng.next() % 100) } else { None };
        run.case("request histories", || format!("data {:?}, requests (set, with pairs) {:?} over sets {}", text, plan, vs.iter().map(show).collect::<Vec<_>>().join(" ;; ")), || {
            let sampler = MemorySampler::from_str(&text, 1 << 20);
            let mut cache = TokenizerCache::new(&sampler, initial);
            for (step, (k, pairs)) in plan.iter().enumerate() {
                let mut want_set = vs[*k].clone();
                want_set.sort();
                let want = fresh(&want_set, &text);
                let got = if *pairs { cache.get_stats_with_pairs(&vs[*k]) } else { cache.get_stats(&vs[*k]) };
                let e = |m: &str| Err(format!("request {} (set {}, pairs {}): {}", step, k, pairs, m));
                if got.token_set.tokens != want_set.tokens || got.token_set.sequences != want_set.sequences || header(&got.token_set) != header(&want_set) {
                    return e("the set is not the requested one in sorted order");
                }
                if got.total_tokens != want.total_tokens || got.scanned_bytes != want.scanned_bytes || got.initial_size != initial {
                    return e(&format!("{} tokens {} bytes, fresh statistics have {} and {}", got.total_tokens, got.scanned_bytes, want.total_tokens, want.scanned_bytes));
                }
                if got.token_counts != want.token_counts || got.seq_counts != want.seq_counts {
                    return e("token or sequence counts differ from fresh ones");
                }
                if *pairs && got.pair_counts != want.pair_counts {
                    return e("pair counts differ from fresh ones");
                }
            }
            Ok(())
        });
    }
    run.finish();
}
