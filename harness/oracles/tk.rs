// Token-set helpers for the oracles: generators and independent references.
#![allow(dead_code)]
use crate::processing::Processing;
use crate::stats2::TokenStats;
use crate::tokenset::{Sequence, Token, TokenSet, TokenType};
use crate::vxc::*;
use std::collections::BTreeMap;

/// A piece of the input: string, cost, what it counts.
#[derive(Clone, Debug)]
pub struct Piece {
    pub s: Vec<u8>,
    pub cost: u64,
    pub token: Option<usize>,
    pub seq: Option<usize>,
}

pub fn pieces(ts: &TokenSet) -> Vec<Piece> {
    let mut v = Vec::new();
    for (i, t) in ts.tokens.iter().enumerate() {
        if let Token::Str(s) = t {
            v.push(Piece { s: s.clone(), cost: 1, token: Some(i), seq: None });
        }
    }
    for (i, q) in ts.sequences.iter().enumerate() {
        v.push(Piece { s: q.string.clone(), cost: q.tokens.len() as u64, token: None, seq: Some(i) });
    }
    v
}

pub fn min_cost(ps: &[Piece], data: &[u8]) -> u64 {
    let mut best = vec![u64::MAX; data.len() + 1];
    best[0] = 0;
    for i in 0..data.len() {
        if best[i] == u64::MAX {
            continue;
        }
        for p in ps {
            if data[i..].starts_with(&p.s) {
                let c = best[i] + p.cost;
                if c < best[i + p.s.len()] {
                    best[i + p.s.len()] = c;
                }
            }
        }
    }
    best[data.len()]
}

/// The cheapest cover, when there is only one.
pub fn unique_cover<'a>(ps: &'a [Piece], data: &[u8]) -> Option<Vec<&'a Piece>> {
    let by: std::collections::HashMap<&[u8], &Piece> = ps.iter().map(|p| (p.s.as_slice(), p)).collect();
    let mut lens: Vec<usize> = ps.iter().map(|p| p.s.len()).collect();
    lens.sort();
    lens.dedup();
    let mut best: Vec<(u64, u32, Option<&Piece>)> = vec![(u64::MAX, 0, None); data.len() + 1];
    best[0] = (0, 1, None);
    for i in 0..data.len() {
        if best[i].0 == u64::MAX {
            continue;
        }
        for &l in lens.iter().take_while(|&&l| i + l <= data.len()) {
            if let Some(p) = by.get(&data[i..i + l]) {
                let c = best[i].0 + p.cost;
                if c < best[i + l].0 {
                    best[i + l] = (c, best[i].1, Some(p));
                } else if c == best[i + l].0 {
                    best[i + l].1 = best[i + l].1.saturating_add(best[i].1);
                }
            }
        }
    }
    if best[data.len()].1 != 1 {
        return None;
    }
    let mut cover = Vec::new();
    let mut pos = data.len();
    while pos > 0 {
        let p = best[pos].2.unwrap();
        cover.push(p);
        pos -= p.s.len();
    }
    cover.reverse();
    Some(cover)
}

/// Sets out of the ordinary: tokens longer than a byte can count, thousands of tokens.
pub fn unusual(rng: &mut Rng, many: bool) -> (TokenSet, Vec<u8>) {
    if many {
        let mut ts = TokenSet::new_bits2(Processing::Raw, true);
        for x in 0..72u8 {
            for y in 0..72u8 {
                ts.add_token(&[x, y]);
            }
        }
        let any: Vec<u8> = (0..72).collect();
        // an odd number of bytes, one of them out of the range: few covers are cheapest
        let mut data = random_string(rng, &any, 50, 150);
        data.truncate(data.len() / 2 * 2);
        let at = rng.below(data.len() / 2) * 2;
        data.insert(at, 200);
        return (ts, data);
    }
    let mut ts = if rng.chance(1, 2) { TokenSet::new_bits1(Processing::Raw, true) } else { TokenSet::new_bytes(Processing::CapsWords) };
    let period: &[u8] = rng.pick::<&[u8]>(&[b"a", b"ab"]);
    // construction takes time in the cube of the longest token
    for k in [2usize, 4, 100, 254, 256, 258, 264] {
        if rng.chance(2, 3) {
            let s: Vec<u8> = (0..k).map(|i| period[i % period.len()]).collect();
            ts.add_token(&s);
        }
    }
    let mut data: Vec<u8> = Vec::new();
    for _ in 0..rng.range(1, 4) {
        let n = rng.range(1, 1400);
        data.extend((0..n).map(|i| period[i % period.len()]));
        data.push(*rng.pick(b"abc"));
    }
    (ts, data)
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Counts {
    pub tokens: Vec<u64>,
    pub seqs: Vec<u64>,
    pub pairs: BTreeMap<(usize, usize), u64>,
    pub total: u64,
    pub bytes: u64,
}

pub fn counts_of(stats: &TokenStats) -> Counts {
    let n = stats.token_set.tokens.len();
    let mut pairs = BTreeMap::new();
    for (i, &c) in stats.pair_counts.iter().enumerate() {
        if c > 0 {
            pairs.insert((i / n, i % n), c);
        }
    }
    Counts {
        tokens: stats.token_counts.clone(),
        seqs: stats.seq_counts.clone(),
        pairs,
        total: stats.total_tokens,
        bytes: stats.scanned_bytes,
    }
}

pub fn cover_counts(ts: &TokenSet, cover: &[&Piece], bytes: usize) -> Counts {
    let mut c = Counts { tokens: vec![0; ts.tokens.len()], seqs: vec![0; ts.sequences.len()], ..Default::default() };
    let mut prev: Option<usize> = None;
    for p in cover {
        if let Some(t) = p.token {
            c.tokens[t] += 1;
            if let Some(q) = prev {
                *c.pairs.entry((q, t)).or_insert(0) += 1;
            }
            prev = Some(t);
        } else {
            let s = p.seq.unwrap();
            c.seqs[s] += 1;
            for &t in &ts.sequences[s].tokens {
                c.tokens[t] += 1;
            }
            prev = None;
        }
        c.total += p.cost;
    }
    c.bytes = bytes as u64;
    c
}

pub fn add_counts(a: &Counts, b: &Counts) -> Counts {
    let mut c = a.clone();
    for i in 0..c.tokens.len() {
        c.tokens[i] += b.tokens[i];
    }
    for i in 0..c.seqs.len() {
        c.seqs[i] += b.seqs[i];
    }
    for (k, v) in &b.pairs {
        *c.pairs.entry(*k).or_insert(0) += v;
    }
    c.total += b.total;
    c.bytes += b.bytes;
    c
}

pub fn processing(rng: &mut Rng) -> Processing {
    if rng.chance(1, 2) { Processing::Raw } else { Processing::CapsWords }
}

pub fn show(ts: &TokenSet) -> String {
    let mut s = format!("{:?}/{:?}/split={} ext={} tokens[", ts.token_type, ts.processing, ts.split_paragraphs, ts.n_ext_tokens);
    for t in &ts.tokens {
        s.push_str(&match t {
            Token::Ext(n) => format!("#{} ", n),
            Token::Str(b) => format!("{:?} ", String::from_utf8_lossy(b)),
        });
    }
    s.push_str(&format!("] {} sequences", ts.sequences.len()));
    for q in ts.sequences.iter().filter(|q| q.string.len() > 1 || ts.sequences.len() < 20) {
        s.push_str(&format!(" {:?}->{:?}", String::from_utf8_lossy(&q.string), q.tokens));
    }
    s
}

pub fn random_string(rng: &mut Rng, alpha: &[u8], lo: usize, hi: usize) -> Vec<u8> {
    (0..rng.range(lo, hi)).map(|_| *rng.pick(alpha)).collect()
}

/// A covering token set with distinct strings: a built-in or hand-made base
/// plus random long tokens and, sometimes, long fallback sequences.
pub fn random_set(rng: &mut Rng, alpha: &[u8], max_long: usize) -> TokenSet {
    random_set_len(rng, alpha, max_long, 9)
}

/// Like random_set, with tokens of up to max_len bytes.
pub fn random_set_len(rng: &mut Rng, alpha: &[u8], max_long: usize, max_len: usize) -> TokenSet {
    let mut distinct: Vec<u8> = Vec::new();
    for &c in alpha {
        if !distinct.contains(&c) {
            distinct.push(c);
        }
    }
    let alpha = &distinct[..];
    let pr = processing(rng);
    let kind = rng.below(5);
    let mut ts = match kind {
        0 => TokenSet::new_bits1(pr, true),
        1 => TokenSet::new_bits2(pr, true),
        2 => TokenSet::new_bits4(pr, rng.chance(1, 2)),
        3 => TokenSet::new_bytes(pr),
        _ => {
            // byteshuff-like: some bytes are tokens, the rest are byte+ext
            let mut ts = TokenSet::new(3, pr, TokenType::BytesHuff, true);
            let a = ts.add_token(&[alpha[0]]);
            for c in 0..=255u8 {
                if c == alpha[0] {
                    continue;
                }
                if alpha.contains(&c) && rng.chance(1, 3) {
                    ts.add_token(&[c]);
                } else {
                    let mut enc = vec![a];
                    let n = if rng.chance(1, 30) { rng.range(4, 40) } else { rng.range(1, 3) };
                    for _ in 0..n {
                        enc.push(rng.below(3));
                    }
                    ts.add_sequence(vec![c], enc);
                }
            }
            ts
        }
    };
    if kind < 3 {
        for &c in alpha {
            if rng.chance(1, 2) {
                ts.add_token(&[c]);
            }
        }
    }
    let has = |ts: &TokenSet, s: &[u8]| {
        ts.tokens.iter().any(|t| matches!(t, Token::Str(x) if x.as_slice() == s)) || ts.sequences.iter().any(|q| q.string == s)
    };
    for _ in 0..rng.range(0, max_long) {
        let mut s = if rng.chance(1, 3) {
            // built from earlier tokens, so that tokens are prefixes and suffixes of others
            let strs: Vec<Vec<u8>> = ts.tokens.iter().filter_map(|t| if let Token::Str(s) = t { if s.iter().all(|b| alpha.contains(b)) { Some(s.clone()) } else { None } } else { None }).collect();
            let mut s = Vec::new();
            if !strs.is_empty() {
                for _ in 0..2 {
                    if max_len > 9 && rng.chance(1, 2) {
                        s.extend_from_slice(strs.iter().max_by_key(|s| s.len()).unwrap());
                    } else {
                        s.extend_from_slice(rng.pick(&strs));
                    }
                }
            }
            s
        } else {
            random_string(rng, alpha, 2, 5)
        };
        s.truncate(max_len);
        if s.len() < 2 || has(&ts, &s) {
            continue;
        }
        if rng.chance(1, 6) {
            let n = if rng.chance(1, 6) { rng.range(5, 40) } else { rng.range(1, 4) };
            let m = ts.tokens.len();
            let toks = (0..n).map(|_| rng.below(m)).collect();
            ts.add_sequence(s, toks);
        } else {
            ts.add_token(&s);
        }
    }
    ts
}

/// Strings encoded, with the meaning of the encoding.
pub fn spelled(ts: &TokenSet) -> Vec<(Vec<u8>, Vec<Token>)> {
    ts.sequences.iter().map(|q: &Sequence| (q.string.clone(), q.tokens.iter().map(|&i| ts.tokens[i].clone()).collect())).collect()
}

/// Every byte has exactly one encoding, all encodings distinct.
pub fn check_bytes_encoded(ts: &TokenSet) -> Result<(), String> {
    let mut n = [0usize; 256];
    let mut encs: Vec<(Vec<usize>, u8)> = Vec::new();
    for (i, t) in ts.tokens.iter().enumerate() {
        if let Token::Str(s) = t {
            if s.len() == 1 {
                n[s[0] as usize] += 1;
                encs.push((vec![i], s[0]));
            }
        }
    }
    for q in &ts.sequences {
        if q.string.len() != 1 {
            return Err(format!("fallback sequence for {:?}", q.string));
        }
        n[q.string[0] as usize] += 1;
        if q.tokens.is_empty() || q.tokens.iter().any(|&t| t >= ts.tokens.len()) {
            return Err(format!("bad sequence {:?}", q));
        }
        encs.push((q.tokens.clone(), q.string[0]));
    }
    for b in 0..256 {
        if n[b] != 1 {
            return Err(format!("byte {} has {} encodings", b, n[b]));
        }
    }
    encs.sort();
    for w in encs.windows(2) {
        if w[0].0 == w[1].0 {
            return Err(format!("bytes {} and {} share the encoding {:?}", w[0].1, w[1].1, w[0].0));
        }
    }
    Ok(())
}
pub fn long_tokens(ts: &TokenSet) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ts.tokens.iter().filter_map(|t| match t { Token::Str(s) if s.len() > 1 => Some(s.clone()), _ => None }).collect();
    v.sort();
    v
}
/// As a set: token list, and sequences by meaning.
pub fn meaning(ts: &TokenSet) -> (Vec<String>, Vec<(Vec<u8>, Vec<String>)>) {
    let mut t: Vec<String> = ts.tokens.iter().map(|t| format!("{:?}", t)).collect();
    t.sort();
    let mut q: Vec<(Vec<u8>, Vec<String>)> = spelled(ts).into_iter().map(|(s, v)| (s, v.iter().map(|t| format!("{:?}", t)).collect())).collect();
    q.sort();
    (t, q)
}
