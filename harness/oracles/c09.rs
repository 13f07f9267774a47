use crate::tokenset::{Token, TokenSet};
use crate::vxc::*;
use crate::vxtk::*;

fn header(a: &TokenSet) -> String {
    format!("{} {:?} {:?} {}", a.n_ext_tokens, a.token_type, a.processing, a.split_paragraphs)
}

fn key(t: &Token) -> (u8, u8, Vec<u8>) {
    match t {
        Token::Ext(x) => (0, *x, vec![]),
        Token::Str(s) => (1, 0, s.clone()),
    }
}

pub fn main() {
    let mut run = Run::new("C09");
    let mut rng = run.rng(9);
    for _ in 0..run.n(1500, 60000) {
        if !run.time_left() {
            break;
        }
        let alpha: &[u8] = b"abc\xff";
        let mut ts = random_set(&mut rng, alpha, 10);
        let mut history = Vec::new();
        let start = show(&ts);
        for _ in 0..rng.range(1, 14) {
            let before = ts.clone();
            match rng.below(5) {
                0 | 1 => {
                    let mut s = random_string(&mut rng, alpha, 1, 4);
                    if rng.chance(1, 3) && !ts.sequences.is_empty() {
                        s = rng.pick(&ts.sequences).string.clone();
                    }
                    if ts.tokens.iter().any(|t| matches!(t, Token::Str(x) if *x == s)) {
                        continue;
                    }
                    history.push(format!("add {:?}", s));
                    run.case("add", || format!("{} then {:?}", start, history), || {
                        let idx = ts.add_token(&s);
                        if header(&ts) != header(&before) {
                            return Err("header changed".into());
                        }
                        if idx != before.tokens.len() || ts.tokens.len() != idx + 1 || ts.tokens[..idx] != before.tokens[..] || ts.tokens[idx] != Token::Str(s.clone()) {
                            return Err(format!("tokens after adding: {}", show(&ts)));
                        }
                        let want: Vec<_> = before.sequences.iter().filter(|q| q.string != s).cloned().collect();
                        if ts.sequences != want {
                            return Err("other fallback sequences changed".into());
                        }
                        if ts.find_token(&s) != Some(idx) {
                            return Err("the new token is not found".into());
                        }
                        Ok(())
                    });
                }
                2 | 3 => {
                    let cand: Vec<usize> = (0..ts.tokens.len()).filter(|i| !ts.sequences.iter().any(|q| q.tokens.contains(i)) && matches!(ts.tokens[*i], Token::Str(_))).collect();
                    if cand.is_empty() {
                        continue;
                    }
                    let i = *rng.pick(&cand);
                    history.push(format!("remove token {}", i));
                    run.case("remove", || format!("{} then {:?}", start, history), || {
                        ts.remove_token(i);
                        if header(&ts) != header(&before) {
                            return Err("header changed".into());
                        }
                        let mut want: Vec<_> = before.tokens.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, t)| key(t)).collect();
                        let mut got: Vec<_> = ts.tokens.iter().map(key).collect();
                        want.sort();
                        got.sort();
                        if want != got {
                            return Err("the remaining tokens differ".into());
                        }
                        if spelled(&ts) != spelled(&before) {
                            return Err(format!("fallback sequences spell differently: {}", show(&ts)));
                        }
                        Ok(())
                    });
                }
                _ => {
                    // scramble first, so that there is something to sort
                    if rng.chance(1, 2) {
                        let n = ts.tokens.len();
                        let mut p: Vec<usize> = (0..n).collect();
                        rng.shuffle(&mut p);
                        let old = ts.tokens.clone();
                        let mut inv = vec![0; n];
                        for (new, &o) in p.iter().enumerate() {
                            ts.tokens[new] = old[o].clone();
                            inv[o] = new;
                        }
                        for q in ts.sequences.iter_mut() {
                            for t in q.tokens.iter_mut() {
                                *t = inv[*t];
                            }
                        }
                        rng.shuffle(&mut ts.sequences);
                        history.push(format!("scramble {:?}", p));
                    }
                    let before = ts.clone();
                    history.push("sort".into());
                    run.case("sort", || format!("{} then {:?}", start, history), || {
                        ts.sort();
                        if header(&ts) != header(&before) {
                            return Err("header changed".into());
                        }
                        let mut want: Vec<_> = before.tokens.iter().map(key).collect();
                        let got: Vec<_> = ts.tokens.iter().map(key).collect();
                        want.sort();
                        if want != got {
                            return Err("tokens are not the old ones in ascending order".into());
                        }
                        let mut want: Vec<_> = spelled(&before);
                        want.sort_by(|a, b| a.0.cmp(&b.0));
                        if spelled(&ts) != want {
                            return Err(format!("fallback sequences are not the old ones in ascending order: {}", show(&ts)));
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    run.finish();
}
