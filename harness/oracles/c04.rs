use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::vxc::*;
use crate::vxtk::*;

/// All covers of minimal... of any cost, as counts; gives up above `limit`.
fn covers(ts: &crate::tokenset::TokenSet, ps: &[Piece], data: &[u8], limit: usize) -> Option<Vec<Counts>> {
    fn go<'a>(ps: &'a [Piece], data: &[u8], pos: usize, cur: &mut Vec<&'a Piece>, out: &mut Vec<Vec<&'a Piece>>, limit: usize) -> bool {
        if pos == data.len() {
            out.push(cur.clone());
            return out.len() <= limit;
        }
        for p in ps {
            if data[pos..].starts_with(&p.s) {
                cur.push(p);
                if !go(ps, data, pos + p.s.len(), cur, out, limit) {
                    return false;
                }
                cur.pop();
            }
        }
        true
    }
    let mut out = Vec::new();
    if !go(ps, data, 0, &mut Vec::new(), &mut out, limit) {
        return None;
    }
    Some(out.iter().map(|c| cover_counts(ts, c, data.len())).collect())
}

pub fn main() {
    let mut run = Run::new("C04");
    let mut rng = run.rng(4);
    let alphas: [&[u8]; 4] = [b"ab", b"abc", b"aab\n", &[b'a', 0xc3, 0xa9, 0, 255]];
    for i in 0..run.n(8, 80) {
        let (ts, data) = unusual(&mut rng, i % 4 == 0);
        let ps = pieces(&ts);
        run.case("very long tokens, thousands of tokens", || format!("{} tokens, the longest of {} bytes; input {:?}", ts.tokens.len(), ps.iter().map(|p| p.s.len()).max().unwrap(), String::from_utf8_lossy(&data)), || {
            let mut stats = TokenStats::new(ts.clone(), None);
            FragmentTokenizer::new(ts.clone()).process_slice(&data, &mut stats, &mut Vec::new());
            let f = counts_of(&stats);
            if f.tokens.iter().sum::<u64>() != f.total || f.total != min_cost(&ps, &data) || f.bytes != data.len() as u64 {
                return Err(format!("token counts add up to {}, total is {}, the minimum {}; {} bytes of {} counted", f.tokens.iter().sum::<u64>(), f.total, min_cost(&ps, &data), f.bytes, data.len()));
            }
            match unique_cover(&ps, &data) {
                Some(c) if cover_counts(&ts, &c, data.len()) != f => Err("these are not the counts of the one cheapest cover".into()),
                _ => Ok(()),
            }
        });
    }
    let sets = run.n(250, 8000);
    for i in 0..sets {
        if !run.time_left() {
            break;
        }
        let alpha: &[u8] = alphas[rng.below(4)];
        let ts = random_set(&mut rng, alpha, 8);
        let ps = pieces(&ts);
        let mut built = None;
        run.case("tokenizer construction", || show(&ts), || {
            built = Some((FragmentTokenizer::new(ts.clone()), TokenStats::new(ts.clone(), None)));
            Ok(())
        });
        let (tk, mut stats) = built.unwrap();
        let mut buffer = Vec::new();
        let mut known = counts_of(&stats);
        for j in 0..25 {
            let long = j % 8 == 7;
            let data = if long { random_string(&mut rng, alpha, 50, 800) } else { random_string(&mut rng, alpha, 0, 8) };
            run.case(if long { "long inputs: totals and additivity" } else { "short inputs: all covers enumerated" }, || format!("set {} input {:?} (number {} into the same statistics, set {})", show(&ts), String::from_utf8_lossy(&data), j, i), || {
                tk.process_slice(&data, &mut stats, &mut buffer);
                let now = counts_of(&stats);
                // increments of this input alone, from fresh statistics
                let mut fresh = TokenStats::new(ts.clone(), None);
                tk.process_slice(&data, &mut fresh, &mut buffer);
                let f = counts_of(&fresh);
                if add_counts(&known, &f) != now {
                    return Err("counts after the input are not counts before plus the counts of the input".into());
                }
                if f.bytes != data.len() as u64 {
                    return Err(format!("{} bytes counted for an input of {}", f.bytes, data.len()));
                }
                if f.tokens.iter().sum::<u64>() != f.total {
                    return Err(format!("token counts add up to {}, total is {}", f.tokens.iter().sum::<u64>(), f.total));
                }
                let mut direct = f.tokens.clone();
                let mut covered = 0u64;
                for (k, q) in ts.sequences.iter().enumerate() {
                    covered += f.seqs[k] * q.string.len() as u64;
                    for &t in &q.tokens {
                        if direct[t] < f.seqs[k] {
                            return Err("a sequence is counted more often than its tokens".into());
                        }
                        direct[t] -= f.seqs[k];
                    }
                }
                for (k, t) in ts.tokens.iter().enumerate() {
                    match t {
                        crate::tokenset::Token::Str(s) => covered += direct[k] * s.len() as u64,
                        _ => {
                            if direct[k] != 0 {
                                return Err("an extension token is counted outside a sequence".into());
                            }
                        }
                    }
                }
                if covered != data.len() as u64 {
                    return Err(format!("the counted pieces cover {} bytes of {}", covered, data.len()));
                }
                if !long {
                    if let Some(cs) = covers(&ts, &ps, &data, 20000) {
                        if !cs.contains(&f) {
                            return Err(format!("no cover of the input has these counts: {:?}", f));
                        }
                    }
                }
                if long && f.total == min_cost(&ps, &data) {
                    if let Some(c) = unique_cover(&ps, &data) {
                        if cover_counts(&ts, &c, data.len()) != f {
                            return Err("these are not the counts of the one cheapest cover".into());
                        }
                    }
                }
                known = now;
                Ok(())
            });
        }
    }
    run.finish();
}
