use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::vxc::*;
use crate::vxtk::*;

pub fn main() {
    let mut run = Run::new("C03");
    let mut rng = run.rng(3);
    let alphas: [&[u8]; 4] = [b"ab", b"abc", b"aab\n", &[b'a', 0xc3, 0xa9, 0, 255]];
    for i in 0..run.n(8, 80) {
        let (ts, data) = unusual(&mut rng, i % 4 == 0);
        let ps = pieces(&ts);
        run.case("very long tokens, thousands of tokens", || format!("{} tokens, the longest of {} bytes; input {:?}", ts.tokens.len(), ps.iter().map(|p| p.s.len()).max().unwrap(), String::from_utf8_lossy(&data)), || {
            let mut stats = TokenStats::new(ts.clone(), None);
            FragmentTokenizer::new(ts.clone()).process_slice(&data, &mut stats, &mut Vec::new());
            let want = min_cost(&ps, &data);
            if stats.total_tokens != want { Err(format!("{} tokens, the minimum is {}", stats.total_tokens, want)) } else { Ok(()) }
        });
    }
    let sets = run.n(250, 8000);
    for i in 0..sets {
        if !run.time_left() {
            break;
        }
        let alpha: &[u8] = alphas[rng.below(4)];
        let (n, ml) = [(10, 9), (10, 9), (30, 9), (20, 40), (20, 100)][if i % 8 == 7 { rng.range(3, 4) } else { rng.below(3) }];
        let ts = random_set_len(&mut rng, alpha, n, ml);
        let ps = pieces(&ts);
        let multi: Vec<&Piece> = ps.iter().filter(|p| p.s.len() > 1).collect();
        let mut tk = None;
        run.case("tokenizer construction", || show(&ts), || {
            tk = Some(FragmentTokenizer::new(ts.clone()));
            Ok(())
        });
        let tk = tk.unwrap();
        let mut buffer = Vec::new();
        let mut stats = TokenStats::new(ts.clone(), None);
        for j in 0..40 {
            let (lo, hi) = if j % 10 == 9 { (100, 2000) } else { (0, 14) };
            let mut data = random_string(&mut rng, alpha, lo, hi);
            if rng.chance(1, 8) {
                let any: Vec<u8> = (0..=255).collect();
                data.extend(random_string(&mut rng, &any, 0, 6));
            }
            if j % 4 == 1 && !multi.is_empty() {
                // pieces of tokens: their beginnings, ends and overlaps
                data.clear();
                for _ in 0..rng.range(1, 5) {
                    let p = &rng.pick(&multi).s;
                    let a = if rng.chance(1, 2) { 0 } else { rng.below(p.len()) };
                    let b = if rng.chance(1, 2) { p.len() } else { rng.range(a, p.len()) };
                    data.extend_from_slice(&p[a..b]);
                }
            }
            let bucket = if lo > 0 { "long inputs" } else { "short inputs" };
            run.case(bucket, || format!("set {} input {:?} (number {} of set {})", show(&ts), String::from_utf8_lossy(&data), j, i), || {
                let before = stats.total_tokens;
                tk.process_slice(&data, &mut stats, &mut buffer);
                let got = stats.total_tokens - before;
                let want = min_cost(&ps, &data);
                if got != want { Err(format!("{} tokens, the minimum is {}", got, want)) } else { Ok(()) }
            });
        }
    }
    run.finish();
}
