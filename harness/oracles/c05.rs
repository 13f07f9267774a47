use crate::batch_tokenize::{tokenize_file, tokenize_file_sync};
use crate::input::sample::{Sample, Sampler};
use crate::stats2::TokenStats;
use crate::vxc::*;
use crate::vxtk::*;

/// Samples given one by one, with a chosen reported size and random delays.
struct Fake {
    parts: Vec<String>,
    size: u64,
    delay: u64,
}
struct FakeIter<'a> {
    s: &'a Fake,
    i: usize,
    rng: Rng,
}
impl<'a> Iterator for FakeIter<'a> {
    type Item = Sample<'a>;
    fn next(&mut self) -> Option<Sample<'a>> {
        if self.i < self.s.parts.len() {
            if self.s.delay > 0 && self.rng.chance(1, 4) {
                std::thread::sleep(std::time::Duration::from_micros(self.rng.next() % self.s.delay));
            }
            self.i += 1;
            Some(Sample::Ref(&self.s.parts[self.i - 1]))
        } else {
            None
        }
    }
}
impl<'a> Sampler<'a> for Fake {
    type Iter = FakeIter<'a>;
    fn iter(&'a self) -> FakeIter<'a> {
        FakeIter { s: self, i: 0, rng: Rng::new(self.delay) }
    }
    fn total_size(&'a self) -> u64 {
        self.size
    }
}

pub fn main() {
    let mut run = Run::new("C05");
    let mut rng = run.rng(5);
    let rounds = run.n(250, 6000);
    for i in 0..rounds {
        if !run.time_left() {
            break;
        }
        let alpha: &[u8] = b"abc";
        let ts = random_set(&mut rng, alpha, 8);
        let nparts = match i % 5 { 0 => rng.range(0, 3), 1 => rng.range(200, 600), _ => rng.range(4, 60) };
        let parts: Vec<String> = (0..nparts).map(|_| String::from_utf8(random_string(&mut rng, alpha, 1, 40)).unwrap()).collect();
        let delay = if i % 3 == 0 { rng.next() % 400 } else { 0 };
        let small = Fake { parts: parts.clone(), size: 1, delay: 0 };
        let large = Fake { parts: parts.clone(), size: 1 << 40, delay };
        let init = if rng.chance(1, 2) { Some(rng.next() % 1000) } else { None };
        run.case("threaded against sequential", || format!("set {} with {} samples, delay {}", show(&ts), nparts, delay), || {
            let a = tokenize_file(&ts, &large, init);
            let b = tokenize_file(&ts, &small, init);
            let c = tokenize_file_sync(&ts, &small, init);
            if counts_of(&a) != counts_of(&b) || counts_of(&b) != counts_of(&c) {
                return Err(format!("threaded {} tokens {} bytes, sequential {} tokens {} bytes", a.total_tokens, a.scanned_bytes, c.total_tokens, c.scanned_bytes));
            }
            if a.initial_size != init || c.initial_size != init || b.initial_size != init {
                return Err("initial size lost".into());
            }
            let bytes: usize = parts.iter().map(|p| p.len()).sum();
            if a.scanned_bytes != bytes as u64 {
                return Err(format!("{} bytes scanned, the data has {}", a.scanned_bytes, bytes));
            }
            // every sample is counted once
            let ps = pieces(&ts);
            let want: u64 = parts.iter().map(|p| min_cost(&ps, p.as_bytes())).sum();
            if a.total_tokens != want {
                return Err(format!("{} tokens, samples one by one need {}", a.total_tokens, want));
            }
            Ok(())
        });
        run.case("merge", || format!("merge of random statistics for {}", show(&ts)), || {
            let mut a = TokenStats::new(ts.clone(), Some(7));
            let mut b = TokenStats::new(ts.clone(), None);
            for s in [&mut a, &mut b] {
                s.total_tokens = rng.next() >> 8;
                s.scanned_bytes = rng.next() >> 8;
                for v in [&mut s.token_counts, &mut s.seq_counts, &mut s.pair_counts] {
                    for x in v.iter_mut() {
                        *x = rng.next() >> 8;
                    }
                }
            }
            let want = add_counts(&counts_of(&a), &counts_of(&b));
            let lens = (a.token_counts.len(), a.seq_counts.len(), a.pair_counts.len());
            let b2 = counts_of(&b);
            a.merge(&b);
            if counts_of(&a) != want || a.initial_size != Some(7) || (a.token_counts.len(), a.seq_counts.len(), a.pair_counts.len()) != lens {
                return Err("merged counters are not the sums".into());
            }
            if counts_of(&b) != b2 {
                return Err("the merged-in statistics changed".into());
            }
            Ok(())
        });
    }
    run.finish();
}
