use crate::input::memory_sampler::MemorySampler;
use crate::input::sample::Sampler;
use crate::vxc::*;

/// A paragraph ends before a line that is not blank and follows two line feeds.
fn paragraphs(d: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    for &b in d {
        if b != b'\n' && cur.ends_with(b"\n\n") {
            v.push(std::mem::take(&mut cur));
        }
        cur.push(b);
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

/// Whether `got` is a concatenation of a subsequence of the paragraphs.
fn subsequence(ps: &[Vec<u8>], got: &[u8]) -> bool {
    // reach[j]: got[..j] can be made from the paragraphs so far
    let mut reach = vec![false; got.len() + 1];
    reach[0] = true;
    for p in ps {
        for j in (0..=got.len()).rev() {
            if reach[j] && got[j..].starts_with(p) {
                reach[j + p.len()] = true;
            }
        }
    }
    reach[got.len()]
}

pub fn main() {
    let mut run = Run::new("C16");
    let mut rng = run.rng(16);
    let file = run.scratch.join("data.txt");
    for i in 0..run.n(5000, 200000) {
        if !run.time_left() {
            break;
        }
        let mut t = String::new();
        let n = if i % 50 == 0 { 3000 } else { rng.range(1, 60) };
        let labelled = rng.chance(1, 2);
        let mut p = 0;
        while t.len() < n {
            if labelled {
                p += 1;
                t.push_str(&format!("p{}", p));
                if rng.chance(1, 3) {
                    t.push_str("\nline");
                }
                t.push_str(*rng.pick(&["\n", "\n\n", "\n\n\n", "\n\n\n\n", " \n\n"]));
            } else {
                t.push(*rng.pick(&['a', 'b', '\n', '\n', '\n']));
            }
        }
        if rng.chance(1, 4) {
            t.push_str("end");
        }
        let size = match rng.below(5) {
            0 => rng.range(1, 5),
            1 => t.len(),
            2 => t.len() + rng.range(1, 50),
            _ => rng.range(1, t.len()),
        };
        std::fs::write(&file, &t).unwrap();
        run.case("random files", || format!("file {:?} requested size {}", t, size), || {
            let s = MemorySampler::sample_from_file(file.to_str().unwrap(), size, 1 << 20);
            let mut got = Vec::new();
            for x in s.iter() {
                got.extend_from_slice(x.as_bytes());
            }
            if s.total_size() != got.len() as u64 {
                return Err(format!("total size {} for {} bytes", s.total_size(), got.len()));
            }
            if got.is_empty() {
                return Err("the subsample is empty".into());
            }
            if !subsequence(&paragraphs(t.as_bytes()), &got) {
                return Err(format!("the subsample {:?} is not made of whole paragraphs in order", String::from_utf8_lossy(&got)));
            }
            Ok(())
        });
    }
    run.finish();
}
