use crate::input::memory_sampler::MemorySampler;
use crate::input::sample::Sampler;
use crate::vxc::*;

pub fn text(rng: &mut Rng, max: usize) -> String {
    let n = rng.range(0, max);
    let mut t = String::new();
    let style = rng.below(4);
    while t.len() < n {
        match (style, rng.below(8)) {
            (0, _) => t.push(*rng.pick(&['a', 'é', '中', '😀', '\n'])),
            (1, 0..=3) => t.push_str("\n\n"),
            (2, _) => t.push(*rng.pick(&['中', '😀'])),
            (_, 0) => t.push_str(*rng.pick(&["\n", "\n\n", "\n\n\n", "\r\n"])),
            (_, 1) => t.push(*rng.pick(&['é', '中', '😀', '\u{10ffff}', '\u{0}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}'])),
            _ => t.push((b'a' + rng.below(4) as u8) as char),
        }
    }
    t
}

pub fn collect<'a, S: Sampler<'a>>(s: &'a S, want: &[u8]) -> Result<(), String> {
    let mut got = Vec::new();
    let mut n = 0;
    for p in s.iter() {
        n += 1;
        if p.as_bytes().is_empty() {
            return Err(format!("sample {} is empty", n));
        }
        if p.as_bytes() != p.as_str().as_bytes() {
            return Err("as_str and as_bytes differ".into());
        }
        got.extend_from_slice(p.as_bytes());
        if got.len() > want.len() + 16 {
            return Err("more bytes handed out than the data has".into());
        }
    }
    if got != want {
        let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        return Err(format!("samples give {} bytes, the data has {}; first difference at byte {}", got.len(), want.len(), k));
    }
    Ok(())
}

pub fn main() {
    let mut run = Run::new("C06");
    let mut rng = run.rng(6);
    // all short texts over characters of every length, all small chunk sizes
    let alpha = ["a", "\n", "é", "中", "😀"];
    let maxlen = run.n(5, 7);
    for len in 0..=maxlen {
        let total = alpha.len().pow(len as u32);
        for base in (0..total).step_by(500) {
            run.case("every text over 5 characters, chunk sizes 4..=9", || format!("texts {}..{} of length {}", base, base + 500, len), || {
                for k in base..(base + 500).min(total) {
                    let mut x = k;
                    let mut t = String::new();
                    for _ in 0..len {
                        t.push_str(alpha[x % 5]);
                        x /= 5;
                    }
                    for chunk in 4..=9 {
                        let s = MemorySampler::from_str(&t, chunk);
                        if s.total_size() != t.len() as u64 {
                            return Err(format!("text {:?}: total size {}", t, s.total_size()));
                        }
                        collect(&s, t.as_bytes()).map_err(|m| format!("text {:?} chunk {}: {}", t, chunk, m))?;
                    }
                }
                Ok(())
            });
        }
    }
    let file = run.scratch.join("data.txt");
    for i in 0..run.n(6000, 400000) {
        if !run.time_left() {
            break;
        }
        let max = *rng.pick(&[20, 60, 300, 5000]);
        let t = text(&mut rng, max);
        let chunk = match rng.below(5) {
            0 => rng.range(4, 8),
            1 => t.len().max(4),
            2 => t.len() + 5,
            3 => (t.len() / 2).max(4),
            _ => rng.range(4, 100),
        };
        let from_file = i % 6 == 0;
        run.case(if from_file { "random, from a file" } else { "random, from a string" }, || format!("text {:?} chunk size {}", t, chunk), || {
            let s = if from_file {
                std::fs::write(&file, &t).unwrap();
                MemorySampler::from_file(file.to_str().unwrap(), chunk)
            } else {
                MemorySampler::from_str(&t, chunk)
            };
            if s.total_size() != t.len() as u64 {
                return Err(format!("total size {} for {} bytes", s.total_size(), t.len()));
            }
            collect(&s, t.as_bytes())
        });
    }
    run.finish();
}
