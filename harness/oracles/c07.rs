use crate::input::file_sampler::FileSampler;
use crate::input::sample::Sampler;
use crate::vxc::*;
use crate::vxin::{collect, text};

fn whole(s: &FileSampler, t: &[u8]) -> Result<(), String> {
    if s.total_size() != t.len() as u64 {
        return Err(format!("total size {} of a file of {} bytes", s.total_size(), t.len()));
    }
    collect(s, t)
}

pub fn main() {
    let mut run = Run::new("C07");
    let mut rng = run.rng(7);
    let file = run.scratch.join("data.txt");
    let alpha = ["a", "\n", "é", "中", "😀"];
    let maxlen = run.n(4, 5);
    for len in 0..=maxlen {
        let total = alpha.len().pow(len as u32);
        for k in 0..total {
            let mut x = k;
            let mut t = String::new();
            for _ in 0..len {
                t.push_str(alpha[x % 5]);
                x /= 5;
            }
            std::fs::write(&file, &t).unwrap();
            run.case("every text over 5 characters, sample sizes 4..=9", || format!("file {:?}", t), || {
                for size in 4..=9 {
                    let s = FileSampler::new(file.to_str().unwrap(), size, None);
                    whole(&s, t.as_bytes()).map_err(|m| format!("sample size {}: {}", size, m))?;
                }
                Ok(())
            });
        }
    }
    for _ in 0..run.n(2500, 100000) {
        if !run.time_left() {
            break;
        }
        let max = *rng.pick(&[20, 60, 300, 5000, 40000]);
        let t = text(&mut rng, max);
        let size = match rng.below(5) {
            0 => rng.range(4, 8),
            1 => t.len().max(4),
            2 => t.len() + 5,
            3 => (t.len() / 2).max(4),
            _ => rng.range(4, 100),
        };
        std::fs::write(&file, &t).unwrap();
        run.case("random", || format!("file {:?} sample size {}", t, size), || {
            let s = FileSampler::new(file.to_str().unwrap(), size, None);
            whole(&s, t.as_bytes())
        });
    }
    run.finish();
}
