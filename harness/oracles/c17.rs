// Runs the real command line program (built from /repo) with a growing sample.
use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::tokenset::TokenSet;
use crate::vxc::*;
use std::process::{Command, Stdio};

pub fn main() {
    let mut run = Run::new("C17");
    let mut rng = run.rng(17);
    let exe = std::env::var("VX_TEXMO").expect("VX_TEXMO");
    let data = run.scratch.join("data.txt");
    let out = run.scratch.join("out");
    std::fs::create_dir_all(&out).unwrap();
    let rounds = run.n(60, 1500);
    let big_every = if run.thorough { 60 } else { 30 };
    for i in 0..rounds {
        if !run.time_left() {
            break;
        }
        // large data exercises the early stop (samples above 16 MiB)
        let big = i % big_every == 5;
        let words = ["alpha ", "beta ", "gamma\n", "delta\n\n", "x\n\n", "é"];
        let len = if big { (1 << 25) + rng.below(1 << 20) } else { *rng.pick(&[1, 5, 20, 100, 400]) };
        let len = if big { len } else { rng.range(1, len) };
        let mut t = String::with_capacity(len + 10);
        while t.len() < len {
            t.push_str(rng.pick::<&str>(&words));
        }
        std::fs::write(&data, &t).unwrap();
        let full = t.len();
        let min = if big {
            *rng.pick(&[(1 << 24) + 1, (1 << 24), (1 << 25) - 1000])
        } else {
            match rng.below(6) { 5 => 0, 0 => 1, 1 => full, 2 => full + 1, 3 => full * 3, _ => rng.range(1, full) }
        };
        let (ty, n) = *rng.pick(&[("bits1", 2usize), ("bits1", 4), ("bits2", 4), ("bits2", 6), ("bits4", 17)]);
        let (ty, n) = if big { ("bits4", 16) } else { (ty, n) };
        run.case(if big { "above 32 MiB" } else { "small data" }, || format!("optimize --type {} -n {} --min-data-size {} on {} bytes: {:?}", ty, n, min, full, trunc(&t[..t.len().min(300).min(t.char_indices().map(|x| x.0).take(250).last().unwrap_or(0))])), || {
            for e in std::fs::read_dir(&out).unwrap() {
                std::fs::remove_file(e.unwrap().path()).unwrap();
            }
            let mut child = Command::new(&exe)
                .args(["optimize", "-d", data.to_str().unwrap(), "-t", out.to_str().unwrap(), "--type", ty, "-p", "raw", "-n", &n.to_string(), "--min-data-size", &min.to_string()])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            let t0 = std::time::Instant::now();
            let st = loop {
                if let Some(s) = child.try_wait().unwrap() {
                    break s;
                }
                if t0.elapsed().as_secs() > (if big { 100 } else { 20 }) {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err("the command did not end in time".into());
                }
                std::thread::sleep(std::time::Duration::from_millis(2));
            };
            if !st.success() {
                return Err(format!("the command ended with {}", st));
            }
            let files: Vec<_> = std::fs::read_dir(&out).unwrap().map(|e| e.unwrap().path()).collect();
            if files.len() != 1 {
                return Err(format!("{} files saved", files.len()));
            }
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&files[0]).unwrap()).unwrap();
            let ts = TokenSet::from_json(v.clone());
            if ts.ntokens() > n {
                return Err(format!("{} tokens for a budget of {}", ts.ntokens(), n));
            }
            if v["stats"]["scanned_bytes"].as_u64() != Some(full as u64) {
                return Err(format!("saved statistics cover {} bytes of {}", v["stats"]["scanned_bytes"], full));
            }
            if !big {
                let tk = FragmentTokenizer::new(ts.clone());
                let mut st = TokenStats::new(ts.clone(), None);
                tk.process_slice(t.as_bytes(), &mut st, &mut Vec::new());
                // small data is one sample
                if v["stats"]["total_tokens"].as_u64() != Some(st.total_tokens) {
                    return Err(format!("saved token total {}, the saved set needs {}", v["stats"]["total_tokens"], st.total_tokens));
                }
            }
            Ok(())
        });
    }
    run.finish();
}
