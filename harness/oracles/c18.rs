// Runs the real command line program (built from /repo): process, convert-tokens, optimize.
use crate::processing::{process, Processing};
use crate::tokenset::{TokenSet, TokenType};
use crate::vxc::*;
use crate::vxtk::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// the processed form of every line, each followed by a line feed
fn processed_form(text: &str) -> String {
    let mut lines: Vec<&str> = text.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    lines.iter().map(|l| process(l) + "\n").collect()
}

fn call(exe: &str, args: &[&str]) -> Result<(), String> {
    let mut child = Command::new(exe).args(args).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t0 = std::time::Instant::now();
    loop {
        if let Some(s) = child.try_wait().unwrap() {
            return if s.success() { Ok(()) } else { Err(format!("the command ended with {}", s)) };
        }
        if t0.elapsed().as_secs() > 60 {
            let _ = child.kill();
            let _ = child.wait();
            return Err("the command did not end within 60 s".into());
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}

fn text(rng: &mut Rng, len: usize) -> String {
    let words = ["alpha", "Beta ", "GAMMA\n", " delta", "\n\n", " ", "x\n\n", "éÉ", "1,", ".", " Hello", "WORLD ", "a B c"];
    let mut t = String::new();
    while t.len() < len {
        t.push_str(rng.pick::<&str>(&words));
    }
    t
}

fn type_arg(t: TokenType) -> &'static str {
    match t {
        TokenType::Bits1 => "bits1",
        TokenType::Bits2 => "bits2",
        TokenType::Bits4 => "bits4",
        TokenType::Bytes => "bytes",
        TokenType::BytesHuff => "bytes-huff",
    }
}

fn file_name(ts: &TokenSet) -> String {
    let p = match ts.processing {
        Processing::Raw => "raw",
        Processing::CapsWords => "capswords",
    };
    format!("tokens{}_{}_{}.json", ts.ntokens(), p, type_arg(ts.token_type).replace('-', ""))
}

/// The one file in `dir`; its statistics have to be those of the text.
fn saved(dir: &Path, text: &str, raw_size: usize) -> Result<TokenSet, String> {
    let files: Vec<PathBuf> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    if files.len() != 1 {
        return Err(format!("{} files in the directory for token sets: {:?}", files.len(), files));
    }
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&files[0]).map_err(|e| e.to_string())?).map_err(|e| format!("the saved file is not JSON: {}", e))?;
    let ts = TokenSet::from_json(v.clone());
    let name = files[0].file_name().unwrap().to_str().unwrap().to_string();
    if name != file_name(&ts) {
        return Err(format!("saved as {} where the set in it is called {}", name, file_name(&ts)));
    }
    let st = &v["stats"];
    // a text below 1 MiB is one sample
    let total = min_cost(&pieces(&ts), text.as_bytes());
    for (k, want) in [("ntokens", ts.ntokens() as u64), ("total_tokens", total), ("scanned_bytes", text.len() as u64), ("initial_size", raw_size as u64)] {
        if st[k].as_u64() != Some(want) {
            return Err(format!("saved {} is {}, where it is {} for the text to tokenize ({} bytes; the data file has {})", k, st[k], want, text.len(), raw_size));
        }
    }
    if total > 0 {
        let want = raw_size as f64 / total as f64;
        if !st["bytes_per_token"].as_f64().map_or(false, |x| (x - want).abs() <= 1e-9 * want) {
            return Err(format!("saved bytes_per_token is {}, {} bytes of data are {} tokens", st["bytes_per_token"], raw_size, total));
        }
    }
    Ok(ts)
}

pub fn main() {
    let mut run = Run::new("C18");
    let mut rng = run.rng(18);
    let exe = std::env::var("VX_TEXMO").expect("VX_TEXMO");
    let raw = run.scratch.join("data.txt");
    let pro = run.scratch.join("processed.txt");
    let tokens = run.scratch.join("tokens.json");
    let out = run.scratch.join("out");
    let done = run.scratch.join("done.txt");
    std::fs::create_dir_all(&out).unwrap();
    let (rawa, proa, toka, outa, donea) = (raw.to_str().unwrap(), pro.to_str().unwrap(), tokens.to_str().unwrap(), out.to_str().unwrap(), done.to_str().unwrap());
    let rounds = run.n(180, 6000);
    for i in 0..rounds {
        if !run.time_left() {
            break;
        }
        let len = *rng.pick(&[0, 1, 5, 30, 100, 300]);
        let len = rng.range(0, len);
        let t = text(&mut rng, len);
        std::fs::write(&raw, &t).unwrap();
        // what the user says is the processed data need not be what the program would make of it
        let mut given = processed_form(&t);
        if rng.chance(1, 2) {
            given.push_str(&text(&mut rng, 20));
        }
        std::fs::write(&pro, &given).unwrap();
        for e in std::fs::read_dir(&out).unwrap() {
            std::fs::remove_file(e.unwrap().path()).unwrap();
        }
        let mode = processing(&mut rng);
        let with_processed = rng.chance(1, 2);
        let which = |p: Processing| match p {
            Processing::Raw => t.clone(),
            Processing::CapsWords if with_processed => given.clone(),
            Processing::CapsWords => processed_form(&t),
        };
        let same = |before: &[u8]| -> Result<(), String> {
            if std::fs::read(&raw).unwrap() != t.as_bytes() {
                return Err("the data file was changed".into());
            }
            if std::fs::read(&pro).unwrap() != given.as_bytes() {
                return Err("the processed data file was changed".into());
            }
            if !before.is_empty() && std::fs::read(&tokens).unwrap() != before {
                return Err("the file with the input token set was changed".into());
            }
            Ok(())
        };
        let ask = |args: &[&str]| {
            let mut v: Vec<String> = args.iter().map(|s| s.to_string()).collect();
            if with_processed {
                v.extend(["--processed-data".to_string(), proa.to_string()]);
            }
            v
        };
        match i % 3 {
            0 => {
                // the output file may be there already, and longer
                let _ = std::fs::remove_file(&done);
                if rng.chance(1, 2) {
                    std::fs::write(&done, "x".repeat(rng.range(0, 2000))).unwrap();
                }
                run.case("process", || format!("process -d F -o G, F: {:?}", trunc(&t)), || {
                    call(&exe, &["process", "-d", rawa, "-o", donea])?;
                    same(&[])?;
                    let got = std::fs::read(&done).map_err(|e| e.to_string())?;
                    if got != processed_form(&t).as_bytes() {
                        return Err(format!("the output file holds {:?}", trunc(&String::from_utf8_lossy(&got))));
                    }
                    Ok(())
                });
            }
            1 => {
                let alpha: Vec<u8> = b"aAbB \n\x14\x15\x16l".to_vec();
                let mut ts = random_set(&mut rng, &alpha, 12);
                ts.processing = mode;
                // sequences of one token are not saved
                ts.sequences.retain(|s| s.tokens.len() > 1);
                let json = serde_json::to_string(&ts.to_json()).unwrap();
                std::fs::write(&tokens, &json).unwrap();
                let args = ask(&["convert-tokens", "-d", rawa, "-i", toka, "-t", outa]);
                run.case("convert-tokens", || format!("{} --processed-data given: {}; data {:?}, processed {:?}; tokens {}", "convert-tokens", with_processed, trunc(&t), trunc(&given), trunc(&json)), || {
                    call(&exe, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
                    same(json.as_bytes())?;
                    let got = saved(&out, &which(mode), t.len())?;
                    if type_arg(got.token_type) != type_arg(ts.token_type) || got.processing != ts.processing || got.split_paragraphs != ts.split_paragraphs || format!("{:?}", got.tokens) != format!("{:?}", ts.tokens) || meaning(&got) != meaning(&ts) {
                        return Err(format!("the set was changed to {}", show(&got)));
                    }
                    Ok(())
                });
            }
            _ => {
                let ty = *rng.pick(&[TokenType::Bits1, TokenType::Bits2, TokenType::Bits4, TokenType::Bits2, TokenType::Bits4, TokenType::Bytes]);
                let min = match ty {
                    TokenType::Bits1 => 2,
                    TokenType::Bits2 => 4,
                    TokenType::Bits4 => 16,
                    _ => 256,
                };
                let n = min + rng.below(if min == 256 { 2 } else { 4 });
                let pre = rng.chance(1, 3);
                let mut args = ask(&["optimize", "-d", rawa, "-t", outa, "--type", type_arg(ty), "-p", if mode == Processing::Raw { "raw" } else { "caps-words" }, "-n", &n.to_string()]);
                let mut json = String::new();
                if pre {
                    let mut ts = match ty {
                        TokenType::Bits1 => TokenSet::new_bits1(mode, true),
                        TokenType::Bits2 => TokenSet::new_bits2(mode, true),
                        TokenType::Bits4 => TokenSet::new_bits4(mode, true),
                        _ => TokenSet::new_bytes(mode),
                    };
                    if n > min && rng.chance(1, 2) {
                        ts.add_token(b"al");
                    }
                    json = serde_json::to_string(&ts.to_json()).unwrap();
                    std::fs::write(&tokens, &json).unwrap();
                    args.extend(["-i".to_string(), toka.to_string()]);
                }
                if rng.chance(1, 3) {
                    let m = rng.range(1, t.len() + 5);
                    args.extend(["--min-data-size".to_string(), m.to_string()]);
                }
                run.case("optimize", || format!("{:?}; data {:?}, processed {:?}; input set {}", &args[5..], trunc(&t), trunc(&given), trunc(&json)), || {
                    call(&exe, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
                    same(json.as_bytes())?;
                    let got = saved(&out, &which(mode), t.len())?;
                    if type_arg(got.token_type) != type_arg(ty) || got.processing != mode || got.ntokens() > n {
                        return Err(format!("the set is of type {:?}, processing {:?}, with {} tokens", got.token_type, got.processing, got.ntokens()));
                    }
                    Ok(())
                });
            }
        }
    }
    run.finish();
}
