use crate::processing::process;
use crate::vxc::*;

const CAP: char = '\x14';
const ALL: char = '\x15';
const EOW: char = '\x16';

/// The documented decoding.
pub fn decode(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    // 0 none, 1 first letter, 2 whole word
    let mut mark = 0;
    while i < c.len() {
        match c[i] {
            CAP => mark = 1,
            ALL => mark = 2,
            EOW => {
                mark = 0;
                if let Some(&n) = c.get(i + 1) {
                    if n.is_alphabetic() || n == CAP || n == ALL {
                        out.push(' ');
                    }
                }
            }
            ch => {
                if mark > 0 {
                    out.extend(ch.to_uppercase());
                    if mark == 1 {
                        mark = 0;
                    }
                } else {
                    out.push(ch);
                }
            }
        }
        i += 1;
    }
    out
}

fn check(t: &str) -> Result<(), String> {
    let p = process(t);
    let d = decode(&p);
    if d == t {
        Ok(())
    } else {
        Err(format!("process gives {:?}, which decodes to {:?}", p, d))
    }
}

/// What the proof assumes of std's character tables (`char_facts` and `lowered_str` in specs/vx.rs).
/// Nothing of the code under test runs here.
fn assumptions() {
    let up = |c: char| c.to_uppercase().collect::<Vec<_>>();
    let marker = |c: char| c == CAP || c == ALL || c == EOW;
    assert!(up('\u{3c2}') == ['\u{3a3}']);
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
        assert!(!c.is_alphabetic() || !marker(c) && c != ' ');
        assert!(!marker(c) || up(c) == [c]);
        for s in [format!("{c}"), format!("a{c}"), format!("{c}b"), format!("A{c}B"), format!("Σ{c}Σ"), format!("{c}Σ{c}")] {
            if s.chars().all(|x| x.to_lowercase().count() == 1) {
                let t: Vec<char> = s.to_lowercase().chars().collect();
                assert!(t.len() == s.chars().count());
                for (x, y) in s.chars().zip(t) {
                    assert!(x.to_lowercase().next() == Some(y) || x == 'Σ' && y == 'ς');
                }
            }
        }
    }
}

pub fn main() {
    let mut run = Run::new("C01");
    assumptions();
    let bad = |c: char| c == CAP || c == ALL || c == EOW;
    // every character alone and in the positions of a word that matter
    let all: Vec<char> = (0..=0x10ffffu32).filter_map(char::from_u32).filter(|c| !bad(*c)).collect();
    for block in all.chunks(512) {
        run.case("every character in 10 contexts", || format!("characters {:?}..{:?}", block[0], block[block.len() - 1]), || {
            for &c in block {
                for t in [
                    format!("{c}"), format!("{c}b"), format!("{c}B"), format!("B{c}"), format!("b{c}"),
                    format!("B{c} {c}"), format!("a {c}"), format!("{c} a"), format!("{c}  A"), format!("Bb{c}, {c}{c}"),
                ] {
                    check(&t).map_err(|m| format!("text {:?}: {}", t, m))?;
                }
            }
            Ok(())
        });
    }
    // all short texts over an alphabet with every kind of character
    let alpha: Vec<char> = "aB .\u{130}\u{212a}\u{1c5}ßΣ\n".chars().collect();
    let maxlen = run.n(5, 6);
    for len in 1..=maxlen {
        let total = alpha.len().pow(len as u32);
        let mut i = 0;
        while i < total {
            let hi = (i + 2000).min(total);
            let al = &alpha;
            run.case("every text over a 10-letter alphabet", || format!("texts {}..{} of length {}", i, hi, len), || {
                for k in i..hi {
                    let mut x = k;
                    let mut t = String::new();
                    for _ in 0..len {
                        t.push(al[x % al.len()]);
                        x /= al.len();
                    }
                    check(&t).map_err(|m| format!("text {:?}: {}", t, m))?;
                }
                Ok(())
            });
            i = hi;
        }
    }
    let mut rng = run.rng(1);
    let special: Vec<char> = "aAbBzZéÉßẞıİſKΩÅǅǆǄΣσςнН中あ한ªⅣⓐ\u{345}\u{301}ﬀŉ𐐀𐐨0_-'.,!?\n\t\u{a0} ".chars().collect();
    while run.time_left() && run.used() < 0.9 {
        let n = rng.range(1, 60);
        let mut t = String::new();
        for _ in 0..n {
            match rng.below(6) {
                0 => t.push(' '),
                1 => t.push(*rng.pick(&special)),
                2 => {
                    let c = *rng.pick(&all);
                    t.push(c)
                }
                3 => {
                    for _ in 0..rng.range(1, 4) {
                        t.push((b'A' + rng.below(26) as u8) as char);
                    }
                }
                4 => t.push((b'A' + rng.below(26) as u8) as char),
                _ => t.push((b'a' + rng.below(26) as u8) as char),
            }
        }
        run.case("random texts", || format!("{:?}", t), || check(&t));
        if run.used() > 0.9 || run.n(20000, 2000000) == 0 {
            break;
        }
    }
    run.finish();
}
