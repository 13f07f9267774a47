use crate::processing::Processing;
use crate::tokenset::{Token, TokenSet, TokenType};
use crate::vxc::*;
use crate::vxtk::*;

fn same(a: Processing, b: Processing) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}

pub fn main() {
    let mut run = Run::new("C08");
    for pr in [Processing::Raw, Processing::CapsWords] {
        for split in [false, true] {
            for (name, bits) in [("bits1", 1u32), ("bits2", 2), ("bits4", 4), ("bytes", 8)] {
                run.case("every built-in set", || format!("{} {:?} split {}", name, pr, split), || {
                    let (ts, n) = match bits {
                        1 => (TokenSet::new_bits1(pr, split), 2),
                        2 => (TokenSet::new_bits2(pr, split), 4),
                        4 => (TokenSet::new_bits4(pr, split), 16),
                        _ => (TokenSet::new_bytes(pr), 0),
                    };
                    let kind = matches!((bits, ts.token_type), (1, TokenType::Bits1) | (2, TokenType::Bits2) | (4, TokenType::Bits4) | (8, TokenType::Bytes));
                    if !kind || !same(ts.processing, pr) || (bits < 8 && ts.split_paragraphs != split) {
                        return Err("kind, processing mode or paragraph flag differs".into());
                    }
                    if ts.n_ext_tokens != n || ts.ntokens() != ts.tokens.len() {
                        return Err(format!("{} extension tokens", ts.n_ext_tokens));
                    }
                    for i in 0..n {
                        if ts.tokens[i] != Token::Ext(i as u8) {
                            return Err(format!("token {} is {:?}", i, ts.tokens[i]));
                        }
                    }
                    check_bytes_encoded(&ts)?;
                    if bits == 8 {
                        if ts.tokens.len() != 256 || !ts.sequences.is_empty() {
                            return Err("not 256 one-byte tokens".into());
                        }
                    } else {
                        if ts.tokens.len() != n {
                            return Err("extra tokens".into());
                        }
                        for q in &ts.sequences {
                            let b = q.string[0];
                            let want: Vec<usize> = (0..8 / bits).map(|k| ((b >> (8 - bits * (k + 1))) as usize) & (n - 1)).collect();
                            if q.tokens != want {
                                return Err(format!("byte {} is encoded as {:?}, the digits are {:?}", b, q.tokens, want));
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    run.finish();
}
