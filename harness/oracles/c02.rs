use crate::processing::{process, process_file};
use crate::vxc::*;
use std::io::{self, Read, Write};

struct In {
    data: Vec<u8>,
    pos: usize,
    rng: Rng,
    fail_at: Option<usize>,
}
impl Read for In {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.rng.chance(1, 5) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let limit = self.fail_at.unwrap_or(usize::MAX).min(self.data.len());
        if Some(self.pos) == self.fail_at {
            return Err(io::Error::new(io::ErrorKind::Other, "read failed"));
        }
        let n = buf.len().min(limit - self.pos);
        let n = if n > 1 { self.rng.range(1, n) } else { n };
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct Out {
    got: Vec<u8>,
    rng: Rng,
    fail_at: Option<usize>,
    fail_flush: bool,
    short: bool,
}
impl Write for Out {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.short && self.rng.chance(1, 5) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let limit = self.fail_at.unwrap_or(usize::MAX);
        if self.got.len() >= limit && !buf.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "no space left"));
        }
        let n = buf.len().min(limit - self.got.len());
        let n = if self.short && n > 1 { self.rng.range(1, n) } else { n };
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fail_flush {
            return Err(io::Error::new(io::ErrorKind::Other, "flush failed"));
        }
        Ok(())
    }
}

fn expected(data: &str) -> Vec<u8> {
    expected_of(data, false)
}

/// With `crlf`, a line may also end with a carriage return and a line feed.
fn expected_of(data: &str, crlf: bool) -> Vec<u8> {
    let mut lines: Vec<&str> = data.split('\n').collect();
    let open = lines.pop().unwrap();
    if crlf {
        lines = lines.into_iter().map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    }
    if open != "" {
        lines.push(open);
    }
    let mut out = Vec::new();
    for l in lines {
        out.extend_from_slice(process(l).as_bytes());
        out.push(b'\n');
    }
    out
}

fn text(rng: &mut Rng, max: usize, one_line: bool) -> String {
    let mut t = String::new();
    let n = rng.range(0, max);
    if one_line {
        // longer than the buffers in between
        while t.len() < 9000 + n {
            t.push_str(rng.pick::<&str>(&["Hello", "ÜBER", "naïve", " ", "  ", ", ", "A", "中文", "…"]));
        }
        t.push('\n');
    }
    let words = ["Hello", "world", "ÜBER", "naïve", " ", "  ", ", ", "\n", "\n\n", "A", "b", "中文", "…", "\n"];
    let n = if one_line { t.len() + rng.range(0, 60) } else { n };
    while t.len() < n {
        t.push_str(rng.pick::<&str>(&words));
    }
    t
}

pub fn main() {
    let mut run = Run::new("C02");
    let mut rng = run.rng(2);
    let rounds = run.n(1500, 40000);
    for i in 0..rounds {
        if !run.time_left() {
            break;
        }
        let big = i % 40 == 7;
        let data = text(&mut rng, if big { 40000 } else { 120 }, big && i % 80 == 7);
        let exp = expected(&data);
        let s = rng.next();
        let short = rng.chance(1, 2);
        // no fault
        run.case(if big { "large streams" } else { "fault-free streams" }, || format!("data {:?}, short reads/writes seed {}", data, s), || {
            let mut inp = In { data: data.clone().into_bytes(), pos: 0, rng: Rng::new(s), fail_at: None };
            let mut out = Out { got: vec![], rng: Rng::new(s + 1), fail_at: None, fail_flush: false, short };
            let r = process_file(&mut inp, &mut out);
            if r.is_err() {
                return Err(format!("reported an error without a fault: {:?}", r));
            }
            if out.got != exp {
                return Err(format!("destination received {:?}, expected {:?}", String::from_utf8_lossy(&out.got), String::from_utf8_lossy(&exp)));
            }
            Ok(())
        });
        if i % 4 == 1 {
            let mut t = String::new();
            for _ in 0..rng.range(1, 12) {
                t.push_str(rng.pick::<&str>(&["Hello", "world", " ", "\r", "\r\n", "\r\r\n", "\n", "\r\r", "A"]));
            }
            run.case("carriage returns", || format!("data {:?}", t), || {
                let mut inp = In { data: t.clone().into_bytes(), pos: 0, rng: Rng::new(s), fail_at: None };
                let mut out = Out { got: vec![], rng: Rng::new(s + 1), fail_at: None, fail_flush: false, short };
                let r = process_file(&mut inp, &mut out);
                if r.is_err() || out.got != expected_of(&t, false) && out.got != expected_of(&t, true) {
                    return Err(format!("{:?}, destination received {:?}", r, String::from_utf8_lossy(&out.got)));
                }
                Ok(())
            });
        }
        // output fault at every byte (or at sampled bytes of a large stream)
        let points: Vec<usize> = if exp.len() <= 60 {
            (0..exp.len()).collect()
        } else {
            let mut v: Vec<usize> = (0..12).map(|_| rng.below(exp.len())).collect();
            v.push(exp.len() - 1);
            v.push(0);
            v
        };
        for p in points {
            run.case("write error at a byte", || format!("data {:?}, destination full after {} bytes", data, p), || {
                let mut inp = In { data: data.clone().into_bytes(), pos: 0, rng: Rng::new(s), fail_at: None };
                let mut out = Out { got: vec![], rng: Rng::new(s + 1), fail_at: Some(p), fail_flush: false, short };
                match process_file(&mut inp, &mut out) {
                    Err(_) => {
                        if exp.starts_with(&out.got) { Ok(()) } else { Err("wrote something else before the error".into()) }
                    }
                    Ok(()) => Err(format!("reported success although only {} of {} bytes were accepted", out.got.len(), exp.len())),
                }
            });
        }
        let p = rng.below(data.len() + 1);
        run.case("read error at a byte", || format!("data {:?}, read fails at byte {}", data, p), || {
            let mut inp = In { data: data.clone().into_bytes(), pos: 0, rng: Rng::new(s), fail_at: Some(p) };
            let mut out = Out { got: vec![], rng: Rng::new(s + 1), fail_at: None, fail_flush: false, short };
            match process_file(&mut inp, &mut out) {
                Err(_) => Ok(()),
                Ok(()) => Err("reported success although the input could not be read".into()),
            }
        });
        run.case("flush error", || format!("data {:?}, flush of the destination fails", data), || {
            let mut inp = In { data: data.clone().into_bytes(), pos: 0, rng: Rng::new(s), fail_at: None };
            let mut out = Out { got: vec![], rng: Rng::new(s + 1), fail_at: None, fail_flush: true, short };
            match process_file(&mut inp, &mut out) {
                Err(_) => Ok(()),
                // a destination that was handed every byte may be left unflushed
                Ok(()) if out.got == exp => Ok(()),
                Ok(()) => Err("reported success although flushing failed".into()),
            }
        });
        // invalid UTF-8 must not be reported as success
        if i % 5 == 0 {
            run.case("undecodable input", || format!("data {:?} followed by byte 0xff", data), || {
                let mut d = data.clone().into_bytes();
                let at = p.min(d.len());
                d.insert(at, 0xff);
                let mut inp = In { data: d, pos: 0, rng: Rng::new(s), fail_at: None };
                let mut out = Out { got: vec![], rng: Rng::new(s + 1), fail_at: None, fail_flush: false, short };
                match process_file(&mut inp, &mut out) {
                    Err(_) => Ok(()),
                    Ok(()) => Err("reported success for input that is not UTF-8".into()),
                }
            });
        }
    }
    run.finish();
}
