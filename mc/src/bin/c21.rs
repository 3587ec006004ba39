//! C21: codewords are exactly the published ones.
use mc::bits::*;
use mc::codes::*;
use mc::*;
use succinct::coding::{Lift0, UniversalCode, Unary};
use succinct::stream::BitWrite;

fn one(w: &mut W, c: &dyn Real, d: &Def, v: u64, more: bool) -> R {
    w.at(|| format!("{}: encode({})", c.name(), v));
    w.state();
    let want = d.word(v);
    let mut s = Sink::default();
    let r = c.encode_to(&mut s, v);
    w.traces += 1;
    w.transitions += s.bits.len() as u64;
    chk!(r.is_ok() && s.bits == want, "codeword", "{}: encode({}) = {:?}, wrote {}, definition says {}", c.name(), v, r, bitstr(&s.bits), bitstr(&want));
    if more {
        for kind in 0..LIBS.len() {
            // after a few other bits; tapes have old contents to overwrite, sometimes all, sometimes a part
            let old = vec![true; if kind == 0 { 2 } else { 2 + [0, 5, want.len(), want.len() + 3][(v as usize ^ kind) % 4] }];
            let mut l = Lib::over(kind, &old, if kind == 0 { 0 } else { 2 });
            let r = ok!(c.encode_lib(&mut l, v), "codeword", "{}: encode({}) onto a {}", c.name(), v, LIBS[kind]);
            let got = l.bits();
            let all: Vec<bool> = [true, true].iter().chain(&want).chain(old.iter().skip(2 + want.len())).cloned().collect();
            chk!(r.is_ok() && got == all, "codeword", "{}: encode({}) onto a {} with {} bits, from bit 2, = {:?}, it holds {}, definition says {}", c.name(), v, LIBS[kind], old.len(), r, bitstr(&got), bitstr(&want));
        }
    }
    Ok(())
}

/// Only counts: zeros until the first one.
struct Count {
    zeros: u64,
    ended: u64,
}
impl BitWrite for Count {
    fn write_bit(&mut self, b: bool) -> std::io::Result<()> {
        if b || self.ended > 0 {
            self.ended += 1
        } else {
            self.zeros += 1
        }
        Ok(())
    }
}
fn huge<C: UniversalCode>(w: &mut W, c: &C, v: u64, zeros: u64) -> R {
    w.at(|| format!("encode({}) in unary", v));
    w.state();
    w.traces += 1;
    w.transitions += zeros + 1;
    let mut s = Count { zeros: 0, ended: 0 };
    let r = ok!(c.encode(&mut s, v), "codeword", "encode({}) in unary", v);
    chk!(r.is_ok() && s.zeros == zeros && s.ended == 1, "codeword", "encode({}) in unary = {:?}, wrote {} zeros then {} bits; expected {} zeros and a one", v, r, s.zeros, s.ended, zeros);
    Ok(())
}

fn main() {
    let mut m = Main::new("C21");
    m.rule("state = one (code, value); transition = one emitted bit compared with the codeword built from the definition (with textual binary digits, Zeckendorf sums by search, base digits in 128-bit arithmetic); trace = one whole codeword");
    let dense = m.pick(1u64 << 17, 1 << 22);
    m.bound(format!("every value below {} (unary codes below 2000) and {} critical values: around every power of two, every Fibonacci number, every power of the comma bases, the ends of the 64-bit range; Comma(2)..Comma(63), of which every value below 1500 (thorough 20000)", dense, critical().len()));
    m.bound("unary codewords of more than 2^32 bits (counted, not kept)");
    for d in 0..3u64 {
        m.job(format!("huge unary {}", d), move |w| huge(w, &Unary, (1 << 32) - 1 + d, (1 << 32) - 1 + d));
        m.job(format!("huge lifted unary {}", d), move |w| huge(w, &Lift0(Unary), (1 << 32) - 2 + d, (1 << 32) - 1 + d));
    }
    let all: Vec<u8> = (2..=63).collect();
    let n = codes(&all).len();
    for i in 0..n {
        let all: Vec<u8> = (2..=63).collect();
        m.job(format!("critical {}", codes(&all)[i].name()), move |w| {
            let c = &codes(&all)[i];
            let d = c.def();
            for v in critical() {
                if d.in_domain(v) && affordable(&d, v) {
                    one(w, &**c, &d, v, true)?;
                }
            }
            w.sample(|| format!("{}: 12 -> {}", c.name(), bitstr(&d.word(12))));
            Ok(())
        });
    }
    let some = [2u8, 3, 4, 8, 63];
    for i in 0..codes(&some).len() {
        for part in 0..8u64 {
            m.job(format!("dense {} part {}", codes(&some)[i].name(), part), move |w| {
                let c = &codes(&some)[i];
                let d = c.def();
                let top = if matches!(d, Def::Unary) || d == Def::Lift0(Box::new(Def::Unary)) { 2000 } else { dense };
                for v in (0..top).filter(|v| v % 8 == part && d.in_domain(*v)) {
                    one(w, &**c, &d, v, v < 3000)?;
                }
                Ok(())
            });
        }
    }
    for n in 2..=63u8 {
        m.job(format!("digits Comma({})", n), move |w| {
            let cs = codes(&[n]);
            let c = cs.iter().find(|c| c.name() == format!("Comma({})", n)).expect("HARNESS: code");
            for v in 0..if w.thorough { 20000 } else { 1500 } {
                one(w, &**c, &c.def(), v, false)?;
            }
            Ok(())
        });
    }
    m.run()
}
