//! C23: values outside a code's domain are refused before anything is written.
use mc::codes::*;
use mc::*;
use std::collections::VecDeque;
use succinct::stream::{BitBuffer, BitWrite};
use succinct::BitVector;

/// Gives up once too much is written: for values whose codeword would be too long to finish.
struct Limited {
    attempts: u64,
    limit: u64,
}
impl BitWrite for Limited {
    fn write_bit(&mut self, _: bool) -> std::io::Result<()> {
        self.attempts += 1;
        if self.attempts > self.limit {
            return Err(mark(0, 0));
        }
        Ok(())
    }
}

fn one(w: &mut W, c: &dyn Real, d: &Def, v: u64) -> R {
    w.at(|| format!("{}: encode({})", c.name(), v));
    w.state();
    let mut s = Sink::default();
    if !d.in_domain(v) {
        w.traces += 1;
        // refused by a panic or an error, before the sink is touched
        let mut s = Limited { attempts: 0, limit: 100_000 };
        let r = guard(|| c.encode_to(&mut s, v));
        w.step();
        w.outcome(match &r { Err(()) => "refused by panic", Ok(Err(_)) => "refused by error", _ => "accepted" });
        chk!(!matches!(&r, Ok(Ok(()))), "accepted", "{}: encode({}) succeeds, writing {} bits", c.name(), v, s.attempts);
        chk!(s.attempts == 0, "written", "{}: encode({}) refuses only after writing {} bits", c.name(), v, s.attempts);
        // and on the library's sinks
        let mut q: VecDeque<bool> = vec![true].into();
        let mut t = BitBuffer::<BitVector<u8>>::new();
        let a = guard(|| c.encode_to(&mut q, v));
        let b = guard(|| c.encode_to(&mut t, v));
        chk!(!matches!(&a, Ok(Ok(()))) && !matches!(&b, Ok(Ok(()))) && q.len() == 1 && t.position() == 0, "written", "{}: encode({}) onto a queue / a bit buffer: {:?} / {:?}, {} / {} bits written", c.name(), v, a, b, q.len() - 1, t.position());
        return Ok(());
    }
    if !affordable(d, v) {
        // only the beginning: it must be accepted
        let mut s = Limited { attempts: 0, limit: 1000 };
        let r = ok!(c.encode_to(&mut s, v), "rejected", "{}: encode({})", c.name(), v);
        w.step();
        w.outcome("accepted, cut short");
        chk!(matches!(&r, Err(e) if is_mark(e, 0, 0)) && s.attempts == 1001, "rejected", "{}: encode({}) = {:?} after {} bits", c.name(), v, r, s.attempts);
        return Ok(());
    }
    let r = ok!(c.encode_to(&mut s, v), "rejected", "{}: encode({})", c.name(), v);
    w.traces += 1;
    w.transitions += 2;
    w.outcome("accepted");
    chk!(r.is_ok(), "rejected", "{}: encode({}) = {:?}, but the value is in the domain", c.name(), v, r);
    let mut src = Src::new(&s.bits);
    let r = ok!(c.decode_from(&mut src), "decodable", "{}: decoding {}", c.name(), v);
    chk!(matches!(r, Ok(Some(x)) if x == v) && src.at == s.bits.len(), "decodable", "{}: {} decodes to {:?} after {} of {} bits", c.name(), v, r, src.at, s.bits.len());
    Ok(())
}

fn main() {
    let mut m = Main::new("C23");
    m.rule("state = one (code, value); transition = one encode or decode by the real code; trace = one refusal observed on a recording sink, or one accepted value decoded back");
    let dense = m.pick(1u64 << 18, 1 << 23);
    m.bound(format!("for every code every value below {} (unary-like 700), the top {} values, the {} values around the first value Fibonacci cannot represent, and all critical values", dense, dense, dense));
    let commas: &'static [u8] = &[2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 31, 32, 33, 48, 62, 63];
    for i in 0..codes(commas).len() {
        for part in 0..4u64 {
            m.job(format!("{} part {}", codes(commas)[i].name(), part), move |w| {
                let c = &codes(commas)[i];
                let d = c.def();
                let unary = matches!(&d, Def::Unary) || d == Def::Lift0(Box::new(Def::Unary));
                let f = *fibs().last().unwrap();
                let n = if unary { 700 } else { dense };
                let list = (0..n).chain((0..n).map(|k| u64::MAX - k)).chain((0..n / 2).flat_map(|k| [f - 1 - k, f + k])).chain(critical());
                for (k, v) in list.enumerate() {
                    if k as u64 % 4 == part {
                        one(w, &**c, &d, v)?;
                    }
                }
                w.sample(|| format!("{}: 0 {}, 2^64-1 {}, {} {}", c.name(), d.in_domain(0), d.in_domain(u64::MAX), f, d.in_domain(f)));
                Ok(())
            });
        }
    }
    m.run()
}
