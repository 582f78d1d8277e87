//! C15: memory runs out in the middle of a call.  The call is made in a forked process whose allocator refuses
//! seeded requests; it may end the process or panic, but it may not give anything other than its result.
use crate::rt::{self, between, ch, chz, coin, ev, ev_bytes, fault, note, probe, Shortage};
use crate::stats::C;
use crate::sys;
use crate::worlds::isolate::{describe, forked, op, perform, pool, Op};

type Bad = (String, String);
/// The result of a call made by a task, or how it failed.
fn guarded(op: &Op) -> Result<Vec<u8>, Bad> {
    let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(op, None, &mut None)));
    v.map_err(|_| bad())
}
fn bad() -> Bad {
    rt::run().viol.take().unwrap_or(("harness".into(), "no outcome".into()))
}
/// What a task of its own gives.
fn task(f: impl FnOnce() -> Vec<u8> + 'static) -> Vec<u8> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt::phase(f))).unwrap_or_else(|_| {
        let (c, m) = bad();
        failed(&c, &m)
    })
}
fn failed(c: &str, m: &str) -> Vec<u8> {
    format!("{}\n{}", c, m).into_bytes()
}
pub fn c15() {
    let p = pool();
    let ops: &'static Vec<Op> = Box::leak(Box::new(vec![op(&p, 0), op(&p, 0)]));
    *rt::census() = [0; 4];
    // the undisturbed results, and what the first call asks the allocator for
    let mut want = vec![];
    for (i, o) in ops.iter().enumerate() {
        note(|| format!("call {}: {}", i, describe(o)));
        ev_bytes(149, describe(o).as_bytes());
        let (v, st) = forked(move || {
            rt::shortage(if i == 0 { Some(Shortage::Census) } else { None });
            task(move || match guarded(o) {
                Ok(v) => [b"=".to_vec(), v].concat(),
                Err((c, m)) => failed(&c, &m),
            })
        });
        if v.first() != Some(&b'=') {
            let t = String::from_utf8_lossy(&v).into_owned();
            match t.split_once('\n') {
                Some((c, m)) => rt::violate(c, format!("{}: {}", describe(o), m)),
                None => rt::violate("crash", format!("the process died (status {:#x}) in {}", st, describe(o))),
            }
        }
        want.push(v[1..].to_vec());
    }
    let [n, largest, most, _] = *rt::census();
    let want: &'static Vec<Vec<u8>> = Box::leak(Box::new(want));
    ev(150, n);
    if n == 0 {
        return;
    }
    let all = n <= 24 && coin(1, 8);
    let times = if all { n as usize } else { between(1, 6) };
    for k in 0..times {
        let s = match if all { 0 } else { ch(5) } {
            0 if all => Shortage::Once(1 + k as u64),
            0 | 1 => Shortage::Once(1 + ch(n)),
            2 => Shortage::From(1 + ch(n)),
            3 => Shortage::Over(1 + ch(largest)),
            _ => Shortage::Quota(ch(most + 1)),
        };
        note(|| format!("the allocator refuses: {:?} of {} requests, the largest of {} bytes, {} bytes held", s, n, largest, most));
        *rt::census() = [0; 4];
        let (warm, order) = (coin(1, 3), chz(2));
        let (v, st) = forked(move || {
            unsafe {
                // no core file, no message of the runtime
                sys::prctl(4, 0, 0, 0, 0);
                sys::close(2);
            }
            let how = task(move || {
                if warm {
                    let _ = guarded(&ops[1]);
                }
                rt::shortage(Some(s));
                let v = guarded(&ops[0]);
                rt::shortage(None);
                let how = match v {
                    Ok(v) if v == want[0] => b"same".to_vec(),
                    Ok(v) if out_of_memory(&v, &want[0]) => b"told".to_vec(),
                    Ok(v) => failed("wrong", &format!("gives {} but with enough memory {}", rt::esc(&v), rt::esc(&want[0]))),
                    Err((c, _)) if c == "panic" => b"panicked".to_vec(),
                    Err((c, m)) => failed(&c, &m),
                };
                later(&how, order, ops, want).unwrap_or(how)
            });
            // other threads go on as well
            task(move || later(&how, order, ops, want).unwrap_or(how))
        });
        let refused = rt::census()[3];
        if refused > 0 {
            fault(C::f_alloc_refused);
        }
        ev(151, refused);
        ev_bytes(152, &v);
        let t = String::from_utf8_lossy(&v).into_owned();
        match t.as_str() {
            "same" if refused > 0 => probe(C::p_shortage_survived),
            "same" => {}
            "told" | "panicked" if refused > 0 => probe(C::p_shortage_panic),
            "" if refused > 0 && st & 0x7f == 6 => probe(C::p_shortage_abort),
            "" => rt::violate("crash", format!("the process died (status {:#x}) with {} requests refused ({:?}) in {}", st, refused, s, describe(&ops[0]))),
            _ => {
                let (c, m) = t.split_once('\n').unwrap_or(("wrong", &t));
                rt::violate(c, format!("{} with {} requests refused ({:?}) {}", describe(&ops[0]), refused, s, m));
            }
        }
    }
}
/// Whether calls that follow one with too little memory go wrong.
fn later(how: &[u8], order: usize, ops: &'static [Op], want: &'static [Vec<u8>]) -> Option<Vec<u8>> {
    if how.contains(&b'\n') {
        return None;
    }
    for i in [order, 1 - order] {
        match guarded(&ops[i]) {
            Ok(v) if v == want[i] => {}
            Ok(v) => {
                let m = format!("{} gives {} after a call that had too little memory, but {} before:", describe(&ops[i]), rt::esc(&v), rt::esc(&want[i]));
                return Some(failed("after", &m));
            }
            Err((c, m)) => return Some(failed(&c, &format!("after a call that had too little memory: {}", m))),
        }
    }
    None
}
/// A writer's call that reports the lack of memory, and has written only a beginning.
fn out_of_memory(v: &[u8], want: &[u8]) -> bool {
    let (told, well) = (&b"Some(Err(OutOfMemory))\n"[..], &b"Some(Ok(()))\n"[..]);
    match (v.strip_prefix(told), want.strip_prefix(well)) {
        (Some(v), Some(want)) => want.starts_with(v),
        _ => false,
    }
}
