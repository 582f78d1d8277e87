//! Simulated network and disk.
use crate::rt::{self, ch, chz, coin, fault, note, pick};
use crate::stats::C;
use crate::worlds::sink::{Fail, Sink};
use std::collections::BTreeMap;
use std::io::Write;

pub const MS: u64 = 1_000_000;

/// Datagram network on a discrete-event clock: loss, duplication, delay, reordering, partitions.
pub struct Net<M> {
    q: BTreeMap<(u64, u64), (usize, usize, M)>,
    now: u64,
    seq: u64,
    last_seq: BTreeMap<usize, u64>,
    loss: u64,
    dup: u64,
    jitter: u64,
    partition: Option<(u64, u64, usize)>,
    pub healed: bool,
}
impl<M: Clone> Net<M> {
    pub fn new(nodes: usize) -> Self {
        let partition = if coin(1, 3) && nodes > 1 {
            let a = ch(500) * MS;
            Some((a, a + (1 + ch(2000)) * MS, 1 + chz(nodes - 1)))
        } else {
            None
        };
        Net {
            q: BTreeMap::new(),
            now: 0,
            seq: 0,
            last_seq: BTreeMap::new(),
            loss: pick(&[0, 1, 3, 6]),
            dup: pick(&[0, 1, 3, 6]),
            jitter: pick(&[1, 20, 300, 3000]),
            partition,
            healed: false,
        }
    }
    pub fn now(&self) -> u64 {
        self.now
    }
    /// From here on the network is reliable.
    pub fn heal(&mut self) {
        self.healed = true;
        self.loss = 0;
        self.dup = 0;
        self.partition = None;
        self.jitter = self.jitter.min(20);
    }
    pub fn send(&mut self, from: usize, to: usize, m: M) {
        if let Some((a, b, cut)) = self.partition {
            if self.now >= a && self.now < b && (from < cut) != (to < cut) {
                fault(C::f_partition);
                note(|| format!("message {} -> {} lost to the partition", from, to));
                return;
            }
        }
        if self.loss > 0 && coin(self.loss, 16) {
            fault(C::f_msg_lost);
            note(|| format!("message {} -> {} lost", from, to));
            return;
        }
        let d = 1 + ch(self.jitter);
        if d > 100 {
            fault(C::f_msg_delayed);
        }
        self.put(from, to, d * MS, m.clone());
        if self.dup > 0 && coin(self.dup, 16) {
            fault(C::f_msg_dup);
            let d = 1 + ch(self.jitter * 2 + 10);
            self.put(from, to, d * MS, m);
        }
    }
    /// A timer of one node.
    pub fn timer(&mut self, node: usize, ms: u64, m: M) {
        self.put(node, node, ms * MS, m);
    }
    fn put(&mut self, from: usize, to: usize, d: u64, m: M) {
        self.seq += 1;
        self.q.insert((self.now + d, self.seq), (from, to, m));
    }
    pub fn next(&mut self) -> Option<(usize, usize, M)> {
        let k = *self.q.keys().next()?;
        let (from, to, m) = self.q.remove(&k).unwrap();
        if k.0 > self.now {
            rt::advance(k.0 - self.now);
            self.now = k.0;
        }
        if from != to {
            let l = self.last_seq.entry(to).or_insert(0);
            if k.1 < *l {
                fault(C::f_msg_reordered);
            }
            *l = (*l).max(k.1);
        }
        rt::ev(40, k.1 << 8 | to as u64);
        Some((from, to, m))
    }
}

/// How a save attempt ended.
pub enum Saved {
    Acked(Vec<u8>),
    Failed,
    Crashed { durable: Vec<u8> },
}
/// One attempt to write a file through `render` and make it durable.
pub fn save(healthy: bool, len_hint: usize, render: impl FnOnce(&mut dyn Write) -> SaveResult) -> Saved {
    let mut s = if healthy {
        Sink::legal()
    } else {
        match ch(4) {
            0 => Sink::legal(),
            1 => Sink::failing(chz(len_hint + 1), pick(&[Fail::Os(28), Fail::Os(5), Fail::Zero])),
            2 => Sink::failing(chz(len_hint + 1), Fail::Panic),
            _ => Sink::legal(),
        }
    };
    match render(&mut s) {
        SaveResult::Panicked => {
            // the process died: some prefix of what it wrote is on disk
            fault(C::f_crash);
            let mut d = s.got;
            if coin(1, 2) {
                let k = chz(d.len() + 1);
                if k < d.len() {
                    fault(C::f_lost_unsynced);
                }
                d.truncate(k);
            }
            Saved::Crashed { durable: d }
        }
        SaveResult::Err => Saved::Failed,
        SaveResult::Ok => {
            if !healthy && coin(1, 8) {
                fault(C::f_fsync_error);
                return Saved::Failed;
            }
            Saved::Acked(s.got)
        }
    }
}
pub enum SaveResult {
    Ok,
    Err,
    Panicked,
}
