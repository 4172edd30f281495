//! Storage providers on their own: a writer and a reader thread against a small model.
use std::io::{ErrorKind, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

use parking_lot::Mutex;
use stream_download::storage::StorageProvider;

use crate::gen_::canon_len;
use crate::scen::{Op, Scenario};
use crate::storage::SimProvider;
use crate::world::{FILLER, World, global, note, probe, violate};

/// Where the two handles are and which bytes have to be readable.
#[derive(Default)]
struct Model {
    /// end of what was written and flushed
    w: u64,
    r: u64,
    /// position of the last writer seek
    base: u64,
    /// how far a write that has not returned yet may get
    wtop: u64,
    /// how far anything was written
    top: u64,
}

struct Raw {
    w: Arc<World>,
    m: Mutex<Model>,
    /// taken around whole operations when they are to be atomic
    op: Mutex<()>,
    atomic: bool,
    /// how much fits
    cap: Option<u64>,
    /// largest read that is accepted
    limit: u64,
}

impl Raw {
    fn locked<R>(&self, f: impl FnOnce() -> R) -> R {
        if self.atomic {
            let _g = self.op.lock();
            f()
        } else {
            f()
        }
    }

    fn have(&self, p: u64) -> bool {
        self.w.st().first_write.get(p as usize).is_some_and(Option::is_some)
    }

    fn write(&self, wr: &mut impl Write, n: u64) {
        let pos = self.m.lock().w;
        let len = self.w.cfg.source.len;
        let n = n.min(len.saturating_sub(pos));
        if n == 0 {
            return;
        }
        let data: Vec<u8> = (pos..pos + n).map(|p| self.w.byte(p)).collect();
        let free_before = self.cap.map(|c| c.saturating_sub(pos.saturating_sub(self.m.lock().r)));
        self.m.lock().wtop = pos + n;
        match wr.write(&data) {
            Ok(k) => {
                let k = k as u64;
                if let Err(e) = wr.flush() {
                    violate("storage_error", format!("flush: {e}"));
                }
                note(|| format!("s{} raw write {n} at {pos} -> {k}", self.w.idx));
                if k > n {
                    violate("storage_write_len", format!("{k} > {n}"));
                }
                if self.atomic
                    && let Some(f) = free_before
                    && k != n.min(f)
                {
                    violate("storage_backpressure", format!("write of {n} with {f} bytes free accepted {k}"));
                }
                if self.cap.is_none() && k == 0 {
                    violate("storage_write_len", "an unbounded storage accepted nothing".into());
                }
                let mut m = self.m.lock();
                m.w = pos + k;
                m.wtop = m.w;
                m.top = m.top.max(m.w);
            }
            Err(e) => violate("storage_error", format!("write of {n} at {pos}: {e}")),
        }
    }

    fn read(&self, rd: &mut impl Read, n: u64) {
        let (pos, wpos, base) = {
            let m = self.m.lock();
            (m.r, m.w, m.base)
        };
        let mut buf = vec![FILLER; n as usize];
        let known: Vec<bool> = (pos..pos + n).map(|p| self.have(p)).collect();
        let run = known.iter().take_while(|k| **k).count() as u64;
        let res = rd.read(&mut buf);
        global().ops_done += 1;
        note(|| format!("s{} raw read {n} at {pos} -> {res:?}", self.w.idx));
        match res {
            Ok(k) => {
                let k = k as u64;
                if k > n {
                    violate("storage_read_len", format!("{k} > {n}"));
                }
                for i in 0..k.min(n) {
                    let p = pos + i;
                    let checked = match self.cap {
                        None => known[i as usize],
                        Some(_) => p >= base && p < wpos,
                    };
                    if checked && buf[i as usize] != self.w.byte(p) {
                        violate("storage_wrong_data", format!("read({n}) at {pos}: byte {p} is {:#x}, {:#x} was written", buf[i as usize], self.w.byte(p)));
                        break;
                    }
                }
                match self.cap {
                    None => {
                        if k == 0 && run > 0 && n > 0 {
                            violate("storage_read_empty", format!("read({n}) at {pos} returned nothing, {run} bytes are there"));
                        }
                    }
                    Some(cap) => {
                        if self.atomic {
                            let avail = wpos.saturating_sub(pos);
                            if n > self.limit || avail > cap {
                                violate("storage_overrun", format!("read({n}) at {pos} with the writer at {wpos} and {cap} bytes of storage succeeded"));
                            } else if pos >= base && k != avail.min(n) {
                                violate("storage_read_empty", format!("read({n}) at {pos} returned {k}, the writer is at {wpos}"));
                            }
                        } else if k == 0 && n > 0 && pos >= base && pos < wpos && wpos - pos <= cap {
                            violate("storage_read_empty", format!("read({n}) at {pos} returned nothing, the writer was at {wpos}"));
                        }
                    }
                }
                self.m.lock().r = pos + k;
            }
            Err(e) => {
                let wnow = {
                    let m = self.m.lock();
                    m.w.max(m.wtop)
                };
                let ok = e.kind() == ErrorKind::InvalidInput && self.cap.is_some_and(|c| n > self.limit || wnow.max(wpos).saturating_sub(pos) > c);
                if ok {
                    probe("raw: rejected read");
                } else {
                    violate("storage_error", format!("read({n}) at {pos}, writer at {wpos}: {e}"));
                }
            }
        }
    }
}

impl Raw {
    /// A seek relative to the end of what was written so far.
    fn seek_end(&self, rd: &mut impl Seek, d: i64) {
        let low = self.m.lock().top;
        let res = rd.seek(SeekFrom::End(d));
        let high = {
            let m = self.m.lock();
            m.top.max(m.wtop)
        };
        let bad = || violate("storage_seek", format!("reader seek to {d} from an end of {low} to {high}: {res:?}"));
        match &res {
            Err(e) if self.cap.is_some() => {
                if e.kind() != ErrorKind::Unsupported {
                    bad();
                }
            }
            Ok(p) if self.cap.is_none() => {
                let ok = low.saturating_add_signed(d)..=high.saturating_add_signed(d);
                // memory of the announced size exists from the start
                let whole = self.w.cfg.source.declared.and_then(|l| l.checked_add_signed(d));
                if whole != Some(*p) && (high.checked_add_signed(d).is_none() || !ok.contains(p)) {
                    bad();
                }
                self.m.lock().r = *p;
            }
            Err(e) if e.kind() == ErrorKind::InvalidInput && low.checked_add_signed(d).is_none() => {
                probe("raw: seek before the start");
            }
            _ => bad(),
        }
    }
}

pub fn run(_scn: &Arc<Scenario>, ws: &[Arc<World>]) {
    for w in ws {
        let p = SimProvider { world: w.clone() };
        let (mut rd, mut wr) = match p.into_reader_writer(w.cfg.source.declared) {
            Ok(x) => x,
            Err(e) => {
                violate("storage_error", format!("creation: {e}"));
                continue;
            }
        };
        w.st().client_done = false;
        let limit = crate::gen_::cap_of(&w.cfg.storage, w.cfg.source.declared);
        let cap = limit.map(|c| c.min(w.cfg.source.declared.unwrap_or(u64::MAX)));
        let raw = Arc::new(Raw {
            w: w.clone(),
            m: Mutex::new(Model::default()),
            op: Mutex::new(()),
            atomic: w.cfg.settings.batch == 1,
            cap,
            limit: limit.unwrap_or(u64::MAX),
        });
        let pending_seek = Arc::new(Mutex::new(None::<u64>));
        let (r1, seek1) = (raw.clone(), pending_seek.clone());
        dst::spawn("writer", move || {
            for (is_write, n) in r1.w.cfg.writer_ops.clone() {
                dst::point();
                r1.locked(|| {
                    if is_write {
                        r1.write(&mut wr, n);
                    } else if r1.cap.is_none() {
                        match wr.seek(SeekFrom::Start(n)) {
                            Ok(p) if p == n => r1.m.lock().w = n,
                            other => violate("storage_seek", format!("writer seek to {n}: {other:?}")),
                        }
                    } else if r1.atomic {
                        // the reader follows before it does anything else
                        match wr.seek(SeekFrom::Start(n)) {
                            Ok(p) if p == n => {
                                let mut m = r1.m.lock();
                                m.w = n;
                                m.base = n;
                                drop(m);
                                *seek1.lock() = Some(n);
                            }
                            other => violate("storage_seek", format!("writer seek to {n}: {other:?}")),
                        }
                    }
                    match wr.stream_position() {
                        Ok(p) if p == r1.m.lock().w => {}
                        other => violate("storage_position", format!("writer position {other:?}")),
                    }
                });
            }
            drop(wr);
        });
        let r2 = raw.clone();
        let ops = w.cfg.ops.clone();
        dst::spawn("reader", move || {
            for op in ops {
                dst::point();
                r2.locked(|| {
                    if let Some(n) = pending_seek.lock().take() {
                        match rd.seek(SeekFrom::Start(n)) {
                            Ok(p) if p == n => r2.m.lock().r = n,
                            other => violate("storage_seek", format!("reader seek to {n}: {other:?}")),
                        }
                    }
                    match op {
                        Op::Read(n) => r2.read(&mut rd, n),
                        Op::SeekStart(p) => {
                            let (base, w) = {
                                let m = r2.m.lock();
                                (m.base, m.w)
                            };
                            // a bounded buffer only ever holds what was written since the last jump
                            // at times the reader gets ahead
                            let p = match r2.cap {
                                None => p,
                                Some(_) if p % 5 == 3 => p.max(base),
                                Some(_) => p.clamp(base, w),
                            };
                            match rd.seek(SeekFrom::Start(p)) {
                                Ok(q) if q == p => r2.m.lock().r = p,
                                other => violate("storage_seek", format!("reader seek to {p}: {other:?}")),
                            }
                        }
                        Op::SeekCur(d) => {
                            let cur = r2.m.lock().r;
                            if cur.checked_add_signed(d).is_none() {
                                match rd.seek(SeekFrom::Current(d)) {
                                    Err(e) if e.kind() == ErrorKind::InvalidInput => probe("raw: seek before the start"),
                                    other => violate("storage_seek", format!("reader seek by {d} from {cur}: {other:?}")),
                                }
                            } else if let Some(p) = cur.checked_add_signed(d)
                                && (r2.cap.is_none() || p >= r2.m.lock().base)
                            {
                                match rd.seek(SeekFrom::Current(d)) {
                                    Ok(q) if q == p => r2.m.lock().r = p,
                                    other => violate("storage_seek", format!("reader seek by {d} from {cur}: {other:?}")),
                                }
                            }
                        }
                        Op::SeekEnd(d) => r2.seek_end(&mut rd, d),
                        _ => {}
                    }
                    match rd.stream_position() {
                        Ok(p) if p == r2.m.lock().r => {}
                        other => violate("storage_position", format!("reader position {other:?}")),
                    }
                });
            }
            drop(rd);
        });
    }
    if !dst::exec_drain() {
        violate("hang", "a storage operation never returned".into());
    }
    for w in ws {
        w.st().client_done = true;
        let st = w.st();
        if let Some(cap) = canon_len(w.cfg.storage.kind, w.cfg.source.declared)
            && st.phys_max > cap
        {
            let m = st.phys_max;
            drop(st);
            violate("capacity_exceeded", format!("{m} bytes of storage were used, the limit is {cap}"));
        }
    }
}
