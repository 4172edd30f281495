//! Everything one simulated stream shares between its source, storage, callbacks and clients.
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard, OnceLock};
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Bytes;
use tokio::time::Sleep;

use crate::scen::{ByteKind, CallKind, FOREVER, Scenario, StreamCfg};

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub step: u64,
}

#[derive(Default)]
pub struct Global {
    pub violations: Vec<Violation>,
    /// fault kinds that actually fired
    pub fired: BTreeMap<String, u64>,
    /// rare conditions that were reached
    pub probes: BTreeMap<String, u64>,
    pub expect_panic: bool,
    pub ops_done: u64,
    pub bytes_read: u64,
    pub trace: Vec<String>,
    /// warnings and errors of the library, if somebody is interested
    pub logs: Vec<String>,
    pub keep_logs: bool,
}

static GLOBAL: OnceLock<Mutex<Global>> = OnceLock::new();
static SCEN: Mutex<Option<Arc<Scenario>>> = Mutex::new(None);

pub fn global() -> MutexGuard<'static, Global> {
    GLOBAL
        .get_or_init(Mutex::default)
        .lock()
        .unwrap_or_else(std::sync::PoisonError::into_inner)
}

pub fn set_scenario(s: Option<Arc<Scenario>>) {
    *SCEN.lock().unwrap_or_else(std::sync::PoisonError::into_inner) = s;
}

pub fn violate(kind: &str, detail: String) {
    let step = dst::step();
    let mut g = global();
    if g.violations.len() < 20 {
        g.trace.push(format!("!! {kind}: {detail}"));
        g.violations.push(Violation { kind: kind.into(), detail, step });
    }
    drop(g);
    dst::event("violation", 0, 0);
}

pub fn fired(kind: &str) {
    *global().fired.entry(kind.into()).or_default() += 1;
    dst::event("fault", kind.len() as i64, 0);
}

pub fn probe(kind: &str) {
    *global().probes.entry(kind.into()).or_default() += 1;
}

/// Human readable trace line (never influences the run).
pub fn note(f: impl FnOnce() -> String) {
    let t = dst::tid();
    let (now, step) = (dst::now(), dst::step());
    let mut g = global();
    if g.trace.len() < 5000 {
        let line = format!("[{now:>6}ms #{step} {}] {}", t.map_or("-".into(), |t| format!("t{t}")), f());
        g.trace.push(line);
    }
}

/// The byte of the resource at `pos`. Never 0 and never the filler used for read buffers.
pub fn content(salt: u64, pos: u64) -> u8 {
    let mut z = (pos.wrapping_add(salt.wrapping_mul(0x9e37))).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    ((z >> 33) % 250) as u8 + 1
}

pub const FILLER: u8 = 0xfe;

#[derive(Clone, Debug)]
pub struct FinishRec {
    pub at_ms: u64,
    pub done_ms: Option<u64>,
    pub ok: bool,
    pub interrupted: bool,
    pub cancelled_outcome: bool,
    pub returned_ok: bool,
}

#[derive(Clone, Debug)]
pub struct ProgressRec {
    pub pos: u64,
    pub chunk: (u64, u64),
    /// 0 prefetching, 1 downloading, 2 complete
    pub phase: u8,
    pub chunk_size: u64,
    pub at_ms: u64,
    /// storage writer seeks so far
    pub epoch: u64,
    /// client seeks so far
    pub seeks: u64,
}

#[derive(Clone, Debug)]
pub struct CallRec {
    pub kind: &'static str,
    pub start: u64,
    pub end: Option<u64>,
    pub at_ms: u64,
    pub done_ms: Option<u64>,
    pub ok: Option<bool>,
    /// position of the storage writer when the call was made
    pub wpos: u64,
    /// ms since the source last delivered or answered anything
    pub idle_ms: u64,
    /// first byte of the requested range was already stored
    pub had_start: bool,
    /// number of bytes of the requested range which were already stored
    pub had: u64,
}

#[derive(Default)]
pub struct St {
    // server side
    pub conns: u32,
    pub seek_n: u32,
    pub reconnect_n: u32,
    pub request_n: u32,
    pub fault_done: Vec<bool>,
    pub ended_at: Option<u64>,
    pub last_activity_ms: u64,
    /// (start, duration) of every stall that was injected
    pub stalls: Vec<(u64, u64)>,
    pub delivered: u64,
    pub calls: Vec<CallRec>,
    pub source_created: bool,
    pub source_dropped_ms: Option<u64>,
    pub finish: Vec<FinishRec>,
    pub errors_delivered: u64,
    // storage side
    /// written but not flushed
    pub unflushed: usize,
    pub wpos: u64,
    pub rpos: u64,
    pub first_write: Vec<Option<u64>>,
    /// position of the last storage writer seek
    pub wbase: u64,
    /// how far the storage write in progress may get
    pub wtop: u64,
    /// the library dropped the storage writer
    pub writer_dropped: bool,
    pub chunks_at: Vec<u64>,
    pub stored: u64,
    pub max_batch: u64,
    pub write_n: u64,
    pub flush_n: u64,
    pub wseek_n: u64,
    /// prefetching started again because of a seek: (first byte, byte which ends it)
    pub pf_gate: Option<(u64, u64)>,
    /// a client is in a seek operation
    pub in_seek: bool,
    /// client seeks which were started
    pub seek_ops: u64,
    /// the same at each storage writer seek
    pub wseek_ops: Vec<u64>,
    pub read_n: u64,
    pub rseek_n: u64,
    pub phys_max: u64,
    pub picked: Vec<&'static str>,
    pub bytes_accepted: u64,
    pub no_yield: bool,
    // callbacks
    pub progress: Vec<ProgressRec>,
    pub reconnect_cb: u32,
    pub reconnect_cb_ms: Vec<u64>,
    // outcome
    pub fatal: Option<&'static str>,
    pub fatal_ms: u64,
    /// where the storage writer was moved to
    pub wseeks: Vec<u64>,
    pub cancelled_ms: Option<u64>,
    pub reader_fault: bool,
    pub panicked: bool,
    pub gap_done: bool,
    // clients
    pub pending: Option<(usize, u64)>,
    pub client_done: bool,
    pub client_done_ms: u64,
    pub dropped_ms: Option<u64>,
    pub waiters_done: Vec<u64>,
    pub init_failed: Option<String>,
    pub started: bool,
    pub failed_seen: bool,
    pub cpos: u64,
    pub op_pos: u64,
    pub op_n: u64,
    pub last_seek_ms: u64,
    pub completed: bool,
    pub eof_seen: bool,
    pub procs: Vec<crate::process::Proc>,
}

impl St {
    pub fn push_call(&mut self, kind: &'static str, start: u64, end: Option<u64>, now: u64) -> usize {
        let have = |p: u64| self.first_write.get(p as usize).is_some_and(Option::is_some);
        let top = end.unwrap_or(u64::MAX).min(self.first_write.len() as u64);
        let had = (start.min(top)..top).filter(|p| have(*p)).count() as u64;
        let rec = CallRec {
            kind,
            start,
            end,
            at_ms: now,
            done_ms: None,
            ok: None,
            wpos: self.wpos,
            idle_ms: now - self.last_activity_ms.min(now),
            had_start: have(start),
            had,
        };
        self.calls.push(rec);
        self.calls.len() - 1
    }
}

pub struct World {
    pub idx: usize,
    pub cfg: StreamCfg,
    pub st: Mutex<St>,
    pub token: Mutex<Option<tokio_util::sync::CancellationToken>>,
}

impl World {
    pub fn new(idx: usize, cfg: StreamCfg) -> Arc<Self> {
        let st = St {
            fault_done: vec![false; cfg.source.faults.len()],
            first_write: vec![None; cfg.source.len as usize + 64],
            wbase: 0,
            wtop: 0,
            writer_dropped: false,
            chunks_at: Vec::new(),
            ..St::default()
        };
        Arc::new(Self { idx, cfg, st: Mutex::new(st), token: Mutex::new(None) })
    }

    pub fn st(&self) -> MutexGuard<'_, St> {
        self.st.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
    }

    pub fn byte(&self, pos: u64) -> u8 {
        content(self.cfg.salt, pos)
    }

    /// Cancels the download from outside the reader.
    pub fn cancel_via_token(&self) {
        let t = self.token.lock().unwrap_or_else(std::sync::PoisonError::into_inner).clone();
        if let Some(t) = t {
            self.mark_cancelled();
            t.cancel();
        }
    }

    pub fn mark_cancelled(&self) {
        let now = dst::now();
        dst::event("cancel", self.idx as i64, 0);
        note(|| format!("s{} cancel requested", self.idx));
        let mut st = self.st();
        if st.cancelled_ms.is_none() {
            st.cancelled_ms = Some(now);
        }
    }

    pub fn fatal(&self, why: &'static str) {
        let mut st = self.st();
        if st.fatal.is_none() {
            st.fatal = Some(why);
            st.fatal_ms = dst::now();
        }
    }

    /// What clients see as the end of the stream.
    pub fn visible_end(&self) -> u64 {
        self.cfg.source.len
    }

    pub fn call_started(&self, kind: &'static str, start: u64, end: Option<u64>) -> usize {
        let now = dst::now();
        dst::event(kind, start as i64, end.map_or(-1, |e| e as i64));
        note(|| format!("s{} source.{kind}({start}, {end:?})", self.idx));
        let mut st = self.st();
        st.ended_at = None;
        st.push_call(kind, start, end, now)
    }

    pub fn call_done(&self, id: usize, ok: bool) {
        let now = dst::now();
        let mut st = self.st();
        st.calls[id].done_ms = Some(now);
        st.calls[id].ok = Some(ok);
        st.last_activity_ms = now;
    }
}

/// Waits `ms` of virtual time.
pub async fn vsleep(ms: u64) {
    if ms >= FOREVER {
        std::future::pending::<()>().await;
    } else if ms > 0 {
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
}

/// Applies a scripted fault to a request. `Ok(full)` means it is answered; `full` asks for the
/// whole body instead of the range.
pub async fn apply_call(kind: Option<CallKind>) -> Result<bool, u16> {
    match kind {
        None => Ok(false),
        Some(CallKind::Delay(ms)) => {
            fired("request_delay");
            vsleep(ms).await;
            Ok(false)
        }
        Some(CallKind::Err) => {
            fired("request_error");
            Err(0)
        }
        Some(CallKind::DelayErr(ms)) => {
            fired("request_delay_error");
            vsleep(ms).await;
            Err(0)
        }
        Some(CallKind::Hang) => {
            fired("request_hang");
            std::future::pending::<()>().await;
            Ok(false)
        }
        Some(CallKind::Status(s)) => {
            fired("http_error_status");
            Err(s)
        }
        Some(CallKind::Full) => {
            fired("range_ignored");
            Ok(true)
        }
    }
}

#[derive(Debug, Clone)]
pub struct SimErr(pub String);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SimErr {}
impl stream_download::source::DecodeError for SimErr {}

/// One connection delivering bytes `pos..end`.
pub struct Conn {
    world: Arc<World>,
    pos: u64,
    end: u64,
    chunk_i: usize,
    sleep: Option<Pin<Box<Sleep>>>,
    delayed: bool,
    forever: bool,
    ended: bool,
    fixed: Option<Bytes>,
    no_faults: bool,
}

/// Whether the body of an error answer can't be read.
pub fn page_broken(w: &World) -> bool {
    w.cfg.salt % 7 == 3
}

impl Conn {
    pub fn new(world: &Arc<World>, start: u64, end: u64) -> Self {
        let n = {
            let mut st = world.st();
            st.conns += 1;
            st.conns
        };
        Self {
            world: world.clone(),
            pos: start,
            end: end.min(world.cfg.source.len),
            chunk_i: n as usize,
            sleep: None,
            delayed: false,
            forever: false,
            ended: false,
            fixed: None,
            no_faults: false,
        }
    }

    /// An error page.
    pub fn body(world: &Arc<World>, body: &'static [u8]) -> Self {
        let mut c = Self::new(world, 0, 0);
        c.fixed = Some(Bytes::from_static(body));
        c.no_faults = true;
        c
    }

    pub fn empty(world: &Arc<World>) -> Self {
        let mut c = Self::new(world, 0, 0);
        c.no_faults = true;
        c
    }

    fn sleep(&mut self, ms: u64) {
        if ms >= FOREVER {
            self.forever = true;
        } else {
            self.sleep = Some(Box::pin(tokio::time::sleep(Duration::from_millis(ms))));
        }
    }

    pub fn poll_chunk(&mut self, cx: &mut Context<'_>, max: usize) -> Poll<Option<Result<Bytes, SimErr>>> {
        loop {
            if self.forever {
                return Poll::Pending;
            }
            if let Some(s) = &mut self.sleep {
                match s.as_mut().poll(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(()) => self.sleep = None,
                }
            }
            if self.ended {
                return Poll::Ready(None);
            }
            if self.fixed.is_some() && page_broken(&self.world) {
                self.fixed = None;
                self.ended = true;
                fired("error_page_cut");
                return Poll::Ready(Some(Err(SimErr("error page cut".into()))));
            }
            if let Some(b) = self.fixed.take() {
                return Poll::Ready(Some(Ok(b)));
            }
            let w = self.world.clone();
            let src = &w.cfg.source;
            // scripted faults at or before this position
            let due = if self.no_faults {
                None
            } else {
                let st = w.st();
                src.faults
                    .iter()
                    .enumerate()
                    .find(|(i, f)| {
                        !st.fault_done[*i] && f.at == self.pos && (self.pos < self.end || f.at >= src.len)
                    })
                    .map(|(i, f)| (i, *f))
            };
            if let Some((i, f)) = due {
                w.st().fault_done[i] = true;
                note(|| format!("s{} fault {:?} at {}", w.idx, f.kind, self.pos));
                match f.kind {
                    ByteKind::Stall(ms) => {
                        fired(if ms >= FOREVER { "stall_forever" } else { "stall" });
                        w.st().stalls.push((dst::now(), ms));
                        self.sleep(ms);
                        continue;
                    }
                    ByteKind::Err | ByteKind::ErrEnd => {
                        if f.kind == ByteKind::ErrEnd {
                            fired("chunk_error_end");
                            self.ended = true;
                            w.st().ended_at = Some(self.pos);
                        } else {
                            fired("chunk_error");
                        }
                        let mut st = w.st();
                        st.errors_delivered += 1;
                        st.chunks_at.push(dst::now());
                        st.last_activity_ms = dst::now();
                        drop(st);
                        dst::event("chunk_err", self.pos as i64, 0);
                        return Poll::Ready(Some(Err(SimErr("injected chunk error".into()))));
                    }
                    ByteKind::End => {
                        fired("disconnect");
                        self.ended = true;
                        w.st().ended_at = Some(self.pos);
                        dst::event("disconnect", self.pos as i64, 0);
                        return Poll::Ready(None);
                    }
                    ByteKind::Empty => {
                        fired("empty_chunk");
                        let mut st = w.st();
                        st.last_activity_ms = dst::now();
                        st.chunks_at.push(dst::now());
                        drop(st);
                        dst::event("empty", self.pos as i64, 0);
                        return Poll::Ready(Some(Ok(Bytes::new())));
                    }
                }
            }
            if self.pos >= self.end {
                self.ended = true;
                dst::event("conn_end", self.pos as i64, 0);
                note(|| format!("s{} connection end at {}", w.idx, self.pos));
                return Poll::Ready(None);
            }
            if !self.delayed {
                self.delayed = true;
                let d = src.delays[self.chunk_i % src.delays.len()];
                if d > 0 {
                    self.sleep(d);
                    continue;
                }
            }
            self.delayed = false;
            let mut n = src.chunks[self.chunk_i % src.chunks.len()].max(1).min(self.end - self.pos);
            self.chunk_i += 1;
            n = n.min(max as u64);
            if !self.no_faults {
                let st = w.st();
                for (i, f) in src.faults.iter().enumerate() {
                    if !st.fault_done[i] && f.at > self.pos && f.at < self.pos + n {
                        n = f.at - self.pos;
                    }
                }
            }
            let data: Vec<u8> = (self.pos..self.pos + n).map(|p| w.byte(p)).collect();
            {
                let mut st = w.st();
                st.last_activity_ms = dst::now();
                st.chunks_at.push(dst::now());
                st.delivered += n;
            }
            dst::event("chunk", self.pos as i64, n as i64);
            note(|| format!("s{} chunk {}..{}", w.idx, self.pos, self.pos + n));
            self.pos += n;
            return Poll::Ready(Some(Ok(data.into())));
        }
    }
}

use std::future::Future;

/// Registry used by transports whose constructors take no arguments.
pub static WORLDS: Mutex<Vec<Arc<World>>> = Mutex::new(Vec::new());

pub fn world(i: usize) -> Arc<World> {
    WORLDS.lock().unwrap_or_else(std::sync::PoisonError::into_inner)[i].clone()
}
