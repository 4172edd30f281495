//! Executes one scenario and checks it.
use std::future::Future;
use std::io::{Read, Seek, SeekFrom};
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, LazyLock, Once};
use std::time::Duration;

use futures_util::FutureExt;
use stream_download::async_read::{AsyncReadStream, AsyncReadStreamParams};
use stream_download::http::HttpStream;
use stream_download::source::{DecodeError, SourceStream};
use stream_download::{Settings, StreamDownload, StreamInitializationError, StreamPhase, StreamState};
use tokio_util::sync::CancellationToken;

use crate::scen::{CallKind, D, Op, PolicyCfg, Scenario, Transport};
use crate::source::{Observed, SimClient, SimNet, SimRead, SimSource, SimUrl};
use crate::storage::SimProvider;
use crate::world::{
    FILLER, Global, ProgressRec, WORLDS, World, fired, global, note, probe, set_scenario, violate, vsleep,
};

pub const SLACK_MS: u64 = 60;

pub struct Outcome {
    pub report: dst::Report,
    pub global: Global,
    pub sim_ms: u64,
    pub worlds: Vec<Arc<World>>,
}

pub fn policy(s: &Scenario) -> dst::Policy {
    match s.sched.policy {
        PolicyCfg::Random(p) => dst::Policy::Random { p },
        PolicyCfg::Pct(d, len) => dst::Policy::Pct { d, len },
        PolicyCfg::Sticky => dst::Policy::Sticky,
        PolicyCfg::Bursty(p, period, width) => dst::Policy::Bursty { p, period, width },
        PolicyCfg::Replay => dst::Policy::Replay,
    }
}

pub fn init_process() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        stream_download::sim::install(dst::point);
        crate::process::install();
        crate::trace::install();
        Settings::<HttpStream<reqwest_middleware::ClientWithMiddleware>>::add_default_middleware(SimNet);
        std::panic::set_hook(Box::new(|info| {
            if dst::tid().is_none() || dst::aborting() {
                if std::env::var_os("SIM_DEBUG").is_some() {
                    eprintln!("panic outside of a run: {info}");
                }
                return;
            }
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(ToString::to_string)
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            if msg.contains("injected panic") {
                return;
            }
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            violate("panic", format!("{msg} at {loc}"));
        }));
    });
}

pub fn settings<S: SourceStream>(w: &Arc<World>) -> Settings<S> {
    let c = &w.cfg.settings;
    let mut s = Settings::<S>::default();
    // some runs rely on the documented defaults
    let set = w.cfg.salt % 3 != 0;
    if set || c.prefetch != 256 * 1024 {
        s = s.prefetch_bytes(c.prefetch);
    }
    if set || c.batch != 4096 {
        s = s.batch_write_size((c.batch.max(1) as usize).try_into().expect("nonzero"));
    }
    if set || c.retry_ms != 5000 {
        s = s.retry_timeout(Duration::from_millis(c.retry_ms));
    }
    if set || !c.cancel_on_drop {
        s = s.cancel_on_drop(c.cancel_on_drop);
    }
    if c.progress {
        let w = w.clone();
        s = s.on_progress(move |_: &S, state: StreamState, token: &CancellationToken| {
            on_progress(&w, &state, token);
        });
    }
    let w = w.clone();
    s = s.on_reconnect(move |_: &S, token: &CancellationToken| on_reconnect(&w, token));
    s
}

fn on_progress(w: &World, state: &StreamState, token: &CancellationToken) {
    let (phase, size) = match state.phase {
        StreamPhase::Prefetching { chunk_size, target, .. } => {
            if target != w.cfg.settings.prefetch {
                violate("progress_target", format!("{target}"));
            }
            (0, chunk_size)
        }
        StreamPhase::Downloading { chunk_size, .. } => (1, chunk_size),
        StreamPhase::Complete => (2, 0),
        _ => (3, 0),
    };
    dst::event("progress", state.current_position as i64, i64::from(phase));
    note(|| format!("s{} progress {phase} pos {} chunk {:?} size {size}", w.idx, state.current_position, state.current_chunk));
    let (epoch, seeks) = {
        let st = w.st();
        (st.wseek_n, st.seek_ops)
    };
    let rec = ProgressRec {
        pos: state.current_position,
        chunk: (state.current_chunk.start, state.current_chunk.end),
        phase,
        chunk_size: size as u64,
        at_ms: dst::now(),
        epoch,
        seeks,
    };
    let sc = &w.cfg.settings;
    let (cancel, panic) = {
        let mut st = w.st();
        let last_complete = st.progress.last().is_some_and(|p| p.phase == 2);
        if last_complete {
            drop(st);
            violate("progress_after_complete", format!("{rec:?}"));
            st = w.st();
        }
        if rec.pos != st.wpos {
            let wp = st.wpos;
            drop(st);
            violate("progress_position", format!("reported {} but the download is at {wp}", rec.pos));
            st = w.st();
        }
        let missing = (rec.chunk.0..rec.chunk.1)
            .find(|p| st.first_write.get(*p as usize).is_none_or(Option::is_none));
        if let Some(m) = missing {
            drop(st);
            violate("progress_chunk", format!("{rec:?} covers byte {m} which was never stored"));
            st = w.st();
        }
        if phase != 2 && rec.chunk_size > 0 && !(rec.chunk.0 < rec.pos && rec.pos <= rec.chunk.1) {
            drop(st);
            violate("progress_chunk_range", format!("{rec:?}: the current chunk does not contain the byte just stored"));
            st = w.st();
        }
        let p = rec.pos;
        st.progress.push(rec);
        (
            sc.progress_cancel_at.is_some_and(|c| p >= c) && st.cancelled_ms.is_none(),
            sc.progress_panic_at.is_some_and(|c| p >= c),
        )
    };
    if cancel {
        fired("cancel_from_progress");
        w.mark_cancelled();
        token.cancel();
    }
    if panic {
        fired("callback_panic");
        w.fatal("callback panic");
        w.st().panicked = true;
        panic!("injected panic");
    }
}

fn on_reconnect(w: &World, token: &CancellationToken) {
    dst::event("on_reconnect", 0, 0);
    note(|| format!("s{} on_reconnect", w.idx));
    let now = dst::now();
    let n = {
        let mut st = w.st();
        st.reconnect_cb += 1;
        st.reconnect_cb_ms.push(now);
        let ok = st.calls.iter().rev().find(|c| c.kind == "reconnect").and_then(|c| c.ok);
        if ok != Some(true) {
            drop(st);
            violate("reconnect_callback", format!("callback ran although the reconnect ended with {ok:?}"));
            st = w.st();
        }
        st.reconnect_cb
    };
    if w.cfg.settings.reconnect_cancel == Some(n) {
        fired("cancel_from_reconnect");
        w.mark_cancelled();
        token.cancel();
    }
}

type Stream = StreamDownload<SimProvider>;

pub async fn finish_open<S, F>(w: &Arc<World>, f: F) -> Option<Stream>
where
    S: SourceStream,
    F: Future<Output = Result<Stream, StreamInitializationError<S>>>,
{
    match f.await {
        Ok(s) => Some(s),
        Err(e) => {
            let kind = match &e {
                StreamInitializationError::StorageCreationFailure(_) => "storage",
                StreamInitializationError::StreamCreationFailure(_) => "source",
            };
            let text = e.decode_error().await;
            w.st().init_failed = Some(format!("{kind}: {text}"));
            None
        }
    }
}

/// Opens the stream in one go, or creates the source first and hands it over.
async fn start<S>(w: &Arc<World>, params: S::Params, p: SimProvider) -> Option<Stream>
where
    S: SourceStream,
    S::StreamCreationError: Send,
    S::Error: std::fmt::Debug + Send,
{
    if w.cfg.source.create.is_some() || w.cfg.salt % 5 != 0 {
        return finish_open(w, StreamDownload::new::<S>(params, p, settings(w))).await;
    }
    match S::create(params).await {
        Ok(s) => finish_open(w, StreamDownload::from_stream(s, p, settings(w))).await,
        Err(e) => {
            let e = StreamInitializationError::<S>::StreamCreationFailure(e);
            finish_open(w, std::future::ready(Err(e))).await
        }
    }
}

async fn open(w: &Arc<World>) -> Option<Stream> {
    let p = SimProvider { world: w.clone() };
    let src = &w.cfg.source;
    match src.transport {
        Transport::Native => {
            start::<SimSource>(w, w.clone(), p).await
        }
        Transport::Http => {
            start::<Observed<HttpStream<SimClient>>>(w, (SimUrl(w.idx), w.clone()), p).await
        }
        Transport::Middleware => {
            let url: reqwest::Url = format!("http://sim/{}", w.idx).parse().expect("url");
            start::<Observed<HttpStream<reqwest_middleware::ClientWithMiddleware>>>(w, (url, w.clone()), p).await
        }
        Transport::AsyncRead => {
            let params = AsyncReadStreamParams::new(SimRead::new(w)).content_length(src.declared);
            start::<Observed<AsyncReadStream<SimRead>>>(w, (params, w.clone()), p).await
        }
        Transport::Process => crate::process::open(w, p).await,
        #[cfg(feature = "opendal")]
        Transport::Opendal => {
            let params = crate::dal::params(w);
            start::<Observed<stream_download_opendal::OpendalStream>>(w, (params, w.clone()), p).await
        }
        #[cfg(not(feature = "opendal"))]
        Transport::Opendal => panic!("built without opendal"),
    }
}

// -------------------------------------------------------------------------------- client

struct Client {
    w: Arc<World>,
    scn: Arc<Scenario>,
    s: Stream,
    pos: u64,
    rt: tokio::runtime::Handle,
    op_i: usize,
    /// The last move was backwards inside of what is stored. The download may overwrite that meanwhile.
    moved_back: bool,
}

struct Before {
    ms: u64,
    failed_visible: bool,
    cancel_ms: Option<u64>,
}

impl Client {
    fn before(&mut self, what: &str, n: u64) -> Before {
        let now = dst::now();
        note(|| format!("s{} client {what} at {}", self.w.idx, self.pos));
        let mut st = self.w.st();
        st.pending = Some((self.op_i, now));
        st.reader_fault = false;
        st.cpos = self.pos;
        st.op_pos = self.pos;
        st.op_n = n;
        Before {
            ms: now,
            failed_visible: st.source_dropped_ms.is_some()
                && (st.panicked && st.writer_dropped || !st.panicked && st.finish.last().is_none_or(|f| f.done_ms.is_none() || !f.returned_ok)),
            cancel_ms: st.cancelled_ms,
        }
    }

    fn after(&mut self) -> u64 {
        let now = dst::now();
        self.w.st().pending = None;
        global().ops_done += 1;
        now
    }

    fn prompt(&self, b: &Before, now: u64, what: &str) {
        if self.scn.checks.sticky && self.scn.sched.stall_p == 0 && self.w.cfg.shutdown_ms.is_none() {
            let st = self.w.st();
            if let Some(f) = st.fatal {
                let t = st.fatal_ms;
                drop(st);
                if now > t.max(b.ms) + self.w.cfg.source.finish_delay + SLACK_MS {
                    violate("slow_failure", format!("{what} returned at {now} ms, the download failed at {t} ms ({f})"));
                }
            }
        }
        if !self.scn.checks.prompt_cancel {
            return;
        }
        let st = self.w.st();
        if let Some(c) = st.cancelled_ms {
            let limit = c.max(b.ms) + self.w.cfg.source.finish_delay + SLACK_MS;
            drop(st);
            if now > limit {
                violate(
                    "slow_cancel",
                    format!("{what} returned at {now} ms, cancellation was requested at {c} ms"),
                );
            }
        }
    }

    /// Is an error of this operation explained by something that happened?
    fn excused(&self, e: &std::io::Error, seek_target: Option<u64>, n: u64) -> Option<&'static str> {
        let st = self.w.st();
        if st.reader_fault {
            return Some("storage fault");
        }
        if let Some(f) = st.fatal {
            return Some(f);
        }
        if st.cancelled_ms.is_some() {
            return Some("cancelled");
        }
        let cap = crate::gen_::cap_of(&self.w.cfg.storage, self.w.cfg.source.declared);
        if let Some(cap) = cap
            && e.kind() == std::io::ErrorKind::InvalidInput
        {
            if let Some(t) = seek_target {
                if t > self.pos + cap {
                    return Some("seek beyond capacity");
                }
                // the writer can not get there before the reader frees space
                if !self.w.cfg.source.seekable && t > self.pos + cap {
                    return Some("seek beyond capacity");
                }
            } else {
                if n > cap {
                    return Some("read larger than capacity");
                }
                if self.moved_back && st.wpos.max(st.wtop) > self.pos + cap || st.wpos < self.pos {
                    return Some("outside of the buffered window");
                }
            }
        }
        let done = st.source_dropped_ms.is_some() || !st.finish.is_empty();
        if let Some(cap) = cap
            && done
            && seek_target.is_none()
            && (self.pos < st.wbase || self.pos >= st.wpos || st.wpos - self.pos > cap)
        {
            return Some("outside of the buffered window, download finished");
        }
        // an unknown length stream ended before this position was ever downloaded
        if self.w.cfg.source.declared.is_none()
            && done
            && seek_target.is_none()
            && st.first_write.get(self.pos as usize).map_or(st.wpos.max(st.wtop) > self.pos, Option::is_none)
        {
            return Some("never downloaded");
        }
        // truncated transfer that can not be resumed
        if st.ended_at.is_some_and(|p| p <= self.pos) && done {
            return Some("truncated");
        }
        None
    }

    fn read(&mut self, n: u64) -> Result<u64, ()> {
        let mut buf = vec![FILLER; n as usize];
        let b = self.before(&format!("read({n})"), n);
        let mut res = self.s.read(&mut buf);
        while res.as_ref().is_err_and(|e| e.kind() == std::io::ErrorKind::Interrupted) {
            res = self.s.read(&mut buf);
        }
        let now = self.after();
        dst::event("op_read", self.pos as i64, res.as_ref().map_or(-1, |k| *k as i64));
        note(|| format!("s{} client read -> {res:?}", self.w.idx));
        self.prompt(&b, now, "read");
        let w = self.w.clone();
        let len = w.cfg.source.len;
        match res {
            Ok(k) => {
                let k = k as u64;
                if k > n {
                    violate("read_too_long", format!("{k} > {n}"));
                }
                if let Some(i) = (0..k.min(n)).find(|i| self.pos + i >= len || buf[*i as usize] != w.byte(self.pos + i)) {
                    violate(
                        "wrong_data",
                        format!(
                            "read({n}) at {} returned {k} bytes; byte {} is {:#x}, source has {:#x} (len {len})",
                            self.pos,
                            self.pos + i,
                            buf[i as usize],
                            w.byte(self.pos + i)
                        ),
                    );
                }
                if k == 0 && n > 0 && self.pos < len {
                    let st = w.st();
                    let ended = st.ended_at;
                    let recoverable = w.cfg.source.seekable && w.cfg.source.declared.is_some();
                    // the end of the stream is only up to the source when it didn't say how long it is
                    let excused = w.cfg.source.declared.is_none_or(|d| self.pos >= d)
                        && (ended.is_some_and(|e| e <= self.pos) && !recoverable
                            || (w.cfg.source.finish_ok && (st.fatal.is_some() || st.cancelled_ms.is_some())));
                    drop(st);
                    if !excused {
                        violate("false_eof", format!("read({n}) at {} returned 0, resource has {len} bytes", self.pos));
                    }
                }
                if b.failed_visible && n > 0 && self.scn.checks.sticky {
                    violate("ok_after_failure", format!("read at {} succeeded after the download had failed", self.pos));
                }
                if let Some(c) = crate::gen_::canon_len(w.cfg.storage.kind, w.cfg.source.declared)
                    && n > c
                {
                    violate("oversized_accepted", format!("read({n}) with a capacity of {c} returned {k}"));
                }
                if self.scn.checks.prompt_reads && n == 0 && now > b.ms + SLACK_MS {
                    violate("late_read", format!("read(0) at {} waited from {} to {now} ms", self.pos, b.ms));
                }
                if self.scn.checks.prompt_reads {
                    self.check_prompt(&b, now, n);
                }
                if self.scn.checks.prefetch && k > 0 {
                    self.check_prefetch(k);
                }
                self.pos += k;
                global().bytes_read += k;
                if k == 0 && n > 0 {
                    w.st().eof_seen = true;
                }
                Ok(k)
            }
            Err(e) => {
                match self.excused(&e, None, n) {
                    None => violate("unjustified_error", format!("read({n}) at {}: {e}", self.pos)),
                    Some(why) => probe(&format!("read error: {why}")),
                }
                w.st().failed_seen = true;
                self.check_bounded_error(&e, n);
                Err(())
            }
        }
    }

    /// An "outside of the window" error is only right if the data really is gone.
    fn check_bounded_error(&self, _e: &std::io::Error, _n: u64) {}

    /// No read may wait for anything once its bytes are stored and the prefetch gate is open.
    fn check_prompt(&self, b: &Before, now: u64, n: u64) {
        if self.w.cfg.source.declared.is_some_and(|d| self.pos >= d) {
            // the end is only reported once the download is done
            return;
        }
        let st = self.w.st();
        if let Some(t) = available_at(&self.w, &st, self.pos, n) {
            let limit = t.max(b.ms) + SLACK_MS;
            drop(st);
            if now > limit {
                violate(
                    "late_read",
                    format!("read({n}) at {} returned at {now} ms, its bytes were stored at {t} ms, call at {} ms", self.pos, b.ms),
                );
            }
        }
    }

    /// A download that waited for space has to use what the last read freed.
    fn check_resumed(&self, ms: u64) {
        let Some(cap) = crate::gen_::cap_of(&self.w.cfg.storage, self.w.cfg.source.declared) else { return };
        let now = dst::now();
        let st = self.w.st();
        let done = st.fatal.is_some() || st.cancelled_ms.is_some() || !st.finish.is_empty();
        let waiting = st.delivered.saturating_sub(st.bytes_accepted);
        let since = st.chunks_at.last().copied().unwrap_or(now);
        if !done && st.wseek_n == 0 && waiting > 0 && since + ms <= now && st.wpos < self.pos + cap {
            let d = format!(
                "{ms} ms after a read that left the reader at {} the download still waits at {} with {waiting} bytes; {cap} bytes fit",
                self.pos, st.wpos
            );
            drop(st);
            violate("not_resumed", d);
        } else if waiting > 0 && !done {
            probe("waiting for space");
        }
    }

    /// A source that can seek is asked to instead of waiting until everything in between arrived.
    fn check_not_waited(&self, b: &Before, p: u64, seeks_before: usize) {
        let src = &self.w.cfg.source;
        if !src.seekable || matches!(src.transport, Transport::AsyncRead | Transport::Process) || self.scn.sched.stall_p > 0 {
            return;
        }
        let st = self.w.st();
        if st.fatal.is_none()
            && st.cancelled_ms.is_none()
            && !st.wseeks[seeks_before..].contains(&p)
            && let Some(t) = st.first_write.get(p as usize).copied().flatten()
            // nothing else can be done while a request is under way
            && t > st.calls.iter().filter_map(|c| c.done_ms).filter(|d| *d <= t).max().unwrap_or(0).max(b.ms) + SLACK_MS
        {
            drop(st);
            violate("seek_waited", format!("the seek to {p} at {} ms waited until the download got there at {t} ms", b.ms));
        }
    }

    /// Nothing is handed out before the prefetch target is stored.
    fn check_prefetch(&self, k: u64) {
        let st = self.w.st();
        let ended = st.ended_at.is_some() || st.source_dropped_ms.is_some() || st.errors_delivered > 0;
        if let Some((start, need)) = st.pf_gate
            && st.wseek_n == 1
            && self.pos + k > start
            && st.wpos < need
            && !ended
        {
            let have = st.wpos;
            drop(st);
            violate("prefetch_gate", format!("read at {} returned {k} bytes with {have} of {need} prefetched after a seek to {start}", self.pos));
            return;
        }
        if st.pf_gate.is_some() {
            probe("gate after a seek");
        }
        if st.wseek_n > 0 {
            return;
        }
        let target = self.w.cfg.settings.prefetch.min(self.w.cfg.source.len);
        let have = st.bytes_accepted;
        let ended = st.ended_at.is_some() || st.source_dropped_ms.is_some();
        drop(st);
        if have < target && !ended {
            violate("prefetch_gate", format!("read returned {k} bytes with {have} of {target} prefetched"));
        }
    }

    fn seek(&mut self, to: SeekFrom) -> Result<(), ()> {
        let declared = self.w.cfg.source.declared;
        let target: i128 = match to {
            SeekFrom::Start(p) => i128::from(p),
            SeekFrom::Current(d) => i128::from(self.pos) + i128::from(d),
            SeekFrom::End(d) => declared.map_or(-1, |l| i128::from(l) + i128::from(d)),
        };
        let clamped = declared.map_or(target, |l| target.min(i128::from(l)));
        let b = self.before(&format!("seek({to:?})"), 0);
        {
            let mut st = self.w.st();
            st.last_seek_ms = b.ms;
            st.pf_gate = None;
            st.in_seek = true;
            st.seek_ops += 1;
        }
        let (seeks_before, wpos_before, stored_before) = {
            let st = self.w.st();
            let stored = usize::try_from(clamped).is_ok_and(|p| st.first_write.get(p).is_some_and(Option::is_some));
            (st.wseeks.len(), st.wpos, stored)
        };
        let res = self.s.seek(to);
        self.w.st().in_seek = false;
        let now = self.after();
        dst::event("op_seek", clamped as i64, res.as_ref().map_or(-1, |k| *k as i64));
        note(|| format!("s{} client seek -> {res:?}", self.w.idx));
        self.prompt(&b, now, "seek");
        match res {
            Ok(p) => {
                if target < 0 {
                    violate("bad_seek_accepted", format!("seek({to:?}) at {} returned {p}", self.pos));
                } else if i128::from(p) != clamped {
                    violate("seek_result", format!("seek({to:?}) at {} returned {p}, expected {clamped}", self.pos));
                }
                if let Some(c) = crate::gen_::canon_len(self.w.cfg.storage.kind, self.w.cfg.source.declared)
                    && p > self.pos + c
                {
                    violate("oversized_accepted", format!("seek({to:?}) at {} with a capacity of {c} returned {p}", self.pos));
                }
                if self.scn.checks.sticky && self.w.cfg.shutdown_ms.is_none() && declared.is_none_or(|d| p < d) {
                    let st = self.w.st();
                    let stored = st.first_write.get(p as usize).is_some_and(Option::is_some);
                    let fatal = st.fatal;
                    let moved = st.wpos == p || st.wseeks.contains(&p);
                    drop(st);
                    if let Some(f) = fatal
                        && !stored
                        && !moved
                    {
                        violate("ok_after_failure", format!("seek to {p} succeeded only because the download failed ({f})"));
                    }
                }
                if b.failed_visible && self.scn.checks.sticky {
                    violate("ok_after_failure", format!("seek at {} succeeded after the download had failed", self.pos));
                }
                if !stored_before && wpos_before != p {
                    self.check_not_waited(&b, p, seeks_before);
                }
                // the download may also have moved by itself to continue after a broken connection
                if self.w.st().wseeks[seeks_before..].contains(&p) {
                    self.moved_back = false;
                } else if p < self.pos {
                    self.moved_back = true;
                }
                self.pos = p;
                Ok(())
            }
            Err(e) => {
                use std::io::ErrorKind;
                let st_failed = {
                    let st = self.w.st();
                    st.fatal.is_some() || st.cancelled_ms.is_some() || st.reader_fault
                };
                if target < 0 && !st_failed {
                    let want = if matches!(to, SeekFrom::End(_)) && declared.is_none() {
                        ErrorKind::Unsupported
                    } else {
                        ErrorKind::InvalidInput
                    };
                    if e.kind() != want {
                        violate("seek_error_kind", format!("seek({to:?}) at {}: {e:?}", self.pos));
                    }
                    probe("rejected seek");
                } else if target > i128::from(i64::MAX) {
                    probe("seek out of range");
                } else {
                    match self.excused(&e, Some(clamped as u64), 0) {
                        None => violate("unjustified_error", format!("seek({to:?}) at {}: {e}", self.pos)),
                        Some(why) => probe(&format!("seek error: {why}")),
                    }
                }
                Err(())
            }
        }
    }

    fn run(mut self) {
        let ops = self.w.cfg.ops.clone();
        // the last operation was a read that freed some space
        let mut fresh = false;
        for (i, op) in ops.iter().enumerate() {
            self.op_i = i;
            dst::point();
            fresh &= matches!(op, Op::Sleep(_));
            match *op {
                Op::Read(n) => fresh = matches!(self.read(n), Ok(k) if k > 0),
                Op::ReadAll(n) => {
                    let mut guard = 0;
                    while let Ok(k) = self.read(n.max(1)) {
                        guard += 1;
                        if k == 0 || guard > 20_000 {
                            break;
                        }
                    }
                }
                Op::SeekStart(p) => {
                    let _ = self.seek(SeekFrom::Start(p));
                }
                Op::SeekCur(d) => {
                    let _ = self.seek(SeekFrom::Current(d));
                }
                Op::SeekEnd(d) => {
                    let _ = self.seek(SeekFrom::End(d));
                }
                Op::Sleep(ms) => {
                    dst::sleep(ms);
                    if self.scn.checks.resume && ms >= 200 && fresh {
                        self.check_resumed(ms);
                    }
                }
                Op::Cancel => {
                    fired("cancel_from_reader");
                    self.w.mark_cancelled();
                    self.s.cancel_download();
                }
                Op::Pos => {
                    let _ = self.seek(SeekFrom::Current(0));
                }
                Op::AwaitDone(ms) => self.await_done(ms),
                Op::Nop => {}
            }
        }
        let now = dst::now();
        {
            let mut st = self.w.st();
            st.client_done = true;
            st.client_done_ms = now;
            st.dropped_ms = Some(now);
        }
        if self.w.cfg.settings.cancel_on_drop {
            self.w.mark_cancelled();
        }
        note(|| format!("s{} client drops the stream", self.w.idx));
        let w = self.w.clone();
        drop(self.s);
        dst::event("client_done", w.idx as i64, 0);
        DONE.notify();
    }

    fn await_done(&mut self, ms: u64) {
        let flag = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let key = 1000 + self.w.idx;
        let f2 = flag.clone();
        let h = self.s.handle();
        self.rt.spawn(async move {
            let _ = tokio::time::timeout(Duration::from_millis(ms), h.wait_for_completion()).await;
            f2.store(true, std::sync::atomic::Ordering::SeqCst);
            dst::signal(key);
        });
        dst::wait_event(key, || flag.load(std::sync::atomic::Ordering::SeqCst));
    }
}

/// When all bytes a read asks for were stored and the prefetch gate was open, if that is known.
pub fn available_at(w: &World, st: &crate::world::St, pos: u64, n: u64) -> Option<u64> {
    let len = w.cfg.source.len;
    let want = (pos + n).min(len);
    if w.cfg.source.declared.is_none() && pos + n > len {
        return None;
    }
    let mut t = 0;
    for p in pos..want {
        t = t.max((*st.first_write.get(p as usize)?)?);
    }
    let pf = w.cfg.settings.prefetch.min(len);
    if pf > 0 {
        if st.wseek_n > 0 {
            return None;
        }
        t = t.max(st.first_write[(pf - 1) as usize]?);
    }
    Some(t)
}

struct Done;
static DONE_Q: LazyLock<tokio::sync::Notify> = LazyLock::new(tokio::sync::Notify::new);
impl Done {
    fn notify(&self) {
        DONE_Q.notify_one();
    }
}
static DONE: Done = Done;

// -------------------------------------------------------------------------------- driver

async fn timer_service() {
    loop {
        let mut batch = Vec::new();
        std::future::poll_fn(|cx| {
            batch = dst::take_timers(cx.waker());
            if batch.is_empty() { std::task::Poll::Pending } else { std::task::Poll::Ready(()) }
        })
        .await;
        for (ms, tid, token) in batch.drain(..) {
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(ms)).await;
                dst::fire_timer(tid, token);
            });
        }
    }
}

async fn start_stream(scn: Arc<Scenario>, w: Arc<World>) {
    vsleep(w.cfg.start_ms).await;
    let Some(s) = open(&w).await else {
        let mut st = w.st();
        st.client_done = true;
        st.client_done_ms = dst::now();
        drop(st);
        DONE.notify();
        return;
    };
    w.st().started = true;
    if s.content_length() != w.cfg.source.declared {
        violate("content_length", format!("{:?} but the source reports {:?}", s.content_length(), w.cfg.source.declared));
    }
    *w.token.lock().expect("token") = Some(s.cancellation_token());
    for _ in 0..w.cfg.waiters {
        let (h, w) = (s.handle(), w.clone());
        tokio::spawn(async move {
            h.wait_for_completion().await;
            let now = dst::now();
            dst::event("completion", w.idx as i64, 0);
            note(|| format!("s{} wait_for_completion resolved", w.idx));
            let mut st = w.st();
            st.waiters_done.push(now);
            let ok = st.finish.last().is_some_and(|f| f.done_ms.is_some()) || st.panicked;
            drop(st);
            if !ok {
                violate("early_completion", "wait_for_completion resolved before on_finish had run to its end".into());
            }
        });
    }
    if let Some(ms) = w.cfg.token_cancel_ms {
        let w = w.clone();
        dst::spawn("canceller", move || {
            dst::sleep(ms);
            fired("cancel_from_token");
            w.cancel_via_token();
        });
    }
    let rt = tokio::runtime::Handle::current();
    let c = Client { w, scn, s, pos: 0, rt, op_i: 0, moved_back: false };
    dst::spawn("reader", move || c.run());
}

fn all_clients_done(ws: &[Arc<World>]) -> bool {
    ws.iter().all(|w| w.st().client_done)
}

async fn main_task(scn: Arc<Scenario>, ws: Vec<Arc<World>>) {
    tokio::spawn(timer_service());
    for w in &ws {
        let f = AssertUnwindSafe(start_stream(scn.clone(), w.clone())).catch_unwind();
        let w = w.clone();
        tokio::spawn(async move {
            if f.await.is_err() {
                w.st().client_done = true;
                DONE.notify();
            }
        });
    }
    let horizon = Duration::from_millis(scn.horizon_ms);
    let r = tokio::time::timeout(horizon, async {
        while !all_clients_done(&ws) {
            DONE_Q.notified().await;
        }
    })
    .await;
    if r.is_err() {
        for w in &ws {
            report_hang(&scn, w);
        }
        return;
    }
    if scn.checks.release || scn.checks.completion || scn.checks.full_cache || scn.checks.process {
        crate::post::settle(&scn, &ws).await;
    }
}

fn report_hang(scn: &Scenario, w: &World) {
    let st = w.st();
    if st.client_done {
        return;
    }
    let Some((i, since)) = st.pending else { return };
    let op = w.cfg.ops[i];
    let mut legit = scn.checks.may_starve && st.cancelled_ms.is_none() && st.fatal.is_none();
    if legit
        && matches!(op, Op::Read(_) | Op::ReadAll(_))
        && w.cfg.source.declared.is_none_or(|d| st.op_pos < d)
        && let Some(t) = available_at(w, &st, st.op_pos, st.op_n)
    {
        let (pos, n) = (st.op_pos, st.op_n);
        if scn.checks.prompt_reads {
            drop(st);
            violate("stuck_read", format!("read({n}) at {pos} never returned although its bytes were stored at {t} ms"));
            return;
        }
        legit = true;
    }
    if legit {
        probe("starved");
        return;
    }
    let d = format!(
        "{op:?} (op {i}) at {} still blocked at the horizon, called at {since} ms; stored {} of {}, writer at {}, fatal {:?}, cancelled {:?}, source dropped {:?}",
        st.cpos, st.stored, w.cfg.source.len, st.wpos, st.fatal, st.cancelled_ms, st.source_dropped_ms
    );
    drop(st);
    violate("hang", d);
}

/// Every temporary file is gone once the stream, its reader and the runtime are.
fn check_temp_files(scn: &Scenario) {
    let dir = crate::storage::scratch();
    // never look at anything but this process' own directory
    let own = format!("simcheck-{}", std::process::id());
    if scn.checks.process || !dir.ends_with(own) {
        return;
    }
    let sub = crate::storage::sub_dir();
    let files = [&dir, &sub].into_iter().filter_map(|d| std::fs::read_dir(d).ok()).flat_map(|d| d.flatten());
    for f in files {
        if f.path() == sub {
            continue;
        }
        let _ = std::fs::remove_file(f.path());
        let mut g = global();
        if g.violations.is_empty() {
            let detail = format!("a temporary file of {} bytes was left behind", f.metadata().map_or(0, |m| m.len()));
            g.violations.push(crate::world::Violation { kind: "temp_leak".into(), detail, step: 0 });
        }
    }
}

pub fn execute(scn: &Scenario) -> Outcome {
    init_process();
    *global() = Global { keep_logs: scn.checks.process, ..Global::default() };
    let scn = Arc::new(scn.clone());
    set_scenario(Some(scn.clone()));
    let ws: Vec<Arc<World>> = scn.streams.iter().enumerate().map(|(i, c)| World::new(i, c.clone())).collect();
    *WORLDS.lock().unwrap_or_else(std::sync::PoisonError::into_inner) = ws.clone();
    // drain a stale permit
    let _ = DONE_Q.notified().now_or_never();

    dst::start(dst::Config {
        seed: scn.sched.seed,
        policy: policy(&scn),
        stall_p: scn.sched.stall_p,
        stall_ms: scn.sched.stall_ms,
        replay: scn
            .sched
            .decisions
            .iter()
            .map(|(i, d)| (*i, match d { D::Run(t) => dst::Decision::Run(*t), D::Stall(ms) => dst::Decision::Stall(*ms) }))
            .collect(),
        max_steps: scn.sched.max_steps,
    });
    if scn.checks.raw_storage {
        crate::raw::run(&scn, &ws);
        let report = dst::stop();
        dst::clear();
        check_temp_files(&scn);
        let g = std::mem::take(&mut *global());
        return Outcome { report, global: g, sim_ms: 0, worlds: ws };
    }
    let mut seed = [0u8; 8];
    seed.copy_from_slice(&scn.tokio_seed.to_le_bytes());
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed))
        .on_thread_park(dst::exec_idle)
        .build()
        .expect("runtime");
    let h = rt.handle().clone();
    dst::set_exec_ready_probe(move || h.metrics().global_queue_depth() > 0);
    let h = rt.handle().clone();
    let t0 = {
        let _g = h.enter();
        tokio::time::Instant::now()
    };
    dst::set_clock(move || {
        let _g = h.enter();
        (tokio::time::Instant::now() - t0).as_millis() as u64
    });
    let shutdown = scn.streams.iter().find_map(|s| match s.source.create {
        Some(CallKind::Full) => None,
        _ => s.shutdown_ms,
    });
    let mut rt = Some(rt);
    {
        let r = rt.as_ref().expect("rt");
        let (scn2, ws2) = (scn.clone(), ws.clone());
        r.block_on(async move {
            let main = tokio::spawn(main_task(scn2, ws2));
            match shutdown {
                None => {
                    let _ = main.await;
                }
                Some(ms) => {
                    tokio::select! {
                        _ = main => {}
                        () = tokio::time::sleep(Duration::from_millis(ms)) => {
                            fired("runtime_shutdown");
                        }
                    }
                }
            }
        });
    }
    let sim_ms = dst::now();
    if shutdown.is_some() {
        for w in &ws {
            w.fatal("runtime shutdown");
        }
        drop(rt.take());
        if !dst::exec_drain() {
            for w in &ws {
                if !w.st().client_done {
                    violate("hang", "an operation stays blocked after the runtime was shut down".into());
                }
            }
        }
    } else {
        crate::post::check(&scn, &ws);
    }
    let report = dst::stop();
    drop(rt);
    dst::clear();
    check_temp_files(&scn);
    WORLDS.lock().unwrap_or_else(std::sync::PoisonError::into_inner).clear();
    set_scenario(None);
    let g = std::mem::take(&mut *global());
    Outcome { report, global: g, sim_ms, worlds: ws }
}
