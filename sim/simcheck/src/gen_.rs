//! Scenario families. Everything a run does is decided here from one seed.
use dst::Rng;

use crate::scen::*;

pub struct Prop {
    pub id: &'static str,
    pub make: fn(&mut G) -> Scenario,
    /// kinds of violations that break this property
    pub kinds: &'static [&'static str],
    /// probes which must be hit for the exploration to mean something
    pub want: &'static [&'static str],
}

pub struct G {
    pub r: Rng,
    pub seed: u64,
    /// how much bigger than usual everything is
    pub scale: u64,
}

const DATA: [&str; 3] = ["wrong_data", "stored_wrong_byte", "read_too_long"];

macro_rules! kinds {
    ($($k:literal),*) => { &["panic", $($k),*] };
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", make: c01, kinds: kinds!["wrong_data", "stored_wrong_byte", "read_too_long"], want: &[] },
    Prop { id: "C02", make: c02, kinds: kinds!["false_eof", "wrong_data", "content_length", "unjustified_error", "hang"], want: &[] },
    Prop { id: "C03", make: c03, kinds: kinds!["seek_waited", "hang", "late_read", "stuck_read"], want: &[] },
    Prop { id: "C04", make: c04, kinds: kinds!["seek_waited", "seek_result", "bad_seek_accepted", "seek_error_kind", "wrong_data", "unjustified_error", "false_eof", "oversized_accepted", "hang"], want: &[] },
    Prop { id: "C05", make: c05, kinds: kinds!["capacity_exceeded", "wrong_data", "stored_wrong_byte", "unjustified_error", "oversized_accepted", "hang", "false_eof", "data_lost"], want: &[] },
    Prop { id: "C06", make: c06, kinds: kinds!["hang", "not_resumed", "false_eof", "unjustified_error", "wrong_data", "late_read", "stuck_read"], want: &[] },
    Prop { id: "C07", make: c07, kinds: kinds!["slow_failure", "hang", "ok_after_failure", "finish_outcome", "finish_count", "wrong_data", "false_eof", "unjustified_error"], want: &[] },
    Prop { id: "C08", make: c08, kinds: kinds!["hang", "slow_cancel", "slow_release", "not_released", "finish_count", "finish_outcome", "finish_aborted", "incomplete_cache", "wrong_data", "ok_after_failure", "temp_leak"], want: &[] },
    Prop { id: "C09", make: c09, kinds: kinds!["early_completion", "completion_lost", "completion_late", "finish_count", "finish_aborted", "finish_outcome", "not_released", "hang"], want: &[] },
    Prop { id: "C10", make: c10, kinds: kinds!["reconnect_position", "early_reconnect", "reconnect_storm", "no_reconnect", "reconnect_unbounded", "reconnect_callback", "wrong_data", "stored_wrong_byte", "false_eof", "hang", "unjustified_error"], want: &["reconnected"] },
    Prop { id: "C11", make: c11, kinds: kinds!["wrong_data", "stored_wrong_byte", "false_eof", "hang", "unjustified_error", "incomplete_cache", "finish_outcome"], want: &[] },
    Prop { id: "C12", make: c12, kinds: kinds!["incomplete_cache", "stored_wrong_byte", "hang", "not_released", "finish_outcome", "finish_count"], want: &[] },
    Prop { id: "C13", make: c13, kinds: kinds!["seek_waited", "bad_range", "bad_range_header", "bad_method", "http_first_request", "http_extra_get", "wrong_data", "stored_wrong_byte", "false_eof", "hang", "unjustified_error", "content_length", "init_text", "init_swallowed", "content_type", "header"], want: &[] },
    Prop { id: "C14", make: c14, kinds: kinds!["seek_on_unseekable", "wrong_data", "stored_wrong_byte", "false_eof", "hang", "unjustified_error", "seek_result", "incomplete_cache"], want: &[] },
    Prop { id: "C15", make: c15, kinds: kinds!["process_leak", "process_status", "stderr_leak", "wrong_data", "stored_wrong_byte", "false_eof", "hang", "not_released", "unjustified_error", "process_args", "process_wiring", "init_failed", "init_swallowed", "slow_release", "finish_outcome", "ok_after_failure"], want: &[] },
    Prop { id: "C16", make: c16, kinds: kinds!["progress_after_complete", "progress_position", "progress_chunk", "progress_chunk_range", "progress_sum", "progress_complete", "progress_final", "progress_phase", "progress_target"], want: &[] },
    Prop { id: "C17", make: c17, kinds: kinds!["prefetch_gate", "hang", "late_read", "stuck_read", "wrong_data", "progress_phase"], want: &[] },
    Prop { id: "C18", make: c18, kinds: kinds!["storage_error", "storage_write_len", "storage_backpressure", "storage_read_len", "storage_wrong_data", "storage_read_empty", "storage_overrun", "storage_seek", "storage_position", "storage_length", "capacity_exceeded", "adaptive_choice", "hang", "temp_leak", "temp_place"], want: &[] },
    Prop { id: "C20", make: c20, kinds: kinds!["wrong_data", "stored_wrong_byte", "false_eof", "hang", "unjustified_error", "incomplete_cache", "content_length", "bad_range", "reconnect_position", "seek_result", "opendal_chunk", "content_type", "init_text", "init_swallowed", "init_failed", "init_kind", "bad_request", "finish_outcome", "no_reconnect"], want: &[] },
    Prop { id: "C21", make: c21, kinds: kinds!["batch_size", "no_yield", "wrong_data", "stored_wrong_byte"], want: &[] },
    Prop { id: "C22", make: c22, kinds: kinds!["refetch", "refetch_range", "bad_range", "downloaded_twice"], want: &[] },
    Prop { id: "C23", make: c23, kinds: kinds!["wrong_data", "stored_wrong_byte", "false_eof", "hang", "unjustified_error", "finish_count", "finish_outcome", "not_released", "early_completion", "completion_lost", "slow_cancel"], want: &[] },
    Prop { id: "C24", make: c24, kinds: kinds!["init_swallowed", "init_failed", "init_kind", "init_text", "init_leak", "hang", "wrong_data", "content_length", "storage_length", "temp_leak", "temp_place"], want: &[] },
];

pub fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

/// The scenario with this number.
pub fn scenario(p: &Prop, base: u64, n: u64) -> Scenario {
    let mut h: u64 = 0;
    for c in p.id.bytes() {
        h = h.wrapping_mul(131).wrapping_add(u64::from(c));
    }
    let seed = Rng::new(base.wrapping_mul(0x9e37_79b9).wrapping_add(n) ^ h.rotate_left(40)).next_u64();
    // now and then everything is a lot bigger (beyond default batches, buffers and 16 bits)
    let mut big = Rng::new(seed ^ 0x6269_6767);
    let scale = if big.chance(30, 1000) { *big.pick(&[30, 100, 300, 700]) + big.range(0, 50) } else { 1 };
    let mut g = G { r: Rng::new(seed), seed, scale };
    let mut s = (p.make)(&mut g);
    s.prop = p.id.into();
    s.seed = seed;
    if scale > 1 {
        // keep the number of steps within bounds
        for st in &mut s.streams {
            st.settings.batch = st.settings.batch.max(scale);
            for c in &mut st.source.chunks {
                *c = (*c).max(scale);
            }
            if st.source.chunk_size > 0 {
                st.source.chunk_size = st.source.chunk_size.max(scale);
            }
            match &mut st.storage.kind {
                StorageKind::Bounded(c) | StorageKind::BoundedTemp(c) | StorageKind::Adaptive(c) => *c = (*c).max(2 * scale),
                StorageKind::AdaptiveBounded(n, c) => {
                    *n = (*n).max(2 * scale);
                    *c = (*c).max(2 * scale);
                }
                _ => {}
            }
            for o in &mut st.ops {
                if let Op::ReadAll(n) = o {
                    *n = (*n).max(scale);
                }
            }
        }
    }
    {
        let mut r = Rng::new(seed ^ 0x6275_6666);
        for st in &mut s.streams {
            // bounded storage has to flush what it keeps its data in by itself
            let flushed = canon_len(st.storage.kind, st.source.declared).is_some();
            if (p.id != "C18" || flushed) && r.chance(10, 100) {
                st.storage.buffered = *r.pick(&[1, 3, 8, 20, 64, 10_000]);
            }
        }
    }
    s
}

/// Random mixture used for one run.
struct Mix {
    len: u64,
    unknown: bool,
    seekable: bool,
}

impl G {
    fn yes(&mut self, pct: u64) -> bool {
        self.r.chance(pct, 100)
    }
    fn of<T: Copy>(&mut self, xs: &[T]) -> T {
        *self.r.pick(xs)
    }

    /// `x`, enlarged in a run with big sizes.
    fn scaled(&mut self, x: u64) -> u64 {
        if self.scale == 1 || x == 0 { x } else { x * self.scale + self.r.below(self.scale) }
    }
    fn len(&mut self) -> u64 {
        let x = match self.r.below(20) {
            0 => 0,
            1..=3 => self.r.range(1, 8),
            4..=11 => self.r.range(9, 80),
            _ => self.r.range(81, 400),
        };
        self.scaled(x)
    }
    fn len1(&mut self) -> u64 {
        self.len().max(1)
    }

    fn chunks(&mut self, len: u64) -> Vec<u64> {
        let n = self.r.range(1, 4);
        let style = self.r.below(6);
        (0..n)
            .map(|_| {
                let x = match style {
                    0 => self.r.range(1, 3),
                    1 => self.r.range(1, 16),
                    2 => self.r.range(8, 64),
                    3 => return len.max(1),
                    4 => self.of(&[1, 7, 16, 33, 100]),
                    _ => return self.r.range(1, len.max(2)),
                };
                self.scaled(x)
            })
            .collect()
    }

    fn delays(&mut self) -> Vec<u64> {
        let n = self.r.range(1, 4);
        let style = self.r.below(4);
        (0..n)
            .map(|_| match style {
                0 => 0,
                1 => self.r.range(0, 3),
                2 => self.of(&[0, 0, 1, 10, 50]),
                _ => self.of(&[0, 0, 0, 150]),
            })
            .collect()
    }

    fn source(&mut self, m: &Mix) -> SourceCfg {
        SourceCfg {
            transport: Transport::Native,
            len: m.len,
            declared: (!m.unknown).then_some(m.len),
            seekable: m.seekable,
            honor_end: self.yes(75),
            chunks: self.chunks(m.len),
            delays: self.delays(),
            faults: vec![],
            seeks: vec![],
            reconnects: vec![],
            create: None,
            finish_delay: 0,
            finish_err: false,
            finish_ok: false,
            accept_ranges: Some("bytes".into()),
            content_type: Some("audio/mpeg".into()),
            proc_cfg: None,
            chunk_size: 0,
        }
    }

    fn settings(&mut self, len: u64) -> SettingsCfg {
        let mut s = SettingsCfg {
            prefetch: match self.r.below(8) {
                0..=2 => 0,
                3 => self.r.range(1, 4),
                4 => self.r.range(1, 32),
                5 => self.r.range(1, len.max(1)),
                6 => len + self.r.range(0, 3),
                _ => self.of(&[262_144, 262_144, 1 << 32, u64::MAX, u64::MAX - 4]),
            },
            batch: self.of(&[1, 2, 5, 16, 64, 4096]),
            retry_ms: self.of(&[2000, 5000]),
            cancel_on_drop: true,
            progress: self.yes(30),
            progress_cancel_at: None,
            progress_panic_at: None,
            reconnect_cancel: None,
        };
        if self.scale > 1 {
            if s.prefetch < len {
                s.prefetch = self.scaled(s.prefetch);
            }
            s.batch = if self.yes(50) { 4096 } else { self.scaled(s.batch) };
        }
        s
    }

    fn plain_storage(&mut self) -> StorageCfg {
        let kind = match self.r.below(10) {
            0..=5 => StorageKind::Memory,
            6..=7 => StorageKind::Temp,
            8 => StorageKind::Adaptive(self.r.range(8, 64) * self.scale),
            _ => StorageKind::AdaptiveMixed(self.r.range(8, 200) * self.scale),
        };
        StorageCfg { kind, faults: vec![], buffered: 0 }
    }

    fn bounded(&mut self) -> StorageCfg {
        let cap = match self.r.below(5) {
            0 => self.r.range(1, 4),
            1 | 2 => self.r.range(5, 20),
            _ => self.r.range(16, 96),
        };
        let cap = self.scaled(cap);
        let kind = match self.r.below(10) {
            0..=6 => StorageKind::Bounded(cap),
            7 => StorageKind::BoundedTemp(cap),
            8 => StorageKind::AdaptiveBounded(if self.yes(40) { cap } else { self.r.range(1, 2 * cap) }, cap),
            _ => StorageKind::Adaptive(cap),
        };
        StorageCfg { kind, faults: vec![], buffered: 0 }
    }

    fn short_io(&mut self, s: &mut StorageCfg) {
        for _ in 0..self.r.below(4) {
            let op = self.of(&[StOp::Write, StOp::Read]);
            let kind = if self.yes(40) { StKind::Interrupted } else { StKind::Short };
            s.faults.push(StFault { op, n: self.r.below(12), kind });
        }
    }

    fn sched(&mut self) -> Sched {
        let policy = match self.r.below(10) {
            0 => PolicyCfg::Sticky,
            1 => PolicyCfg::Random(10),
            2 | 3 => PolicyCfg::Random(60),
            4 | 5 => PolicyCfg::Random(300),
            6 => PolicyCfg::Random(700),
            7 => PolicyCfg::Pct(2, 150),
            8 => PolicyCfg::Pct(4, 600),
            _ => PolicyCfg::Bursty(500, self.r.range(20, 120), self.r.range(4, 20)),
        };
        Sched { policy, seed: self.r.next_u64(), stall_p: 0, stall_ms: 0, max_steps: 400_000, decisions: vec![] }
    }

    fn stalls(&mut self, s: &mut Sched) {
        if self.yes(30) {
            s.stall_p = self.of(&[20, 100, 400]);
            s.stall_ms = self.of(&[3, 40, 400]);
        }
    }

    fn stream(&mut self, source: SourceCfg, storage: StorageCfg, settings: SettingsCfg, ops: Vec<Op>) -> StreamCfg {
        StreamCfg {
            source,
            storage,
            settings,
            ops,
            token_cancel_ms: None,
            token_cancel_bytes: None,
            waiters: 0,
            start_ms: 0,
            shutdown_ms: None,
            salt: self.r.below(1000),
            writer_ops: vec![],
        }
    }

    fn scn(&mut self, family: &str, streams: Vec<StreamCfg>, checks: Checks) -> Scenario {
        // a slow source gets the time it needs
        let slow = streams.iter().map(|s| s.source.len * s.source.delays.iter().max().unwrap_or(&0) * 4).max().unwrap_or(0);
        Scenario {
            prop: String::new(),
            family: family.into(),
            seed: 0,
            tokio_seed: self.r.next_u64(),
            horizon_ms: 600_000 + slow,
            streams,
            sched: self.sched(),
            checks,
        }
    }

    fn read_size(&mut self, len: u64) -> u64 {
        match self.r.below(8) {
            0 if self.scale == 1 => 1,
            0..=3 => {
                let x = self.r.range(1, 16);
                self.scaled(x)
            }
            4 | 5 => {
                let x = self.r.range(1, 64);
                self.scaled(x)
            }
            6 => self.r.range(1, len.max(1) + 8),
            _ => len + self.r.range(0, 64),
        }
    }

    fn place(&mut self, len: u64) -> u64 {
        match self.r.below(10) {
            0 => 0,
            1 => len,
            2 => len.saturating_sub(1),
            3 => len + self.r.range(1, 20),
            _ => self.r.range(0, len),
        }
    }

    /// Reads and seeks of one client.
    fn ops(&mut self, len: u64, known: bool, seeks: u64) -> Vec<Op> {
        let n = self.r.range(1, 9);
        let mut v = Vec::new();
        for _ in 0..n {
            let op = if self.yes(seeks) {
                match self.r.below(6) {
                    0..=2 => Op::SeekStart(if known { self.place(len) } else { self.r.range(0, len) }),
                    3 => {
                        let d = self.r.range(0, 40) as i64;
                        Op::SeekCur(if self.yes(50) { d } else { -d.min(8) })
                    }
                    4 if known => {
                        let d = self.r.range(0, len.min(60)) as i64;
                        Op::SeekEnd(-d)
                    }
                    _ => Op::Pos,
                }
            } else {
                match self.r.below(10) {
                    0 => Op::Sleep(self.r.range(1, 60)),
                    _ => Op::Read(self.read_size(len)),
                }
            };
            v.push(op);
        }
        if self.yes(60) {
            v.push(Op::ReadAll(self.read_size(len)));
        }
        v
    }

    fn at(&mut self, len: u64) -> u64 {
        match self.r.below(6) {
            0 => 0,
            1 => len,
            _ => self.r.range(0, len),
        }
    }

    fn chunk_errors(&mut self, s: &mut SourceCfg, n: u64) {
        for _ in 0..n {
            let kind = self.of(&[ByteKind::Err, ByteKind::Err, ByteKind::Empty]);
            let at = self.at(s.len);
            // sometimes a whole row of them
            let row = if self.yes(6) { self.r.range(5, 30) } else { 1 };
            for _ in 0..row {
                s.faults.push(ByteFault { at, kind });
            }
        }
        s.faults.sort_by_key(|f| f.at);
    }

    /// Stalls longer than the retry timeout, answered by reconnects.
    fn stall_faults(&mut self, s: &mut SourceCfg, retry: u64, n: u64) {
        for _ in 0..n {
            let ms = match self.r.below(4) {
                0 => self.r.range(1, retry.saturating_sub(100).max(1)),
                1 => retry + self.r.range(100, 2000),
                _ => FOREVER,
            };
            // everything arrived, but the connection stays open
            let open = s.declared == Some(s.len) && self.yes(15);
            let at = if open { s.len } else { self.at(s.len.saturating_sub(1)) };
            s.faults.push(ByteFault { at, kind: ByteKind::Stall(ms) });
        }
        s.faults.sort_by_key(|f| f.at);
    }

    fn reconnect_faults(&mut self, s: &mut SourceCfg) {
        for n in 0..self.r.below(4) {
            let kind = match self.r.below(4) {
                0 => CallKind::Err,
                1 => CallKind::Hang,
                2 => CallKind::Delay(self.of(&[5, 100, 3000])),
                _ => CallKind::DelayErr(self.of(&[5, 100])),
            };
            s.reconnects.push(CallFault { n: n as u32, kind });
        }
    }

    /// Every connection ends early, but each one delivers something.
    fn flapping(&mut self, s: &mut SourceCfg) {
        let n = self.r.range(11, 16).min(s.len.saturating_sub(1));
        let mut at: Vec<u64> = (0..n).map(|_| self.r.range(1, s.len - 1)).collect();
        at.sort_unstable();
        at.dedup();
        for at in at {
            let kind = self.of(&[ByteKind::End, ByteKind::End, ByteKind::ErrEnd]);
            s.faults.push(ByteFault { at, kind });
        }
        s.faults.sort_by_key(|f| f.at);
    }

    fn any_transport(&mut self, s: &mut SourceCfg) {
        match self.r.below(10) {
            0..=4 => {}
            5 | 6 => {
                s.transport = Transport::Http;
                s.honor_end = true;
            }
            7 => {
                s.transport = Transport::Middleware;
                s.honor_end = true;
            }
            _ => {
                s.transport = Transport::AsyncRead;
                s.seekable = false;
            }
        }
        self.fit_transport(s);
        if s.transport == Transport::AsyncRead {
            // nothing can be done about a silent connection which can't be replaced
            for f in &mut s.faults {
                if f.kind == ByteKind::Stall(FOREVER) {
                    f.kind = ByteKind::Stall(self.of(&[2500, 9000, 20_000]));
                }
            }
        }
    }

    /// What the transport can not express is taken out.
    fn fit_transport(&mut self, s: &mut SourceCfg) {
        match s.transport {
            Transport::Http | Transport::Middleware => {
                s.seekable = true;
                s.honor_end = true;
                if s.declared.is_none() {
                    // a range that starts at the end is refused, so there is no way to find out
                    // that nothing is missing
                    let len = s.len;
                    s.faults.retain(|f| f.at < len || !matches!(f.kind, ByteKind::Stall(_)));
                }
            }
            Transport::AsyncRead | Transport::Process => {
                s.seekable = false;
                s.faults.retain(|f| !matches!(f.kind, ByteKind::Err | ByteKind::ErrEnd));
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------------------------------------

fn c01(g: &mut G) -> Scenario {
    let m = Mix { len: g.len(), unknown: g.yes(20), seekable: !g.yes(15) };
    let mut src = g.source(&m);
    let set = g.settings(m.len);
    if g.yes(30) {
        let n = g.r.range(1, 3);
        g.chunk_errors(&mut src, n);
    }
    if g.yes(15) {
        g.stall_faults(&mut src, set.retry_ms, 1);
    }
    g.any_transport(&mut src);
    let mut st = if g.yes(25) { g.bounded() } else { g.plain_storage() };
    if g.yes(25) {
        g.short_io(&mut st);
    }
    let ops = client_ops(g, &src, &st);
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("mixed", vec![s], Checks { may_starve: true, ..Checks::default() });
    g.stalls(&mut s.sched);
    s
}

/// The size of the bounded storage that holds this resource, if it is known to be one.
pub fn canon_len(k: StorageKind, declared: Option<u64>) -> Option<u64> {
    match k {
        StorageKind::Bounded(n) | StorageKind::BoundedTemp(n) => Some(n),
        StorageKind::AdaptiveBounded(n, c) if declared.is_some_and(|d| d > n) => Some(c),
        _ => None,
    }
}

pub fn cap_of(st: &StorageCfg, declared: Option<u64>) -> Option<u64> {
    match st.kind {
        StorageKind::Bounded(n) | StorageKind::BoundedTemp(n) => Some(n),
        StorageKind::Adaptive(n) | StorageKind::AdaptiveMixed(n) | StorageKind::AdaptiveBounded(n, _) if declared.is_none() => Some(n),
        k => canon_len(k, declared),
    }
}

/// Operations that make sense for the storage.
fn client_ops(g: &mut G, src: &SourceCfg, st: &StorageCfg) -> Vec<Op> {
    match cap_of(st, src.declared) {
        None => {
            let seeks = g.of(&[0, 20, 50, 80]);
            g.ops(src.len, src.declared.is_some(), seeks)
        }
        Some(cap) => bounded_ops(g, src, cap, true),
    }
}

fn bounded_ops(g: &mut G, src: &SourceCfg, cap: u64, seeks: bool) -> Vec<Op> {
    let mut pos = 0u64;
    let mut v = vec![];
    let n = g.r.range(1, 8);
    let eff = cap.min(src.declared.unwrap_or(u64::MAX)).max(1);
    for _ in 0..n {
        if seeks && g.yes(25) {
            let lo = pos.saturating_sub(cap / 2);
            let hi = (pos + cap).min(src.len);
            let p = g.r.range(lo.min(hi), hi);
            v.push(Op::SeekStart(p));
            pos = p;
        } else if g.yes(10) {
            v.push(Op::Sleep(g.r.range(1, 60)));
        } else {
            let k = g.r.range(1, eff);
            v.push(Op::Read(k));
            pos = (pos + k).min(src.len);
        }
    }
    if g.yes(60) {
        v.push(Op::ReadAll(g.r.range(1, eff)));
    }
    v
}

fn c02(g: &mut G) -> Scenario {
    let m = Mix { len: g.len(), unknown: g.yes(35), seekable: !g.yes(25) };
    let mut src = g.source(&m);
    let set = g.settings(m.len);
    if g.yes(30) {
        let n = g.r.range(1, 3);
        g.chunk_errors(&mut src, n);
    }
    g.any_transport(&mut src);
    if src.transport == Transport::Native && g.yes(25) {
        let at = g.r.range(0, src.len);
        let kind = g.of(&[ByteKind::End, ByteKind::ErrEnd]);
        src.faults.push(ByteFault { at, kind });
        src.faults.sort_by_key(|f| f.at);
    }
    let mut st = if g.yes(25) { g.bounded() } else { g.plain_storage() };
    if g.yes(20) {
        g.short_io(&mut st);
    }
    let cap = cap_of(&st, src.declared);
    let mut ops = vec![];
    let eff = cap.map(|c| c.min(src.declared.unwrap_or(u64::MAX)).max(1));
    let size = |g: &mut G| match eff {
        Some(e) => g.r.range(1, e),
        None => g.read_size(m.len),
    };
    for _ in 0..g.r.below(3) {
        ops.push(Op::Read(size(g)));
        if g.yes(20) {
            ops.push(Op::Sleep(g.r.range(1, 200)));
        }
        if cap.is_none() && g.yes(30) {
            let to = match g.r.below(3) {
                0 => m.len.saturating_sub(g.r.range(0, 3)),
                _ => g.r.range(0, m.len),
            };
            ops.push(Op::SeekStart(to));
        }
    }
    if cap.is_none() && g.yes(10) {
        // around the end and back
        for back in [0, g.r.range(1, 3)] {
            ops.push(Op::SeekStart(m.len.saturating_sub(back)));
            ops.push(Op::Read(size(g)));
        }
    }
    ops.push(Op::ReadAll(size(g)));
    ops.push(Op::Read(size(g)));
    if g.yes(30) && cap.is_none() {
        ops.push(Op::SeekStart(0));
        ops.push(Op::ReadAll(size(g)));
    }
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("to_end", vec![s], Checks::default());
    g.stalls(&mut s.sched);
    s
}

fn c03(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(25), seekable: !g.yes(15) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    set.retry_ms = 5000;
    let fam = g.r.below(10);
    if fam < 4 {
        // the source goes silent; everything before that has to be readable at once
        let at = g.r.range(0, m.len);
        src.faults.push(ByteFault { at, kind: ByteKind::Stall(FOREVER) });
        set.prefetch = if g.yes(50) { 0 } else { g.r.range(0, at.max(1)) };
        for n in 0..200 {
            src.reconnects.push(CallFault { n, kind: CallKind::Err });
        }
        let mut ops = vec![];
        let mut left = at;
        while left > 0 && ops.len() < 8 {
            let n = if g.yes(25) { left } else { g.r.range(1, left) };
            ops.push(Op::Read(n));
            left -= n;
        }
        if g.yes(25) {
            // nothing to wait for
            let i = g.r.below(ops.len() as u64 + 1) as usize;
            ops.insert(i, Op::Read(0));
        }
        if g.yes(40) {
            ops.push(Op::Read(g.r.range(1, 8)));
        }
        let st = StorageCfg { kind: g.of(&[StorageKind::Memory, StorageKind::Memory, StorageKind::Temp]), faults: vec![], buffered: 0 };
        let s = g.stream(src, st, set, ops);
        return g.scn("silent_source", vec![s], Checks { prompt_reads: true, may_starve: true, ..Checks::default() });
    }
    if fam < 7 {
        // reads and seeks race with the download
        src.delays = vec![g.of(&[0, 0, 1, 3])];
        set.prefetch = g.of(&[0, 0, 4, 20]);
        let ops = g.ops(m.len, !m.unknown, 55);
        let st = g.plain_storage();
        let s = g.stream(src, st, set, ops);
        let prompt = s.settings.prefetch == 0;
        return g.scn("race", vec![s], Checks { prompt_reads: prompt, ..Checks::default() });
    }
    // everything else that must not block for ever
    if g.yes(40) {
        let n = g.r.range(1, 3);
        g.chunk_errors(&mut src, n);
    }
    if g.yes(30) {
        g.stall_faults(&mut src, set.retry_ms, 1);
    }
    g.any_transport(&mut src);
    let st = if g.yes(30) { g.bounded() } else { g.plain_storage() };
    let ops = client_ops(g, &src, &st);
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("any", vec![s], Checks::default());
    g.stalls(&mut s.sched);
    s
}

fn c04(g: &mut G) -> Scenario {
    let m = Mix { len: g.len(), unknown: g.yes(20), seekable: !g.yes(20) };
    let mut src = g.source(&m);
    let set = g.settings(m.len);
    g.any_transport(&mut src);
    if g.yes(15) {
        for _ in 0..g.r.range(1, 3) {
            let n = g.r.below(4) as u32;
            let kind = CallKind::Delay(g.of(&[1, 20, 400]));
            src.seeks.push(CallFault { n, kind });
        }
    }
    let st = if g.yes(20) { g.bounded() } else { g.plain_storage() };
    let mut ops = g.ops(m.len, !m.unknown, 60);
    if cap_of(&st, src.declared).is_some() {
        ops = client_ops(g, &src, &st);
    }
    for _ in 0..g.r.below(3) {
        let i = g.r.below(ops.len() as u64 + 1) as usize;
        let bad = match g.r.below(8) {
            5 => Op::SeekStart(g.of(&[u64::MAX, u64::MAX - 1, u64::MAX - 20, 1 << 63, (1 << 63) - 1, (1 << 63) - 30, 1 << 40])),
            6 => Op::SeekCur(g.of(&[i64::MAX, i64::MAX - 5])),
            7 => Op::SeekEnd(i64::MAX),
            0 => Op::SeekCur(-((m.len + g.r.range(1, 50)) as i64)),
            1 => Op::SeekEnd(-((m.len + g.r.range(1, 50)) as i64)),
            2 => Op::SeekCur(i64::MIN),
            3 => Op::SeekEnd(g.r.range(0, 30) as i64),
            _ => Op::Pos,
        };
        ops.insert(i, bad);
    }
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("seeks", vec![s], Checks::default());
    g.stalls(&mut s.sched);
    s
}

fn c05(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(50), seekable: !g.yes(30) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    let st = g.bounded();
    let cap = cap_of(&st, src.declared).unwrap_or(64);
    if g.yes(50) {
        set.prefetch = g.r.range(0, cap);
    }
    if g.yes(20) {
        g.chunk_errors(&mut src, 1);
    }
    let mut ops = bounded_ops(g, &src, cap, true);
    for _ in 0..g.r.below(3) {
        let i = g.r.below(ops.len() as u64 + 1) as usize;
        let bad = match g.r.below(3) {
            0 => Op::Read(cap + g.r.range(1, 20)),
            1 => Op::SeekCur((cap + g.r.range(1, 40)) as i64),
            _ => Op::SeekStart(g.r.range(0, m.len)),
        };
        ops.insert(i, bad);
    }
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("bounded", vec![s], Checks::default());
    g.stalls(&mut s.sched);
    s
}

fn c06(g: &mut G) -> Scenario {
    let m = Mix { len: g.r.range(20, 400), unknown: g.yes(50), seekable: !g.yes(30) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    let st = g.bounded();
    let cap = cap_of(&st, src.declared).unwrap_or(64);
    let eff = cap.min(m.len).max(1);
    set.prefetch = g.of(&[0, 0, cap / 2, cap, 2 * cap, 262_144, u64::MAX]);
    if g.yes(40) {
        src.chunks = vec![g.r.range(1, 3 * cap)];
    }
    if g.yes(20) {
        g.chunk_errors(&mut src, 1);
    }
    if g.yes(15) {
        g.stall_faults(&mut src, set.retry_ms, 1);
    }
    let mut ops = vec![];
    for _ in 0..g.r.below(5) {
        ops.push(Op::Read(g.r.range(1, eff)));
        if g.yes(40) {
            ops.push(Op::Sleep(g.of(&[1, 20, 300, 7000])));
        }
        if g.yes(20) {
            ops.push(Op::SeekCur(g.r.range(0, cap) as i64));
        }
        if g.yes(10) {
            ops.push(Op::SeekCur(-(g.r.range(0, cap / 2) as i64)));
        }
    }
    ops.push(Op::ReadAll(g.r.range(1, eff)));
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("backpressure", vec![s], Checks::default());
    g.stalls(&mut s.sched);
    s.checks.resume = s.sched.stall_p == 0;
    s
}

fn c07(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(25), seekable: !g.yes(15) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    let mut st = if g.yes(25) { g.bounded() } else { g.plain_storage() };
    let mut shutdown = None;
    match g.r.below(9) {
        0..=2 => {
            let op = g.of(&[StOp::Write, StOp::Write, StOp::Flush, StOp::WSeek]);
            let n = if op == StOp::WSeek { g.r.below(2) } else { g.r.below(12) };
            st.faults.push(StFault { op, n, kind: StKind::Err });
        }
        3 | 4 => {
            let n = g.r.below(3) as u32;
            let kind = g.of(&[CallKind::Err, CallKind::DelayErr(20)]);
            src.seeks.push(CallFault { n, kind });
        }
        5 => {
            set.progress = true;
            set.progress_panic_at = Some(g.r.range(0, m.len));
        }
        6 => src.finish_err = true,
        7 => shutdown = Some(g.r.range(0, 200)),
        _ => {
            let op = g.of(&[StOp::Read, StOp::RSeek]);
            let n = g.r.below(5);
            st.faults.push(StFault { op, n, kind: StKind::Err });
        }
    }
    if g.yes(20) {
        src.finish_delay = g.of(&[1, 50]);
    }
    let mut ops = client_ops(g, &src, &st);
    if shutdown.is_none() {
        if g.yes(70) {
            ops.push(Op::AwaitDone(30_000));
        }
    } else if src.delays.iter().all(|d| *d == 0) {
        src.delays = vec![g.of(&[5, 20, 50])];
    }
    let e = cap_of(&st, src.declared).map_or(20, |c| c.min(m.len));
    for _ in 0..g.r.range(1, 3) {
        let op = match g.r.below(3) {
            0 => Op::SeekStart(g.r.range(0, m.len)),
            _ => Op::Read(g.r.range(1, e.max(1))),
        };
        ops.push(op);
    }
    let mut s = g.stream(src, st, set, ops);
    s.shutdown_ms = shutdown;
    let panic = s.settings.progress_panic_at.is_some();
    let mut s = g.scn(
        "failure",
        vec![s],
        Checks { sticky: true, failure: true, release: shutdown.is_none() && !panic, ..Checks::default() },
    );
    if shutdown.is_none() {
        g.stalls(&mut s.sched);
    }
    s
}

fn c08(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(25), seekable: !g.yes(15) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    if g.yes(20) {
        return c08_keep(g, m, src, set);
    }
    // what the download is doing when it is cancelled
    let bounded = match g.r.below(6) {
        0 => {
            let at = g.r.range(0, m.len);
            src.faults.push(ByteFault { at, kind: ByteKind::Stall(FOREVER) });
            for n in 0..50 {
                let kind = g.of(&[CallKind::Hang, CallKind::Err, CallKind::Delay(500)]);
                src.reconnects.push(CallFault { n, kind });
            }
            set.retry_ms = g.of(&[300, 2000]);
            g.yes(20)
        }
        1 | 2 => true,
        3 => {
            for n in 0..3 {
                if g.yes(60) {
                    let kind = g.of(&[CallKind::Hang, CallKind::Delay(3000)]);
                    src.seeks.push(CallFault { n, kind });
                }
            }
            false
        }
        4 => {
            src.chunks = vec![m.len];
            set.batch = g.of(&[1, 2, 5]);
            false
        }
        _ => g.yes(25),
    };
    if g.yes(30) {
        src.delays = vec![g.of(&[20, 100])];
    }
    if g.yes(20) {
        src.finish_delay = g.of(&[5, 200]);
    }
    let st = if bounded { g.bounded() } else { g.plain_storage() };
    let mut ops = client_ops(g, &src, &st);
    let hang = src.seeks.iter().any(|f| f.kind == CallKind::Hang);
    let mut token_ms = None;
    let mut token_bytes = None;
    let mut kind = g.r.below(6);
    if hang || src.faults.iter().any(|f| f.kind == ByteKind::Stall(FOREVER)) {
        kind = 1;
    }
    match kind {
        0 => {
            let i = g.r.below(ops.len() as u64 + 1) as usize;
            ops.insert(i, Op::Cancel);
            if g.yes(50) {
                ops.insert(i, Op::Sleep(g.r.range(1, 300)));
            }
        }
        1 => token_ms = Some(g.of(&[0, 1, 7, 40, 200, 1000])),
        2 => token_bytes = Some(g.r.range(1, m.len)),
        3 => {
            set.progress = true;
            set.progress_cancel_at = Some(g.r.range(0, m.len));
        }
        4 => {
            // dropped at the end (cancel_on_drop), maybe with the writer blocked
            if g.yes(50) {
                ops.push(Op::Sleep(g.r.range(1, 100)));
            }
        }
        _ => {
            set.retry_ms = 300;
            let at = g.r.range(0, m.len - 1);
            src.faults.push(ByteFault { at, kind: ByteKind::Stall(FOREVER) });
            src.faults.sort_by_key(|f| f.at);
            set.reconnect_cancel = Some(1);
        }
    }
    let e = cap_of(&st, src.declared).map_or(20, |c| c.min(m.len));
    if g.yes(50) {
        ops.push(Op::Read(g.r.range(1, e.max(1))));
    }
    let mut s = g.stream(src, st, set, ops);
    s.token_cancel_ms = token_ms;
    s.token_cancel_bytes = token_bytes;
    s.waiters = g.r.below(2) as u32;
    g.scn(
        "cancel",
        vec![s],
        Checks { prompt_cancel: true, release: true, sticky: true, ..Checks::default() },
    )
}

/// With `cancel_on_drop` off the download goes on without its reader.
fn c08_keep(g: &mut G, m: Mix, mut src: SourceCfg, mut set: SettingsCfg) -> Scenario {
    set.cancel_on_drop = false;
    if g.yes(30) {
        g.chunk_errors(&mut src, 1);
    }
    let st = StorageCfg { kind: g.of(&[StorageKind::Memory, StorageKind::Temp]), faults: vec![], buffered: 0 };
    let mut ops = g.ops(m.len, !m.unknown, 40);
    ops.truncate(g.r.range(0, 3) as usize);
    ops.retain(|o| !matches!(o, Op::ReadAll(_)));
    let mut s = g.stream(src, st, set, ops);
    s.waiters = 1;
    g.scn("keep", vec![s], Checks { release: true, full_cache: true, completion: true, ..Checks::default() })
}

fn c09(g: &mut G) -> Scenario {
    let m = Mix { len: g.len(), unknown: g.yes(30), seekable: !g.yes(20) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    src.finish_delay = g.of(&[0, 0, 1, 30, 500]);
    match g.r.below(8) {
        0 => src.finish_err = true,
        1 => src.finish_ok = true,
        _ => {}
    }
    let mut st = if g.yes(15) { g.bounded() } else { g.plain_storage() };
    match g.r.below(8) {
        0 => {
            let n = g.r.below(8);
            st.faults.push(StFault { op: StOp::Write, n, kind: StKind::Err });
        }
        1 => {
            src.seeks.push(CallFault { n: g.r.below(2) as u32, kind: CallKind::Err });
        }
        2 if m.len > 0 => {
            set.progress = true;
            set.progress_panic_at = Some(g.r.range(0, m.len));
        }
        _ => {}
    }
    g.any_transport(&mut src);
    let bounded = cap_of(&st, src.declared).is_some();
    set.cancel_on_drop = bounded || g.yes(60);
    let mut ops = client_ops(g, &src, &st);
    let mut token = None;
    let mut bytes = None;
    match g.r.below(6) {
        0 => token = Some(g.of(&[0, 3, 30, 150])),
        1 => bytes = Some(g.r.range(0, m.len)),
        2 => {
            let i = g.r.below(ops.len() as u64 + 1) as usize;
            ops.insert(i, Op::Cancel);
        }
        3 => ops.push(Op::AwaitDone(60_000)),
        _ => {}
    }
    let mut s = g.stream(src, st, set, ops);
    s.waiters = g.r.range(1, 3) as u32;
    s.token_cancel_ms = token;
    s.token_cancel_bytes = bytes;
    let mut s = g.scn("completion", vec![s], Checks { completion: true, release: true, ..Checks::default() });
    g.stalls(&mut s.sched);
    s
}

fn c10(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(25), seekable: !g.yes(20) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    set.retry_ms = g.of(&[200, 700, 2000]);
    // a delay can stay below the timeout for ever
    if g.yes(30) {
        src.delays = vec![set.retry_ms - 60, 0];
    }
    let n = g.r.range(1, 3);
    g.stall_faults(&mut src, set.retry_ms, n);
    g.reconnect_faults(&mut src);
    if g.yes(15) {
        g.chunk_errors(&mut src, 1);
    }
    match g.r.below(8) {
        0 => src.transport = Transport::Http,
        1 => src.transport = Transport::Middleware,
        _ => {}
    }
    g.fit_transport(&mut src);
    if src.transport != Transport::Native {
        src.reconnects.clear();
        for n in 0..g.r.below(3) {
            let kind = g.of(&[CallKind::Err, CallKind::Delay(50), CallKind::Hang, CallKind::Status(503)]);
            src.seeks.push(CallFault { n: n as u32, kind });
        }
        if g.yes(30) {
            // no range support: only whole bodies
            src.seekable = false;
            src.accept_ranges = if g.yes(50) { None } else { Some("none".into()) };
        }
    }
    let http = src.transport != Transport::Native;
    let st = if g.yes(15) { g.bounded() } else { g.plain_storage() };
    let cap = cap_of(&st, src.declared);
    let mut ops = vec![];
    let sz = |g: &mut G| match cap {
        None => g.read_size(m.len),
        Some(c) => g.r.range(1, c.min(m.len).max(1)),
    };
    if !http && cap.is_none() && g.yes(25) {
        ops = g.ops(m.len, !m.unknown, 40);
        src.faults.retain(|f| !matches!(f.kind, ByteKind::Err | ByteKind::Empty));
    } else {
        for _ in 0..g.r.below(3) {
            ops.push(Op::Read(sz(g)));
        }
        ops.push(Op::ReadAll(sz(g)));
    }
    let seeks = ops.iter().any(|o| matches!(o, Op::SeekStart(_) | Op::SeekCur(_) | Op::SeekEnd(_) | Op::Pos));
    let s = g.stream(src, st, set, ops);
    g.scn("stalls", vec![s], Checks { reconnect: !seeks, ..Checks::default() })
}

fn c11(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(30), seekable: !g.yes(20) };
    let mut src = g.source(&m);
    let set = g.settings(m.len);
    let n = g.r.range(1, 5);
    g.chunk_errors(&mut src, n);
    if m.seekable && !m.unknown && g.yes(30) {
        let at = g.r.range(0, m.len);
        src.faults.push(ByteFault { at, kind: g.of(&[ByteKind::ErrEnd, ByteKind::End]) });
        src.faults.sort_by_key(|f| f.at);
    }
    if m.seekable && !m.unknown && m.len > 24 && g.yes(8) {
        g.flapping(&mut src);
    }
    match g.r.below(6) {
        0 => src.transport = Transport::Http,
        1 => src.transport = Transport::Middleware,
        _ => {}
    }
    if src.transport != Transport::Native {
        src.faults.retain(|f| f.kind != ByteKind::Empty || src.transport == Transport::Http);
    }
    g.fit_transport(&mut src);
    let st = if g.yes(15) { g.bounded() } else { g.plain_storage() };
    let mut ops = client_ops(g, &src, &st);
    let unb = cap_of(&st, src.declared).is_none();
    if unb {
        ops.push(Op::AwaitDone(100_000));
    }
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("chunk_errors", vec![s], Checks { full_cache: unb, ..Checks::default() });
    g.stalls(&mut s.sched);
    s
}

fn c12(g: &mut G) -> Scenario {
    let m = Mix { len: g.len(), unknown: g.yes(15), seekable: !g.yes(15) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    set.cancel_on_drop = g.yes(50);
    if g.yes(25) {
        g.chunk_errors(&mut src, 1);
    }
    if m.seekable && !m.unknown && g.yes(25) {
        let at = g.r.range(0, m.len);
        src.faults.push(ByteFault { at, kind: g.of(&[ByteKind::ErrEnd, ByteKind::End]) });
        src.faults.sort_by_key(|f| f.at);
    }
    if g.yes(15) {
        g.stall_faults(&mut src, set.retry_ms, 1);
    }
    if m.seekable && !m.unknown && m.len > 24 && g.yes(8) {
        g.flapping(&mut src);
    }
    match g.r.below(6) {
        0 => src.transport = Transport::Http,
        1 => src.transport = Transport::Middleware,
        _ => {}
    }
    g.fit_transport(&mut src);
    if src.transport == Transport::Middleware {
        src.faults.retain(|f| f.kind != ByteKind::Empty);
    }
    let st = StorageCfg { kind: g.of(&[StorageKind::Memory, StorageKind::Temp, StorageKind::Memory]), faults: vec![], buffered: 0 };
    let mut ops = g.ops(m.len, !m.unknown, 60);
    ops.retain(|o| !matches!(o, Op::ReadAll(_)));
    if set.cancel_on_drop {
        ops.push(Op::AwaitDone(200_000));
    }
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("cache", vec![s], Checks { full_cache: true, release: true, ..Checks::default() });
    g.stalls(&mut s.sched);
    s
}

fn c13(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(20), seekable: true };
    let mut src = g.source(&m);
    src.transport = if g.yes(50) { Transport::Http } else { Transport::Middleware };
    g.fit_transport(&mut src);
    let mut set = g.settings(m.len);
    let mut checks = Checks { http: true, ..Checks::default() };
    src.content_type = [None, Some("audio/mpeg"), Some("nonsense"), Some("text/html; charset=utf-8")][g.r.below(4) as usize]
        .map(Into::into);
    match g.r.below(8) {
        0 => {
            // ranges are not supported at all
            src.accept_ranges = if g.yes(50) { None } else { Some("none".into()) };
            src.seekable = false;
        }
        1 => {
            // now and then the range is ignored
            let n = g.r.below(3) as u32;
            src.seeks.push(CallFault { n, kind: CallKind::Full });
            if src.transport == Transport::Http && g.yes(50) {
                for _ in 0..g.r.range(1, 4) {
                    src.faults.push(ByteFault { at: g.r.range(0, m.len), kind: ByteKind::Empty });
                }
                src.faults.sort_by_key(|f| f.at);
            }
        }
        2 => {
            let n = g.r.below(3) as u32;
            let kind = CallKind::Status(g.of(&[404, 416, 500, 503]));
            src.seeks.push(CallFault { n, kind });
        }
        3 => {
            src.create = Some(g.of(&[CallKind::Status(404), CallKind::Status(503), CallKind::Err]));
            checks.init = true;
        }
        4 => {
            set.retry_ms = 500;
            g.stall_faults(&mut src, 500, 1);
        }
        _ => {}
    }
    let st = if g.yes(15) { g.bounded() } else { g.plain_storage() };
    let ops = client_ops(g, &src, &st);
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("http", vec![s], checks);
    g.stalls(&mut s.sched);
    s
}

fn c14(g: &mut G) -> Scenario {
    let m = Mix { len: g.len(), unknown: g.yes(50), seekable: false };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    src.transport = if g.yes(60) { Transport::AsyncRead } else { Transport::Native };
    if g.yes(20) {
        g.chunk_errors(&mut src, 1);
    }
    if g.yes(15) && m.len > 0 {
        // a stall that ends by itself; a source like this can not reconnect
        set.retry_ms = 500;
        let at = g.r.range(0, m.len - 1);
        src.faults.push(ByteFault { at, kind: ByteKind::Stall(g.of(&[300, 1200, 5000])) });
        src.faults.sort_by_key(|f| f.at);
        for n in 0..30 {
            src.reconnects.push(CallFault { n, kind: CallKind::Err });
        }
    } else if g.yes(15) && m.len > 0 {
        // shorter than announced, and there is no way to ask for the rest
        let at = g.r.below(m.len);
        src.faults.push(ByteFault { at, kind: ByteKind::End });
        src.faults.sort_by_key(|f| f.at);
    }
    g.fit_transport(&mut src);
    let st = if g.yes(20) { g.bounded() } else { g.plain_storage() };
    let cap = cap_of(&st, src.declared);
    let ops = match cap {
        Some(c) => bounded_ops(g, &src, c, true),
        None => g.ops(m.len, !m.unknown, 50),
    };
    let full = cap.is_none();
    set.cancel_on_drop = !full;
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("unseekable", vec![s], Checks { full_cache: full, ..Checks::default() });
    g.stalls(&mut s.sched);
    s
}

fn proc_cfg(g: &mut G) -> ProcCfg {
    let tool = g.of(&[Tool::Plain, Tool::Pipeline, Tool::Pipeline, Tool::YtDlp, Tool::Convert, Tool::Convert]);
    let n = match tool {
        Tool::Plain | Tool::YtDlp => 1,
        Tool::Pipeline => g.r.range(1, 4),
        Tool::Convert => g.r.range(2, 3),
    };
    let stages = (0..n)
        .map(|_| StageCfg {
            exit_code: if g.yes(60) { 0 } else { g.of(&[1, 2, 101, 255]) },
            exit_delay: g.of(&[0, 0, 0, 1, 30, 400]),
            stubborn: g.yes(30),
            early: g.yes(25).then(|| g.of(&[0, 1, 20, 300])),
            stderr: g.of(&[Stderr::Nothing, Stderr::Text, Stderr::Text, Stderr::Binary, Stderr::Custom]),
            kill_delay: g.of(&[0, 0, 1, 20]),
        })
        .collect();
    ProcCfg {
        tool,
        stages,
        spawn_fail: g.yes(12).then(|| g.r.below(n) as u32),
        abandon: g.yes(5),
        args: g.r.below(1 << 30),
    }
}

fn c15(g: &mut G) -> Scenario {
    let m = Mix { len: g.len(), unknown: g.yes(60), seekable: false };
    let mut src = g.source(&m);
    src.transport = Transport::Process;
    let p = proc_cfg(g);
    let dies = g.yes(15);
    if dies {
        // the process ends before it wrote everything
        let at = g.at(m.len);
        src.faults.push(ByteFault { at, kind: ByteKind::End });
    }
    let mut set = g.settings(m.len);
    if g.yes(15) && m.len > 0 {
        set.retry_ms = 500;
        let at = g.r.range(0, m.len - 1);
        src.faults.push(ByteFault { at, kind: ByteKind::Stall(g.of(&[300, 1200, 5000])) });
    }
    src.faults.sort_by_key(|f| f.at);
    src.proc_cfg = Some(p);
    let mut st = if g.yes(15) { g.bounded() } else { g.plain_storage() };
    match g.r.below(12) {
        0 => {
            let n = g.r.below(6);
            st.faults.push(StFault { op: StOp::Write, n, kind: StKind::Err });
        }
        1 => st.faults.push(StFault { op: StOp::Create, n: 0, kind: StKind::Err }),
        _ => {}
    }
    g.fit_transport(&mut src);
    let cap = cap_of(&st, src.declared);
    let mut ops = match cap {
        Some(c) => bounded_ops(g, &src, c, true),
        None => g.ops(m.len, !m.unknown, 20),
    };
    set.cancel_on_drop = cap.is_some() || g.yes(60);
    let mut token = None;
    let mut bytes = None;
    match g.r.below(6) {
        0 => {
            let i = g.r.below(ops.len() as u64 + 1) as usize;
            ops.insert(i, Op::Cancel);
            if g.yes(50) {
                ops.insert(i, Op::Sleep(g.r.range(1, 300)));
            }
        }
        1 => token = Some(g.of(&[0, 1, 7, 40, 200])),
        2 => bytes = Some(g.r.range(0, m.len)),
        3 => ops.truncate(g.r.below(3) as usize),
        _ => {}
    }
    let create = st.faults.iter().any(|f| f.op == StOp::Create);
    let mut s = g.stream(src, st, set, ops);
    s.token_cancel_ms = token;
    s.token_cancel_bytes = bytes;
    let mut s = g.scn("process", vec![s], Checks { process: true, release: true, init: create, may_starve: true, ..Checks::default() });
    g.stalls(&mut s.sched);
    s
}

fn c16(g: &mut G) -> Scenario {
    let m = Mix { len: g.len(), unknown: g.yes(30), seekable: !g.yes(25) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    set.progress = true;
    let st = if g.yes(30) { g.bounded() } else { g.plain_storage() };
    let cap = cap_of(&st, src.declared);
    if g.yes(25) {
        g.chunk_errors(&mut src, 1);
    }
    if g.yes(20) && m.len > 0 {
        set.retry_ms = 500;
        g.stall_faults(&mut src, 500, 1);
    }
    g.any_transport(&mut src);
    if src.transport != Transport::Native {
        src.faults.clear();
    }
    let mut ops = client_ops(g, &src, &st);
    if cap.is_none() && g.yes(60) {
        ops.push(Op::AwaitDone(100_000));
    }
    let mut s = g.stream(src, st, set, ops);
    if g.yes(15) {
        s.token_cancel_bytes = Some(g.r.range(1, m.len.max(1)));
    }
    let mut s = g.scn("progress", vec![s], Checks { progress: true, release: true, ..Checks::default() });
    g.stalls(&mut s.sched);
    s
}

fn c17(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(40), seekable: !g.yes(25) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    set.prefetch = match g.r.below(5) {
        0 => g.r.range(1, 6),
        1 => m.len,
        2 => g.of(&[m.len + 1, m.len + 5, m.len + 9, u64::MAX, u64::MAX - 7]),
        _ => g.r.range(1, m.len),
    };
    set.progress = g.yes(50);
    let mut ops = vec![];
    let silent = g.yes(40) && set.prefetch < m.len;
    if silent {
        let at = g.r.range(set.prefetch, m.len);
        src.faults.push(ByteFault { at, kind: ByteKind::Stall(FOREVER) });
        for n in 0..200 {
            src.reconnects.push(CallFault { n, kind: CallKind::Err });
        }
        let mut left = at;
        while left > 0 && ops.len() < 6 {
            let n = g.r.range(1, left);
            ops.push(Op::Read(n));
            left -= n;
        }
    } else {
        for _ in 0..g.r.range(1, 5) {
            ops.push(Op::Read(g.read_size(m.len)));
            if g.yes(20) {
                ops.push(Op::Sleep(g.r.range(1, 100)));
            }
        }
        if g.yes(40) && m.len > 4 {
            let from = g.r.below(ops.len() as u64 + 1) as usize;
            let p = g.r.range(m.len / 2, m.len - 1);
            ops.insert(from, Op::SeekStart(p));
            ops.insert(from + 1, Op::Read(g.r.range(1, 8)));
            set.prefetch = set.prefetch.min(m.len / 3);
        }
        if g.yes(30) {
            ops.push(Op::ReadAll(g.read_size(m.len)));
        }
    }
    if !silent && g.yes(20) {
        let n = g.r.range(1, 3);
        g.chunk_errors(&mut src, n);
    }
    let st = if g.yes(15) && !silent { g.bounded() } else { StorageCfg { kind: g.of(&[StorageKind::Memory, StorageKind::Temp]), faults: vec![], buffered: 0 } };
    if let Some(c) = cap_of(&st, src.declared) {
        let e = c.min(m.len).max(1);
        for o in &mut ops {
            if let Op::Read(n) | Op::ReadAll(n) = o {
                *n = (*n).min(e);
            }
        }
        set.prefetch = set.prefetch.min(e);
    }
    let prompt = cap_of(&st, src.declared).is_none();
    let s = g.stream(src, st, set, ops);
    g.scn(
        "prefetch",
        vec![s],
        Checks { prefetch: prompt, prompt_reads: prompt, may_starve: silent, progress: true, ..Checks::default() },
    )
}

fn c18(g: &mut G) -> Scenario {
    let len = g.r.range(1, 300);
    let m = Mix { len, unknown: g.yes(50), seekable: true };
    let src = g.source(&m);
    let cap = match g.r.below(4) {
        0 => g.r.range(1, 4),
        1 => len + g.r.range(0, 20),
        _ => g.r.range(4, 64),
    };
    let kind = match g.r.below(8) {
        6 => StorageKind::AdaptiveBounded(g.r.range(1, cap), cap),
        0 => StorageKind::Memory,
        1 => StorageKind::Temp,
        2 | 3 => StorageKind::Bounded(cap),
        4 => StorageKind::BoundedTemp(cap),
        5 => StorageKind::Adaptive(cap),
        _ => StorageKind::AdaptiveMixed(cap),
    };
    if g.yes(15) {
        // which storage the adaptive provider chooses, through the public API
        let set = g.settings(len);
        let st = StorageCfg { kind: StorageKind::AdaptiveMixed(cap), faults: vec![], buffered: 0 };
        let e = if src.declared.is_none() { cap } else { len };
        let ops = vec![Op::ReadAll(g.r.range(1, e.max(1)))];
        let mut s = g.stream(src, st, set, ops);
        if g.yes(30) {
            s.source.len = cap;
            if s.source.declared.is_some() {
                s.source.declared = Some(cap);
            }
        }
        return g.scn("adaptive", vec![s], Checks { adaptive: true, ..Checks::default() });
    }
    let st = StorageCfg { kind, faults: vec![], buffered: 0 };
    let bounded = cap_of(&st, src.declared);
    let e = bounded.unwrap_or(len).max(1);
    let mut set = g.settings(len);
    set.batch = g.r.range(0, 1);
    let mut wops = vec![];
    for _ in 0..g.r.range(1, 16) {
        if g.yes(15) {
            wops.push((false, g.r.range(0, len)));
        } else {
            wops.push((true, g.r.range(1, e + e / 2 + 2)));
        }
    }
    let mut ops = vec![];
    for _ in 0..g.r.range(1, 20) {
        let op = match g.r.below(6) {
            0 => Op::SeekStart(g.r.range(0, len)),
            1 if g.yes(40) => Op::SeekEnd(g.r.range(0, 12) as i64 - 8 - if g.yes(10) { len as i64 } else { 0 }),
            1 => Op::SeekCur(g.r.range(0, 10) as i64 - 5),
            _ => Op::Read(if g.yes(8) { e + g.r.range(1, 5) } else { g.r.range(0, e) }),
        };
        ops.push(op);
    }
    let mut s = g.stream(src, st, set, ops);
    s.writer_ops = wops;
    g.scn("storage", vec![s], Checks { raw_storage: true, ..Checks::default() })
}

fn c20(g: &mut G) -> Scenario {
    let m = Mix { len: g.len(), unknown: false, seekable: true };
    let mut src = g.source(&m);
    src.transport = Transport::Opendal;
    src.honor_end = true;
    src.chunk_size = g.of(&[1, 2, 3, 7, 8, 64, 100, 1024, 5000]);
    src.content_type = [None, Some("audio/mpeg"), Some("nonsense"), Some("text/html; charset=utf-8")][g.r.below(4) as usize]
        .map(Into::into);
    if m.len == 0 {
        // the adapter can not tell an empty object from one of unknown length
        src.declared = None;
    }
    let mut set = g.settings(m.len);
    let mut checks = Checks::default();
    match g.r.below(8) {
        0 => {
            src.create = Some(g.of(&[CallKind::Err, CallKind::DelayErr(50)]));
            checks.init = true;
        }
        1 | 2 if m.len > 0 => {
            set.retry_ms = 500;
            let n = g.r.range(1, 2);
            g.stall_faults(&mut src, 500, n);
            g.reconnect_faults(&mut src);
            checks.reconnect = true;
        }
        3 if m.len > 0 => {
            let n = g.r.range(1, 3);
            g.chunk_errors(&mut src, n);
            src.faults.retain(|f| f.kind != ByteKind::Empty);
            // every error costs a connection, and ten in a row which deliver nothing are the end of it
            src.faults.truncate(8);
        }
        4 if m.len > 0 => {
            let at = g.r.range(0, m.len - 1);
            src.faults.push(ByteFault { at, kind: g.of(&[ByteKind::ErrEnd, ByteKind::End]) });
        }
        5 => {
            for _ in 0..g.r.range(1, 2) {
                let n = g.r.below(3) as u32;
                let kind = g.of(&[CallKind::Err, CallKind::Delay(50), CallKind::Hang, CallKind::DelayErr(5)]);
                src.seeks.push(CallFault { n, kind });
            }
        }
        _ => {}
    }
    let st = if g.yes(15) { g.bounded() } else { g.plain_storage() };
    let unb = cap_of(&st, src.declared).is_none();
    let mut ops = client_ops(g, &src, &st);
    if m.len == 0 {
        // opendal itself can not open a range that starts beyond the end
        ops.retain(|o| !matches!(o, Op::SeekStart(1..) | Op::SeekCur(_)));
    }
    if unb && g.yes(50) {
        ops.push(Op::AwaitDone(100_000));
        checks.full_cache = true;
    }
    let s = g.stream(src, st, set, ops);
    let exact = checks.reconnect;
    let mut s = g.scn("opendal", vec![s], checks);
    if !exact {
        g.stalls(&mut s.sched);
    }
    s
}

fn c21(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(30), seekable: !g.yes(25) };
    let mut src = g.source(&m);
    let mut set = g.settings(m.len);
    set.batch = g.of(&[1, 2, 3, 7, 16, 50]);
    if g.yes(60) {
        src.chunks = vec![g.r.range(1, m.len)];
    }
    let mut st = if g.yes(30) { g.bounded() } else { g.plain_storage() };
    if g.yes(30) {
        g.short_io(&mut st);
    }
    let ops = client_ops(g, &src, &st);
    let s = g.stream(src, st, set, ops);
    g.scn("batches", vec![s], Checks { batches: true, ..Checks::default() })
}

fn c22(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(15), seekable: true };
    let mut src = g.source(&m);
    src.honor_end = true;
    match g.r.below(5) {
        0 => src.transport = Transport::Http,
        1 => src.transport = Transport::Middleware,
        _ => {}
    }
    let mut set = g.settings(m.len);
    set.cancel_on_drop = g.yes(50);
    let st = StorageCfg { kind: g.of(&[StorageKind::Memory, StorageKind::Temp]), faults: vec![], buffered: 0 };
    let ops = g.ops(m.len, !m.unknown, 55);
    let s = g.stream(src, st, set, ops);
    let mut s = g.scn("economy", vec![s], Checks { economy: true, release: true, ..Checks::default() });
    g.stalls(&mut s.sched);
    s
}

fn c23(g: &mut G) -> Scenario {
    let n = g.r.range(2, 4);
    let mut v = vec![];
    for _ in 0..n {
        let m = Mix { len: g.len1(), unknown: g.yes(25), seekable: !g.yes(20) };
        let mut src = g.source(&m);
        let mut set = g.settings(m.len);
        g.any_transport(&mut src);
        let mut st = if g.yes(25) { g.bounded() } else { g.plain_storage() };
        let mut ops = client_ops(g, &src, &st);
        let mut token = None;
        match g.r.below(8) {
            0 => ops.insert(g.r.below(ops.len() as u64 + 1) as usize, Op::Cancel),
            1 => token = Some(g.of(&[0, 5, 50])),
            2 => {
                let n = g.r.below(6);
                st.faults.push(StFault { op: StOp::Write, n, kind: StKind::Err });
            }
            3 => {
                set.progress = true;
                set.progress_panic_at = Some(g.r.range(0, m.len));
            }
            4 => {
                // hogs its source for ever
                src.faults.clear();
            }
            _ => {}
        }
        let mut s = g.stream(src, st, set, ops);
        s.token_cancel_ms = token;
        s.waiters = g.r.below(2) as u32;
        s.start_ms = g.of(&[0, 0, 1, 30]);
        v.push(s);
    }
    g.scn("many", v, Checks { completion: true, release: true, ..Checks::default() })
}

fn c24(g: &mut G) -> Scenario {
    let m = Mix { len: g.len1(), unknown: g.yes(25), seekable: true };
    let mut src = g.source(&m);
    let set = g.settings(m.len);
    let mut st = g.plain_storage();
    match g.r.below(5) {
        0 => src.transport = Transport::Http,
        1 => src.transport = Transport::Middleware,
        _ => {}
    }
    match g.r.below(6) {
        0 | 1 => src.create = Some(g.of(&[CallKind::Err, CallKind::DelayErr(50)])),
        2 => src.create = Some(CallKind::Delay(g.of(&[1, 500, 90_000]))),
        3 if src.transport != Transport::Native => src.create = Some(CallKind::Status(g.of(&[400, 404, 500, 503]))),
        4 | 3 => st.faults.push(StFault { op: StOp::Create, n: 0, kind: StKind::Err }),
        _ => {}
    }
    let ops = client_ops(g, &src, &st);
    // the server may announce anything, more than there is memory for cannot be provided
    if src.declared.is_some() && src.create.is_none() && st.faults.is_empty() && g.yes(12) {
        src.declared = Some(g.of(&[u64::MAX, u64::MAX / 2, u64::MAX / 2 + 1, 1 << 62, 1 << 60, 1 << 55]));
        st.kind = StorageKind::Memory;
    }
    let mut s = g.stream(src, st, set, ops);
    s.waiters = 1;
    let mut s = g.scn("init", vec![s], Checks { init: true, release: true, ..Checks::default() });
    g.stalls(&mut s.sched);
    s
}

#[allow(dead_code)]
const _: [&str; 3] = DATA;
