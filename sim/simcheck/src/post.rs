//! What has to be true once the clients of a run are done.
use std::sync::Arc;

use crate::run::SLACK_MS;
use crate::scen::{Scenario, StorageCfg, StorageKind, Transport};
use crate::world::{World, note, probe, violate, vsleep};

fn settled(scn: &Scenario, w: &World) -> bool {
    let st = w.st();
    if !st.started {
        let procs = scn.checks.process;
        return (procs || st.init_failed.is_none() || !st.source_created || st.source_dropped_ms.is_some())
            && (!procs || crate::process::all_gone_in(&st));
    }
    st.source_dropped_ms.is_some()
        && (!scn.checks.completion || st.waiters_done.len() as u32 == w.cfg.waiters)
        && (!scn.checks.process || crate::process::all_gone_in(&st))
}

/// Gives the download tasks a bounded time to come to an end.
pub async fn settle(scn: &Scenario, ws: &[Arc<World>]) {
    let mut waited = 0;
    let mut step = 1;
    while waited < 400_000 && !ws.iter().all(|w| settled(scn, w)) {
        vsleep(step).await;
        waited += step;
        step = (step * 2).min(500);
    }
    // anything that is queued still gets to run
    vsleep(5).await;
}

fn unbounded(k: StorageKind, declared: Option<u64>) -> bool {
    crate::gen_::cap_of(&StorageCfg { kind: k, faults: vec![], buffered: 0 }, declared).is_none()
}

pub fn check(scn: &Scenario, ws: &[Arc<World>]) {
    for w in ws {
        if !w.st().client_done {
            continue;
        }
        check_one(scn, w);
    }
}

fn check_one(scn: &Scenario, w: &World) {
    let c = &scn.checks;
    let src = &w.cfg.source;
    let mut bad: Vec<(&str, String)> = Vec::new();
    let st = w.st();

    // ------------------------------------------------------------ initialisation
    let create_fails = src.create.is_some_and(|k| {
        use crate::scen::CallKind::{DelayErr, Err, Status};
        matches!(k, Err | DelayErr(_) | Status(_))
    });
    // there is no memory for that much
    let too_much = src.declared.is_some_and(|d| d >= 1 << 50) && w.cfg.storage.kind == StorageKind::Memory;
    let storage_fails = too_much || w.cfg.storage.faults.iter().any(|f| f.op == crate::scen::StOp::Create);
    // spawning happens before the stream is created
    let spawning = src.proc_cfg.as_ref().is_some_and(|p| p.spawn_fail.is_some() || p.abandon);
    if spawning {
    } else if c.init {
        match &st.init_failed {
            None if create_fails || storage_fails => {
                bad.push(("init_swallowed", "creating the stream succeeded although it had to fail".into()));
            }
            Some(e) if !create_fails && !storage_fails => bad.push(("init_failed", e.clone())),
            Some(e) => {
                let want = if create_fails { "source" } else { "storage" };
                if !e.starts_with(want) {
                    bad.push(("init_kind", format!("expected a {want} error, got {e}")));
                }
                let text = match src.create {
                    _ if too_much => "",
                    _ if !create_fails => "injected storage creation error",
                    Some(crate::scen::CallKind::Status(_)) if src.transport == Transport::Middleware => "error page",
                    Some(crate::scen::CallKind::Status(_)) => "status",
                    _ => "injected",
                };
                let page = create_fails && text == "error page";
                if page
                    && let Some(crate::scen::CallKind::Status(s)) = src.create
                    && !e.contains(&s.to_string())
                {
                    bad.push(("init_text", format!("status {s} is missing from {e:?}")));
                }
                if !e.contains(text) && !(page && crate::world::page_broken(w)) {
                    bad.push(("init_text", format!("the cause {text:?} is missing from {e:?}")));
                }
                if st.bytes_accepted > 0 {
                    bad.push(("init_leak", "bytes were stored although creation failed".into()));
                }
                if src.transport == Transport::Native && st.source_created && st.source_dropped_ms.is_none() {
                    bad.push(("init_leak", "the source is still alive after creation failed".into()));
                }
            }
            None => {}
        }
    } else if let Some(e) = &st.init_failed
        && !create_fails
        && !storage_fails
    {
        bad.push(("init_failed", e.clone()));
    }
    if !st.started {
        drop(st);
        if c.process {
            crate::process::check(w, &mut bad);
        }
        flush(bad);
        return;
    }

    // ------------------------------------------------------------ end of the download task
    let ended = st.source_dropped_ms;
    if c.release {
        match ended {
            None => bad.push((
                "not_released",
                format!("the source is still held long after the reader was dropped at {:?} ms", st.dropped_ms),
            )),
            Some(t) => {
                if let Some(cm) = st.cancelled_ms
                    && c.prompt_cancel
                    && st.finish.first().is_none_or(|f| f.at_ms > cm)
                    && t > cm + src.finish_delay + SLACK_MS
                {
                    bad.push(("slow_release", format!("cancelled at {cm} ms, source dropped at {t} ms")));
                }
            }
        }
    }
    if c.completion {
        if st.waiters_done.len() as u32 != w.cfg.waiters {
            bad.push((
                "completion_lost",
                format!("{} of {} wait_for_completion calls resolved", st.waiters_done.len(), w.cfg.waiters),
            ));
        }
        if let (Some(d), Some(f)) = (st.finish.last().and_then(|f| f.done_ms), st.waiters_done.iter().max())
            && *f > d + SLACK_MS
        {
            bad.push(("completion_late", format!("on_finish ended at {d} ms, a waiter was released at {f} ms")));
        }
    }
    if (c.completion || c.release) && ended.is_some() && !st.panicked {
        if st.finish.len() != 1 {
            bad.push(("finish_count", format!("on_finish ran {} times", st.finish.len())));
        }
        if let Some(f) = st.finish.first() {
            if f.done_ms.is_none() {
                bad.push(("finish_aborted", "on_finish was not driven to its end".into()));
            }
            if f.cancelled_outcome && (f.ok || !f.interrupted) {
                bad.push(("finish_outcome", format!("{f:?}")));
            }
            if f.cancelled_outcome && st.cancelled_ms.is_none() {
                bad.push(("finish_outcome", "cancelled by user, but nobody cancelled".into()));
            }
            if f.interrupted && !f.cancelled_outcome {
                bad.push(("finish_outcome", format!("{f:?}")));
            }
            if !f.ok && !f.cancelled_outcome && st.fatal.is_none() {
                bad.push(("finish_outcome", "reported as failed although nothing failed".into()));
            }
            if f.ok && st.fatal.is_some() && st.fatal != Some("on_finish") {
                bad.push(("finish_outcome", format!("reported as success after a failure ({:?})", st.fatal)));
            }
        }
    }
    let ok_finish = st.finish.first().is_some_and(|f| f.ok);

    // ------------------------------------------------------------ everything is there
    if c.full_cache && ok_finish && unbounded(w.cfg.storage.kind, src.declared) {
        // content skipped by a seek is only fetched later if the end is known
        let complete_possible = if src.declared.is_some() {
            src.seekable || st.ended_at.is_none()
        } else {
            st.wseek_n == 0 && st.ended_at.is_none()
        };
        if complete_possible
            && let Some(m) = (0..src.len).find(|p| st.first_write[*p as usize].is_none())
        {
            let n = (0..src.len).filter(|p| st.first_write[*p as usize].is_none()).count();
            bad.push(("incomplete_cache", format!("the download reported success but {n} bytes from {m} on were never stored")));
        }
    }
    if c.full_cache && ended.is_some() && !ok_finish && st.fatal.is_none() && st.cancelled_ms.is_none() {
        bad.push(("finish_outcome", "failed without a reason".into()));
    }

    // ------------------------------------------------------------ what the network was asked for
    let ranged = |k: &str| matches!(k, "seek_range" | "get_range");
    if c.economy {
        for r in st.calls.iter().filter(|r| ranged(r.kind)) {
            if r.had_start && src.declared.is_some_and(|d| r.start < d) {
                bad.push(("refetch", format!("{}({}, {:?}) although byte {} was already stored", r.kind, r.start, r.end, r.start)));
            }
            if src.declared.is_some() && r.end.is_some() && r.had > 0 && src.honor_end {
                bad.push(("refetch_range", format!("{}({}, {:?}) covers {} stored bytes", r.kind, r.start, r.end, r.had)));
            }
            if r.end.is_some_and(|e| e <= r.start) || src.declared.is_some_and(|d| r.end.is_some_and(|e| e > d)) {
                bad.push(("bad_range", format!("{}({}, {:?}) of {}", r.kind, r.start, r.end, src.len)));
            }
        }
        if src.honor_end && src.declared.is_some() && st.reconnect_n == 0 && st.bytes_accepted > src.len {
            bad.push(("downloaded_twice", format!("{} bytes were stored for a resource of {}", st.bytes_accepted, src.len)));
        }
    }

    // ------------------------------------------------------------ reconnects
    if c.reconnect {
        let retry = w.cfg.settings.retry_ms;
        let mut last: Option<u64> = None;
        for r in st.calls.iter().filter(|r| r.kind == "reconnect") {
            if r.start != r.wpos {
                bad.push(("reconnect_position", format!("reconnect({}) while the storage writer is at {}", r.start, r.wpos)));
            }
            if src.declared.is_some_and(|d| d > 0 && r.start >= d) {
                bad.push(("reconnect_position", format!("reconnect({}) although all of the {:?} bytes arrived", r.start, src.declared)));
            }
            if r.idle_ms + 1 < retry {
                bad.push(("early_reconnect", format!("reconnect at {} ms after only {} ms without data", r.at_ms, r.idle_ms)));
            }
            if let Some(l) = last
                && r.at_ms < l + retry
            {
                bad.push(("reconnect_storm", format!("reconnects at {l} and {} ms", r.at_ms)));
            }
            last = Some(r.at_ms);
        }
        // a stall leads to a new request in time
        if unbounded(w.cfg.storage.kind, src.declared) {
            for (at, ms) in &st.stalls {
                let deadline = at + retry + SLACK_MS;
                if *ms > retry + SLACK_MS
                    && !st.calls.iter().any(|r| r.at_ms >= *at && r.at_ms <= deadline)
                    && st.cancelled_ms.is_none_or(|c| c > deadline)
                    && ended.is_none_or(|e| e > deadline)
                    && scn.horizon_ms > deadline
                {
                    bad.push(("no_reconnect", format!("no data from {at} ms for {ms} ms, but nothing was requested until {deadline} ms")));
                }
            }
            // an unanswered attempt does not hold up the next one
            for r in st.calls.iter().filter(|r| r.kind == "reconnect" && r.done_ms.is_none()) {
                let deadline = r.at_ms + 2 * retry + SLACK_MS;
                if !st.calls.iter().any(|q| q.at_ms > r.at_ms && q.at_ms <= deadline)
                    && !st.chunks_at.iter().any(|c| *c >= r.at_ms && *c <= deadline)
                    && st.cancelled_ms.is_none_or(|c| c > deadline)
                    && ended.is_none_or(|e| e > deadline)
                {
                    bad.push(("reconnect_unbounded", format!("the attempt at {} ms was not given up by {deadline} ms", r.at_ms)));
                }
            }
        }
        let ok = st.calls.iter().filter(|r| r.kind == "reconnect" && r.ok == Some(true)).count();
        if ok as u32 != st.reconnect_cb {
            bad.push(("reconnect_callback", format!("{ok} successful reconnects, {} callbacks", st.reconnect_cb)));
        }
        if ok > 0 {
            probe("reconnected");
        }
    }

    // ------------------------------------------------------------ progress
    if c.progress && w.cfg.settings.progress && ended.is_some() && !st.panicked {
        let total: u64 = st.progress.iter().filter(|p| p.phase < 2).map(|p| p.chunk_size).sum();
        let completes = st.progress.iter().filter(|p| p.phase == 2).count();
        if ok_finish {
            // a chunk that was abandoned half way because of a seek is not reported
            if total > st.bytes_accepted || total != st.bytes_accepted && st.wseek_n == 0 {
                bad.push(("progress_sum", format!("chunk sizes add up to {total}, {} bytes were stored", st.bytes_accepted)));
            }
            if completes != 1 {
                bad.push(("progress_complete", format!("{completes} completion reports for a completed download")));
            }
            if let Some(l) = st.progress.last()
                && st.wseek_n == 0
                && src.len > 0
                && st.ended_at.is_none()
                && (l.chunk.0 > 0 || l.chunk.1 < src.len)
            {
                bad.push(("progress_final", format!("{l:?} for a resource of {}", src.len)));
            }
        } else {
            if completes != 0 {
                bad.push(("progress_complete", "completion was reported for a download that did not complete".into()));
            }
            if total > st.bytes_accepted {
                bad.push(("progress_sum", format!("chunk sizes add up to {total}, {} bytes were stored", st.bytes_accepted)));
            }
        }
        // prefetching is reported exactly until the target is reached
        if st.wseek_n == 0 && !has_seek(w) {
            let mut sum = 0;
            for p in st.progress.iter().filter(|p| p.phase < 2) {
                let pf = w.cfg.settings.prefetch;
                if p.phase == 1 && sum < pf && unbounded(w.cfg.storage.kind, src.declared) {
                    bad.push(("progress_phase", format!("{p:?} before the prefetch target {pf} was reached")));
                    break;
                }
                if p.phase == 0 && sum >= pf {
                    bad.push(("progress_phase", format!("{p:?} after the prefetch target {pf} was reached")));
                    break;
                }
                sum += p.chunk_size;
            }
        }
        // prefetching that was started again by a seek has the same target
        if unbounded(w.cfg.storage.kind, src.declared) && w.cfg.storage.faults.is_empty() {
            let pf = w.cfg.settings.prefetch;
            let mut sums: std::collections::BTreeMap<u64, (bool, u64)> = std::collections::BTreeMap::new();
            for p in st.progress.iter().filter(|p| p.phase < 2 && p.epoch > 0) {
                if st.wseek_ops.get(p.epoch as usize - 1) != Some(&p.seeks) {
                    continue;
                }
                let (pre, sum) = sums.entry(p.epoch).or_insert((p.phase == 0, 0));
                let early = p.phase == 1 && *pre && *sum < pf;
                let late = p.phase == 0 && (!*pre || *sum >= pf && *sum > 0);
                if early || late {
                    bad.push(("progress_phase", format!("{p:?} with {sum} of {pf} bytes prefetched since the last seek")));
                    break;
                }
                *sum += p.chunk_size;
            }
        }
    }

    // ------------------------------------------------------------ storage
    if c.batches && st.max_batch > w.cfg.settings.batch {
        bad.push(("batch_size", format!("{} bytes in one write, the limit is {}", st.max_batch, w.cfg.settings.batch)));
    }
    if let Some(cap) = crate::gen_::canon_len(w.cfg.storage.kind, src.declared)
        && st.phys_max > cap
    {
        bad.push(("capacity_exceeded", format!("{} bytes of storage were used, the limit is {cap}", st.phys_max)));
    }
    if c.adaptive {
        let cap = match w.cfg.storage.kind {
            StorageKind::AdaptiveMixed(n) | StorageKind::AdaptiveBounded(n, _) => n,
            _ => 0,
        };
        let want = match src.declared {
            None => "fixed",
            Some(l) if l <= cap => "fixed",
            Some(_) => "variable",
        };
        if cap > 0 && st.picked != [want] {
            bad.push(("adaptive_choice", format!("{:?} was used for a length of {:?} and a buffer of {cap}", st.picked, src.declared)));
        }
        if cap > 0 && src.declared.is_none_or(|l| l <= cap) && st.phys_max > cap {
            bad.push(("capacity_exceeded", format!("{} bytes of storage were used, the limit is {cap}", st.phys_max)));
        }
    }

    // ------------------------------------------------------------ HTTP
    if c.http {
        let plain = st.calls.iter().filter(|r| r.kind == "get").count();
        if st.calls.first().is_some_and(|r| r.kind != "get") {
            bad.push(("http_first_request", format!("{:?}", st.calls.first())));
        }
        let reconnects = st.calls.iter().filter(|r| r.kind == "reconnect").count();
        if plain > 1 + reconnects {
            bad.push(("http_extra_get", format!("{plain} plain requests, {reconnects} reconnects")));
        }
    }
    drop(st);
    if c.process {
        crate::process::check(w, &mut bad);
    }
    note(|| format!("s{} final checks done", w.idx));
    flush(bad);
}

fn flush(bad: Vec<(&str, String)>) {
    for (k, d) in bad {
        violate(k, d);
    }
}

fn has_seek(w: &World) -> bool {
    use crate::scen::Op;
    w.cfg.ops.iter().any(|o| matches!(o, Op::SeekStart(_) | Op::SeekCur(_) | Op::SeekEnd(_)))
}
