//! Simulated child processes.
use std::ffi::OsString;
use std::fs::File;
use std::io::{self, Write};
use std::os::fd::AsRawFd;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::pin::Pin;
use std::process::ExitStatus;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use stream_download::process::{
    Command, CommandBuilder, FfmpegConvertAudioCommand, ProcessStream, ProcessStreamParams, YtDlpCommand,
};
use stream_download::sim::process::shadow::std::process::Stdio;
use stream_download::sim::process::{Io, Pipe, Process, Spawned, Spec};
use stream_download::StreamDownload;
use tokio::io::{AsyncRead, ReadBuf};

use crate::run::SLACK_MS;
use crate::scen::{ProcCfg, StageCfg, Stderr, Tool};
use crate::source::{Observed, SimRead};
use crate::storage::SimProvider;
use crate::world::{World, fired, note, probe, violate, vsleep};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum State {
    Running,
    /// exited, but nobody asked for the status yet
    Zombie(i32),
    Reaped(i32),
}

#[derive(Debug)]
pub struct Proc {
    stage: usize,
    program: OsString,
    args: Vec<OsString>,
    state: State,
    killed_ms: Option<u64>,
    exit_ms: Option<u64>,
    dying: bool,
    handle_dropped: bool,
    reaped_on_drop: bool,
    stdin: String,
    stdin_id: Option<u64>,
    stdin_pipe: Option<Box<dyn Pipe>>,
    stdout_piped: bool,
    stdout_id: u64,
    stderr: Option<File>,
    stderr_path: Option<PathBuf>,
    written: bool,
    wakers: Vec<Waker>,
}

static CURRENT: Mutex<Option<Arc<World>>> = Mutex::new(None);

pub fn install() {
    stream_download::sim::process::install(spawn);
}

fn cfg(w: &World) -> &ProcCfg {
    w.cfg.source.proc_cfg.as_ref().expect("process scenario")
}

fn stage(w: &World, i: usize) -> &StageCfg {
    &cfg(w).stages[i.min(cfg(w).stages.len() - 1)]
}

fn path_of(f: &File) -> Option<PathBuf> {
    std::fs::read_link(format!("/proc/self/fd/{}", f.as_raw_fd())).ok()
}

fn pipe_id(w: &World, i: usize) -> u64 {
    (w.idx as u64) * 1000 + i as u64 + 1
}

fn spawn(spec: Spec) -> io::Result<Spawned> {
    let w = CURRENT.lock().expect("current").clone().expect("no stream is being opened");
    let i = w.st().procs.len();
    dst::event("spawn", i as i64, 0);
    note(|| format!("s{} spawn {:?} {:?}", w.idx, spec.program, spec.args));
    if cfg(&w).spawn_fail == Some(i as u32) {
        fired("spawn_error");
        return Err(io::Error::new(io::ErrorKind::NotFound, "injected spawn error"));
    }
    let (stdin, stdin_pipe) = match spec.stdin {
        Io::Pipe(p) => ("pipe".to_string(), Some(p)),
        Io::Inherit | Io::Null => ("none".to_string(), None),
        other => (format!("{other:?}"), None),
    };
    let stderr = match spec.stderr {
        Io::File(f) => Some(f),
        _ => None,
    };
    let piped = matches!(spec.stdout, Io::Piped);
    let rec = Proc {
        stage: i,
        program: spec.program,
        args: spec.args,
        state: State::Running,
        killed_ms: None,
        exit_ms: None,
        dying: false,
        handle_dropped: false,
        reaped_on_drop: spec.reaped_on_drop,
        stdin,
        stdin_id: stdin_pipe.as_ref().map(|p| p.id()),
        stdin_pipe,
        stdout_piped: piped,
        stdout_id: pipe_id(&w, i),
        stderr_path: stderr.as_ref().and_then(path_of),
        stderr,
        written: false,
        wakers: vec![],
    };
    w.st().procs.push(rec);
    if let Some(ms) = stage(&w, i).early.filter(|_| i + 1 < cfg(&w).stages.len()) {
        end_later(&w, i, ms, status_of(&w, i), false);
    }
    let out = piped.then(|| {
        let last = i + 1 == cfg(&w).stages.len();
        Box::new(SimPipe {
            id: pipe_id(&w, i),
            stage: i,
            read: last.then(|| SimRead::new(&w)),
            left: w.cfg.source.len,
            world: w.clone(),
        }) as Box<dyn Pipe>
    });
    let process = Box::new(SimProc { world: w.clone(), i, kill_on_drop: spec.kill_on_drop });
    Ok(Spawned { process, stdout: out })
}

fn status_of(w: &World, i: usize) -> i32 {
    stage(w, i).exit_code << 8
}

/// The process comes to its end after some time.
fn end_later(w: &Arc<World>, i: usize, ms: u64, status: i32, killed: bool) {
    {
        let mut st = w.st();
        let p = &mut st.procs[i];
        if p.dying && !killed || p.state != State::Running {
            return;
        }
        p.dying = true;
    }
    if ms == 0 {
        return end(w, i, status, killed);
    }
    let Ok(rt) = tokio::runtime::Handle::try_current() else {
        return end(w, i, status, killed);
    };
    let w = w.clone();
    rt.spawn(async move {
        vsleep(ms).await;
        end(&w, i, status, killed);
    });
}

fn end(w: &Arc<World>, i: usize, status: i32, killed: bool) {
    let wakers = {
        let mut st = w.st();
        let p = &mut st.procs[i];
        if p.state != State::Running {
            return;
        }
        let kind = stage(w, i).stderr;
        if !killed && kind != Stderr::Nothing {
            if let Some(f) = &mut p.stderr {
                let mut text = marker(w, i).into_bytes();
                if kind == Stderr::Binary {
                    text.extend([0xff, 0xfe, b'!']);
                }
                p.written = f.write_all(&text).is_ok();
            }
        }
        p.stderr = None;
        p.exit_ms = Some(dst::now());
        p.state = if p.handle_dropped && p.reaped_on_drop { State::Reaped(status) } else { State::Zombie(status) };
        (std::mem::take(&mut p.wakers), p.stdin_pipe.take())
    };
    dst::event("exit", i as i64, i64::from(status));
    note(|| format!("s{} process {i} exits with {status:#x}", w.idx));
    drop(wakers.1);
    for k in wakers.0 {
        k.wake();
    }
}

/// What the process writes to its standard error.
fn marker(w: &World, i: usize) -> String {
    format!("stderr<{}/{i}>", w.idx)
}

#[derive(Debug)]
struct SimProc {
    world: Arc<World>,
    i: usize,
    kill_on_drop: bool,
}

impl std::fmt::Debug for World {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "World({})", self.idx)
    }
}

impl Process for SimProc {
    fn poll_wait(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<ExitStatus>> {
        let mut st = self.world.st();
        let p = &mut st.procs[self.i];
        match p.state {
            State::Running => {
                p.wakers.push(cx.waker().clone());
                Poll::Pending
            }
            State::Zombie(s) | State::Reaped(s) => {
                p.state = State::Reaped(s);
                Poll::Ready(Ok(ExitStatus::from_raw(s)))
            }
        }
    }

    fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
        let mut st = self.world.st();
        let p = &mut st.procs[self.i];
        Ok(match p.state {
            State::Running => None,
            State::Zombie(s) | State::Reaped(s) => {
                p.state = State::Reaped(s);
                Some(ExitStatus::from_raw(s))
            }
        })
    }

    fn kill(&mut self) -> io::Result<()> {
        {
            let mut st = self.world.st();
            let p = &mut st.procs[self.i];
            match p.state {
                State::Reaped(_) => {
                    return Err(io::Error::new(io::ErrorKind::InvalidInput, "can't kill an exited process"));
                }
                State::Zombie(_) => return Ok(()),
                State::Running => {}
            }
            if p.killed_ms.is_some() {
                return Ok(());
            }
            p.killed_ms = Some(dst::now());
        }
        if !dst::aborting() {
            dst::event("kill", self.i as i64, 0);
            note(|| format!("s{} process {} is killed", self.world.idx, self.i));
        }
        end_later(&self.world, self.i, stage(&self.world, self.i).kill_delay, 9, true);
        Ok(())
    }

    fn id(&self) -> Option<u32> {
        match self.world.st().procs[self.i].state {
            State::Reaped(_) => None,
            _ => Some(1000 + self.i as u32),
        }
    }
}

impl Drop for SimProc {
    fn drop(&mut self) {
        {
            let mut st = self.world.st();
            let p = &mut st.procs[self.i];
            p.handle_dropped = true;
            if let State::Zombie(s) = p.state
                && p.reaped_on_drop
            {
                p.state = State::Reaped(s);
            }
        }
        if self.kill_on_drop {
            let _ = self.kill();
        }
    }
}

/// The output of a process. Only the one of the last stage carries data.
#[derive(Debug)]
struct SimPipe {
    id: u64,
    stage: usize,
    read: Option<SimRead>,
    left: u64,
    world: Arc<World>,
}

impl std::fmt::Debug for SimRead {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SimRead")
    }
}

impl Pipe for SimPipe {
    fn id(&self) -> u64 {
        self.id
    }
}

impl SimPipe {
    /// Everything was written to this pipe.
    fn output_done(&self) {
        let w = &self.world;
        let delay = stage(w, self.stage).exit_delay;
        end_later(w, self.stage, delay, status_of(w, self.stage), false);
        for i in 0..self.stage {
            end_later(w, i, stage(w, i).exit_delay, status_of(w, i), false);
        }
    }
}

impl AsyncRead for SimPipe {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let this = &mut *self;
        let Some(r) = &mut this.read else {
            violate("process_wiring", format!("the output of stage {} is read by the library", this.stage));
            return Poll::Ready(Ok(()));
        };
        if matches!(this.world.st().procs[this.stage].state, State::Zombie(9) | State::Reaped(9)) {
            return Poll::Ready(Ok(()));
        }
        let before = buf.filled().len();
        let res = Pin::new(r).poll_read(cx, buf);
        if let Poll::Ready(Ok(())) = &res {
            let n = (buf.filled().len() - before) as u64;
            this.left -= n.min(this.left);
            if n == 0 || this.left == 0 {
                this.output_done();
            }
        }
        res
    }
}

impl Drop for SimPipe {
    fn drop(&mut self) {
        let (w, i) = (&self.world, self.stage);
        let (running, spawned) = {
            let st = w.st();
            (st.procs.get(i).is_some_and(|p| p.state == State::Running && !p.dying), st.procs.len() > i)
        };
        if !spawned || !running {
            return;
        }
        if stage(w, i).stubborn {
            // it only notices when it is done anyway
            end_later(w, i, stage(w, i).exit_delay.max(20_000), status_of(w, i), false);
        } else {
            end_later(w, i, 1, 13, false);
        }
    }
}

// ------------------------------------------------------------------------------------ commands

fn arg_list(w: &World, i: usize) -> Vec<OsString> {
    let mut r = dst::Rng::new(cfg(w).args ^ (i as u64 * 77));
    let pool: [&[u8]; 8] = [b"-", b"", b"a b", b"--flag=1", b"-i", b"\xff\xfe", b"'x'\"", b"pipe:"];
    (0..r.below(5)).map(|_| OsString::from_vec(r.pick(&pool).to_vec())).collect()
}

fn program(w: &World, i: usize) -> OsString {
    format!("sim-{}-{i}", w.idx).into()
}

/// Options of the tool wrappers, chosen by the scenario.
struct Opts {
    extract: bool,
    format: Option<&'static str>,
    path: bool,
    out: &'static str,
    extra: Vec<OsString>,
    single: bool,
}

fn opts(w: &World) -> Opts {
    let mut r = dst::Rng::new(cfg(w).args ^ 0x0f00);
    Opts {
        extract: r.chance(1, 2),
        format: [None, Some("m4a"), Some("bestaudio*")][r.below(3) as usize],
        path: r.chance(1, 2),
        out: ["adts", "mp3", "ogg"][r.below(3) as usize],
        extra: arg_list(w, 99),
        single: r.chance(1, 2),
    }
}

fn plain(w: &World, i: usize, custom: &mut Vec<File>) -> Command {
    let args = arg_list(w, i);
    let mut c = Command::new(program(w, i));
    if args.len() > 1 && cfg(w).args % 3 == 0 {
        // same list, put together out of order
        let k = (cfg(w).args / 3) as usize % args.len();
        let mut rest = args.clone();
        let one = rest.remove(k);
        c = c.args(rest).insert_arg(k, &one);
    } else if args.len() == 1 {
        c = c.arg(&args[0]);
    } else {
        c = c.args(args);
    }
    if stage(w, i).stderr == Stderr::Custom {
        let f = tempfile::tempfile().expect("temp file");
        custom.push(f.try_clone().expect("clone"));
        c = c.stderr_handle(Stdio::from(f));
    }
    c
}

fn yt(w: &World, o: &Opts) -> YtDlpCommand {
    let mut c = YtDlpCommand::new(format!("http://sim/{}", w.idx)).extract_audio(o.extract);
    if let Some(f) = o.format {
        c = c.format(f);
    }
    if o.path {
        c = c.yt_dlp_path(program(w, 0));
    }
    c
}

fn ffmpeg(w: &World, o: &Opts) -> FfmpegConvertAudioCommand {
    let mut c = FfmpegConvertAudioCommand::new(o.out);
    if o.path {
        c = c.ffmpeg_path(program(w, 1));
    }
    if o.single {
        for a in &o.extra {
            c = c.arg(a);
        }
    } else {
        c = c.args(o.extra.clone());
    }
    c
}

fn params(w: &World, custom: &mut Vec<File>) -> io::Result<ProcessStreamParams> {
    let n = cfg(w).stages.len();
    let o = opts(w);
    match cfg(w).tool {
        Tool::Plain => ProcessStreamParams::new(plain(w, 0, custom)),
        Tool::YtDlp => ProcessStreamParams::new(yt(w, &o)),
        Tool::Pipeline => {
            let mut b = CommandBuilder::new(plain(w, 0, custom));
            for i in 1..n {
                b = b.pipe(plain(w, i, custom));
            }
            ProcessStreamParams::new(b)
        }
        Tool::Convert => {
            let mut b = CommandBuilder::new(yt(w, &o)).pipe(ffmpeg(w, &o));
            for i in 2..n {
                b = b.pipe(plain(w, i, custom));
            }
            ProcessStreamParams::new(b)
        }
    }
}

pub async fn open(w: &Arc<World>, p: SimProvider) -> Option<StreamDownload<SimProvider>> {
    *CURRENT.lock().expect("current") = Some(w.clone());
    let mut custom = vec![];
    let res = params(w, &mut custom);
    *CURRENT.lock().expect("current") = None;
    drop(custom);
    let params = match res {
        Ok(p) => p.content_length(w.cfg.source.declared),
        Err(e) => {
            if cfg(w).spawn_fail.is_none() {
                violate("init_failed", e.to_string());
            } else if !e.to_string().contains("injected spawn error") {
                violate("init_failed", format!("the cause is missing from {e}"));
            }
            w.st().init_failed = Some(format!("source: {e}"));
            return None;
        }
    };
    if cfg(w).spawn_fail.is_some_and(|i| (i as usize) < cfg(w).stages.len()) {
        violate("init_swallowed", "a process could not be started, but nothing was reported".into());
    }
    if cfg(w).abandon {
        vsleep(cfg(w).args % 40).await;
        drop(params);
        fired("params_dropped");
        w.st().init_failed = Some("abandoned".into());
        return None;
    }
    let s = crate::run::settings(w);
    crate::run::finish_open(w, StreamDownload::new::<Observed<ProcessStream>>((params, w.clone()), p, s)).await
}

// -------------------------------------------------------------------------------------- oracle

pub fn all_gone_in(st: &crate::world::St) -> bool {
    st.procs.iter().all(|p| matches!(p.state, State::Reaped(_)))
}

fn follows(args: &[OsString], a: &str, b: &str) -> bool {
    args.windows(2).any(|x| x[0] == a && x[1] == b)
}

fn check_args(w: &World, procs: &[Proc], bad: &mut Vec<(&str, String)>) {
    let o = opts(w);
    for p in procs {
        let (tool, i) = (cfg(w).tool, p.stage);
        let mut fail = |why: &str| bad.push(("process_args", format!("stage {i}: {why}: {:?} {:?}", p.program, p.args)));
        let has = |a: &str| p.args.iter().any(|x| x == a);
        let name = |default: &str| if o.path { program(w, i) } else { default.into() };
        match (tool, i) {
            (Tool::YtDlp | Tool::Convert, 0) => {
                if p.program != name("yt-dlp") {
                    fail("wrong program");
                }
                if !has(&format!("http://sim/{}", w.idx)) {
                    fail("the URL is missing");
                }
                if !follows(&p.args, "-o", "-") {
                    fail("not written to stdout");
                }
                if !has("--no-part") || !has("--no-continue") || !has("--quiet") {
                    fail("an option is missing");
                }
                if has("-x") != o.extract {
                    fail("extract_audio");
                }
                match o.format {
                    Some(f) if !follows(&p.args, "-f", f) => fail("format"),
                    None if has("-f") => fail("format"),
                    _ => {}
                }
            }
            (Tool::Convert, 1) => {
                if p.program != name("ffmpeg") {
                    fail("wrong program");
                }
                if p.args.last().is_none_or(|a| a != "-") {
                    fail("not written to stdout");
                }
                if !follows(&p.args, "-i", "pipe:") || !follows(&p.args, "-map", "a") || !follows(&p.args, "-f", o.out) {
                    fail("an option is missing");
                }
                let n = o.extra.len();
                if n > 0 && !p.args[..p.args.len() - 1].windows(n).any(|x| x == o.extra) {
                    fail("user arguments");
                }
            }
            _ => {
                if p.program != program(w, i) || p.args != arg_list(w, i) {
                    fail("not as described");
                }
            }
        }
    }
}

pub fn check(w: &World, bad: &mut Vec<(&str, String)>) {
    let st = w.st();
    let procs = &st.procs;
    let n = cfg(w).stages.len();
    check_args(w, procs, bad);

    // ---------------------------------------------------------------------- how it is connected
    let want = cfg(w).spawn_fail.map_or(n, |f| (f as usize).min(n));
    if procs.len() != want {
        bad.push(("process_wiring", format!("{} processes instead of {want}", procs.len())));
        return;
    }
    let mut paths = vec![];
    for (i, p) in procs.iter().enumerate() {
        if i == 0 && p.stdin != "none" || i > 0 && p.stdin_id != Some(procs[i - 1].stdout_id) {
            bad.push(("process_wiring", format!("input of stage {i}: {} {:?}", p.stdin, p.stdin_id)));
        }
        if !p.stdout_piped {
            bad.push(("process_wiring", format!("the output of stage {i} is not piped")));
        }
        match &p.stderr_path {
            None => bad.push(("process_wiring", format!("the errors of stage {i} go nowhere"))),
            Some(f) => {
                let deleted = f.to_string_lossy().ends_with("(deleted)");
                let custom = custom_stderr(w, i);
                if custom != deleted {
                    bad.push(("process_wiring", format!("errors of stage {i} go to {}", f.display())));
                }
                if paths.contains(&f) {
                    bad.push(("process_wiring", format!("errors of stage {i} share {}", f.display())));
                }
                if !custom && f.exists() {
                    bad.push(("stderr_leak", format!("{} of stage {i} was not removed", f.display())));
                }
                paths.push(f);
            }
        }
    }

    // ------------------------------------------------------------------------------ what is left
    let finish = st.finish.first();
    let ok = finish.is_some_and(|f| f.ok);
    for (i, p) in procs.iter().enumerate() {
        match p.state {
            State::Running => bad.push(("process_leak", format!("process {i} is still running"))),
            State::Zombie(_) => bad.push(("process_leak", format!("process {i} was never reaped"))),
            State::Reaped(_) => {}
        }
        let limit = SLACK_MS + procs.iter().map(|p| stage(w, p.stage).kill_delay).sum::<u64>();
        // what the stream does not need any longer goes away with it
        if let (Some(e), Some(d)) = (p.exit_ms, st.source_dropped_ms)
            && !ok
            && e > d + limit
        {
            bad.push(("process_leak", format!("process {i} ran until {e} ms, the stream was gone at {d} ms")));
        }
        if let (Some(e), Some(f)) = (p.exit_ms, finish)
            && !f.ok
            && e > f.at_ms + limit
        {
            bad.push(("process_leak", format!("process {i} ran until {e} ms, the stream ended at {} ms", f.at_ms)));
        }
        if i + 1 < n && ok && p.killed_ms.is_some() && finish.is_some_and(|f| f.done_ms.is_some()) {
            bad.push(("process_status", format!("process {i} was killed although the stream was read to its end")));
        }
        if i + 1 == n && ok && p.killed_ms.is_some() {
            bad.push(("process_status", "the process was killed although the stream was read to its end".into()));
        }
    }
    if let (Some(l), Some(f)) = (procs.last(), finish)
        && let Some(d) = f.done_ms
        && l.exit_ms.is_none_or(|e| e > d)
    {
        bad.push(("process_leak", format!("on_finish was done at {d} ms, but the process ran until {:?}", l.exit_ms)));
    }

    // ------------------------------------------------------------------------------ what it said
    let failed = match finish {
        Some(f) if f.ok => matches!(procs.last().map(|p| p.state), Some(State::Reaped(s)) if s != 0),
        Some(f) => !f.cancelled_outcome,
        None => false,
    };
    if failed {
        probe("failed_process");
        let at = finish.and_then(|f| if f.ok { procs.last().and_then(|l| l.exit_ms) } else { Some(f.at_ms) });
        let logs = &crate::world::global().logs;
        for (i, p) in procs.iter().enumerate() {
            if !p.written || custom_stderr(w, i) || p.exit_ms.is_none_or(|e| Some(e) > at || i + 1 < n && Some(e) == at) {
                continue;
            }
            if !logs.iter().any(|l| l.contains(&marker(w, i))) {
                bad.push(("process_status", format!("the errors of stage {i} were not reported")));
            }
        }
    }
}

fn custom_stderr(w: &World, i: usize) -> bool {
    stage(w, i).stderr == Stderr::Custom
        && match cfg(w).tool {
            Tool::Plain | Tool::Pipeline => true,
            Tool::YtDlp => false,
            Tool::Convert => i > 1,
        }
}
