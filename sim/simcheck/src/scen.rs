//! The explicit description of one simulated run. A scenario plus the code is the whole replay.
use serde::{Deserialize, Serialize};

pub const FOREVER: u64 = 1 << 40;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scenario {
    pub prop: String,
    pub family: String,
    pub seed: u64,
    pub tokio_seed: u64,
    pub horizon_ms: u64,
    pub streams: Vec<StreamCfg>,
    pub sched: Sched,
    /// oracles that only this family turns on
    #[serde(default)]
    pub checks: Checks,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Checks {
    /// a read must return as soon as its bytes are stored (and the prefetch gate is open)
    #[serde(default)]
    pub prompt_reads: bool,
    /// after the clients are done the download task must end and drop its source
    #[serde(default)]
    pub release: bool,
    /// operations must return promptly after a cancellation
    #[serde(default)]
    pub prompt_cancel: bool,
    /// every byte must be stored once the download completed
    #[serde(default)]
    pub full_cache: bool,
    /// requested ranges must be sane and needed
    #[serde(default)]
    pub economy: bool,
    /// progress callbacks are checked
    #[serde(default)]
    pub progress: bool,
    /// reconnect behaviour is checked
    #[serde(default)]
    pub reconnect: bool,
    /// the prefetch gate is checked
    #[serde(default)]
    pub prefetch: bool,
    /// storage call pattern is checked
    #[serde(default)]
    pub batches: bool,
    /// the source may legitimately never deliver (pending reads at the horizon are fine)
    #[serde(default)]
    pub may_starve: bool,
    /// stream initialisation is expected to fail with the injected fault
    #[serde(default)]
    pub init: bool,
    /// process lifecycle is checked
    #[serde(default)]
    pub process: bool,
    /// completion handles are checked
    #[serde(default)]
    pub completion: bool,
    /// once an operation failed because the download failed, all later ones fail too
    #[serde(default)]
    pub sticky: bool,
    /// a storage provider is exercised directly, without a download
    #[serde(default)]
    pub raw_storage: bool,
    /// after a failure every operation must report it
    #[serde(default)]
    pub failure: bool,
    /// HTTP request/response conformance
    #[serde(default)]
    pub http: bool,
    /// which storage the adaptive provider picked is checked
    #[serde(default)]
    pub adaptive: bool,
    /// the network must have been asked for everything after an interruption
    #[serde(default)]
    pub whole: bool,
    /// a download that waits for space goes on as soon as there is some
    #[serde(default)]
    pub resume: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum PolicyCfg {
    Random(u64),
    Pct(u64, u64),
    Sticky,
    Bursty(u64, u64, u64),
    Replay,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum D {
    Run(usize),
    Stall(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sched {
    pub policy: PolicyCfg,
    pub seed: u64,
    pub stall_p: u64,
    pub stall_ms: u64,
    pub max_steps: u64,
    #[serde(default)]
    pub decisions: Vec<(u64, D)>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Transport {
    /// the harness's own `SourceStream`
    Native,
    /// `HttpStream` over the harness's `Client`
    Http,
    /// `HttpStream<ClientWithMiddleware>` with the network as a middleware
    Middleware,
    /// `AsyncReadStream`
    AsyncRead,
    /// `ProcessStream` over simulated processes
    Process,
    /// `OpendalStream` over a simulated service
    Opendal,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum ByteKind {
    /// nothing arrives on this connection for this many ms
    Stall(u64),
    /// an error item, the stream continues afterwards
    Err,
    /// an error item, the stream ends afterwards
    ErrEnd,
    /// the connection ends early without an error
    End,
    /// an empty chunk
    Empty,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub struct ByteFault {
    pub at: u64,
    pub kind: ByteKind,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum CallKind {
    Delay(u64),
    Err,
    /// never answers
    Hang,
    /// answers with this HTTP status and an error body
    Status(u16),
    /// answers 200 with the whole body, ignoring the range
    Full,
    /// fails after a delay
    DelayErr(u64),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub struct CallFault {
    pub n: u32,
    pub kind: CallKind,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tool {
    /// `Command`, spawned on its own
    Plain,
    /// `CommandBuilder`
    Pipeline,
    /// `YtDlpCommand`, spawned on its own
    YtDlp,
    /// `YtDlpCommand` piped into `FfmpegConvertAudioCommand` and maybe more
    Convert,
}

/// What a child writes to its standard error before it exits.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stderr {
    Nothing,
    Text,
    /// text that is not UTF-8
    Binary,
    /// text, into a file provided by the user
    Custom,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct StageCfg {
    pub exit_code: i32,
    /// ms between the end of its output and its exit
    pub exit_delay: u64,
    /// exits only when it is killed or after `exit_delay`, a closed pipe does not end it
    pub stubborn: bool,
    /// is done this many ms after the start because its output fits into the pipe
    pub early: Option<u64>,
    pub stderr: Stderr,
    /// ms it takes to die
    pub kill_delay: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ProcCfg {
    pub tool: Tool,
    pub stages: Vec<StageCfg>,
    /// spawning this stage fails
    pub spawn_fail: Option<u32>,
    /// the parameters are dropped instead of creating a stream
    pub abandon: bool,
    /// selects the arguments
    pub args: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SourceCfg {
    pub transport: Transport,
    pub len: u64,
    /// the length the source reports
    pub declared: Option<u64>,
    pub seekable: bool,
    /// whether a range's end is honoured
    pub honor_end: bool,
    pub chunks: Vec<u64>,
    pub delays: Vec<u64>,
    #[serde(default)]
    pub faults: Vec<ByteFault>,
    #[serde(default)]
    pub seeks: Vec<CallFault>,
    #[serde(default)]
    pub reconnects: Vec<CallFault>,
    #[serde(default)]
    pub create: Option<CallKind>,
    /// delay of on_finish
    #[serde(default)]
    pub finish_delay: u64,
    /// on_finish turns success into an error
    #[serde(default)]
    pub finish_err: bool,
    /// on_finish turns errors into success
    #[serde(default)]
    pub finish_ok: bool,
    /// Accept-Ranges header of HTTP responses
    #[serde(default)]
    pub accept_ranges: Option<String>,
    #[serde(default)]
    pub content_type: Option<String>,
    #[serde(default)]
    pub proc_cfg: Option<ProcCfg>,
    /// opendal chunk size
    #[serde(default)]
    pub chunk_size: u64,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum StorageKind {
    Memory,
    Temp,
    Bounded(u64),
    BoundedTemp(u64),
    Adaptive(u64),
    /// adaptive with a temp file as the variable storage
    AdaptiveMixed(u64),
    /// adaptive with bounded storage (of the second size) as the variable storage
    AdaptiveBounded(u64, u64),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum StOp {
    Write,
    Flush,
    WSeek,
    Read,
    RSeek,
    Create,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum StKind {
    Err,
    /// only part of the buffer is accepted
    Short,
    /// nothing happened, the call has to be repeated
    Interrupted,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub struct StFault {
    pub op: StOp,
    pub n: u64,
    pub kind: StKind,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct StorageCfg {
    pub kind: StorageKind,
    #[serde(default)]
    pub faults: Vec<StFault>,
    /// the writer keeps up to this many bytes to itself until it is flushed
    #[serde(default)]
    pub buffered: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SettingsCfg {
    pub prefetch: u64,
    pub batch: u64,
    pub retry_ms: u64,
    pub cancel_on_drop: bool,
    #[serde(default)]
    pub progress: bool,
    /// cancel from the progress callback at this position
    #[serde(default)]
    pub progress_cancel_at: Option<u64>,
    /// panic in the progress callback at this position
    #[serde(default)]
    pub progress_panic_at: Option<u64>,
    /// cancel from the n-th reconnect callback
    #[serde(default)]
    pub reconnect_cancel: Option<u32>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Read(u64),
    /// read with this buffer size until end of stream
    ReadAll(u64),
    SeekStart(u64),
    SeekCur(i64),
    SeekEnd(i64),
    Sleep(u64),
    /// `cancel_download`
    Cancel,
    /// query the position
    Pos,
    /// wait until the download task has finished (bounded)
    AwaitDone(u64),
    /// panics if the harness is broken, otherwise nothing
    Nop,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct StreamCfg {
    pub source: SourceCfg,
    pub storage: StorageCfg,
    pub settings: SettingsCfg,
    pub ops: Vec<Op>,
    /// a second thread cancels through a token after this many ms
    #[serde(default)]
    pub token_cancel_ms: Option<u64>,
    /// ... or when the download has stored this many bytes
    #[serde(default)]
    pub token_cancel_bytes: Option<u64>,
    /// tasks waiting on `handle().wait_for_completion()`
    #[serde(default)]
    pub waiters: u32,
    #[serde(default)]
    pub start_ms: u64,
    /// the runtime is shut down at this time
    #[serde(default)]
    pub shutdown_ms: Option<u64>,
    #[serde(default)]
    pub salt: u64,
    /// raw storage mode: writer script, `(true, n)` writes n bytes, `(false, p)` seeks to p
    #[serde(default)]
    pub writer_ops: Vec<(bool, u64)>,
}
