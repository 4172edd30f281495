//! Simulated transports: each one plugs into a seam the library already has.
use std::collections::VecDeque;
use std::fmt::{self, Display};
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

use bytes::Bytes;
use futures_util::Stream;
use stream_download::http::{Client, ClientResponse, RANGE_HEADER_KEY, ResponseHeaders};
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};
use tokio::io::{AsyncRead, ReadBuf};

use crate::scen::CallKind;
use crate::world::{
    CallRec, Conn, FinishRec, SimErr, World, apply_call, fired, note, violate, vsleep, world,
};

pub fn seek_fault(w: &World) -> Option<CallKind> {
    let mut st = w.st();
    let n = st.seek_n;
    st.seek_n += 1;
    w.cfg.source.seeks.iter().find(|f| f.n == n).map(|f| f.kind)
}

fn reconnect_fault(w: &World) -> Option<CallKind> {
    let mut st = w.st();
    let n = st.reconnect_n;
    st.reconnect_n += 1;
    w.cfg.source.reconnects.iter().find(|f| f.n == n).map(|f| f.kind)
}

/// Records when the library lets go of a source.
struct DropMark(Arc<World>);
impl Drop for DropMark {
    fn drop(&mut self) {
        if !dst::aborting() {
            dst::event("source_dropped", self.0.idx as i64, 0);
            note(|| format!("s{} source dropped", self.0.idx));
        }
        self.0.st().source_dropped_ms = Some(dst::now());
    }
}

// ---------------------------------------------------------------- native

pub struct SimSource {
    world: Arc<World>,
    conn: Conn,
    _mark: DropMark,
}

impl Stream for SimSource {
    type Item = Result<Bytes, SimErr>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.conn.poll_chunk(cx, usize::MAX)
    }
}

/// A download that reports success has handed everything to the storage for good.
fn check_flushed(w: &World, ok: bool) {
    let left = w.st().unflushed;
    if ok && left > 0 {
        crate::world::violate("incomplete_cache", format!("the download completed with {left} bytes that were not flushed"));
    }
}

pub async fn record_finish(
    w: &Arc<World>,
    result: io::Result<()>,
    outcome: StreamOutcome,
) -> io::Result<()> {
    let rec = FinishRec {
        at_ms: dst::now(),
        done_ms: None,
        ok: result.is_ok(),
        interrupted: result.as_ref().is_err_and(|e| e.kind() == io::ErrorKind::Interrupted),
        cancelled_outcome: outcome == StreamOutcome::CancelledByUser,
        returned_ok: false,
    };
    dst::event("on_finish", i64::from(rec.ok), i64::from(rec.cancelled_outcome));
    note(|| format!("s{} on_finish({result:?}, {outcome:?})", w.idx));
    check_flushed(w, rec.ok);
    w.st().finish.push(rec);
    if w.cfg.source.finish_delay > 0 {
        fired("finish_delay");
        vsleep(w.cfg.source.finish_delay).await;
    }
    let res = if w.cfg.source.finish_err && result.is_ok() {
        fired("finish_error");
        w.fatal("on_finish");
        Err(io::Error::other("injected on_finish error"))
    } else if w.cfg.source.finish_ok {
        Ok(())
    } else {
        result
    };
    let mut st = w.st();
    let last = st.finish.last_mut().expect("pushed");
    last.done_ms = Some(dst::now());
    last.returned_ok = res.is_ok();
    drop(st);
    dst::event("on_finish_done", i64::from(res.is_ok()), 0);
    res
}

impl SourceStream for SimSource {
    type Params = Arc<World>;
    type StreamCreationError = SimErr;

    async fn create(w: Arc<World>) -> Result<Self, SimErr> {
        match apply_call(w.cfg.source.create).await {
            Ok(_) => {}
            Err(s) => return Err(SimErr(format!("injected create error {s}"))),
        }
        let conn = Conn::new(&w, 0, u64::MAX);
        {
            let mut st = w.st();
            st.source_created = true;
            st.last_activity_ms = dst::now();
        }
        Ok(Self { conn, _mark: DropMark(w.clone()), world: w })
    }

    fn content_length(&self) -> Option<u64> {
        self.world.cfg.source.declared
    }

    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        let w = self.world.clone();
        let id = w.call_started("seek_range", start, end);
        if !w.cfg.source.seekable {
            violate("seek_on_unseekable", format!("seek_range({start}, {end:?}) on a source that does not support it"));
        }
        match apply_call(seek_fault(&w)).await {
            Ok(_) => {
                let e = if w.cfg.source.honor_end { end.unwrap_or(u64::MAX) } else { u64::MAX };
                self.conn = Conn::new(&w, start, e);
                w.call_done(id, true);
                Ok(())
            }
            Err(_) => {
                w.call_done(id, false);
                w.fatal("seek_range");
                Err(io::Error::other("injected seek error"))
            }
        }
    }

    async fn reconnect(&mut self, pos: u64) -> io::Result<()> {
        let w = self.world.clone();
        let id = w.call_started("reconnect", pos, None);
        match apply_call(reconnect_fault(&w)).await {
            Ok(_) => {
                self.conn = Conn::new(&w, pos, u64::MAX);
                w.call_done(id, true);
                Ok(())
            }
            Err(_) => {
                w.call_done(id, false);
                Err(io::Error::other("injected reconnect error"))
            }
        }
    }

    fn supports_seek(&self) -> bool {
        self.world.cfg.source.seekable
    }

    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        record_finish(&self.world.clone(), result, outcome).await
    }
}

// ---------------------------------------------------------------- HTTP

#[derive(Clone, Debug)]
pub struct SimUrl(pub usize);
impl Display for SimUrl {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "http://sim/{}", self.0)
    }
}

#[derive(Clone, Debug, Default)]
pub struct SimHeaders(pub Vec<(String, String)>);
impl ResponseHeaders for SimHeaders {
    fn header(&self, name: &str) -> Option<&str> {
        self.0
            .iter()
            .find(|(k, _)| k.eq_ignore_ascii_case(name))
            .map(|(_, v)| v.as_str())
    }
}

/// What the simulated HTTP server answers.
pub struct Reply {
    pub status: u16,
    pub headers: SimHeaders,
    pub conn: Conn,
}

fn parse_range(h: &str) -> Option<(u64, Option<u64>)> {
    let (a, b) = h.strip_prefix("bytes=")?.split_once('-')?;
    Some((a.parse().ok()?, if b.is_empty() { None } else { Some(b.parse().ok()?) }))
}

/// The simulated HTTP server. `range` is inclusive as on the wire.
pub async fn serve(w: &Arc<World>, range: Option<(u64, Option<u64>)>) -> Result<Reply, SimErr> {
    let src = &w.cfg.source;
    let n = {
        let mut st = w.st();
        let n = st.request_n;
        st.request_n += 1;
        n
    };
    let id = match range {
        None => w.call_started("get", 0, None),
        Some((a, b)) => {
            if b.is_some_and(|b| b < a) || src.declared.is_some_and(|d| a >= d || b.is_some_and(|b| b >= d)) {
                violate("bad_range", format!("requested bytes={a}-{b:?} of {}", src.len));
            }
            w.call_started("get_range", a, b.map(|b| b.saturating_add(1)))
        }
    };
    let fault = if n == 0 { src.create } else { src.seeks.iter().find(|f| f.n == n - 1).map(|f| f.kind) };
    let base = || {
        let mut h = vec![];
        if let Some(a) = &src.accept_ranges {
            h.push(("Accept-Ranges".to_string(), a.clone()));
        }
        if let Some(c) = &src.content_type {
            h.push(("Content-Type".to_string(), c.clone()));
        }
        h
    };
    let res = match apply_call(fault).await {
        Err(0) => {
            w.call_done(id, false);
            return Err(SimErr("injected network error".into()));
        }
        Err(status) => {
            let mut h = base();
            h.push(("Content-Length".into(), "12".into()));
            Ok(Reply { status, headers: SimHeaders(h), conn: Conn::body(w, b"\xfferror page\xff") })
        }
        Ok(full) => {
            let honors = src.seekable && !full;
            let mut h = base();
            match range.filter(|_| honors) {
                Some((a, b)) if a >= src.len || b.is_some_and(|b| b < a) => {
                    h.push(("Content-Range".into(), format!("bytes */{}", src.len)));
                    Ok(Reply { status: 416, headers: SimHeaders(h), conn: Conn::body(w, b"\xffbad\xff") })
                }
                Some((a, b)) => {
                    let end = b.map_or(src.len, |b| (b + 1).min(src.len));
                    h.push(("Content-Length".into(), (end - a).to_string()));
                    h.push(("Content-Range".into(), format!("bytes {a}-{}/{}", end - 1, src.len)));
                    Ok(Reply { status: 206, headers: SimHeaders(h), conn: Conn::new(w, a, end) })
                }
                None => {
                    if let Some(d) = src.declared {
                        h.push(("Content-Length".into(), d.to_string()));
                    }
                    Ok(Reply { status: 200, headers: SimHeaders(h), conn: Conn::new(w, 0, u64::MAX) })
                }
            }
        }
    };
    w.call_done(id, res.as_ref().is_ok_and(|r: &Reply| r.status < 400));
    if n == 0 {
        w.st().source_created = true;
    }
    res
}

pub struct SimClient;

pub struct SimResponse {
    reply: Reply,
    mark: Option<DropMark>,
}

struct ConnStream(Conn, #[allow(dead_code)] Option<DropMark>);
impl Stream for ConnStream {
    type Item = Result<Bytes, SimErr>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.0.poll_chunk(cx, usize::MAX)
    }
}

impl ClientResponse for SimResponse {
    type ResponseError = SimErr;
    type StreamError = SimErr;
    type Headers = SimHeaders;
    fn content_length(&self) -> Option<u64> {
        self.reply.headers.header("content-length").and_then(|v| v.parse().ok())
    }
    fn content_type(&self) -> Option<&str> {
        self.reply.headers.header("content-type")
    }
    fn headers(&self) -> SimHeaders {
        self.reply.headers.clone()
    }
    fn into_result(self) -> Result<Self, SimErr> {
        if self.reply.status >= 400 {
            Err(SimErr(format!("status {}", self.reply.status)))
        } else {
            Ok(self)
        }
    }
    fn stream(self) -> Box<dyn Stream<Item = Result<Bytes, SimErr>> + Unpin + Send + Sync> {
        Box::new(ConnStream(self.reply.conn, self.mark))
    }
}

impl Client for SimClient {
    type Url = SimUrl;
    type Headers = SimHeaders;
    type Response = SimResponse;
    type Error = SimErr;
    fn create() -> Self {
        Self
    }
    async fn get(&self, url: &SimUrl) -> Result<SimResponse, SimErr> {
        let w = world(url.0);
        Ok(SimResponse { reply: serve(&w, None).await?, mark: None })
    }
    async fn get_range(&self, url: &SimUrl, start: u64, end: Option<u64>) -> Result<SimResponse, SimErr> {
        let w = world(url.0);
        Ok(SimResponse { reply: serve(&w, Some((start, end))).await?, mark: None })
    }
}

// ---------------------------------------------------------------- reqwest middleware

/// The network, as a middleware that never calls the next one.
pub struct SimNet;

struct SyncStream(std::sync::Mutex<Conn>);
impl Stream for SyncStream {
    type Item = Result<Bytes, SimErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.get_mut().0.get_mut().expect("no poison").poll_chunk(cx, usize::MAX)
    }
}

#[async_trait::async_trait]
impl reqwest_middleware::Middleware for SimNet {
    async fn handle(
        &self,
        req: reqwest::Request,
        _ext: &mut http::Extensions,
        _next: reqwest_middleware::Next<'_>,
    ) -> reqwest_middleware::Result<reqwest::Response> {
        let idx: usize = req.url().path().trim_start_matches('/').parse().expect("world index");
        let w = world(idx);
        let range = match req.headers().get(RANGE_HEADER_KEY) {
            None => None,
            Some(h) => match h.to_str().ok().and_then(parse_range) {
                Some(r) => Some(r),
                None => {
                    violate("bad_range_header", format!("{h:?}"));
                    None
                }
            },
        };
        if req.method() != reqwest::Method::GET {
            violate("bad_method", req.method().to_string());
        }
        let reply = serve(&w, range)
            .await
            .map_err(reqwest_middleware::Error::middleware)?;
        let mut b = http::Response::builder().status(reply.status);
        for (k, v) in &reply.headers.0 {
            b = b.header(k, v);
        }
        let body = reqwest::Body::wrap_stream(SyncStream(std::sync::Mutex::new(reply.conn)));
        Ok(b.body(body).expect("valid response").into())
    }
}

// ---------------------------------------------------------------- AsyncRead

pub struct SimRead {
    conn: Conn,
    left: VecDeque<u8>,
    _mark: DropMark,
}

impl SimRead {
    pub fn new(w: &Arc<World>) -> Self {
        w.st().source_created = true;
        Self { conn: Conn::new(w, 0, u64::MAX), left: VecDeque::new(), _mark: DropMark(w.clone()) }
    }
}

impl AsyncRead for SimRead {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        loop {
            if !self.left.is_empty() {
                let n = self.left.len().min(buf.remaining());
                let v: Vec<u8> = self.left.drain(..n).collect();
                buf.put_slice(&v);
                return Poll::Ready(Ok(()));
            }
            match self.conn.poll_chunk(cx, usize::MAX) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(Ok(())),
                Poll::Ready(Some(Err(e))) => return Poll::Ready(Err(io::Error::other(e.0))),
                Poll::Ready(Some(Ok(b))) if b.is_empty() => {}
                Poll::Ready(Some(Ok(b))) => self.left.extend(b.iter()),
            }
        }
    }
}

pub fn last_call<'a>(calls: &'a [CallRec], kind: &str) -> Option<&'a CallRec> {
    calls.iter().rev().find(|c| c.kind == kind)
}

/// Any source, so that the finish hook of the real adapters can be observed too.
pub struct Observed<S> {
    pub inner: S,
    pub world: Arc<World>,
    _mark: DropMark,
}

impl<S> Observed<S> {
    pub fn new(inner: S, world: Arc<World>) -> Self {
        Self { inner, _mark: DropMark(world.clone()), world }
    }
}

impl<S: SourceStream + Meta> Observed<S> {
    fn check_meta(&self) {
        let w = &self.world;
        let src = &w.cfg.source;
        {
            let mut st = w.st();
            st.source_created = true;
        }
        let opendal = src.transport == crate::scen::Transport::Opendal;
        if self.inner.content_length() != src.declared.filter(|d| !opendal || *d > 0) {
            violate("content_length", format!("the source reports {:?} instead of {:?}", self.inner.content_length(), src.declared));
        }
        if let Some(got) = self.inner.media_type() {
            let want = src.content_type.as_deref().and_then(|t| {
                if opendal {
                    return Some(t.to_string());
                }
                let t = t.split(';').next().unwrap_or_default();
                t.contains('/').then(|| t.to_string())
            });
            if got != want {
                violate("content_type", format!("{got:?} instead of {want:?}"));
            }
        }
        if let Some(got) = self.inner.response_header("accept-ranges")
            && got != src.accept_ranges
        {
            violate("header", format!("accept-ranges {got:?} instead of {:?}", src.accept_ranges));
        }
    }
}

/// What an adapter tells about the resource besides its length.
pub trait Meta {
    /// the content type, if the adapter has one to report
    fn media_type(&self) -> Option<Option<String>> {
        None
    }
    /// the value of a response header
    fn response_header(&self, _name: &str) -> Option<Option<String>> {
        None
    }
}

fn media(t: Option<&stream_download::http::ContentType>) -> Option<Option<String>> {
    Some(t.map(|t| format!("{}/{}", t.r#type, t.subtype)))
}

impl Meta for stream_download::http::HttpStream<SimClient> {
    fn media_type(&self) -> Option<Option<String>> {
        media(self.content_type().as_ref())
    }
    fn response_header(&self, name: &str) -> Option<Option<String>> {
        Some(self.header(name).map(Into::into))
    }
}

impl Meta for stream_download::http::HttpStream<reqwest_middleware::ClientWithMiddleware> {
    fn media_type(&self) -> Option<Option<String>> {
        media(self.content_type().as_ref())
    }
    fn response_header(&self, name: &str) -> Option<Option<String>> {
        Some(self.header(name).map(Into::into))
    }
}

impl Meta for stream_download::async_read::AsyncReadStream<SimRead> {}
impl Meta for stream_download::process::ProcessStream {}

impl<S: SourceStream> Stream for Observed<S> {
    type Item = Result<Bytes, <S as futures_util::TryStream>::Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let r = Stream::poll_next(Pin::new(&mut self.inner), cx);
        let src = &self.world.cfg.source;
        if let Poll::Ready(Some(Ok(b))) = &r
            && src.chunk_size > 0
            && b.len() as u64 > src.chunk_size
        {
            violate("opendal_chunk", format!("{} bytes in one chunk, configured are {}", b.len(), src.chunk_size));
        }
        r
    }
}

impl<S: SourceStream + Meta> SourceStream for Observed<S>
where
    S::StreamCreationError: DecodeError,
{
    type Params = (S::Params, Arc<World>);
    type StreamCreationError = S::StreamCreationError;
    async fn create((p, w): Self::Params) -> Result<Self, Self::StreamCreationError> {
        let s = Self::new(S::create(p).await?, w);
        s.check_meta();
        Ok(s)
    }
    fn content_length(&self) -> Option<u64> {
        self.inner.content_length()
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        use crate::scen::Transport;
        // HTTP tries even if the server does not announce it
        let fixed = matches!(self.world.cfg.source.transport, Transport::AsyncRead | Transport::Process);
        if !self.inner.supports_seek() || fixed {
            violate("seek_on_unseekable", format!("seek_range({start}, {end:?}) on a source that does not support it"));
        }
        let r = self.inner.seek_range(start, end).await;
        if r.is_err() {
            self.world.fatal("seek_range");
        }
        r
    }
    async fn reconnect(&mut self, pos: u64) -> io::Result<()> {
        let i = {
            let mut st = self.world.st();
            st.push_call("reconnect", pos, None, dst::now())
        };
        let r = self.inner.reconnect(pos).await;
        let mut st = self.world.st();
        st.calls[i].done_ms = Some(dst::now());
        st.calls[i].ok = Some(r.is_ok());
        drop(st);
        r
    }
    fn supports_seek(&self) -> bool {
        self.inner.supports_seek()
    }
    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        let w = self.world.clone();
        check_flushed(&w, result.is_ok());
        let i = {
            let mut st = w.st();
            st.finish.push(FinishRec {
                at_ms: dst::now(),
                done_ms: None,
                ok: result.is_ok(),
                interrupted: result.as_ref().is_err_and(|e| e.kind() == io::ErrorKind::Interrupted),
                cancelled_outcome: outcome == StreamOutcome::CancelledByUser,
                returned_ok: false,
            });
            st.finish.len() - 1
        };
        let r = self.inner.on_finish(result, outcome).await;
        let mut st = w.st();
        st.finish[i].done_ms = Some(dst::now());
        st.finish[i].returned_ok = r.is_ok();
        drop(st);
        r
    }
}
