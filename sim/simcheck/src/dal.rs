//! An `OpenDAL` service over the simulated server.
use std::fmt;
use std::future::poll_fn;
use std::num::NonZeroUsize;
use std::sync::Arc;

use opendal::raw::{
    OpCopier, OpCopy, OpCreateDir, OpList, OpPresign, OpRead, OpRename, OpStat, OpWrite,
    RpCreateDir, RpPresign, RpRead, RpRename, RpStat, Service, ServiceInfo, oio,
};
use opendal::{Buffer, Builder, BytesRange, Capability, EntryMode, Error, ErrorKind, Metadata, OperationContext, Operator, Result};
use stream_download_opendal::OpendalStreamParams;

use crate::source::{Meta, seek_fault};
use crate::world::{Conn, World, apply_call, probe, violate};

const PATH: &str = "dir/object.bin";

pub fn params(w: &Arc<World>) -> OpendalStreamParams {
    let op = Operator::new(SimBuilder(Some(w.clone()))).expect("operator");
    let p = OpendalStreamParams::new(op, PATH);
    match NonZeroUsize::new(w.cfg.source.chunk_size as usize) {
        Some(n) => p.chunk_size(n),
        None => p,
    }
}

impl Meta for stream_download_opendal::OpendalStream {
    fn media_type(&self) -> Option<Option<String>> {
        Some(self.content_type().map(Into::into))
    }
}

#[derive(Default)]
pub struct SimBuilder(Option<Arc<World>>);

impl Builder for SimBuilder {
    type Config = ();
    fn build(self) -> Result<impl Service> {
        Ok(SimService(self.0.expect("world")))
    }
}

pub struct SimService(Arc<World>);

impl fmt::Debug for SimService {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SimService")
    }
}

fn unsupported<T>() -> Result<T> {
    Err(Error::new(ErrorKind::Unsupported, "not supported by the simulated service"))
}

fn failed(what: &str) -> Error {
    Error::new(ErrorKind::Unexpected, format!("injected {what} error")).set_temporary()
}

impl SimService {
    fn metadata(&self) -> Metadata {
        let src = &self.0.cfg.source;
        let m = Metadata::new(EntryMode::FILE).with_content_length(src.len);
        match &src.content_type {
            Some(t) => m.with_content_type(t.clone()),
            None => m,
        }
    }
}

impl Service for SimService {
    type Reader = oio::StreamReader<SimReader>;
    type Writer = ();
    type Lister = ();
    type Deleter = ();
    type Copier = ();

    fn info(&self) -> ServiceInfo {
        ServiceInfo::with_scheme("sim")
    }

    fn capability(&self) -> Capability {
        Capability { read: true, stat: true, ..Default::default() }
    }

    async fn create_dir(&self, _: &OperationContext, _: &str, _: OpCreateDir) -> Result<RpCreateDir> {
        unsupported()
    }

    async fn stat(&self, _: &OperationContext, path: &str, _: OpStat) -> Result<RpStat> {
        let w = &self.0;
        if path != PATH {
            violate("bad_request", format!("stat {path}"));
        }
        let n = {
            let mut st = w.st();
            let n = st.request_n;
            st.request_n += 1;
            n
        };
        let id = w.call_started("stat", 0, None);
        // the first two belong to the initialisation
        let fault = match n {
            0 => w.cfg.source.create,
            1 => None,
            n => w.cfg.source.reconnects.iter().find(|f| f.n == n - 2).map(|f| f.kind),
        };
        let r = apply_call(fault).await;
        w.call_done(id, r.is_ok());
        match r {
            Ok(_) => Ok(RpStat::new(self.metadata())),
            Err(_) => Err(failed("stat")),
        }
    }

    fn read(&self, _: &OperationContext, path: &str, _: OpRead) -> Result<Self::Reader> {
        if path != PATH {
            violate("bad_request", format!("read {path}"));
        }
        Ok(oio::StreamReader::new(SimReader(SimService(self.0.clone()))))
    }

    fn write(&self, _: &OperationContext, _: &str, _: OpWrite) -> Result<()> {
        unsupported()
    }

    fn delete(&self, _: &OperationContext) -> Result<()> {
        unsupported()
    }

    fn list(&self, _: &OperationContext, _: &str, _: OpList) -> Result<()> {
        unsupported()
    }

    fn copy(&self, _: &OperationContext, _: &str, _: &str, _: OpCopy, _: OpCopier) -> Result<()> {
        unsupported()
    }

    async fn rename(&self, _: &OperationContext, _: &str, _: &str, _: OpRename) -> Result<RpRename> {
        unsupported()
    }

    async fn presign(&self, _: &OperationContext, _: &str, _: OpPresign) -> Result<RpPresign> {
        unsupported()
    }
}

pub struct SimReader(SimService);

impl oio::StreamRead for SimReader {
    async fn open(&self, range: BytesRange) -> Result<(RpRead, Box<dyn oio::ReadStreamDyn>)> {
        let w = &self.0.0;
        let len = w.cfg.source.len;
        let (start, end) = match range {
            BytesRange::Range { offset, size } => (offset, size.map(|s| offset.saturating_add(s))),
            other => {
                violate("bad_range", format!("{other:?}"));
                (0, None)
            }
        };
        if start > len || end.is_some_and(|e| e > len || e < start) {
            violate("bad_range", format!("open({start}, {end:?}) of {len}"));
        }
        let id = w.call_started("open", start, end);
        let fault = seek_fault(w);
        match apply_call(fault).await {
            Ok(_) => {
                w.call_done(id, true);
                if start > 0 {
                    probe("ranged_open");
                }
                let body = SimBody(Conn::new(w, start, end.unwrap_or(u64::MAX)));
                // not every service tells about the object when it is read
                let rp = if w.cfg.salt % 3 == 0 { RpRead::default() } else { RpRead::new(self.0.metadata()) };
                Ok((rp, Box::new(body)))
            }
            Err(_) => {
                w.call_done(id, false);
                Err(failed("open"))
            }
        }
    }
}

struct SimBody(Conn);

impl oio::ReadStream for SimBody {
    async fn read(&mut self) -> Result<Buffer> {
        loop {
            return match poll_fn(|cx| self.0.poll_chunk(cx, usize::MAX)).await {
                None => Ok(Buffer::new()),
                // would be mistaken for the end
                Some(Ok(b)) if b.is_empty() => continue,
                Some(Ok(b)) => Ok(Buffer::from(b)),
                Some(Err(_)) => Err(failed("chunk")),
            };
        }
    }
}
