//! Real storage providers wrapped so that every call is observed and can be made to fail.
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::path::PathBuf;
use std::sync::Arc;

use stream_download::storage::StorageProvider;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;

use crate::scen::{StKind, StOp, StorageKind};
use crate::world::{World, fired, note, violate};

pub trait ReadSeek: Read + Seek + Send {}
impl<T: Read + Seek + Send> ReadSeek for T {}
pub trait WriteSeek: Write + Seek + Send {}
impl<T: Write + Seek + Send> WriteSeek for T {}

type BoxR = Box<dyn ReadSeek>;
type BoxW = Box<dyn WriteSeek>;

pub fn scratch() -> PathBuf {
    std::env::temp_dir()
}

/// Subdirectory of the scratch directory for files that are to be created in a given place.
pub fn sub_dir() -> PathBuf {
    scratch().join("in")
}

/// One of the ways to get a provider for temporary files, and where the file has to be.
fn temp_provider(w: &World) -> (TempStorageProvider, PathBuf, String, String) {
    let sub = sub_dir();
    let prefix = format!("s{}-", w.idx);
    let none = String::new;
    match w.cfg.salt % 6 {
        0 => (TempStorageProvider::new(), scratch(), none(), none()),
        1 => (TempStorageProvider::with_prefix(prefix.clone()), scratch(), prefix, none()),
        n => {
            let _ = std::fs::create_dir_all(&sub);
            match n {
                2 => (TempStorageProvider::with_prefix_in(prefix.clone(), sub.clone()), sub, prefix, none()),
                3 => {
                    let (dir, pre) = (sub.clone(), prefix.clone());
                    let fail = w.cfg.storage.faults.iter().any(|f| f.op == StOp::Create);
                    let p = TempStorageProvider::with_tempfile_builder(move || {
                        if fail {
                            fired("tempfile_create_error");
                            return Err(injected("creation"));
                        }
                        tempfile::Builder::new().prefix(&pre).suffix(".part").tempfile_in(&dir)
                    });
                    (p, sub, prefix, ".part".into())
                }
                _ => (TempStorageProvider::new_in(sub.clone()), sub, none(), none()),
            }
        }
    }
}

/// Leaf provider (memory or temp file) that also watches the physical extent.
#[derive(Clone)]
pub struct Leaf {
    world: Arc<World>,
    temp: bool,
    label: &'static str,
}

pub struct PhysW {
    inner: BoxW,
    world: Arc<World>,
    pos: u64,
}

impl Write for PhysW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.inner.write(buf)?;
        self.pos += n as u64;
        let mut st = self.world.st();
        st.phys_max = st.phys_max.max(self.pos);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}
impl Seek for PhysW {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let r = self.inner.seek(p)?;
        self.pos = r;
        Ok(r)
    }
}

/// A writer that keeps data to itself until it's flushed, as the contract of `Write` permits.
struct BufW {
    inner: BoxW,
    world: Arc<World>,
    buf: Vec<u8>,
    cap: usize,
    pos: u64,
}

impl BufW {
    fn out(&mut self) -> io::Result<()> {
        self.inner.write_all(&self.buf)?;
        self.buf.clear();
        self.world.st().unflushed = 0;
        Ok(())
    }
}

impl Write for BufW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.buf.len() + buf.len() > self.cap {
            self.out()?;
        }
        if buf.len() > self.cap {
            self.inner.write_all(buf)?;
        } else {
            fired("buffered_write");
            self.buf.extend_from_slice(buf);
            self.world.st().unflushed = self.buf.len();
        }
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.out()?;
        self.inner.flush()
    }
}

impl Seek for BufW {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if p == SeekFrom::Current(0) {
            return Ok(self.pos);
        }
        self.out()?;
        self.pos = self.inner.seek(p)?;
        Ok(self.pos)
    }
}

impl StorageProvider for Leaf {
    type Reader = BoxR;
    type Writer = PhysW;
    fn into_reader_writer(self, len: Option<u64>) -> io::Result<(BoxR, PhysW)> {
        self.world.st().picked.push(self.label);
        let (r, w): (BoxR, BoxW) = if self.temp {
            let (provider, dir, prefix, suffix) = temp_provider(&self.world);
            let (r, w) = provider.into_reader_writer(len)?;
            let found = std::fs::read_dir(&dir).is_ok_and(|d| {
                d.flatten().any(|f| {
                    let name = f.file_name().to_string_lossy().into_owned();
                    name.starts_with(&prefix) && name.ends_with(&suffix)
                })
            });
            if !found {
                violate("temp_place", format!("no temporary file {prefix}*{suffix} in {dir:?}"));
            }
            (Box::new(r), Box::new(w))
        } else {
            let (r, w) = MemoryStorageProvider.into_reader_writer(len)?;
            (Box::new(r), Box::new(w))
        };
        let w = match self.world.cfg.storage.buffered {
            0 => w,
            n => Box::new(BufW { inner: w, world: self.world.clone(), buf: vec![], cap: n as usize, pos: 0 }),
        };
        Ok((r, PhysW { inner: w, world: self.world, pos: 0 }))
    }
}

/// The provider handed to the library.
#[derive(Clone)]
pub struct SimProvider {
    pub world: Arc<World>,
}

fn nz(n: u64) -> NonZeroUsize {
    NonZeroUsize::new(n.max(1) as usize).expect("nonzero")
}

fn boxed<P>(p: P, len: Option<u64>) -> io::Result<(BoxR, BoxW)>
where
    P: StorageProvider,
    P::Reader: 'static,
    P::Writer: 'static,
{
    let (r, w) = p.into_reader_writer(len)?;
    Ok((Box::new(r), Box::new(w)))
}

impl SimProvider {
    fn leaf(&self, temp: bool, label: &'static str) -> Leaf {
        Leaf { world: self.world.clone(), temp, label }
    }
}

impl StorageProvider for SimProvider {
    type Reader = SpyR;
    type Writer = SpyW;

    fn max_capacity(&self) -> Option<usize> {
        let m = self.leaf(false, "probe");
        match self.world.cfg.storage.kind {
            StorageKind::Memory => MemoryStorageProvider.max_capacity(),
            StorageKind::Temp => TempStorageProvider::new().max_capacity(),
            StorageKind::Bounded(n) => BoundedStorageProvider::new(m, nz(n)).max_capacity(),
            StorageKind::BoundedTemp(n) => BoundedStorageProvider::new(m, nz(n)).max_capacity(),
            StorageKind::Adaptive(n) => AdaptiveStorageProvider::new(m, nz(n)).max_capacity(),
            StorageKind::AdaptiveMixed(n) => {
                AdaptiveStorageProvider::with_fixed_and_variable(m.clone(), m, nz(n)).max_capacity()
            }
            StorageKind::AdaptiveBounded(n, c) => {
                AdaptiveStorageProvider::with_fixed_and_variable(m.clone(), BoundedStorageProvider::new(m, nz(c)), nz(n)).max_capacity()
            }
        }
    }

    fn max_capacity_for(&self, len: Option<u64>) -> Option<usize> {
        let m = self.leaf(false, "probe");
        match self.world.cfg.storage.kind {
            StorageKind::Memory => MemoryStorageProvider.max_capacity_for(len),
            StorageKind::Temp => TempStorageProvider::new().max_capacity_for(len),
            StorageKind::Bounded(n) => BoundedStorageProvider::new(m, nz(n)).max_capacity_for(len),
            StorageKind::BoundedTemp(n) => BoundedStorageProvider::new(m, nz(n)).max_capacity_for(len),
            StorageKind::Adaptive(n) => AdaptiveStorageProvider::new(m, nz(n)).max_capacity_for(len),
            StorageKind::AdaptiveMixed(n) => {
                AdaptiveStorageProvider::with_fixed_and_variable(m.clone(), m, nz(n)).max_capacity_for(len)
            }
            StorageKind::AdaptiveBounded(n, c) => {
                AdaptiveStorageProvider::with_fixed_and_variable(m.clone(), BoundedStorageProvider::new(m, nz(c)), nz(n))
                    .max_capacity_for(len)
            }
        }
    }

    fn into_reader_writer(self, len: Option<u64>) -> io::Result<(SpyR, SpyW)> {
        let w = &self.world;
        let own = matches!(w.cfg.storage.kind, StorageKind::Temp | StorageKind::BoundedTemp(_)) && w.cfg.salt % 6 == 3;
        if !own && w.cfg.storage.faults.iter().any(|f| f.op == StOp::Create) {
            fired("storage_create_error");
            return Err(io::Error::other("injected storage creation error"));
        }
        if len != w.cfg.source.declared {
            violate("storage_length", format!("provider got {len:?}"));
        }
        let (r, wr) = match w.cfg.storage.kind {
            StorageKind::Memory => boxed(self.leaf(false, "plain"), len)?,
            StorageKind::Temp => boxed(self.leaf(true, "plain"), len)?,
            StorageKind::Bounded(n) => boxed(BoundedStorageProvider::new(self.leaf(false, "plain"), nz(n)), len)?,
            StorageKind::BoundedTemp(n) => boxed(BoundedStorageProvider::new(self.leaf(true, "plain"), nz(n)), len)?,
            StorageKind::Adaptive(n) => boxed(AdaptiveStorageProvider::new(self.leaf(false, "plain"), nz(n)), len)?,
            StorageKind::AdaptiveMixed(n) => boxed(
                AdaptiveStorageProvider::with_fixed_and_variable(
                    self.leaf(false, "fixed"),
                    self.leaf(true, "variable"),
                    nz(n),
                ),
                len,
            )?,
            StorageKind::AdaptiveBounded(n, c) => boxed(
                AdaptiveStorageProvider::with_fixed_and_variable(
                    self.leaf(false, "fixed"),
                    BoundedStorageProvider::new(self.leaf(false, "variable"), nz(c)),
                    nz(n),
                ),
                len,
            )?,
        };
        Ok((
            SpyR { inner: r, world: self.world.clone() },
            SpyW { inner: wr, world: self.world.clone(), pos: 0 },
        ))
    }
}

pub struct SpyR {
    inner: BoxR,
    world: Arc<World>,
}
pub struct SpyW {
    inner: BoxW,
    world: Arc<World>,
    pos: u64,
}

impl Drop for SpyW {
    fn drop(&mut self) {
        self.world.st().writer_dropped = true;
    }
}

fn fault(w: &World, op: StOp) -> Option<StKind> {
    let n = {
        let mut st = w.st();
        let c = match op {
            StOp::Write => &mut st.write_n,
            StOp::Flush => &mut st.flush_n,
            StOp::WSeek => &mut st.wseek_n,
            StOp::Read => &mut st.read_n,
            StOp::RSeek => &mut st.rseek_n,
            StOp::Create => return None,
        };
        *c += 1;
        *c - 1
    };
    w.cfg.storage.faults.iter().find(|f| f.op == op && f.n == n).map(|f| f.kind)
}

fn injected(what: &str) -> io::Error {
    io::Error::other(format!("injected storage {what} error"))
}

impl Write for SpyW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let w = self.world.clone();
        if buf.is_empty() {
            return self.inner.write(buf);
        }
        let mut buf = buf;
        match fault(&w, StOp::Write) {
            Some(StKind::Err) => {
                fired("storage_write_error");
                w.fatal("storage write");
                return Err(injected("write"));
            }
            Some(StKind::Interrupted) => {
                fired("storage_interrupted_write");
                return Err(io::ErrorKind::Interrupted.into());
            }
            Some(StKind::Short) if buf.len() > 1 => {
                fired("storage_short_write");
                buf = &buf[..buf.len() / 2];
            }
            _ => {}
        }
        {
            let mut st = w.st();
            st.max_batch = st.max_batch.max(buf.len() as u64);
            st.wtop = self.pos + buf.len() as u64;
        }
        dst::point();
        let n = self.inner.write(buf)?;
        dst::point();
        let now = dst::now();
        dst::event("st_write", self.pos as i64, n as i64);
        note(|| format!("s{} storage write at {} len {} -> {n}", w.idx, self.pos, buf.len()));
        let len = w.cfg.source.len;
        for (i, b) in buf[..n].iter().enumerate() {
            let p = self.pos + i as u64;
            if p >= len || *b != w.byte(p) {
                violate(
                    "stored_wrong_byte",
                    format!("byte {b:#x} stored at {p}, source has {:#x} (len {len})", w.byte(p)),
                );
                break;
            }
        }
        // a cancellation wakes the download too, which may overtake the others once
        if n > 0 && w.st().no_yield && w.st().cancelled_ms.is_none() {
            violate("no_yield", "two writes to the storage without giving other tasks a chance to run".into());
        }
        if n > 0 && dst::tid() == Some(dst::EXEC) && tokio::runtime::Handle::try_current().is_ok() {
            w.st().no_yield = true;
            let w2 = w.clone();
            tokio::spawn(async move { w2.st().no_yield = false });
        }
        let mut st = w.st();
        for p in self.pos..self.pos + n as u64 {
            if let Some(slot) = st.first_write.get_mut(p as usize)
                && slot.is_none()
            {
                *slot = Some(now);
                st.stored += 1;
            }
        }
        st.bytes_accepted += n as u64;
        self.pos += n as u64;
        st.wpos = self.pos;
        st.wtop = self.pos;
        let cancel = st.cancelled_ms.is_none()
            && w.cfg.token_cancel_bytes.is_some_and(|b| st.bytes_accepted >= b);
        drop(st);
        if cancel {
            fired("cancel_mid_write");
            w.cancel_via_token();
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match fault(&self.world, StOp::Flush) {
            Some(StKind::Err) => {
                fired("storage_flush_error");
                self.world.fatal("storage flush");
                Err(injected("flush"))
            }
            _ => self.inner.flush(),
        }
    }
}

impl Seek for SpyW {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if p != SeekFrom::Current(0)
            && let Some(StKind::Err) = fault(&self.world, StOp::WSeek)
        {
            fired("storage_writer_seek_error");
            self.world.fatal("storage writer seek");
            return Err(injected("seek"));
        }
        let r = self.inner.seek(p)?;
        if r != self.pos {
            dst::event("st_wseek", r as i64, 0);
            note(|| format!("s{} storage writer seek to {r}", self.world.idx));
        }
        self.pos = r;
        let mut st = self.world.st();
        st.wpos = r;
        st.wtop = r;
        if matches!(p, SeekFrom::Start(_)) {
            st.wbase = r;
        }
        if p != SeekFrom::Current(0) {
            let n = st.seek_ops;
            st.wseek_ops.push(n);
            st.wseeks.push(r);
            let pf = self.world.cfg.settings.prefetch;
            if st.wseek_n == 1 && st.in_seek && st.ended_at.is_none() && st.bytes_accepted >= pf && n == 1 {
                let end = st.calls.last().and_then(|c| c.end).unwrap_or(self.world.cfg.source.len);
                st.pf_gate = Some((r, end.min(self.world.cfg.source.len).min(r.saturating_add(pf))));
            }
        }
        Ok(r)
    }
}

impl Read for SpyR {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut buf = buf;
        match fault(&self.world, StOp::Read) {
            Some(StKind::Err) => {
                fired("storage_read_error");
                self.world.st().reader_fault = true;
                return Err(injected("read"));
            }
            Some(StKind::Interrupted) => {
                fired("storage_interrupted_read");
                return Err(io::ErrorKind::Interrupted.into());
            }
            Some(StKind::Short) if buf.len() > 1 => {
                fired("storage_short_read");
                let n = buf.len() / 2;
                buf = &mut buf[..n];
            }
            _ => {}
        }
        dst::point();
        let n = self.inner.read(buf)?;
        dst::point();
        self.world.st().rpos += n as u64;
        Ok(n)
    }
}

impl Seek for SpyR {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if p != SeekFrom::Current(0)
            && let Some(StKind::Err) = fault(&self.world, StOp::RSeek)
        {
            fired("storage_reader_seek_error");
            self.world.st().reader_fault = true;
            return Err(injected("seek"));
        }
        let r = self.inner.seek(p)?;
        self.world.st().rpos = r;
        Ok(r)
    }
}
