//! An in-memory backend whose files, faults and chunking a case controls.

use ruplicity::backend::Backend;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::OsString;
use std::io::{self, ErrorKind, Read};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Fault {
    /// error returned by open_file
    pub open: Option<ErrorKind>,
    /// error returned by read once this many bytes have been delivered
    pub read: Option<(usize, ErrorKind)>,
    /// deliver at most this many bytes in total, then end of file
    pub cut: Option<usize>,
}

#[derive(Default)]
pub struct State {
    /// listing order is the order of this vector
    pub files: Vec<(Vec<u8>, Rc<Vec<u8>>)>,
    pub faults: HashMap<Vec<u8>, Fault>,
    pub list_fault: Option<ErrorKind>,
    pub chunk: usize,
    /// every so many reads of a stream are interrupted (and are to be tried again)
    pub interrupts: usize,
    pub opens: Vec<Vec<u8>>,
    pub lists: usize,
    pub reads: HashMap<Vec<u8>, usize>,
}

#[derive(Clone)]
pub struct MemBackend(pub Rc<RefCell<State>>);

pub struct Stream {
    name: Vec<u8>,
    state: Rc<RefCell<State>>,
    data: Rc<Vec<u8>>,
    pos: usize,
    chunk: usize,
    interrupts: usize,
    calls: usize,
    fault: Fault,
}

impl Backend for MemBackend {
    type FileName = OsString;
    type FileNameIter = Vec<OsString>;
    type FileStream = Stream;

    fn file_names(&self) -> io::Result<Vec<OsString>> {
        let st = self.0.borrow();
        if let Some(k) = st.list_fault {
            return Err(io::Error::new(k, "injected list fault"));
        }
        Ok(st.files.iter().map(|(n, _)| OsString::from_vec(n.clone())).collect())
    }

    fn open_file(&self, name: &Path) -> io::Result<Stream> {
        let st = self.0.borrow();
        let n = name.as_os_str().as_bytes().to_vec();
        let fault = st.faults.get(&n).cloned().unwrap_or_default();
        if let Some(k) = fault.open {
            return Err(io::Error::new(k, "injected open fault"));
        }
        let data = match st.files.iter().find(|(f, _)| *f == n) {
            Some((_, d)) => d.clone(),
            None => return Err(io::Error::new(ErrorKind::NotFound, "no such file")),
        };
        Ok(Stream {
            name: n,
            state: self.0.clone(),
            data,
            pos: 0,
            chunk: st.chunk,
            interrupts: st.interrupts,
            calls: 0,
            fault,
        })
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts > 0 && self.calls % self.interrupts == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Some((at, k)) = self.fault.read {
            if self.pos >= at {
                return Err(io::Error::new(k, "injected read fault"));
            }
            end = end.min(at);
        }
        if let Some(at) = self.fault.cut {
            end = end.min(at);
        }
        let mut n = buf.len().min(end.saturating_sub(self.pos));
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        *self.state.borrow_mut().reads.entry(self.name.clone()).or_insert(0) += n;
        Ok(n)
    }
}

pub fn kind_of(s: &str) -> ErrorKind {
    match s {
        "NotFound" => ErrorKind::NotFound,
        "PermissionDenied" => ErrorKind::PermissionDenied,
        "ConnectionReset" => ErrorKind::ConnectionReset,
        "TimedOut" => ErrorKind::TimedOut,
        "InvalidData" => ErrorKind::InvalidData,
        "UnexpectedEof" => ErrorKind::UnexpectedEof,
        "BrokenPipe" => ErrorKind::BrokenPipe,
        "WouldBlock" => ErrorKind::WouldBlock,
        "ConnectionAborted" => ErrorKind::ConnectionAborted,
        "ConnectionRefused" => ErrorKind::ConnectionRefused,
        "NotConnected" => ErrorKind::NotConnected,
        "InvalidInput" => ErrorKind::InvalidInput,
        "AlreadyExists" => ErrorKind::AlreadyExists,
        "WriteZero" => ErrorKind::WriteZero,
        _ => ErrorKind::Other,
    }
}
