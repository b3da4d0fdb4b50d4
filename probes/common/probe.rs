//! Stand-ins for the environment: an output sink whose outcomes the analyser chooses.
// std
use std::io;
// end

unsafe extern "Rust" {
    /// an arbitrary number below n
    pub fn __probe_choice(n: usize) -> usize;
    /// record bytes
    pub fn __probe_emit(tag: u32, p: *const u8, n: usize);
    /// record a number
    pub fn __probe_val(tag: u32, v: usize);
}

pub fn choice(n: usize) -> usize {
    unsafe { __probe_choice(n) }
}
pub fn emit(tag: u32, b: &[u8]) {
    unsafe { __probe_emit(tag, b.as_ptr(), b.len()) }
}
pub fn val(tag: u32, v: usize) {
    unsafe { __probe_val(tag, v) }
}

// std
pub const SINK_ERROR: i32 = 7777;

/// Accepts everything.
pub struct OkSink;

impl io::Write for OkSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        emit(1, b);
        Ok(b.len())
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        emit(1, b);
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Fails or accepts, at every call.
pub struct FaultSink;

impl io::Write for FaultSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = if b.len() > 2 {
            6
        } else if b.len() > 1 {
            5
        } else {
            4
        };
        match choice(n) {
            0 => {
                emit(1, b);
                Ok(b.len())
            }
            1 => {
                emit(2, &[]);
                Err(io::Error::from_raw_os_error(SINK_ERROR))
            }
            2 => {
                // a sink that is full: write_all turns this into ErrorKind::WriteZero
                emit(3, &[]);
                Ok(0)
            }
            3 => {
                emit(4, &[]);
                Err(io::Error::from(io::ErrorKind::Interrupted))
            }
            4 => {
                emit(1, &b[..1]);
                Ok(1)
            }
            _ => {
                emit(1, &b[..b.len() - 1]);
                Ok(b.len() - 1)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Every kind of error a sink can report, but Interrupted.
pub const KINDS: [io::ErrorKind; 36] = {
    use io::ErrorKind::*;
    [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse,
        AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem,
        StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy,
        ExecutableFileBusy, Deadlock, TooManyLinks, ArgumentListTooLong, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ]
};

#[derive(Debug)]
pub struct Payload(pub u32);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Payload {}

/// Fails with an error of any kind, or with one that carries a value.
pub struct KindSink;

impl io::Write for KindSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match choice(2 + KINDS.len()) {
            0 => {
                emit(1, b);
                Ok(b.len())
            }
            1 => Err(io::Error::new(io::ErrorKind::Other, Payload(4242))),
            k => Err(io::Error::from(KINDS[k - 2])),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn outcome_kind(r: io::Result<usize>) {
    match r {
        Ok(n) => val(10, n),
        Err(e) => {
            if let Some(p) = e.get_ref() {
                match p.downcast_ref::<Payload>() {
                    Some(p) => val(14, p.0 as usize),
                    None => val(13, 0),
                }
            } else if e.raw_os_error().is_some() {
                val(13, 0)
            } else {
                let mut i = 0;
                while i < KINDS.len() {
                    if KINDS[i] == e.kind() {
                        val(15, i + 2)
                    }
                    i += 1;
                }
            }
        }
    }
}

/// Yields the elements, then None, then once more an element; its size hint is true but says little.
pub struct Odd<'a, T> {
    pub x: &'a [T],
    pub i: usize,
}

impl<'a, T: Copy> Iterator for Odd<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        emit(5, &[]);
        let n = self.x.len();
        let k = self.i;
        self.i += 1;
        if k < n {
            Some(self.x[k])
        } else if n > 0 && k == n + 1 {
            Some(self.x[0])
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = if self.i < self.x.len() { self.x.len() - self.i } else { 0 };
        (left / 2, Some(2 * left + 1))
    }
}

/// Records every call it gets and its own end.
pub struct CallSink;

impl io::Write for CallSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match choice(if b.len() > 1 { 4 } else { 3 }) {
            0 => {
                emit(1, b);
                Ok(b.len())
            }
            1 => {
                emit(2, &[]);
                Err(io::Error::from_raw_os_error(SINK_ERROR))
            }
            2 => {
                emit(3, &[]);
                Ok(0)
            }
            _ => {
                emit(1, &b[..1]);
                Ok(1)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        val(43, 0);
        Ok(())
    }
}
impl Drop for CallSink {
    fn drop(&mut self) {
        val(49, 0);
    }
}

/// A value that records its end.
pub struct Counted(pub usize);

impl Drop for Counted {
    fn drop(&mut self) {
        val(48, self.0);
    }
}
impl crevice::std140::AsStd140 for Counted {
    type Output = u32;
    fn as_std140(&self) -> u32 {
        self.0 as u32
    }
    fn from_std140(x: u32) -> Self {
        Counted(x as usize)
    }
}
impl crevice::std430::AsStd430 for Counted {
    type Output = u32;
    fn as_std430(&self) -> u32 {
        self.0 as u32
    }
    fn from_std430(x: u32) -> Self {
        Counted(x as usize)
    }
}

/// Makes the values 0, 1, ... n-1 when asked, and records its own end.
pub struct Giver {
    pub n: usize,
    pub i: usize,
}
impl Iterator for Giver {
    type Item = Counted;
    fn next(&mut self) -> Option<Counted> {
        if self.i < self.n {
            self.i += 1;
            val(46, self.i - 1);
            Some(Counted(self.i - 1))
        } else {
            None
        }
    }
}
impl Drop for Giver {
    fn drop(&mut self) {
        val(47, 0);
    }
}

/// What the caller sees: Ok(offset) or what kind of error.
pub fn outcome(r: io::Result<usize>) -> usize {
    match r {
        Ok(n) => {
            val(10, n);
            0
        }
        Err(e) => {
            match e.raw_os_error() {
                Some(c) => val(11, c as usize),
                None => {
                    if e.kind() == io::ErrorKind::WriteZero {
                        val(12, 0)
                    } else {
                        val(13, 0)
                    }
                }
            }
            1
        }
    }
}
// end
