//! Sinks that misbehave.

use std::io::{self, Write};

use serde::Serialize;

use crate::rt::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    Error(usize, i32), // after that many bytes, with that errno
    Zero(usize),       // write returns Ok(0)
    Panic(usize),
}

pub struct FaultyWriter {
    pub accepted: Vec<u8>,
    pub fault: Fault,
    pub chop: u64, // seed of short and interrupted writes, 0: none
    pub yield_every: u64,
    pub failed: bool,
    pub writes_after_failure: u64,
    pub shorts: u64,
    pub interrupts: u64,
    calls: u64,
}

impl FaultyWriter {
    pub fn new(fault: Fault, chop: u64, yield_every: u64) -> Self {
        FaultyWriter {
            accepted: Vec::new(),
            fault,
            chop,
            yield_every,
            failed: false,
            writes_after_failure: 0,
            shorts: 0,
            interrupts: 0,
            calls: 0,
        }
    }
}

impl Write for FaultyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.yield_every > 0 && self.calls % self.yield_every == 0 && self.calls / self.yield_every <= 200 {
            sink_point("sink.write");
        }
        if self.failed {
            self.writes_after_failure += 1;
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if self.chop != 0 {
            let r = mix(&[self.chop, self.calls]);
            if r % 7 == 0 {
                self.interrupts += 1;
                return Err(io::Error::from_raw_os_error(libc::EINTR));
            }
            if r % 3 == 0 && n > 1 {
                n = 1 + (r / 21) as usize % (n - 1);
                self.shorts += 1;
            }
        }
        let limit = match self.fault {
            Fault::None => usize::MAX,
            Fault::Error(at, _) | Fault::Zero(at) | Fault::Panic(at) => at,
        };
        let room = limit.saturating_sub(self.accepted.len());
        if room == 0 {
            self.failed = true;
            return match self.fault {
                Fault::Error(_, errno) => Err(io::Error::from_raw_os_error(errno)),
                Fault::Zero(_) => Ok(0),
                _ => std::panic::panic_any(SimPanic(3)),
            };
        }
        n = n.min(room);
        self.accepted.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Format {
    Json,
    JsonPretty,
    Cbor,
    Yaml,
}

pub const FORMATS: [Format; 4] = [Format::Json, Format::JsonPretty, Format::Cbor, Format::Yaml];

#[derive(Debug)]
pub struct EmitError {
    pub errno: Option<i32>,
    pub kind: Option<io::ErrorKind>,
    pub text: String,
}

fn io_error(e: io::Error) -> EmitError {
    EmitError { errno: e.raw_os_error(), kind: Some(e.kind()), text: e.to_string() }
}

/// Emit `value` into `writer`.
pub fn emit<T: Serialize + ?Sized>(value: &T, format: Format, writer: &mut dyn Write) -> Result<(), EmitError> {
    let json = |e: serde_json::Error| {
        let kind = e.io_error_kind();
        let text = e.to_string();
        if e.is_io() {
            let e: io::Error = e.into();
            EmitError { errno: e.raw_os_error(), kind, text }
        } else {
            EmitError { errno: None, kind, text }
        }
    };
    match format {
        Format::Json => serde_json::to_writer(writer, value).map_err(json),
        Format::JsonPretty => serde_json::to_writer_pretty(writer, value).map_err(json),
        Format::Cbor => ciborium::into_writer(value, writer).map_err(|e| match e {
            ciborium::ser::Error::Io(e) => io_error(e),
            ciborium::ser::Error::Value(text) => EmitError { errno: None, kind: None, text },
        }),
        Format::Yaml => serde_yaml::to_writer(writer, value).map_err(|e| EmitError {
            errno: None,
            kind: None,
            text: e.to_string(),
        }),
    }
}

pub fn emit_bytes<T: Serialize + ?Sized>(value: &T, format: Format) -> Vec<u8> {
    let mut out = Vec::new();
    if let Err(e) = emit(value, format, &mut out) {
        fail("emit-error", format!("{:?} emission into memory failed: {}", format, e.text));
    }
    out
}
