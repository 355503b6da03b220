//! What stand-in compilers may do
use serde::{Deserialize, Serialize};
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Write some of a text to a file, replacing its former content or not
    Write { path: PathBuf, text: String, append: bool },
    Remove(PathBuf),
    Sleep(u64),
    /// Tell that this point was reached, wait until told to go on
    Gate(String),
    Out(String),
    Err(String),
    /// Print a text many times
    Flood { err: bool, text: String, times: usize },
    /// Stop listening to polite requests
    Stubborn,
    Exit(i32),
    Signal(i32),
    /// Hold some memory
    Hold(usize),
    Bytes(Vec<u8>),
    ErrBytes(Vec<u8>),
    /// Read everything from the standard input, which must be empty
    Read,
}
