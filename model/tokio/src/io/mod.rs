//! tokio's own I/O traits and combinators (copied), plus the `Interest`/`Ready` value types.
mod async_buf_read;
pub use self::async_buf_read::AsyncBufRead;
mod async_read;
pub use self::async_read::AsyncRead;
mod async_seek;
pub use self::async_seek::AsyncSeek;
mod async_write;
pub use self::async_write::AsyncWrite;
mod read_buf;
pub use self::read_buf::ReadBuf;
pub use std::io::{Error, ErrorKind, Result, SeekFrom};
mod split;
pub use split::{split, ReadHalf, WriteHalf};
pub(crate) mod seek;
pub(crate) mod util;
pub use util::{
    copy, copy_bidirectional, copy_buf, duplex, empty, repeat, sink, AsyncBufReadExt, AsyncReadExt,
    AsyncSeekExt, AsyncWriteExt, BufReader, BufStream, BufWriter, DuplexStream, Empty, Lines,
    Repeat, Sink, Split, Take,
};

#[derive(Clone, Copy, Eq, PartialEq, Debug)]
pub struct Interest(u8);

impl Interest {
    pub const READABLE: Interest = Interest(1);
    pub const WRITABLE: Interest = Interest(2);
    pub const fn is_readable(self) -> bool {
        self.0 & 1 != 0
    }
    pub const fn is_writable(self) -> bool {
        self.0 & 2 != 0
    }
    pub const fn add(self, other: Interest) -> Interest {
        Interest(self.0 | other.0)
    }
}
impl std::ops::BitOr for Interest {
    type Output = Self;
    fn bitor(self, o: Self) -> Self {
        self.add(o)
    }
}

#[derive(Clone, Copy, Eq, PartialEq, Debug)]
pub struct Ready(u8);

impl Ready {
    pub const EMPTY: Ready = Ready(0);
    pub const READABLE: Ready = Ready(1);
    pub const WRITABLE: Ready = Ready(2);
    pub(crate) fn of(i: Interest) -> Ready {
        Ready(i.0)
    }
    pub fn is_readable(self) -> bool {
        self.0 & 1 != 0
    }
    pub fn is_writable(self) -> bool {
        self.0 & 2 != 0
    }
    pub fn is_empty(self) -> bool {
        self.0 == 0
    }
}
