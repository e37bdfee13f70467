@@include io.vrs
// Shims for byte streams: std::io::Read and Write.
verus! {
// A stream to read from: the bytes it has left before it ends, and whether it ends by failing.
// (A stream that reports an error for good; errors that may be retried are retried by read_exact.)
pub trait VxRead: Sized {
    spec fn rest(self) -> Seq<u8>;
    spec fn fails(self) -> bool;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>)
        ensures
            final(buf)@.len() == old(buf)@.len(), (*final(self)).fails() == (*old(self)).fails(),
            match r {
                Ok(_) => (*old(self)).rest().len() >= old(buf)@.len() && final(buf)@ == (*old(self)).rest().take(old(buf)@.len() as int) && (*final(self)).rest() == (*old(self)).rest().skip(old(buf)@.len() as int),
                Err(_) => (*old(self)).rest().len() < old(buf)@.len(),
            };
}
impl<T: VxRead> VxRead for &mut T {
    open spec fn rest(self) -> Seq<u8> { (*self).rest() }
    open spec fn fails(self) -> bool { (*self).fails() }
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { (**self).read_exact(buf) }
}
// A stream to write to.
pub trait VxWrite: Sized {
    // What the stream leads to.
    spec fn key(self) -> Seq<char>;
    // What was accepted so far, whether all of it has been delivered, and whether anything failed.
    spec fn written(self) -> Seq<u8>;
    spec fn flushed(self) -> bool;
    spec fn failed(self) -> bool;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>)
        ensures (*final(self)).key() == (*old(self)).key(), match r {
            Ok(_) => (*final(self)).written() == (*old(self)).written() + b@ && (*final(self)).failed() == (*old(self)).failed(),
            Err(_) => (*final(self)).failed(),
        };
    fn flush(&mut self) -> (r: Result<(), Error>)
        ensures (*final(self)).key() == (*old(self)).key(), match r {
            Ok(_) => (*final(self)).flushed() && (*final(self)).written() == (*old(self)).written() && (*final(self)).failed() == (*old(self)).failed(),
            Err(_) => (*final(self)).failed(),
        };
}
}
