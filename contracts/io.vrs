// Shims for std::io: errors.
verus! {
// The kinds of error the library tells apart; any other kind is Unlisted.
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, AlreadyExists, InvalidData, InvalidInput, NotADirectory, UnexpectedEof, Other, Unlisted }
#[verifier::external_body] #[derive(Debug)] pub struct Error { e: () }
impl Error {
    pub uninterp spec fn kind_of(self) -> ErrorKind;
    #[verifier::external_body]
    pub fn new<T>(k: ErrorKind, m: T) -> (r: Error) ensures r.kind_of() == k { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind_of() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_error_from(k: ErrorKind) -> (r: Error) ensures r.kind_of() == k { unimplemented!() }
}
@@path Error::from vx_error_from
