@@include meta.vrs
@@include io.vrs
// The error that a metadata error is reported as.
verus! {
pub open spec fn reported(e: MetadataError) -> ErrorKind { match e { MetadataError::UnexpectedType(_) => ErrorKind::InvalidData, MetadataError::UnknownRequiredExtension(_) => ErrorKind::Other } }
@@fn src/lib.rs impl From for std::io::Error::from as metadata_error for C16,C07
sig pub fn metadata_error(e: MetadataError) -> (r: Error)
spec
    ensures r.kind_of() == reported(e)
@@end
impl VxInto<Error> for MetadataError {
    open spec fn conv(self, t: Error) -> bool { t.kind_of() == reported(self) }
    fn vx_into(self) -> (r: Error) { metadata_error(self) }
}
// What `?` does.
impl From<MetadataError> for Error {
    #[verifier::external_body]
    fn from(e: MetadataError) -> (r: Error) { metadata_error(e) }
}
}
