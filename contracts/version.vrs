@@include paths.vrs
// Versions of the format, and requirements on them (the crate semver).
@@method rsplit fn:vx_rsplit
@@path VersionReq::parse vx_version_parse
verus! {
// The last segment of a URI, and what a version requirement denotes.
pub open spec fn last_segment(s: Seq<char>) -> Seq<char> { s.skip(rindex(s, '/') + 1) }
#[verifier::external_body] pub struct VersionReq { _p: () }
pub uninterp spec fn version_parse(s: Seq<char>) -> Option<VersionReq>;
#[verifier::external_body] pub struct VxSplit<'a> { _p: &'a () }
impl<'a> VxSplit<'a> {
    pub uninterp spec fn text(self) -> Seq<char>;
    pub uninterp spec fn started(self) -> bool;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>) ensures !old(self).started() ==> r is Some && r->Some_0@ == last_segment(old(self).text()), final(self).started() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_rsplit<'a>(s: &'a str, c: char) -> (r: VxSplit<'a>) requires c == '/' ensures r.text() == s@, !r.started() { unimplemented!() }
#[verifier::external_body]
pub fn vx_version_parse(s: &str) -> (r: Result<VersionReq, ()>) ensures match r { Ok(v) => version_parse(s@) == Some(v), Err(_) => version_parse(s@) is None } { unimplemented!() }
// Whether a requirement admits a release.
pub uninterp spec fn admits(r: VersionReq, major: u64, minor: u64, patch: u64) -> bool;
pub struct Identifier;
pub struct Version { pub major: u64, pub minor: u64, pub patch: u64, pub pre: Vec<Identifier>, pub build: Vec<Identifier> }
impl VersionReq {
    #[verifier::external_body]
    pub fn matches(&self, v: &Version) -> (r: bool) requires v.pre@.len() == 0 ensures r == admits(*self, v.major, v.minor, v.patch) { unimplemented!() }
}
@@fn src/lib.rs VERSION as VX_VERSION for C16
sig pub fn VX_VERSION() -> (r: Version)
spec
    ensures r.major == 3, r.minor == 0, r.patch == 0, r.pre@.len() == 0
@@end
}
@@path crate::VERSION VX_VERSION()
