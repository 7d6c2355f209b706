//! Stand-in for `ring`: an ideal hash.  The digest is the hashed text itself, so two digests are equal exactly when
//! the hashed texts are equal (collision freedom is assumed, not checked).
pub mod digest {
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct Algorithm(pub u8);
    pub static SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm(1);
    pub static SHA256: Algorithm = Algorithm(2);
    pub static SHA384: Algorithm = Algorithm(3);
    pub static SHA512: Algorithm = Algorithm(4);
    #[derive(Clone)]
    pub struct Context { data: Vec<u8> }
    #[derive(Clone, Debug)]
    pub struct Digest { data: Vec<u8> }
    impl Context {
        pub fn new(_a: &'static Algorithm) -> Self { Context { data: vec![] } }
        pub fn update(&mut self, data: &[u8]) { self.data.extend_from_slice(data) }
        pub fn finish(self) -> Digest { Digest { data: self.data } }
    }
    impl AsRef<[u8]> for Digest { fn as_ref(&self) -> &[u8] { &self.data } }
    pub fn digest(_a: &'static Algorithm, data: &[u8]) -> Digest { Digest { data: data.to_vec() } }
}
