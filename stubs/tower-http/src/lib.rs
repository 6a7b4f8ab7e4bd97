//! Signatures. Never run.
pub mod cors {
    pub struct Any;
    #[derive(Clone)] pub struct CorsLayer(());
    impl CorsLayer {
        pub fn new() -> Self { unimplemented!() }
        pub fn allow_methods<const N: usize>(self, _: [hyper::Method; N]) -> Self { unimplemented!() }
        pub fn allow_origin(self, _: Any) -> Self { unimplemented!() }
        pub fn allow_headers<const N: usize>(self, _: [hyper::header::HeaderName; N]) -> Self { unimplemented!() }
    }
}
