//! Compiles exactly when every public type may be sent to and shared between threads.
fn sendsync<T: Send + Sync + Clone>() {}
pub fn witness<'a>() {
    sendsync::<blake2b_simd::Params>();
    sendsync::<blake2b_simd::State>();
    sendsync::<blake2b_simd::Hash>();
    sendsync::<blake2b_simd::blake2bp::Params>();
    sendsync::<blake2b_simd::blake2bp::State>();
    sendsync::<blake2b_simd::many::HashManyJob<'a>>();
    sendsync::<blake2s_simd::Params>();
    sendsync::<blake2s_simd::State>();
    sendsync::<blake2s_simd::Hash>();
    sendsync::<blake2s_simd::blake2sp::Params>();
    sendsync::<blake2s_simd::blake2sp::State>();
    sendsync::<blake2s_simd::many::HashManyJob<'a>>();
}
#[cfg(control)]
pub fn control() {
    sendsync::<*const u8>();
}
