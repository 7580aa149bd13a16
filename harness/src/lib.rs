//! Never executed: this crate only names the public operations of blake2b_simd / blake2s_simd so
//! that the dumped program contains their monomorphic MIR.
#![cfg_attr(not(feature = "std"), no_std)]
macro_rules! roots {
    ($m:ident, $krate:ident, $p:ident, $pm:ident, $oneshot:ident, $ponce:ident, $count:ty) => {
        pub mod $m {
            use $krate::many::{hash_many, update_many, HashManyJob};
            use $krate::*;
            pub fn oneshot(input: &[u8]) -> Hash { $oneshot(input) }
            pub fn params_new() -> Params { Params::new() }
            pub fn params_default() -> Params { Params::default() }
            pub fn params_clone(p: &Params) -> Params { p.clone() }
            pub fn params_hash(p: &Params, input: &[u8]) -> Hash { p.hash(input) }
            pub fn params_to_state(p: &Params) -> State { p.to_state() }
            pub fn state_new() -> State { State::new() }
            pub fn state_default() -> State { State::default() }
            pub fn state_clone(s: &State) -> State { s.clone() }
            pub fn state_update(s: &mut State, input: &[u8]) { s.update(input); }
            pub fn state_finalize(s: &State) -> Hash { s.finalize() }
            pub fn state_set_last_node(s: &mut State, b: bool) { s.set_last_node(b); }
            pub fn state_count(s: &State) -> $count { s.count() }
            pub fn set_hash_length(p: &mut Params, n: usize) { p.hash_length(n); }
            pub fn set_key(p: &mut Params, k: &[u8]) { p.key(k); }
            pub fn set_salt(p: &mut Params, k: &[u8]) { p.salt(k); }
            pub fn set_personal(p: &mut Params, k: &[u8]) { p.personal(k); }
            pub fn set_fanout(p: &mut Params, n: u8) { p.fanout(n); }
            pub fn set_max_depth(p: &mut Params, n: u8) { p.max_depth(n); }
            pub fn set_max_leaf_length(p: &mut Params, n: u32) { p.max_leaf_length(n); }
            pub fn set_node_offset(p: &mut Params, n: u64) { p.node_offset(n); }
            pub fn set_node_depth(p: &mut Params, n: u8) { p.node_depth(n); }
            pub fn set_inner_hash_length(p: &mut Params, n: usize) { p.inner_hash_length(n); }
            pub fn set_last_node(p: &mut Params, b: bool) { p.last_node(b); }
            pub fn hash_as_bytes(h: &Hash) -> &[u8] { h.as_bytes() }
            pub fn hash_as_array(h: &Hash) -> &[u8; OUTBYTES] { h.as_array() }
            pub fn hash_as_ref(h: &Hash) -> &[u8] { h.as_ref() }
            pub fn hash_to_hex(h: &Hash) { let s = h.to_hex(); sink(s.as_str()); }
            pub fn hash_from(b: [u8; OUTBYTES]) -> Hash { Hash::from(b) }
            pub fn hash_from_ref(b: &[u8; OUTBYTES]) -> Hash { Hash::from(b) }
            pub fn hash_eq(a: &Hash, b: &Hash) -> bool { a == b }
            pub fn hash_ne(a: &Hash, b: &Hash) -> bool { a != b }
            pub fn hash_eq_slice(a: &Hash, b: &[u8]) -> bool { a == b }
            pub fn hash_ne_slice(a: &Hash, b: &[u8]) -> bool { a != b }
            pub fn hash_clone(a: &Hash) -> Hash { a.clone() }
            pub fn debug_hash(a: &Hash, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(a, f) }
            pub fn debug_params(a: &Params, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(a, f) }
            pub fn debug_state(a: &State, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(a, f) }
            pub fn debug_pparams(a: &$pm::Params, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(a, f) }
            pub fn debug_pstate(a: &$pm::State, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(a, f) }
            pub fn debug_job(a: &HashManyJob, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(a, f) }
            #[inline(never)]
            pub fn sink(_: &str) {}
            pub fn degree() -> usize { many::degree() }
            pub const MAX_DEGREE: usize = many::MAX_DEGREE;
            pub fn p_oneshot(input: &[u8]) -> Hash { $pm::$ponce(input) }
            pub fn p_params_new() -> $pm::Params { $pm::Params::new() }
            pub fn p_params_default() -> $pm::Params { $pm::Params::default() }
            pub fn p_params_clone(p: &$pm::Params) -> $pm::Params { p.clone() }
            pub fn p_params_hash(p: &$pm::Params, input: &[u8]) -> Hash { p.hash(input) }
            pub fn p_params_to_state(p: &$pm::Params) -> $pm::State { p.to_state() }
            pub fn p_set_hash_length(p: &mut $pm::Params, n: usize) { p.hash_length(n); }
            pub fn p_set_key(p: &mut $pm::Params, k: &[u8]) { p.key(k); }
            pub fn p_state_new() -> $pm::State { $pm::State::new() }
            pub fn p_state_default() -> $pm::State { $pm::State::default() }
            pub fn p_state_clone(s: &$pm::State) -> $pm::State { s.clone() }
            pub fn p_state_update(s: &mut $pm::State, input: &[u8]) { s.update(input); }
            pub fn p_state_finalize(s: &$pm::State) -> Hash { s.finalize() }
            pub fn p_state_count(s: &$pm::State) -> $count { s.count() }
            pub fn job_new<'a>(p: &Params, input: &'a [u8]) -> HashManyJob<'a> { HashManyJob::new(p, input) }
            pub fn job_to_hash(j: &HashManyJob) -> Hash { j.to_hash() }
            pub fn job_clone<'a>(j: &HashManyJob<'a>) -> HashManyJob<'a> { j.clone() }
            pub fn force_portable(p: &mut Params) { benchmarks::force_portable(p) }

            // An iterator about which the analysis assumes nothing except its item type.
            pub struct AnyJobs<'a>(core::marker::PhantomData<&'a mut HashManyJob<'a>>);
            impl<'a> Iterator for AnyJobs<'a> {
                type Item = &'a mut HashManyJob<'a>;
                #[inline(never)]
                fn next(&mut self) -> Option<Self::Item> { None }
            }
            pub struct AnySlicePairs<'a>(core::marker::PhantomData<&'a mut State>);
            impl<'a> Iterator for AnySlicePairs<'a> {
                type Item = (&'a mut State, &'a [u8]);
                #[inline(never)]
                fn next(&mut self) -> Option<Self::Item> { None }
            }
            pub fn many_hash<'a>(it: AnyJobs<'a>) { hash_many(it) }
            pub fn many_update<'a>(it: AnySlicePairs<'a>) { update_many(it) }

            #[cfg(feature = "std")]
            pub fn io_write(s: &mut State, b: &[u8]) -> usize { match std::io::Write::write(s, b) { Ok(n) => n, Err(_) => usize::MAX } }
            #[cfg(feature = "std")]
            pub fn io_flush(s: &mut State) -> bool { std::io::Write::flush(s).is_ok() }
            #[cfg(feature = "std")]
            pub fn p_io_write(s: &mut $pm::State, b: &[u8]) -> usize { match std::io::Write::write(s, b) { Ok(n) => n, Err(_) => usize::MAX } }
            #[cfg(feature = "std")]
            pub fn p_io_flush(s: &mut $pm::State) -> bool { std::io::Write::flush(s).is_ok() }
        }
    };
}
roots!(b, blake2b_simd, bp, blake2bp, blake2b, blake2bp, u128);
roots!(s, blake2s_simd, sp, blake2sp, blake2s, blake2sp, u64);
