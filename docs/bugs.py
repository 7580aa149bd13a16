"""Definitions of the planted bugs (development only)."""
BUGS = []


def bug(id, prop, edits, main, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, breaks=breaks, **kw))


bug("b01-salt-stale", "C06",
    [("blake2s/src/lib.rs", "        self.salt = [0; SALTBYTES];\n", "")],
    r'''
fn main() {
    let mut p = blake2s_simd::Params::new();
    p.salt(b"abcdefgh").salt(b"xyz");
    let mut q = blake2s_simd::Params::new();
    q.salt(b"xyz");
    let same = p.hash(b"data") == q.hash(b"data");
    std::process::exit(if same { 0 } else { 1 });
}
''', "salt() called twice on one Params, the second time with fewer than 8 bytes", "bytes of an earlier, longer salt stay in the parameter block, so the later short salt gives a wrong hash")

bug("b03-update-count-4g", "C03",
    [("blake2s/src/lib.rs", "self.count = self.count.wrapping_add(end as Count);", "self.count = self.count.wrapping_add(end as Word as Count);")],
    r'''
fn main() {
    let v = vec![0u8; (1usize << 32) + 129];
    let want = blake2s_simd::blake2s(&v);
    let mut s = blake2s_simd::State::new();
    s.update(&v);
    s.update(b"");
    let got = s.finalize();
    println!("{:?} {:?}", got, want);
    std::process::exit(if got == want { 0 } else { 1 });
}
''', "a single update() call with more than 4 GiB", "the byte counter loses its high bits, so the incremental hash differs from the one-shot hash")

bug("b05-sp-threshold", "C04",
    [("blake2s/src/blake2sp.rs", "if input.len() > (DEGREE - 1) * BLOCKBYTES {", "if input.len() >= (DEGREE - 1) * BLOCKBYTES {")],
    r'''
fn main() {
    let b = 64 * 8;
    let v: Vec<u8> = (0..(2 * b + 7 * 64)).map(|i| (i * 31 % 251) as u8).collect();
    let want = blake2s_simd::blake2sp::blake2sp(&v);
    let mut s = blake2s_simd::blake2sp::State::new();
    s.update(&v[..1]);
    s.update(&v[1..2 * b]);
    s.update(&v[2 * b..]);
    std::process::exit(if s.finalize() == want { 0 } else { 1 });
}
''', "a full double buffer followed by an update of exactly 7 blocks", "both buffered halves are compressed although the last leaf gets no further block, so the last leaf is finalized with an empty block")

bug("b06-setlastnode-sticky", "C20",
    [("blake2b/src/lib.rs", "    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {\n        self.last_node = if last_node {", "    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {\n        self.last_node = if last_node || self.last_node.yes() {")],
    r'''
fn main() {
    let mut s = blake2b_simd::State::new();
    s.set_last_node(true);
    s.update(b"abc");
    s.set_last_node(false);
    std::process::exit(if s.finalize() == blake2b_simd::blake2b(b"abc") { 0 } else { 1 });
}
''', "set_last_node(true) followed by set_last_node(false)", "the last-node flag cannot be cleared again")

bug("b07-debug-leak", "C12",
    [("blake2s/src/lib.rs", "            // NB: Don't print the key itself. Debug shouldn't leak secrets.\n            self.key_length,\n            &self.salt,", "            // NB: Don't print the key itself. Debug shouldn't leak secrets.\n            self.key_length,\n            if f.alternate() { &self.key_block[..8] } else { &self.salt[..] },")],
    r'''
fn main() {
    let mut p = blake2s_simd::Params::new();
    p.key(b"secret!!");
    let a = format!("{:#?}", p);
    p.key(b"SECRET!!");
    let b = format!("{:#?}", p);
    std::process::exit(if a == b { 0 } else { 1 });
}
''', "the alternate formatting flag {:#?}", "Debug of Params prints key bytes")

bug("b08-hash-eq", "C13",
    [("blake2b/src/lib.rs", "        constant_time_eq::constant_time_eq(&self.as_bytes(), other)", "        let bytes = self.as_bytes();\n        bytes.len() == other.len() && bytes.iter().zip(other).all(|(a, b)| a == b)")],
    r'''
use std::time::Instant;
// comparing must not stop at the first differing byte; the difference is counted in instructions of a long run
fn run(h: &blake2b_simd::Hash, o: &[u8]) -> u128 {
    let t = Instant::now();
    let mut n = 0u32;
    for _ in 0..3_000_000 {
        if std::hint::black_box(h) == std::hint::black_box(o) { n += 1; }
    }
    std::hint::black_box(n);
    t.elapsed().as_nanos()
}
fn main() {
    let h = blake2b_simd::blake2b(b"x");
    let mut early = h.as_bytes().to_vec();
    early[0] ^= 1;
    let mut late = h.as_bytes().to_vec();
    late[63] ^= 1;
    let mut votes = 0;
    for _ in 0..9 {
        let (a, b) = (run(&h, &early), run(&h, &late));
        println!("{} {}", a, b);
        if a * 2 < b { votes += 1; }
    }
    std::process::exit(if votes >= 6 { 1 } else { 0 });
}
''', "comparing a hash with a slice that differs in an early byte", "the comparison returns early, so its time reveals the position of the first difference")

BIN_RUN = r'''
bin="$d/t/debug/blake2"
cd "$d/t" && mkdir -p w && cd w
printf abc > a
printf defg > b
'''
BIN_SH = r'''#!/bin/bash
# exits 0 when the property holds for this input, nonzero when it does not
set -u
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
export PATH=/root/.cargo/bin:$PATH HOME=/root CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$repo/blake2_bin" && cargo build --offline --target-dir "$d/t" >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 3; }
bin="$d/t/debug/blake2"
mkdir "$d/w" && cd "$d/w" || exit 3
printf abc > a
printf defg > b
'''

bug("b09-cli-late-success", "C17",
    [("blake2_bin/src/main.rs", """                Ok(hash) => {
                    if opt.inputs.len() > 1 {""", """                Ok(hash) => {
                    failed = false;
                    if opt.inputs.len() > 1 {""")],
    "", "several files on the command line, an unreadable one followed by a readable one",
    "a later success clears the failure flag, so the tool exits 0 although a file was not hashed",
    demo_sh=BIN_SH + r'''"$bin" missing a b >out 2>err
[ $? -ne 0 ] || exit 1
[ "$(wc -l <out)" = 2 ]
''')

bug("b10-bp-write-chunks", "C18",
    [("blake2b/src/blake2bp.rs", """    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.update(buf);
""", """    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        // Feed very large writes in pieces that stay in cache.
        const PIECE: usize = 1 << 16;
        if buf.len() < PIECE {
            self.update(buf);
            return Ok(buf.len());
        }
        for piece in buf.chunks_exact(PIECE) {
            self.update(piece);
        }
""")],
    r'''
use std::io::Write;
fn main() {
    let v: Vec<u8> = (0..(1usize << 17) + 5).map(|i| (i % 251) as u8).collect();
    let mut s = blake2b_simd::blake2bp::State::new();
    s.write_all(&v).unwrap();
    std::process::exit(if s.finalize() == blake2b_simd::blake2bp::blake2bp(&v) { 0 } else { 1 });
}
''', "a write() of more than 64 KiB whose length is not a multiple of 64 KiB", "the remainder of the buffer is reported as written but never hashed")

bug("b11-asref-full", "C19",
    [("blake2s/src/lib.rs", """    fn as_ref(&self) -> &[u8] {
        self.as_bytes()
    }""", """    fn as_ref(&self) -> &[u8] {
        &self.bytes
    }""")],
    r'''
fn main() {
    let h = blake2s_simd::Params::new().hash_length(20).hash(b"abc");
    let r: &[u8] = h.as_ref();
    std::process::exit(if r == h.as_bytes() && r.len() == 20 { 0 } else { 1 });
}
''', "as_ref() on a hash shorter than 32 bytes", "as_ref returns all 32 internal bytes, including those beyond the requested length")

bug("b14-nostd-alloc", "C16",
    [("blake2s/src/lib.rs", "fn bytes_to_hex(bytes: &[u8]) -> HexString {", """extern crate alloc;

fn bytes_to_hex(bytes: &[u8]) -> HexString {
    // Lay out the digits first, then copy them over in one go.
    let mut digits = alloc::vec::Vec::with_capacity(2 * bytes.len());"""),
     ("blake2s/src/lib.rs", "        s.push(table[(b >> 4) as usize] as char);\n        s.push(table[(b & 0xf) as usize] as char);\n    }", "        digits.push(table[(b >> 4) as usize] as char);\n        digits.push(table[(b & 0xf) as usize] as char);\n    }\n    for c in digits {\n        s.push(c);\n    }")],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Counting;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let h = blake2s_simd::blake2s(b"abc");
    let before = N.load(Ordering::SeqCst);
    let hex = h.to_hex();
    let after = N.load(Ordering::SeqCst);
    std::hint::black_box(&hex);
    std::process::exit(if before == after { 0 } else { 1 });
}
''', "a no_std program without a global allocator (or one that counts allocations)", "to_hex allocates on the heap",
    feat=', default-features = false')

bug("b15-final-overread", "C10",
    [("blake2s/src/guts.rs", "        buffer[..offset_slice.len()].copy_from_slice(offset_slice);\n", """        //
        // Copying a constant number of bytes and clearing the tail afterwards
        // avoids a call to memcpy with a variable length.
        if offset_slice.len() > BLOCKBYTES / 2 {
            unsafe {
                core::ptr::copy_nonoverlapping(
                    offset_slice.as_ptr(),
                    buffer.as_mut_ptr(),
                    BLOCKBYTES,
                );
            }
            for b in buffer[offset_slice.len()..].iter_mut() {
                *b = 0;
            }
        } else {
            buffer[..offset_slice.len()].copy_from_slice(offset_slice);
        }
""")],
    r'''
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert!(p as isize != -1 && mprotect(p.add(4096), 4096, 0) == 0);
        let s = std::slice::from_raw_parts(p.add(4096 - 50), 50);
        let h = blake2s_simd::blake2s(s);
        std::process::exit(if h == blake2s_simd::blake2s(&[0u8; 50]) { 0 } else { 1 });
    }
}
''', "an input whose last partial block is longer than half a block and ends right before unreadable memory", "final_block reads a whole block from the caller's slice although fewer bytes are left")

bug("b16-release-finished", "C15",
    [("blake2s/src/many.rs", "    let jobs = unfinished_jobs.map(|j| {\n        j.finished = true;\n", "    let jobs = unfinished_jobs.map(|j| {\n        debug_assert!(!core::mem::replace(&mut j.finished, true));\n")],
    r'''
use blake2s_simd::many::{hash_many, HashManyJob};
fn main() {
    let p = blake2s_simd::Params::new();
    let mut jobs = [HashManyJob::new(&p, b"abc"), HashManyJob::new(&p, b"xyz")];
    hash_many(jobs.iter_mut());
    hash_many(jobs.iter_mut());
    let ok = jobs[0].to_hash() == p.hash(b"abc") && jobs[1].to_hash() == p.hash(b"xyz");
    std::process::exit(if ok { 0 } else { 1 });
}
''', "a build without debug assertions, and hash_many called twice on the same jobs", "the finished flag is only set inside a debug assertion, so release builds hash the job again",
    run='CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false cargo build --release --offline --target-dir "$d/t2" >"$d/log" 2>&1 || exit 3\n"$d/t2/release/demo"')

bug("b17-not-sync", "C14",
    [("blake2b/src/many.rs", "    finished: bool,\n    implementation: guts::Implementation,\n}", "    finished: core::cell::Cell<bool>,\n    implementation: guts::Implementation,\n}"),
     ("blake2b/src/many.rs", "            finished,\n            implementation", "            finished: core::cell::Cell::new(finished),\n            implementation"),
     ("blake2b/src/many.rs", "debug_assert!(self.finished, ", "debug_assert!(self.finished.get(), "),
     ("blake2b/src/many.rs", "filter(|j| !j.finished)", "filter(|j| !j.finished.get())"),
     ("blake2b/src/many.rs", "j.finished = true;", "j.finished.set(true);")],
    r'''
fn shared<T: Sync + Send>(_: &T) {}
fn main() {
    let p = blake2b_simd::Params::new();
    let mut jobs = [blake2b_simd::many::HashManyJob::new(&p, b"abc")];
    blake2b_simd::many::hash_many(jobs.iter_mut());
    shared(&jobs[0]);
    let ok = std::thread::scope(|s| s.spawn(|| jobs[0].to_hash()).join().unwrap()) == p.hash(b"abc");
    std::process::exit(if ok { 0 } else { 1 });
}
''', "a finished HashManyJob read from another thread", "HashManyJob is no longer Sync, so it cannot be shared between threads")

bug("b19-avx-is-not-avx2", "C09",
    [("blake2b/src/guts.rs", '#[cfg(target_feature = "avx2")]', '#[cfg(target_feature = "avx")]')],
    r'''
fn main() {
    // This program is built for AVX but not AVX2, without CPU detection.
    std::process::exit(if blake2b_simd::many::degree() <= 2 { 0 } else { 1 });
}
''', "a build with -C target-feature=+avx (but no AVX2)", "the AVX2 code is selected unconditionally on a CPU that is only known to support AVX",
    feat=', default-features = false', rf="-C target-feature=+avx")

bug("b12-depth-assert", "C11",
    [("blake2b/src/lib.rs", "        self.node_depth = depth;\n", "        debug_assert!(depth == 0 || self.fanout != 1, \"Bad node depth: {}\", depth);\n        self.node_depth = depth;\n")],
    r"""
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut p = blake2b_simd::Params::new();
        p.node_depth(7).fanout(2);
        p.hash(b"abc")
    });
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
""", "node_depth() called before fanout(), with debug assertions on", "a documented node depth panics depending on the order in which the parameters are set")

bug("b13-many-count-4g", "C05",
    [("blake2s/src/many.rs", "state.count = state.count.wrapping_add(blocks.len() as Count);", "state.count = state.count.wrapping_add(blocks.len() as Word as Count);")],
    r"""
fn main() {
    let v = vec![0u8; (1usize << 32) + 129];
    let mut a = blake2s_simd::State::new();
    a.update(&v);
    let mut b = [blake2s_simd::State::new(), blake2s_simd::State::new()];
    blake2s_simd::many::update_many(b.iter_mut().zip([&v[..], &b"x"[..]]));
    std::process::exit(if a.finalize() == b[0].finalize() { 0 } else { 1 });
}
""", "an input of more than 4 GiB passed to update_many", "the state's byte counter loses its high bits, so its hash differs from the one after update()")

bug("b18-long-oneshot", "C02",
    [("blake2b/src/avx2.rs", "    let mut fin_offset = input.len().saturating_sub(1);\n", "    let mut fin_offset = (input.len() as u32 as usize).saturating_sub(1);\n")],
    r"""
fn main() {
    let v = vec![0u8; (1usize << 32) + 300];
    let want = {
        let mut s = blake2b_simd::State::new();
        for c in v.chunks(1 << 28) {
            s.update(c);
        }
        s.finalize()
    };
    std::process::exit(if blake2b_simd::blake2b(&v) == want { 0 } else { 1 });
}
""", "a one-shot hash of more than 4 GiB on AVX2", "the offset of the last block is truncated to 32 bits, so only the beginning of the input is hashed")

bug("b20-sp-count-4g", "C08",
    [("blake2s/src/blake2sp.rs", "*count = count.wrapping_add((input.len() / DEGREE) as Count);", "*count = count.wrapping_add((input.len() as Word / DEGREE as Word) as Count);")],
    r"""
fn main() {
    let v = vec![0u8; (1usize << 32) + 4096];
    let mut s = blake2s_simd::blake2sp::State::new();
    s.update(&v);
    std::process::exit(if s.count() == v.len() as u64 { 0 } else { 1 });
}
""", "a single update() of a BLAKE2sp State with more than 4 GiB", "the per-leaf byte counter loses its high bits, so count() is wrong")
