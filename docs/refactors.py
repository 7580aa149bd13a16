"""Edits that keep the behaviour; every check must stay quiet on them (development only)."""
REFS = []


def ref(id, *edits):
    REFS.append(dict(id=id, edits=list(edits)))


DBG_OLD = '''        write!(
            f,
            "State {{ count: {}, hash_length: {}, last_node: {} }}",
            self.count(),
            self.hash_length,
            self.last_node.yes(),
        )'''
DBG_NEW = '''        f.debug_struct("State")
            .field("count", &self.count())
            .field("hash_length", &self.hash_length)
            .field("last_node", &self.last_node.yes())
            .finish()'''
ref("r01-debug-struct", ("blake2b/src/lib.rs", DBG_OLD, DBG_NEW), ("blake2s/src/lib.rs", DBG_OLD, DBG_NEW))
ref("x01-derive-debug", ("blake2b/src/lib.rs", "#[derive(Clone)]\npub struct State {", "#[derive(Clone, Debug)]\npub struct State {"),
    ("blake2b/src/lib.rs", "impl fmt::Debug for State {\n    fn fmt", "impl State {\n    #[allow(dead_code)]\n    fn fmt_old"))
ref("x02-debug-list", ("blake2b/src/lib.rs", DBG_OLD, '''        f.debug_list().entries(self.words.iter().map(|w| w & 1)).finish()'''))
ref("x03-debug-buflen", ("blake2b/src/lib.rs", DBG_OLD, '''        write!(f, "State {{ zero: {} }}", if self.buf[0] == 0 { "y" } else { "n" })'''))
ref("r02-debug-more", ("blake2b/src/lib.rs", DBG_OLD, '''        if f.alternate() { f.write_str("State ")?; } let w = f.width().unwrap_or(3); f.pad("x")?; write!(f, "{:>w$} {:?}", self.buflen, self.implementation, w = w)'''))
INC = ("blake2s/src/lib.rs", "    pub fn finalize(&self) -> Hash {\n", "    pub fn finalize(&self) -> Hash {\n        %s\n")
def inc(id, body, *more): ref(id, (INC[0], INC[1], INC[2] % ('#[cfg(feature = "std")] { ' + body + ' }')), *more)
inc("x10-atomic", "static N: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0); N.fetch_add(1, core::sync::atomic::Ordering::Relaxed);")
inc("x11-tls", "std::thread_local! { static N: core::cell::Cell<u8> = core::cell::Cell::new(0); } N.with(|n| n.set(1));")
inc("x12-env", 'if std::env::var_os("BLAKE").is_some() { panic!() }')
inc("x13-time", 'let _ = std::time::Instant::now();')
inc("x14-rdtsc", 'let _ = unsafe { core::arch::x86_64::_rdtsc() };')
inc("x15-mutex", 'static M: std::sync::Mutex<u8> = std::sync::Mutex::new(0); *M.lock().unwrap() += 1;')
inc("x16-vec", 'let v: std::vec::Vec<u8> = self.buf[..self.buflen as usize].to_vec(); let _ = v.len();')
inc("x17-static-mut", 'static mut N: u8 = 0; unsafe { N = N.wrapping_add(1); }')
inc("x18-hashmap", 'let mut h = std::collections::HashSet::new(); h.insert(self.buflen);')
ref("x19-rc", ("blake2s/src/lib.rs", "    is_keyed: bool,\n}", "    is_keyed: bool,\n    p: core::marker::PhantomData<*const u8>,\n}"), ("blake2s/src/lib.rs", "is_keyed: params.key_length > 0,\n", "is_keyed: params.key_length > 0, p: core::marker::PhantomData,\n"))
inc("r10-static-table", 'static T: [u8; 4] = [1, 2, 3, 4]; let t: &[u8; 4] = &T; let _ = t[self.buflen as usize % 4];')
