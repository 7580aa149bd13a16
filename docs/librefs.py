"""Behaviour-preserving rewrites of the libraries (development only)."""
from refactors import ref, REFS
REFS.clear()

S = "blake2s/src/"
B = "blake2b/src/"

# the compress loop: whole blocks first, then the last one
LOOP_OLD = open("/repo/blake2s/src/portable.rs").read().split("    let mut local_words = *words;\n", 1)[1]
ref("L01-two-phase-loop", (S + "portable.rs", LOOP_OLD, '''    let mut local_words = *words;

    let step = stride.padded_blockbytes();
    let mut fin_offset = input.len().saturating_sub(1);
    fin_offset -= fin_offset % step;
    let mut offset = 0;
    while offset < fin_offset {
        let block = array_ref!(input, offset, BLOCKBYTES);
        count = count.wrapping_add(BLOCKBYTES as Count);
        compress_block(block, &mut local_words, count, 0, 0);
        offset += step;
    }
    let mut buf = [0; BLOCKBYTES];
    let (fin_block, fin_len, _) = final_block(input, fin_offset, &mut buf, stride);
    count = count.wrapping_add(fin_len as Count);
    compress_block(
        fin_block,
        &mut local_words,
        count,
        flag_word(finalize.yes()),
        flag_word(finalize.yes() && last_node.yes()),
    );
    *words = local_words;
}
'''))

ref("L02-for-step-by", (S + "portable.rs", LOOP_OLD, '''    let mut local_words = *words;

    let step = stride.padded_blockbytes();
    let full = input.len().saturating_sub(1) / step;
    for i in 0..full {
        let block = array_ref!(input, i * step, BLOCKBYTES);
        count = count.wrapping_add(BLOCKBYTES as Count);
        compress_block(block, &mut local_words, count, 0, 0);
    }
    let mut buf = [0; BLOCKBYTES];
    let (fin_block, fin_len, _) = final_block(input, full * step, &mut buf, stride);
    count = count.wrapping_add(fin_len as Count);
    let last = if finalize.yes() { !0 } else { 0 };
    let node = if last_node.yes() { last } else { 0 };
    compress_block(fin_block, &mut local_words, count, last, node);
    *words = local_words;
}
'''))

ref("L03-shrinking-slice", (S + "portable.rs", LOOP_OLD, '''    let step = stride.padded_blockbytes();
    let mut rest = input;
    while rest.len() > step {
        let (head, tail) = rest.split_at(step);
        count = count.wrapping_add(BLOCKBYTES as Count);
        compress_block(array_ref!(head, 0, BLOCKBYTES), words, count, 0, 0);
        rest = tail;
    }
    let mut buf = [0; BLOCKBYTES];
    let (fin_block, fin_len, _) = final_block(rest, 0, &mut buf, stride);
    count = count.wrapping_add(fin_len as Count);
    let last = flag_word(finalize.yes());
    let node = flag_word(finalize.yes() && last_node.yes());
    compress_block(fin_block, words, count, last, node);
}
'''))

CB_OLD = LOOP = open("/repo/blake2s/src/portable.rs").read()
a = CB_OLD.index("    // Initialize the compression state.")
b = CB_OLD.index("pub fn compress1_loop(")
ref("L04-compress-block-loops", (S + "portable.rs", CB_OLD[a:b], '''    let mut v = [0; 16];
    v[..8].copy_from_slice(&words[..]);
    v[8..].copy_from_slice(&IV);
    v[12] ^= count_low(count);
    v[13] ^= count_high(count);
    v[14] ^= last_block;
    v[15] ^= last_node;
    let mut m = [0; 16];
    for (w, c) in m.iter_mut().zip(block.chunks_exact(size_of::<Word>())) {
        let mut bytes = [0; size_of::<Word>()];
        bytes.copy_from_slice(c);
        *w = Word::from_le_bytes(bytes);
    }
    for r in 0..10 {
        round(r, &m, &mut v);
    }
    for i in 0..8 {
        words[i] ^= v[i] ^ v[i + 8];
    }
}

'''), (S + "portable.rs", "use arrayref::{array_ref, array_refs};", "use arrayref::array_ref;"))

ref("L05-update-inline", (S + "lib.rs", '''        self.compress_buffer_if_possible(&mut input);
        // While''', '''        if self.buflen > 0 {
            let room = BLOCKBYTES - self.buflen as usize;
            let take = if room < input.len() { room } else { input.len() };
            let start = self.buflen as usize;
            self.buf[start..][..take].copy_from_slice(&input[..take]);
            self.buflen = (start + take) as u8;
            input = &input[take..];
            if input.is_empty() {
                return self;
            }
            self.compress_full_buffer();
        }
        // While'''), (S + "lib.rs", '''    /// Add input to the hash. You can call `update` any number of times.
''', '''    fn compress_full_buffer(&mut self) {
        let block = self.buf;
        self.implementation.compress1_loop(
            &block,
            &mut self.words,
            self.count,
            guts::LastNode::No,
            guts::Finalize::No,
            guts::Stride::Serial,
        );
        self.buflen = 0;
        self.count = self.count.wrapping_add(BLOCKBYTES as Count);
    }

    /// Add input to the hash. You can call `update` any number of times.
'''))

a = "        // While there's more than a block of input left (which also means we cleared the buffer\n        // above), compress blocks directly without copying.\n        let mut end = input.len().saturating_sub(1);\n        end -= end % BLOCKBYTES;\n        if end > 0 {\n            self.implementation.compress1_loop(\n                &input[..end],\n                &mut self.words,\n                self.count,\n                self.last_node,\n                guts::Finalize::No,\n                guts::Stride::Serial,\n            );\n            self.count = self.count.wrapping_add(end as Count);\n            input = &input[end..];\n        }\n"
ref("L06-update-block-by-block", (S + "lib.rs", a, '''        while input.len() > BLOCKBYTES {
            let (block, rest) = input.split_at(BLOCKBYTES);
            self.implementation.compress1_loop(
                block,
                &mut self.words,
                self.count,
                self.last_node,
                guts::Finalize::No,
                guts::Stride::Serial,
            );
            self.count = self.count.wrapping_add(BLOCKBYTES as Count);
            input = rest;
        }
'''))

ref("L07-end-by-division", (S + "lib.rs", "        let mut end = input.len().saturating_sub(1);\n        end -= end % BLOCKBYTES;\n        if end > 0 {", "        let end = if input.is_empty() {\n            0\n        } else {\n            (input.len() - 1) / BLOCKBYTES * BLOCKBYTES\n        };\n        if end != 0 {"))

ref("L08-final-block-get", (S + "guts.rs", '''    let capped_offset = cmp::min(offset, input.len());
    let offset_slice = &input[capped_offset..];
    if offset_slice.len() >= BLOCKBYTES {
        let block = array_ref!(offset_slice, 0, BLOCKBYTES);
        let should_finalize = offset_slice.len() <= stride.padded_blockbytes();
        (block, BLOCKBYTES, should_finalize)
    } else {
        // Copy the final block to the front of the block buffer. The rest of
        // the buffer is assumed to be initialized to zero.
        buffer[..offset_slice.len()].copy_from_slice(offset_slice);
        (buffer, offset_slice.len(), true)
    }
''', '''    let rest = input.get(offset..).unwrap_or(&[]);
    if rest.len() < BLOCKBYTES {
        for (d, s) in buffer.iter_mut().zip(rest) {
            *d = *s;
        }
        return (buffer, rest.len(), true);
    }
    (
        array_ref!(rest, 0, BLOCKBYTES),
        BLOCKBYTES,
        !(rest.len() > stride.padded_blockbytes()),
    )
'''), (S + "guts.rs", "use core::cmp;\n", ""))

a = CB = open("/repo/blake2s/src/lib.rs").read()
i = CB.index("    let mut bytes = [0; OUTBYTES];\n    {\n        const W: usize"); j = CB.index("    bytes\n}\n", i)
ref("L09-words-to-bytes-loop", (S + "lib.rs", CB[i:j], '''    let mut bytes = [0; OUTBYTES];
    for (i, w) in state_words.iter().enumerate() {
        bytes[i * size_of::<Word>()..(i + 1) * size_of::<Word>()].copy_from_slice(&w.to_le_bytes());
    }
'''), (S + "lib.rs", "use arrayref::{array_refs, mut_array_refs};", "use arrayref::array_refs;"))

i = CB.index("        let (salt_left, salt_right)"); j = CB.index("    /// Hash an input all at once with these parameters.")
ref("L10-param-block-bytes", (S + "lib.rs", CB[i:j], '''        let mut block = [0u8; 32];
        block[0] = self.hash_length;
        block[1] = self.key_length;
        block[2] = self.fanout;
        block[3] = self.max_depth;
        block[4..8].copy_from_slice(&self.max_leaf_length.to_le_bytes());
        block[8..14].copy_from_slice(&self.node_offset.to_le_bytes()[..6]);
        block[14] = self.node_depth;
        block[15] = self.inner_hash_length;
        block[16..24].copy_from_slice(&self.salt);
        block[24..32].copy_from_slice(&self.personal);
        let mut words = IV;
        for (i, w) in words.iter_mut().enumerate() {
            *w ^= Word::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
        }
        words
    }

'''), (S + "lib.rs", "use arrayref::{array_refs, mut_array_refs};", "use arrayref::mut_array_refs;"))

ref("L11-finalize-keyless-first", (S + "lib.rs", '''        // If there's a key, just fall back to using the State.
        if self.key_length > 0 {
            return self.to_state().update(input).finalize();
        }
        let mut words = self.to_words();
        self.implementation.compress1_loop(
            input,
            &mut words,
            0,
            self.last_node,
            guts::Finalize::Yes,
            guts::Stride::Serial,
        );
        Hash {
            bytes: state_words_to_bytes(&words),
            len: self.hash_length,
        }
''', '''        if self.key_length == 0 {
            self.hash_keyless(input)
        } else {
            let mut state = self.to_state();
            state.update(input);
            state.finalize()
        }
    }

    fn hash_keyless(&self, input: &[u8]) -> Hash {
        let mut h = Hash { bytes: [0; OUTBYTES], len: self.hash_length };
        let mut words = self.to_words();
        let imp = self.implementation;
        imp.compress1_loop(input, &mut words, 0, self.last_node, guts::Finalize::Yes, guts::Stride::Serial);
        h.bytes = state_words_to_bytes(&words);
        h
'''))

SP = open("/repo/blake2s/src/blake2sp.rs").read()
i = SP.index("        if self.buf_len > 0 {\n            self.fill_buf(&mut input);"); j = SP.index("        // Now we directly compress as much input as possible")
ref("L12-sp-update-flat", (S + "blake2sp.rs", SP[i:j], '''        if self.buf_len > 0 {
            self.fill_buf(&mut input);
            if input.is_empty() {
                return self;
            }
            const HALF: usize = DEGREE * BLOCKBYTES;
            // The first half can always go.
            Self::compress_to_leaves(&mut self.leaf_words, &self.buf[..HALF], &mut self.count, self.implementation);
            if input.len() >= (DEGREE - 1) * BLOCKBYTES + 1 {
                Self::compress_to_leaves(&mut self.leaf_words, &self.buf[HALF..], &mut self.count, self.implementation);
                self.buf_len = 0;
            } else {
                self.buf.copy_within(HALF.., 0);
                self.buf_len = HALF as u16;
            }
        }

'''))

i = SP.index("        let jobs = leaf_words.iter_mut().enumerate().map(|(i, words)| {\n            let input_start"); j = SP.index("        // Hash each leaf into the root.", i)
ref("L13-sp-hash-vec", (S + "blake2sp.rs", SP[i:j], '''        let mut jobs: arrayvec::ArrayVec<Job, DEGREE> = arrayvec::ArrayVec::new();
        for (i, words) in leaf_words.iter_mut().enumerate() {
            let skip = i * BLOCKBYTES;
            let input = if skip < input.len() { &input[skip..] } else { &[] };
            let last_node = if i + 1 < DEGREE { LastNode::No } else { LastNode::Yes };
            jobs.push(Job { input, words, count: 0, last_node });
        }
        many::compress_many(jobs, self.implementation, Finalize::Yes, Stride::Parallel);
'''))

i = SP.index("    for (word, chunk) in leaf_words\n"); j = SP.index("    imp.compress1_loop(", i)
ref("L14-root-bytes", (S + "blake2sp.rs", SP[i:j], '''    for (leaf, chunk) in leaf_words.iter().zip(block.chunks_exact_mut(OUTBYTES)) {
        chunk.copy_from_slice(&crate::state_words_to_bytes(leaf));
    }
'''))

M = open("/repo/blake2s/src/many.rs").read()
i = M.index("    for i in (0..num_jobs).rev() {"); j = M.index("pub(crate) fn compress_many", i)
ref("L15-evict-retain", (S + "many.rs", M[i:j], '''    let _ = num_jobs;
    let mut i = 0;
    while i < vec.len() {
        if i < num_jobs && vec[i].input.is_empty() {
            vec.remove(i);
        } else {
            i += 1;
        }
    }
}

'''.replace("    let _ = num_jobs;\n", "").replace("if i < num_jobs && vec", "if vec")),)
REFS.pop()
ref("L15-evict-forward", (S + "many.rs", M[i:j], '''    let mut keep = JobsVec::new();
    for (i, job) in vec.drain(..).enumerate() {
        if i >= num_jobs || !job.input.is_empty() {
            keep.push(job);
        }
    }
    *vec = keep;
}

'''))

i = M.index("    for job in jobs_vec.into_iter().chain(jobs_iter) {"); j = M.index("/// Update any number of `State` objects", i)
ref("L16-tail-two-loops", (S + "many.rs", M[i:j], '''    for job in jobs_vec {
        compress_one(job, imp, finalize, stride);
    }
    for job in jobs_iter {
        compress_one(job, imp, finalize, stride);
    }
}

fn compress_one(job: Job, imp: Implementation, finalize: Finalize, stride: Stride) {
    imp.compress1_loop(job.input, job.words, job.count, job.last_node, finalize, stride);
}

'''))

ref("L17-update-many-split", (S + "many.rs", '''        let mut last_block_start = input.len() - 1;
        last_block_start -= last_block_start % BLOCKBYTES;
        let (blocks, last_block) = input.split_at(last_block_start);
        state.buf[..last_block.len()].copy_from_slice(last_block);
        state.buflen = last_block.len() as u8;
''', '''        let tail = (input.len() - 1) % BLOCKBYTES + 1;
        let blocks = &input[..input.len() - tail];
        let mut last_block = &input[input.len() - tail..];
        state.fill_buf(&mut last_block);
'''))

ref("L18-fill-jobs", (S + "many.rs", '''    while vec.len() < target_len {
        if let Some(job) = jobs_iter.next() {
            vec.push(job);
        } else {
            break;
        }
    }
''', '''    let missing = target_len.saturating_sub(vec.len());
    vec.extend(jobs_iter.take(missing));
'''))

ref("L19-hex-nibbles", (S + "lib.rs", '''    let table = b"0123456789abcdef";
    for &b in bytes {
        s.push(table[(b >> 4) as usize] as char);
        s.push(table[(b & 0xf) as usize] as char);
    }
''', '''    let digit = |n: u8| if n < 10 { (b'0' + n) as char } else { (b'a' + (n - 10)) as char };
    for &b in bytes {
        for n in [b / 16, b % 16] {
            s.push(digit(n));
        }
    }
'''))

ref("L20-detect", (S + "guts.rs", '''            if let Some(avx2_impl) = Self::avx2_if_supported() {
                return avx2_impl;
            }
        }
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        {
            if let Some(sse41_impl) = Self::sse41_if_supported() {
                return sse41_impl;
            }
        }
        Self::portable()
''', '''            Self::avx2_if_supported()
                .or_else(Self::sse41_if_supported)
                .unwrap_or_else(Self::portable)
        }
        #[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
        Self::portable()
'''))

ref("L21-count-branch", (S + "lib.rs", '''        let mut ret = self.count.wrapping_add(self.buflen as Count);
        if self.is_keyed {
            ret -= BLOCKBYTES as Count;
        }
        ret
''', '''        let key = if self.is_keyed { BLOCKBYTES as Count } else { 0 };
        self.count.wrapping_add(self.buflen as Count).wrapping_sub(key)
'''))

ref("L22-eq-lengths-first", (S + "lib.rs", '''    fn eq(&self, other: &Hash) -> bool {
        constant_time_eq::constant_time_eq(&self.as_bytes(), &other.as_bytes())
    }''', '''    fn eq(&self, other: &Hash) -> bool {
        *self == *other.as_bytes()
    }'''), (S + "lib.rs", '''    fn eq(&self, other: &[u8]) -> bool {
        constant_time_eq::constant_time_eq(&self.as_bytes(), other)
    }''', '''    fn eq(&self, other: &[u8]) -> bool {
        if self.len as usize != other.len() {
            return false;
        }
        let diff = self.as_bytes().iter().zip(other).fold(0, |acc, (a, b)| acc | (a ^ b));
        core::hint::black_box(diff) == 0
    }'''))

ref("L23-key-by-zip", (S + "lib.rs", '''        self.key_length = key.len() as u8;
        self.key_block = [0; BLOCKBYTES];
        self.key_block[..key.len()].copy_from_slice(key);
''', '''        let mut block = [0; BLOCKBYTES];
        for (i, &b) in key.iter().enumerate() {
            block[i] = b;
        }
        self.key_block = block;
        self.key_length = key.len() as u8;
'''))

ref("L24-job-new", (S + "many.rs", '''        let mut finished = false;
        // If''', '''        let keyed = params.key_length > 0;
        let finished = keyed && input.is_empty();
        // If'''), (S + "many.rs", '''        if params.key_length > 0 {
            let mut finalization = Finalize::No;
            if input.is_empty() {
                finalization = Finalize::Yes;
                finished = true;
            }
''', '''        if keyed {
            let finalization = if finished { Finalize::Yes } else { Finalize::No };
'''))

A = open("/repo/blake2s/src/avx2.rs").read()
ref("L25-avx2-operands", (S + "avx2.rs", "    _mm256_add_epi32(a, b)", "    _mm256_add_epi32(b, a)"), (S + "avx2.rs", "    _mm256_xor_si256(a, b)", "    let t = _mm256_xor_si256(b, a);\n    t"),
    (S + "avx2.rs", "    let hi_inc = and(set1(1), negate_and(delta_was_zero, lo_reached_zero));\n    *hi = add(*hi, hi_inc);", "    let wrapped = negate_and(delta_was_zero, lo_reached_zero);\n    *hi = _mm256_sub_epi32(*hi, wrapped);"))

B2 = open("/repo/blake2b/src/avx2.rs").read()
i = B2.index("    let mut local_words = *words;\n"); j = B2.index("// Performance note: Factoring out a G function here")
ref("L26-avx2b-two-phase", (B + "avx2.rs", B2[i:j], '''    let mut fin_offset = input.len().saturating_sub(1);
    fin_offset -= fin_offset % stride.padded_blockbytes();
    let mut block = input.as_ptr();
    for _ in 0..fin_offset / stride.padded_blockbytes() {
        count = count.wrapping_add(BLOCKBYTES as Count);
        compress_block(&*(block as *const [u8; BLOCKBYTES]), words, count, 0, 0);
        block = block.add(stride.padded_blockbytes());
    }
    let mut buf = [0; BLOCKBYTES];
    let (fin_block, fin_len, _) = final_block(input, fin_offset, &mut buf, stride);
    count = count.wrapping_add(fin_len as Count);
    let last = flag_word(finalize.yes());
    compress_block(fin_block, words, count, last, last & flag_word(last_node.yes()));
}

'''))

ref("L27-state-builder", (S + "lib.rs", '''            buf: [0; BLOCKBYTES],
            buflen: 0,
            last_node: params.last_node,
            hash_length: params.hash_length,
            implementation: params.implementation,
            is_keyed: params.key_length > 0,
        };
        if state.is_keyed {
            state.buf = params.key_block;
            state.buflen = state.buf.len() as u8;
        }
        state
''', '''            buf: params.key_block,
            buflen: if params.key_length > 0 { BLOCKBYTES as u8 } else { 0 },
            last_node: params.last_node,
            hash_length: params.hash_length,
            implementation: params.implementation,
            is_keyed: false,
        };
        state.is_keyed = state.buflen != 0;
        state
'''))

ref("L28-many-finished-loop", (S + "many.rs", '''    let unfinished_jobs = peekable_jobs.into_iter().filter(|j| !j.finished);
    let jobs = unfinished_jobs.map(|j| {
        j.finished = true;
        Job {
            input: j.input,
            words: &mut j.words,
            count: j.count,
            last_node: j.last_node,
        }
    });
''', '''    let jobs = peekable_jobs.filter_map(|j| {
        if core::mem::replace(&mut j.finished, true) {
            return None;
        }
        Some(Job {
            input: j.input,
            words: &mut j.words,
            count: j.count,
            last_node: j.last_node,
        })
    });
'''))

ref("L29-try-into", (B + "portable.rs", "use super::*;\n", "use super::*;\nuse core::convert::TryInto;\n"), (B + "portable.rs", "            block = array_ref!(input, offset, BLOCKBYTES);", "            block = (&input[offset..offset + BLOCKBYTES]).try_into().unwrap();"))
ref("L30-setlastnode-from", (S + "guts.rs", "impl LastNode {\n", "impl From<bool> for LastNode {\n    fn from(b: bool) -> Self {\n        match b {\n            true => LastNode::Yes,\n            false => LastNode::No,\n        }\n    }\n}\n\nimpl LastNode {\n"),
    (S + "lib.rs", '''    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {
        self.last_node = if last_node {
            guts::LastNode::Yes
        } else {
            guts::LastNode::No
        };
''', '''    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {
        self.last_node = last_node.into();
'''))
