"""Edits of the command-line tool: r* keep the behaviour, x* break C17 (development only)."""
REFS = []
M = "blake2_bin/src/main.rs"


def ref(id, *edits):
    REFS.append(dict(id=id, edits=[(M,) + e for e in edits]))


ref("x50-interrupted", ("if e.kind() != io::ErrorKind::Interrupted {\n                    return Err(e);\n                }", "return Err(e);"))
ref("x51-swallow", ("if e.kind() != io::ErrorKind::Interrupted {\n                    return Err(e);\n                }", "if e.kind() != io::ErrorKind::Interrupted {\n                    return Ok(());\n                }"))
ref("x52-whole", ("Ok(n) => state.update(&buf[..n]),", "Ok(_n) => state.update(&buf),"))
ref("x53-short", ("Ok(n) => state.update(&buf[..n]),", "Ok(n) => { state.update(&buf[..n]); if n < 4096 { return Ok(()); } }"))
ref("x54-nofail", ("eprintln!(\"blake2: {}: {}\", input.to_string_lossy(), e);\n                    failed = true;", "eprintln!(\"blake2: {}: {}\", input.to_string_lossy(), e);"))
ref("x55-break", ("eprintln!(\"blake2: {}: {}\", input.to_string_lossy(), e);\n                    failed = true;", "eprintln!(\"blake2: {}: {}\", input.to_string_lossy(), e);\n                    failed = true;\n                    break;"))
ref("x56-quiet", ("eprintln!(\"blake2: {}: {}\", input.to_string_lossy(), e);\n                    failed = true;", "let _ = e;\n                    failed = true;"))
ref("x57-reset", ("Ok(hash) => {\n                    if opt", "Ok(hash) => {\n                    failed = false;\n                    if opt"))
ref("x58-salt-sp", ("_ => bail!(\"--salt not supported\"),", "_ => {}"))
ref("x59-depth-swap", ("Params::Blake2s(p) => {\n                p.node_depth(node_depth);", "Params::Blake2s(p) => {\n                p.max_depth(node_depth);"))
ref("x60-personal-salt", ("let personal_bytes = hex::decode(personal)?;", "let personal_bytes = hex::decode(opt.salt.as_ref().unwrap_or(personal))?;"))
ref("x61-trunc", ("p.max_leaf_length(max_leaf_length);", "p.max_leaf_length(max_leaf_length & 0xffff_ff);"))
ref("x62-offset32", ("p.node_offset(node_offset);", "p.node_offset(node_offset as u32 as u64);"))
ref("x63-both", ("if opt.big && opt.small {", "if opt.big && opt.small && opt.parallel {"))
ref("x64-mmapstdin", ("    if opt.mmap {\n        bail!(\"--mmap not supported for stdin\");\n    }\n", ""))
ref("x65-maplen", (".len(len as usize).map(file)", ".len(len as usize & !4095).map(file)"))
ref("x66-longkey", ("p.key(&key_bytes);", "p.key(&key_bytes[..key_bytes.len().min(32)]);"))
ref("x67-lastnode", ("if opt.last_node {", "if opt.last_node && !opt.small {"))
ref("x68-optname", ("#[structopt(long = \"max-depth\")]", "#[structopt(long = \"node-depth\")]"), ("#[structopt(long = \"node-depth\")]\n    /// Set the node", "#[structopt(long = \"max-depth\")]\n    /// Set the node"))
ref("x69-exit0", ("    if failed {\n        exit(1);", "    if failed && opt.inputs.len() > 1 {\n        exit(1);"))
ref("x70-shared-state", ("fn hash_file(opt: &Opt, params: &Params, path: &Path) -> Result<String, Error> {\n    let mut state = params.to_state();", "fn hash_file(opt: &Opt, params: &Params, path: &Path) -> Result<String, Error> {\n    let mut state = params.to_state();\n    let mut probe = [0u8; 1];\n    let mut f2 = File::open(path)?;\n    if f2.read(&mut probe)? == 1 { state.update(&probe); }"))
ref("x71-empty-key", ("if let Some(ref key) = opt.key {", "if let Some(ref key) = opt.key.as_ref().filter(|_| opt.length.is_none() || !opt.parallel) {"))
ref("x72-twice", ("Ok(n) => state.update(&buf[..n]),", "Ok(n) => { if n == 32768 { state.update(&buf[..n]); } state.update(&buf[..n]); }"))
ref("x73-open-skip", ("match hash_file(&opt, &params, input) {", "if input.as_os_str().is_empty() { continue; }\n            match hash_file(&opt, &params, input) {"))
ref("x74-mmap-fallback", ("let map = mmap_file(&file)?;\n        state.update(&map);", "if let Ok(map) = mmap_file(&file) { state.update(&map); }"))

ref("r50-helper", ("                Ok(hash) => {\n                    if opt.inputs.len() > 1 {\n                        println!(\"{}  {}\", hash, input.to_string_lossy());\n                    } else {\n                        println!(\"{}\", hash);\n                    }\n                }", "                Ok(hash) => show(&opt, &hash, input),"),
    ("fn main() {", "fn show(opt: &Opt, hash: &str, input: &Path) {\n    let many = opt.inputs.len() != 1;\n    if many {\n        println!(\"{}  {}\", hash, input.display());\n        return;\n    }\n    println!(\"{}\", hash);\n}\n\nfn main() {"))
ref("r51-while", ("    loop {\n        match reader.read(&mut buf) {\n            Ok(0) => return Ok(()),\n            Ok(n) => state.update(&buf[..n]),\n            Err(e) => {\n                if e.kind() != io::ErrorKind::Interrupted {\n                    return Err(e);\n                }\n            }\n        }\n    }",
    "    let mut done = false;\n    while !done {\n        let n = match reader.read(&mut buf) {\n            Ok(n) => n,\n            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,\n            Err(e) => return Err(e),\n        };\n        if n == 0 { done = true; } else { let part = &buf[0..n]; state.update(part); }\n    }\n    Ok(())"))
ref("r52-map", ("    if let Some(length) = opt.length {\n        match &mut params {", "    if opt.length.is_some() {\n        let length = opt.length.unwrap();\n        match &mut params {"))
ref("r53-generic", ("    if let Some(fanout) = opt.fanout {\n        match &mut params {\n            Params::Blake2b(p) => {\n                p.fanout(fanout);\n            }\n            Params::Blake2s(p) => {\n                p.fanout(fanout);\n            }\n            _ => bail!(\"--fanout not supported\"),\n        }\n    }\n", "    set_fanout(&mut params, opt.fanout)?;\n"),
    ("fn make_params(", "fn set_fanout(params: &mut Params, fanout: Option<u8>) -> Result<(), Error> {\n    let f = match fanout { None => return Ok(()), Some(f) => f };\n    if let Params::Blake2b(ref mut p) = *params { p.fanout(f); return Ok(()); }\n    if let Params::Blake2s(ref mut p) = *params { p.fanout(f); return Ok(()); }\n    Err(failure::err_msg(\"--fanout not supported\"))\n}\n\nfn make_params("))
ref("r54-order", ("    let mut state = params.to_state();\n    let mut file = File::open(path)?;", "    let mut file = File::open(path)?;\n    let mut state = params.to_state();"))
ref("r55-run", ("fn main() {\n    let opt = Opt::from_args();\n\n    let params = match make_params(&opt) {\n        Ok(params) => params,\n        Err(e) => {\n            eprintln!(\"blake2: {}\", e);\n            exit(1);\n        }\n    };\n", "fn main() {\n    let opt = Opt::from_args();\n    exit(run(&opt));\n}\n\nfn run(opt: &Opt) -> i32 {\n    let opt = &*opt;\n    let params = match make_params(opt) {\n        Err(e) => {\n            eprintln!(\"blake2: {}\", e);\n            return 1;\n        }\n        Ok(params) => params,\n    };\n"),
    ("    if failed {\n        exit(1);\n    }\n}", "    if failed {\n        1\n    } else {\n        0\n    }\n}"))
ref("r56-iter", ("for input in &opt.inputs {", "for input in opt.inputs.iter() {"), ("let mut failed = false;", "let mut failed: bool = false;"))
ref("r57-bufsize", ("let mut buf = [0; 32768];", "let mut buf = vec![0u8; 65536];"))
ref("r58-closure", ("        let salt_bytes = hex::decode(salt)?;\n        match &mut params {", "        let decode = |s: &str| -> Result<Vec<u8>, Error> { Ok(hex::decode(s)?) };\n        let salt_bytes = decode(salt)?;\n        match &mut params {"))
ref("r59-bufreader", ("read_write_all(&mut file, &mut state)?;", "read_write_all(io::BufReader::new(&file), &mut state)?;"), ("let mut file = File", "let file = File"))
ref("r60-enumerate", ("for input in &opt.inputs {", "for (i, input) in opt.inputs.iter().enumerate() {\n            let _ = i;"))
ref("r61-lastnode", ("    if opt.last_node {\n        match &mut params {\n            Params::Blake2b(p) => {\n                p.last_node(true);\n            }\n            Params::Blake2s(p) => {\n                p.last_node(true);\n            }\n            _ => bail!(\"--last-node not supported\"),\n        }\n    }", "    match &mut params {\n        Params::Blake2b(p) => {\n            p.last_node(opt.last_node);\n        }\n        Params::Blake2s(p) => {\n            p.last_node(opt.last_node);\n        }\n        _ if opt.last_node => bail!(\"--last-node not supported\"),\n        _ => {}\n    }"))
ref("r62-tuple", ("    let mut params = if opt.small {\n        if opt.parallel {\n            Params::Blake2sp(blake2s_simd::blake2sp::Params::new())\n        } else {\n            Params::Blake2s(blake2s_simd::Params::new())\n        }\n    } else {\n        if opt.parallel {\n            Params::Blake2bp(blake2b_simd::blake2bp::Params::new())\n        } else {\n            Params::Blake2b(blake2b_simd::Params::new())\n        }\n    };",
    "    let mut params = match (opt.small, opt.parallel) {\n        (true, true) => Params::Blake2sp(blake2s_simd::blake2sp::Params::default()),\n        (true, false) => Params::Blake2s(blake2s_simd::Params::default()),\n        (false, true) => Params::Blake2bp(blake2b_simd::blake2bp::Params::default()),\n        (false, false) => Params::Blake2b(blake2b_simd::Params::default()),\n    };"))
ref("r63-maperr", ("let key_bytes = hex::decode(key)?;", "let key_bytes = hex::decode(key).map_err(|e| failure::format_err!(\"bad key: {}\", e))?;"))
ref("r64-anyfail", ("    let mut failed = false;\n", "    let mut errors = 0u32;\n"), ("failed = true;", "errors += 1;"), ("if failed {", "if errors > 0 {"))
ref("r65-mustuse", ("Ok(state.finalize())\n}\n\nfn hash_stdin", "let h = state.finalize();\n    drop(state);\n    Ok(h)\n}\n\nfn hash_stdin"))
ref("r66-hexfmt", ("State::Blake2b(s) => s.finalize().to_hex().to_string(),", "State::Blake2b(s) => format!(\"{}\", s.finalize().to_hex()),"))
ref("r67-mmapmap", ("memmap::MmapOptions::new().len(len as usize).map(file)", "memmap::Mmap::map(file)"))
