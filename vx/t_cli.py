"""The command-line tool (blake2_bin): options, inputs, failures."""
from . import cli


def strings(v):
    return {x[1] for x in cli.find(v, "str")}


def calls(v, suffix):
    return [x for x in cli.find(v, "s") if x[:2] == ("s", "call") and x[2].endswith(suffix)]


def local(prog, suffix):
    fs = [f for f in prog.fns.values() if f.krate == "blake2" and f.deff.endswith(suffix)]
    return fs[0] if len(fs) == 1 else None


def option_names(prog, res):
    """field index of the options struct -> option on the command line, through the argument definitions and the struct's builder"""
    a, b = local(prog, "::augment_clap"), local(prog, "::from_clap")
    try:
        if a is None or b is None:
            raise cli.Undecided("definition of the options not found")
        e = cli.Explorer(prog, {})
        e.flat = True
        e.run(a)
        cl = {}
        for t in e.clap_args:
            nm = [strings(x[4:]) for x in calls(t, "::with_name")]
            names = nm[0] if len(nm) == 1 else set()
            lg = [s for x in calls(t, "::long") for s in strings(x[5:])]
            sh = [s for x in calls(t, "::short") for s in strings(x[5:])]
            if len(names) != 1:
                raise cli.Undecided("name of an argument")
            cl[names.pop()] = (lg, sh)
        e = cli.Explorer(prog, {})
        e.flat = True
        e.run(b)
        v = e.result
        if not (v and v[0] == "adt"):
            raise cli.Undecided("result of from_clap: %s %s" % (str(v)[:80], e.und))
        out, seen = {}, {}
        for i, x in enumerate(v[3]):
            names = {s for c in cli.find(x, "s") if c[:2] == ("s", "call") and "ArgMatches" in c[2] for s in strings(c[5:])}
            if len(names) != 1:
                raise cli.Undecided("field %d of the options" % i)
            n = names.pop()
            if n not in cl:
                res.violation("C17.options", "field %d of the options is read from an argument %r that is not defined" % (i, n), "from_clap", {})
                continue
            lg, sh = cl[n]
            opts = [o for o in lg if o in cli.LONG] + [o.lstrip("-") for o in sh if o.lstrip("-") in cli.SHORT]
            if not lg and not sh:
                opts = ["inputs"]
            for o in opts:
                seen.setdefault(o, []).append(i)
            out[i] = opts[0] if opts else "?" + n
        for o in cli.LONG + cli.SHORT + ["inputs"]:
            if len(seen.get(o, [])) == 1:
                res.ok("option %s sets exactly one field of the options" % o)
            else:
                res.violation("C17.options", "option %s sets %d fields of the options" % (o, len(seen.get(o, []))), "from_clap", {"option": o})
        return out
    except (cli.Undecided, IndexError, KeyError, TypeError) as e:
        res.undecided("options", "the argument definitions cannot be read: %s" % e)
        return None


def report(res, e, what):
    for o in sorted(e.ok):
        res.ok("%s: %s" % (what, o))
    for (w, fn), stack in sorted(e.bad.items()):
        res.violation("C17", "%s: %s" % (fn, w), fn, {"finding": w, "function": fn, "call path": stack, "analysis": what})
    for w, fn in sorted(e.und.items()):
        res.undecided("%s: %s" % (what, fn), w)


def no_tool(res, why):
    res.undecided("the command-line tool", "it does not build: " + why)


def explore(res, prog, names, what, preset, stop):
    main = prog.root("main")
    if main is None:
        res.violation("C17", "the tool has no main function", "main", {})
        return
    e = cli.Explorer(prog, names, preset, stop)
    e.run(main)
    report(res, e, what)
    res.stats["paths"] = res.stats.get("paths", 0) + e.npaths
    res.stats["control_points"] = res.stats.get("control_points", 0) + e.nsteps
    fs = set(res.stats.get("functions", [])) | {prog.fns[k].name for k in e.fns if prog.fns[k].krate == "blake2"}
    res.stats["functions"] = sorted(fs)
    return e


def presets(names, given):
    """assumptions: exactly the options in `given` are there"""
    a = {}
    for o in set(names.values()) - {"inputs"}:
        if o in cli.FLAGS:
            a[("s", "opt", o)] = int(o in given)
        else:
            a[("s", "discr", ("s", "opt", o))] = int(o in given)
    return a


def cases():
    """combinations of options under which the handling of inputs is followed: none, each alone, with each hash function, all"""
    singles = [[o] for o in cli.LONG + ["b"]]
    algs = [[], ["s"], ["p"], ["s", "p"]]
    both = [x + a for a in algs for x in [["mmap"], ["length"], ["key"], ["mmap", "key", "length"]]]
    out = []
    for c in algs + singles + [["s"] + x for x in singles if x != ["b"]] + both + [cli.SETTABLE, ["s"] + cli.SETTABLE, ["mmap"] + cli.SETTABLE, ["b", "s"], ["p", "salt"]]:
        if sorted(c) not in [sorted(x) for x in out]:
            out.append(c)
    return out


def options(res, prog):
    names = option_names(prog, res)
    if names:
        explore(res, prog, names, "options", None, True)


def inputs(res, prog, givens):
    names = option_names(prog, type("R", (), dict(ok=lambda *a: 0, violation=lambda *a: 0, undecided=lambda *a: 0))())
    for given in givens if names else []:
        explore(res, prog, names, "inputs[%s]" % " ".join(given), presets(names, given), False)
    if not names:
        res.undecided("inputs", "the argument definitions cannot be read")
