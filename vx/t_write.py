"""io::Write on any State at all: write() hands the whole buffer, in order and once, to update() and does nothing else
to the State, and reports the buffer's length.  update() is a stub here that records what it is given (its effect is
decided by C03 and C04); the State is an object about whose content nothing is known, so this holds in every state."""
from . import term as T, rand
from .term import F, fadd, fsub
from .task import *
from .t_state import History, stream_arg


def touched(base):
    """has any value been read from this object?"""
    return any(t.op == "ld" and t.a[0] == base for t in T.TABLE.values())


class Write(History):
    runs = 0

    def start_opaque(self, prefix):
        """(state, object of an unknown State, stand-in for what is in it)"""
        s, o, pv, keyed = self.start()[0]
        Write.runs += 1
        pre = "st%d" % Write.runs
        size = s.mem[o].size
        s.mem[o] = Obj("base", size, {}, s.tok, pre, 8, None)
        s.ghost = {"N": F(0), "A": F(0), "K": F(0)}
        return s, o, pre, size

    def run(self):
        if not self.attempt(False):
            self.attempt(True)

    def attempt(self, same):
        """`same`: keep one name for the unknown content before and after update(), which loops need; what is read from
        it then means nothing"""
        ctx, ip, res = self.ctx, self.ip, self.res
        s, o, pre, size = self.start_opaque(self.prefix)
        post = pre if same else pre + "+"
        oid = "%s::%swrite" % (ctx.m, self.prefix)
        fn = ctx.root(self.prefix + "io_write")
        upd = ctx.root(self.prefix + "state_update")
        mod = {"b": "blake2b_simd", "s": "blake2s_simd"}[ctx.m] + ({"b": "::blake2bp", "s": "::blake2sp"}[ctx.m] if self.prefix else "")
        box = []
        wrong = []

        def stub(ip, st, f, args):
            p, l = fat_parts(args[1])
            if not (isinstance(args[0], Ptr) and isinstance(p, Ptr)):
                raise Imprecise("update() is not given the next part of the buffer")
            off = fm(p.off)
            lf = F(l) if isinstance(l, int) else st.exact(st.resolve(l))
            if st.cons.eq(st.rform(lf)):
                return [(st, args[0])]
            if args[0].o != o or p.o != box[0]:
                raise Imprecise("update() is not given the next part of the buffer")
            if not st.cons.eq(fsub(st.rform(off), st.rform(st.ghost["A"]))):
                t = st.fork()
                x = t.assume(T.le0(fsub(F(1), lf))) and rand.refute(t, [(T.lin_form(64, t.rform(off)), T.lin_form(64, t.rform(t.ghost["A"])))])
                if not x or ip.trying:
                    raise Imprecise("update() is not given the next part of the buffer")
                wrong.append(x)
                return []
            if st.mem[o].cells:
                raise Imprecise("write() changes the State itself")
            st.ghost["A"] = st.rform(fadd(st.ghost["A"], lf))
            st.mem[o] = Obj("base", size, {}, st.tok, post, 8, None)
            return [(st, args[0])]

        keep = list(ip.intercepts)
        ip.early = None                   # a panic here may be in a state that cannot be reached: C11 decides that
        ip.outcomes = []
        ip.icache.clear()
        ip.intercepts.append((lambda f: f.name.startswith(mod + "::State::update") and f.name.count("::") == mod.count("::") + 2, stub))
        try:
            n = self.fresh_len(s)
            io, arg = stream_arg(ip, s, n, "in")
            box.append(io)
            s.ghost["n"] = fm(n)
            stack = list(ip.stack)
            try:
                rets = ip.exec_fn(fn, [Ptr(o, 0), arg], s)
            except Imprecise as e:
                ip.stack[:] = stack
                if same:
                    res.undecided(oid, "imprecise: %s" % str(e)[:200])
                return False
            obl = []
            for s2, r in rets:
                ln = s2.rform(s2.ghost["n"])
                f = s2.exact(s2.resolve(r)) if isinstance(r, T.T) else F(r)
                if s2.mem[o].cells:
                    obl.append((None, "write() changes the State itself", s2, None, None))
                    continue
                for what, g in (("absorbed", s2.rform(s2.ghost["A"])), ("result", f)):
                    obl.append((s2.cons.eq(fsub(g, ln)), what, s2, g, ln))
            if not same and (wrong or ip.outcomes or any(not x[0] for x in obl)):
                return False
            pure = not touched(pre) and not touched(post)
            for x in wrong if pure else ():
                res.violation(oid + "/order", "write() hands update() a part of the buffer out of order", fn.name, {"got": x[2], "expected": x[3], "example": describe(x[1])})
            if wrong and not pure:
                res.undecided(oid, "depends on what the State holds")
            if ip.outcomes:
                res.undecided(oid, "a path ends in a panic")
            for okay, what, s2, g, ln in obl:
                if okay is None:
                    res.undecided(oid, what)
                elif okay and pure:
                    if not ip.outcomes:
                        res.ok(oid + "/" + what)
                elif okay:
                    res.undecided(oid + "/" + what, "depends on what the State holds")
                else:
                    x = rand.refute(s2, [(T.lin_form(64, g), T.lin_form(64, ln))]) if pure else None
                    if x:
                        msg = "write() hands update() less than the buffer" if what == "absorbed" else "write() does not report the whole buffer as written"
                        res.violation(oid + "/" + what, msg, fn.name, {"got": x[2], "expected": x[3], "example": describe(x[1])})
                    else:
                        res.undecided(oid + "/" + what, "not entailed")
            return True
        finally:
            ip.intercepts[:] = keep
            ip.icache.clear()


def write(ctx, res, prefix):
    Write(ctx, res, (), prefix=prefix).run()
