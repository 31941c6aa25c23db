"""C10: model definitions: rejection of definitions that cannot be read."""
from core import *
from streams import *

DRIVER = '''#include <iostream>
#include "core/model.h"
using namespace especia;
typedef Model<%(f)s> M;
namespace drv {
M parse (std::istream &is, std::ostream &os) { return M::parse (is, os); }
}
'''


def parse(f):
    """a model is returned only if the definition was read to its end without failure, anything else is an error"""
    def run(out):
        u = unit(DRIVER % dict(f=f))
        v = V(out, u)
        ex = v.ex
        SS = Streams(v)
        io, to = SS.input("in"), SS.output("out")
        cls = "especia::Model<especia::%s>" % f
        FAIL, BAD, EOF = ex.fconst(Bool, "failed"), ex.fconst(Bool, "broken"), ex.fconst(Bool, "at the end")
        log = v.cell(z3.IntVal(0), "definitions read")
        read = v.st.store[v.obj(cls, "parsed").cell]

        def get(ex, st, fn, args, this):
            if not (isinstance(args[0], LV) and args[0].cell == io.cell and isinstance(args[1], LV) and args[1].cell == to.cell):
                raise Unsupported("streams of a model definition")
            ex.write(st, log, st.store[log.cell] + 1)
            g = dict(st.store[io.cell].f)
            g["fail"], g["bad"], g["eof"] = FAIL, BAD, EOF
            ex.write(st, io, Rec(st.store[io.cell].cls, g))
            ex.write(st, this, Rec(cls, dict(read.f)))
            return args[0]
        for nm in (cls + "::get", "especia::Model::get", "especia::Model<%s>::get" % f):
            ex.contracts[nm] = get
        r, st, thr = v.call("drv::parse", [io, to])
        v.goal("C10: a model is returned only for a definition read to its end without failure", st, z3.And(z3.Not(FAIL), z3.Not(BAD), EOF, st.store[log.cell] == 1))
        r = ex.read(st, r, False) if isinstance(r, LV) else r
        k = z3.Int("k_")
        for nm in ("val", "lo", "up", "msk", "ind", "isc", "nle", "nli"):
            a, b = r.f[nm], read.f[nm]
            v.goal("C10: the model returned is the model read: " + nm, st, z3.And(a.size == b.size, z3.Implies(z3.And(k >= 0, k < b.size), sel(z(a.data), k) == sel(z(b.data), k))))
        v.goal("C10: a definition that cannot be read is an error", [], z3.BoolVal(len(thr) > 0))
        for t in thr:
            v.goal("C10: an error is raised only for a definition that failed or was not read to its end", t.st, z3.Or(FAIL, BAD, z3.Not(EOF)))
            v.goal("C10: the error is a runtime error", [], z3.BoolVal("runtime_error" in str(getattr(t.val, "cls", ""))))
        v.reachable(st, "end")
        v.discharge()
    return run


UNITS = [("parse (%s)" % f, parse(f)) for f in ("Intergalactic_Doppler", "Many_Multiplet")]
