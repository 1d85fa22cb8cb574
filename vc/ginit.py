"""Values of static objects: the compiler-generated initialisers are executed; what cannot be executed stays unknown."""
from ir import Unsupported
from exe import VC, State, Ptr, Obj
import exe, theory, contract


def compute(mod, lib=None):
    out = {}
    for n in list(mod.fn_span):
        if not n.startswith("__cxx_global_var_init"):
            continue
        th = theory.Theory(mod)
        vc = VC(mod, None, contract.Lib(lib or []), th)
        vc.maxsteps = 3000
        st = State()
        # statics start zero-filled
        orig = vc.global_addr

        def ga(s, name, orig=orig, vc=vc):
            if name in s.glob or name in mod.fn_span or name in mod.decl or th.special_global(s, name) is not None:
                return orig(s, name)
            ty, init, const = mod.glob(name)
            if mod.resolve(ty).k != "opaque" and name in out:
                oid = s.new(mod.size(ty), "@" + name)
                s.glob[name] = oid
                s.mem[oid].cells, s.mem[oid].zero = dict(out[name][0]), list(out[name][1])
                return Ptr(oid)
            return orig(s, name)
        vc.global_addr = ga
        vc.ginit = None
        try:
            vc.start_call(st, n, [], None)
            got = []
            vc.run(st, lambda s, v, k: got.append(s))
            if len(got) == 1:
                s = got[0]
                for g, oid in s.glob.items():
                    o = s.mem.get(oid)
                    if o is not None and not mod.glob(g)[2] and mod.glob(g)[1] is not None:
                        if all(not isinstance(v, Ptr) or v.o == 0 for v, z in o.cells.values()):
                            out[g] = (dict(o.cells), list(o.zero))
        except Unsupported:
            continue
    return out
