"""Contract suites per translation unit."""


def suite(tu):
    if tu == "dd":
        import c_dd, c_gate, c_lib, c_state, c_memo, c_store, c_meas, c_gc, c_large
        return c_large.large_contracts() + c_gc.gc_contracts() + c_dd.dd_contracts() + c_gate.gate_contracts() + c_lib.lib_contracts() + c_state.state_contracts() + c_memo.memo_contracts() + c_store.store_contracts() + c_meas.meas_contracts(), c_large.large_lib() + c_gc.gc_lib() + c_meas.meas_lib() + c_store.store_lib() + c_memo.memo_lib() + c_state.state_lib() + c_gate.gate_lib() + c_lib.lib() + c_dd.dd_lib(), dd_setup
    if tu == "mpi":
        import c_mpi
        a, b, c = suite("dd")
        return c_mpi.mpi_contracts() + a, b, c
    if tu == "glue":
        import c_dd, c_lib, c_complex
        skip = ("Complex::isApprox", )
        return c_lib.glue_contracts() + c_complex.contracts(), c_lib.lib() + [r for r in c_dd.dd_lib() if not r[0].startswith(skip)], lambda vc: None
    raise KeyError(tu)


def dd_setup(vc):
    import c_meas
    vc.th.ghosts["probs"] = c_meas.ProbG
    vc.th.draw_hook = c_meas.draw_hook
