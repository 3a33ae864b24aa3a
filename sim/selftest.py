"""setup_cmd: nothing to build; make sure that the seams work in this interpreter."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simenv
simenv.setup()
import core


def two_slices():
    import simsched
    seen = []

    def body(i):
        def go():
            import pycircstat2.distributions as D
            D.vonmises.pdf(0.3, 1.0, 2.0)
            seen.append(i)
        return go
    sim = simsched.Sim([body(0), body(1)], rng=core.rng_for("selftest"), policy={"kind": "random", "gap": 20})
    sim.run()
    return sim.compact_slices(), seen


def main():
    simenv.import_library()
    a, b = core.in_child(two_slices), core.in_child(two_slices)
    assert a == b, "the scheduler is not deterministic"
    assert len(a[0]) > 4, "threads were not interleaved"
    print("selftest ok:", len(a[0]), "slices")


main()
