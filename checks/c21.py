import os
import mpicommon as M
import vlib


def build(ctx, src, name, exes):
    def one(k):
        std, base = k
        exe = os.path.join(ctx.work, "%s-%s-%s" % (name, std, base))
        vlib.must_compile(ctx.cd, [os.path.join(vlib.HARN, src), os.path.join(ctx.cd, "xdr_pack.cc")], exe, std="c++" + std, defs=["HETERO"] if base == "xdr" else [],
                          incs=(os.path.join(vlib.HARN, "mpi"), vlib.HARN), libs=["-lpthread", "-ltirpc"])
        exes[k] = exe
    vlib.parallel(one, [("17", "nat"), ("11", "xdr")])


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["MPI itself behaves as its standard says: the processes are simulated in one program, with every freedom of the standard (order of processes, buffering, matching of wildcards, synchronising collectives) a choice",
                       "a buffer that is being sent asynchronously is not touched before it is waited for; marks are made afresh for every scattering; the buffers of fixed-length collectives have one length"]
    rng = ctx.rng
    ctx.cd
    exes = {}
    build(ctx, "mpibuf.cc", "mpibuf", exes)
    vlib.model_check(ctx, "MPIMC", "MPIMC.cfg", workers=8)
    vlib.model_check(ctx, "MPIMC", "MPIMC1.cfg", workers=8)
    if not ctx.quick:
        vlib.model_check(ctx, "MPIMC", "MPIMCBig.cfg", workers=8)
    limit = 250 if ctx.quick else 60000
    total = whole = 0
    progs = M.small(rng)

    def one(x):
        name, p = x
        return [M.every_schedule(ctx, e, p, "every schedule of '%s' (%s)" % (name, b), limit) for (_, b), e in exes.items() if b == "nat" or not ctx.quick]
    for r in vlib.parallel(one, progs, n=4):
        for k, complete in r:
            total += k
            whole += complete
    ctx.cov["small programs with all their schedules"] = whole
    ctx.log("%d schedules of %d small programs, all of them of %d" % (total, len(progs), whole))
    for (std, b), e in exes.items():
        ps = [M.Gen(rng, rng.choice((2, 2, 3, 3, 4))).make(rng.choice((2, 5, 10))) for _ in range(120 if ctx.quick else 3000)]
        M.random_runs(ctx, e, ps, "random programs, %s" % b, lambda p: [rng.randrange(1 << 30) for _ in range(4 if ctx.quick else 20)])
