from bufcommon import *


def run(ctx):
    ctx.level = "model_checking"
    ctx.assumptions = ["the canonical form is XDR as laid down in PackEnc.tla; 64-bit long is encoded as hyper",
                       "seeks go to item boundaries (multiples of four bytes)"]
    check_buffer(ctx, "XdrBufFifo.cfg", "XdrBufGraph.cfg", "XdrBufTrace.cfg", True)
    volume(ctx)
    ctx.cov["exhaustive_over"] = "all states and transitions of two buffers of at most 8 bytes; every transition replayed on the real class"


def volume(ctx):
    """Streams that are written and read in step while many kilobytes pass through."""
    exe = os.path.join(ctx.work, "pb17")
    rng = ctx.rng
    tr = []
    for _ in range(4 if ctx.quick else 40):
        t, q = [], []
        for _ in range(300):
            for _ in range(rng.randrange(6)):
                if rng.random() < 0.2:
                    v = rand_bytes(rng, "", rng.choice((0, 1, 5, 30, 100, 400)))
                    t.append({"op": "writeraw", "b": "a", "v": v})
                    q.append(("raw", len(v)))
                else:
                    k = rng.choice(list(KINDS))
                    t.append({"op": "write", "b": "a", "k": k, "v": rand_bytes(rng, k, KINDS[k])})
                    q.append((k, 0))
            for _ in range(rng.randrange(6)):
                if q:
                    k, n = q.pop(0)
                    t.append({"op": "readraw", "b": "a", "n": n} if k == "raw" else {"op": "read", "b": "a", "k": k})
        while q:
            k, n = q.pop(0)
            t.append({"op": "readraw", "b": "a", "n": n} if k == "raw" else {"op": "read", "b": "a", "k": k})
        t.append({"op": "read", "b": "a", "k": "int"})
        tr.append(t)
    vlib.record_and_validate(ctx, exe, tr, line, "volume", "PackBufTrace", "XdrBufTrace.cfg", args=["a,b,c"])
