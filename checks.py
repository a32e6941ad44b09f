"""Configurations of every property (see DESIGN.md).

Each configuration is one harness compiled with the repository's headers from the
working tree and explored exhaustively by mcvm: every interleaving of shared
accesses (mode "conc") or every operation sequence / input (mode "seq"), up to the
bound named in "what".  "thorough" adds to "quick"; same name: replaces it.
"""
import os
PORT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "port")

COMMON_ASSUMPTIONS = [
    "memory is sequentially consistent, or x86-TSO (store buffers of 12 entries, explored flushes) in the tso-* configurations; the weaker models of the ports and reordering by the compiler are outside (see DESIGN.md)",
    "g++ 13, x86_64; in concurrent harnesses the code is compiled at -O0 and one transition is one source-level access to shared memory or one library call",
    "bounds as listed per configuration",
]


def cfg(name, src, what, mode="seq", defs=(), **kw):
    return dict(name=name, src=src, what=what, mode=mode, defs=list(defs), **kw)


def conc(name, src, what, defs=(), **kw):
    return cfg(name, src, what, mode="conc", defs=defs, **kw)


def prm(**kw):
    return kw


CHECKS = {}

# ---------------------------------------------------------------- C01 ring buffer
CHECKS["C01"] = dict(
    quick=[cfg("n%d" % n, "seqbuf.cpp", "all operation sequences to the fixpoint, capacity %d" % n, defs=["-DNB=%d" % n, "-DND=2"], cost=n) for n in (1, 2, 3, 4, 5)]
    + [cfg("n3x3", "seqbuf.cpp", "three event values", defs=["-DNB=3", "-DND=3"]),
       cfg("n2u8", "seqbuf.cpp", "uint8_t data", defs=["-DNB=2", "-DDATA=uint8_t"]),
       cfg("n2ll", "seqbuf.cpp", "64-bit data", defs=["-DNB=2", "-DDATA=long"]),
       cfg("n2big", "seqbuf.cpp", "56-byte struct data", defs=["-DNB=2", "-DBIGDATA", "-include", "bigdata.h", "-DDATA=BigData"]),
       cfg("n2obj", "seqbuf.cpp", "data that may not be copied bitwise", defs=["-DNB=2", "-include", "objdata.h", "-DDATA=Obj"]),
       cfg("n3obj", "seqbuf.cpp", "data that may not be copied bitwise", defs=["-DNB=3", "-include", "objdata.h", "-DDATA=Obj"]),
       cfg("writer-n2obj", "seqbuf.cpp", "the same through writers, depth 5", defs=["-DNB=2", "-DWITH_WRITER", "-include", "objdata.h", "-DDATA=Obj"], graph=True, params=dict(depth=5)),
       cfg("n1-writers", "seqbuf.cpp", "any number of attached writers, 0 to 255", defs=["-DNB=1", "-DNWR=256"]),
       cfg("n3O2", "seqbuf.cpp", "optimised build", mode="seqO2", defs=["-DNB=3"]),
       cfg("n2debug", "seqbuf.cpp", "debug build (RTMLIB_DEBUG=3)", defs=["-DNB=2", "-DRTMLIB_DEBUG=3"]),
       cfg("n3debug-events", "seqbuf.cpp", "what debug() prints are events of the buffer", defs=["-DNB=3", "-DBIGDATA", "-include", "bigdata.h", "-DDATA=BigData", "-include", "dbgevents.h", "-DDEBUG_EVENTS"]),
       cfg("n300", "seqbuf.cpp", "capacity 300, blocks of 1, N-1, N, N+1 operations, depth 5", defs=["-DNB=300", "-DMACRO_OPS"], params=dict(depth=5), cost=9),
       cfg("n70000", "seqbuf.cpp", "capacity 70000 (indices beyond 16 bits), depth 2", defs=["-DNB=70000", "-DMACRO_OPS"], params=dict(depth=2), cost=9),
       cfg("n3-laps", "seqbuf.cpp", "capacity 3, blocks of 1, 255, 256 and 65536 operations, depth 4", defs=["-DNB=3", "-DMACRO_OPS", "-DREPS=1,255,256,65536"], params=dict(depth=4), cost=9),
       cfg("writer-n3-laps", "seqbuf.cpp", "the same through writers, depth 3", defs=["-DNB=3", "-DMACRO_OPS", "-DWITH_WRITER", "-DREPS=1,255,256,65536"], graph=True, params=dict(depth=3), cost=9),
       cfg("writer-n300", "seqbuf.cpp", "capacity 300, writers, blocks of 1, N-1, N, N+1 operations, depth 3", defs=["-DNB=300", "-DMACRO_OPS", "-DWITH_WRITER"], graph=True, params=dict(depth=3), cost=9),
       cfg("writer-n70000", "seqbuf.cpp", "capacity 70000, writers, depth 1", defs=["-DNB=70000", "-DMACRO_OPS", "-DWITH_WRITER", "-DREPS=1,65535,65537,NB+1"], graph=True, params=dict(depth=1), cost=9),
       ] + [cfg("writer-n%d" % n, "seqbuf.cpp", "up to 3 writers attached at any moment, their push and push_all mixed with push, write, pull and pop of the buffer itself, depth 7", defs=["-DNB=%d" % n, "-DWITH_WRITER"], graph=True, params=dict(depth=7)) for n in (1, 2, 3)],
    thorough=[cfg("n6", "seqbuf.cpp", "fixpoint, capacity 6", defs=["-DNB=6"]), cfg("n4x3", "seqbuf.cpp", "fixpoint, capacity 4, three values", defs=["-DNB=4", "-DND=3"]),
              cfg("n7", "seqbuf.cpp", "fixpoint, capacity 7", defs=["-DNB=7"], cost=9), cfg("n8", "seqbuf.cpp", "fixpoint, capacity 8", defs=["-DNB=8"], cost=20)]
    + [cfg("writer-n%d" % n, "seqbuf.cpp", "up to 3 writers and pushes to the buffer itself, depth 8", defs=["-DNB=%d" % n, "-DWITH_WRITER"], graph=True, params=dict(depth=8), cost=5) for n in (1, 2, 3, 4)],
)

# ---------------------------------------------------------------- C02 copies
CHECKS["C02"] = dict(
    quick=[cfg("n%d" % n, "seqcopy.cpp", "two buffers, every sequence of operations and assignments to the fixpoint, capacity %d" % n, defs=["-DNB=%d" % n], cost=n) for n in (1, 2, 3)]
    + [cfg("writer-n%d" % n, "seqcopy.cpp", "buffers with writers attached, depth 7", defs=["-DNB=%d" % n, "-DWITH_WRITER"], graph=True, params=dict(depth=7), cost=5) for n in (1, 2, 3)]
    + [cfg("n%dobj" % n, "seqcopy.cpp", "data that may not be copied bitwise, to the fixpoint", defs=["-DNB=%d" % n, "-include", "objdata.h", "-DDATA=Obj"]) for n in (1, 2)]
    + [cfg("n3obj-O2", "seqcopy.cpp", "data that may not be copied bitwise, to the fixpoint", mode="seqO2", defs=["-DNB=3", "-include", "objdata.h", "-DDATA=Obj"], cost=3),
       cfg("writer-n2obj", "seqcopy.cpp", "data that may not be copied bitwise, a writer attached to either buffer, depth 6", defs=["-DNB=2", "-DWITH_WRITER", "-DWRITERS=3", "-include", "objdata.h", "-DDATA=Obj"], graph=True, params=dict(depth=6), cost=5),
       cfg("n2big", "seqcopy.cpp", "56-byte struct data", defs=["-DNB=2", "-include", "bigdata.h", "-DDATA=BigData"]),
       cfg("n2u8", "seqcopy.cpp", "uint8_t data", defs=["-DNB=2", "-DDATA=uint8_t"])]
    + [cfg("both-writers-n2", "seqcopy.cpp", "a writer attached to either buffer, depth 7", defs=["-DNB=2", "-DWITH_WRITER", "-DWRITERS=3"], graph=True, params=dict(depth=7), cost=5),
       cfg("both-writers-n3", "seqcopy.cpp", "capacity 3, depth 6", defs=["-DNB=3", "-DWITH_WRITER", "-DWRITERS=3"], graph=True, params=dict(depth=6), cost=5),
       cfg("n300", "seqcopy.cpp", "capacity 300, blocks of 1, 255, 256 and N operations, depth 3", mode="seqO2", defs=["-DNB=300", "-DREPS=1,255,256,NB"], params=dict(depth=3), cost=5),
       cfg("writer-n300", "seqcopy.cpp", "the same with writers", mode="seqO2", defs=["-DNB=300", "-DREPS=1,255,256,NB", "-DWITH_WRITER", "-DWRITERS=3"], graph=True, params=dict(depth=3), cost=5),
       cfg("n70000", "seqcopy.cpp", "capacity 70000, blocks of 65535, 65537 and N+1 operations, depth 3", mode="seqO2", defs=["-DNB=70000", "-DREPS=65535,65537,NB+1"], params=dict(depth=3), cost=5)]
    + [cfg("n2O2", "seqcopy.cpp", "optimised build", mode="seqO2", defs=["-DNB=2"])],
    thorough=[cfg("n4", "seqcopy.cpp", "to the fixpoint, capacity 4", defs=["-DNB=4"], cost=20, max_states=60000000)]
    + [cfg("writer-n%d" % n, "seqcopy.cpp", "buffers with writers attached, depth 9", defs=["-DNB=%d" % n, "-DWITH_WRITER"], graph=True, params=dict(depth=9), cost=15) for n in (1, 2, 3)],
)

# ---------------------------------------------------------------- C03..C06 concurrent pushes
def push(name, what, nw=2, np=2, nb=2, defs=(), **kw):
    return conc(name, "cpush.cpp", what + ", capacity %d" % nb, defs=["-DNW=%d" % nw, "-DNP=%d" % np, "-DNB=%d" % nb] + list(defs), **kw)

def crd(name, what, nb=2, nw=1, np=6, nr=1, defs=(), **kw):
    return conc(name, "creader.cpp", what + ", capacity %d" % nb, defs=["-DNB=%d" % nb, "-DNW=%d" % nw, "-DNP=%d" % np, "-DNR=%d" % nr] + list(defs), **kw)

def lap(name, what, nb=2, defs=(), **kw):
    return conc(name, "lap.cpp", what + ", capacity %d" % nb, defs=["-DNB=%d" % nb] + list(defs), **kw)

def eq(name, what, nb=2, nw=2, np=3, defs=(), **kw):
    return conc(name, "cequal.cpp", what + ", capacity %d" % nb, defs=["-DNB=%d" % nb, "-DNW=%d" % nw, "-DNP=%d" % np] + list(defs), **kw)

def tso(c, **kw):
    c = dict(c, tso=True, **kw)
    c["name"] = "tso-" + c["name"]
    c["what"] = "x86-TSO (store buffers): " + c["what"]
    return c

CHECKS["C03"] = dict(
    quick=[lap("lap-n2", "a writer stopped anywhere while another one pushes 1 to 20 events, twice", params=prm(lo=1, count=20, bursts=2, na=2, pre=2), cost=5),
           lap("lap-n2-300", "the same, 1 to 300 events", nb=2, params=prm(lo=1, count=300, na=1, pre=2), cost=5),
           lap("lap-n2-64k", "the same, 65534 to 65538 events", params=prm(lo=65534, count=5, na=1, pre=2), cost=5)]
    + [lap("lap-n300", "a buffer beyond 8 bits, 1 to 5 events", nb=300, params=prm(lo=1, count=5, na=2, pre=254), cost=5),
       lap("lap-n300-full", "the same, full", nb=300, params=prm(lo=1, count=5, na=2, pre=300), cost=5),
       lap("lap-n70000", "a buffer beyond 16 bits, 1 to 3 events", nb=70000, params=prm(lo=1, count=3, na=1, pre=65535), cost=9)]
    + [push("w2x2-n%d" % n, "2 writers x 2 pushes, every interleaving", nb=n, cost=3) for n in (1, 2, 3)]
    + [push("w2x2-n2-pre%d" % k, "2 writers x 2 pushes on a buffer that has seen %d events" % k, params=prm(pre=k), cost=3) for k in (1, 2, 3)]
    + [push("w2x2-n2-pre1w1", "the last event came from the other writer", params=prm(pre=1, prew=1), cost=3),
       push("w31-n2", "3 pushes against 1, every interleaving", np=3, params=prm(p0=3, p1=1), cost=3),
       push("w31-n3-pre2", "3 pushes against 1", np=3, nb=3, params=prm(p0=3, p1=1, pre=2), cost=3),
       push("all-w2x2-n2", "push_all, 2 x 2", defs=["-DPUSH_ALL"]), push("mix-w2x2-n2", "push against push_all, 2 x 2", defs=["-DMIX"]),
       push("obs-w11-n2", "2 writers x 1 push and an observer of state() and length()", params=prm(p0=1, p1=1, obs=1), cost=4),
       push("obs-w11-n1-pre1", "the same, buffer full", nb=1, params=prm(p0=1, p1=1, obs=1, pre=1), cost=4),
       push("obs-w21-n2", "2 + 1 pushes and an observer, every interleaving", params=prm(p0=2, p1=1, obs=1), cost=20),
       push("w32-n2", "3 + 2 pushes, every interleaving", np=3, params=prm(p0=3, p1=2), cost=8),
       push("w3x1-n2", "3 writers x 1 push, every interleaving", nw=3, np=1, cost=10),
       push("w3x1-n1-pre1", "3 writers x 1 push, buffer full, every interleaving", nw=3, np=1, nb=1, params=prm(pre=1), cost=15),
       push("w3-221-n2", "3 writers, 2+2+1 pushes, at most 2 preemptions", nw=3, params=prm(p0=2, p1=2, p2=1), preempt=2, cost=6),
       push("w3-211-n2", "3 writers, 2+1+1 pushes, at most 3 preemptions", nw=3, params=prm(p0=2, p1=1, p2=1), preempt=3, cost=18),
       push("w2x4-n2", "4 + 3 pushes, at most 4 preemptions", np=4, params=prm(p0=4, p1=3), preempt=4, cost=15),
       push("w4x1-n3", "4 writers x 1 push, at most 2 preemptions", nw=4, np=1, nb=3, preempt=2, cost=10),
       push("debug-w2x1", "debug build", np=1, defs=["-DRTMLIB_DEBUG=3"], cost=3)]
    + [tso(push("w21-n2", "2 + 1 pushes, every interleaving", params=prm(p0=2, p1=1), cost=7)),
       tso(push("w21-n1-pre1", "2 + 1 pushes, buffer full, every interleaving", nb=1, params=prm(p0=2, p1=1, pre=1), cost=12)),
       tso(push("w22-n2", "2 x 2 pushes, at most 2 preemptions", preempt=2, cost=7)),
       tso(push("obs-w11-n2", "1 + 1 pushes and an observer, at most 2 preemptions", params=prm(p0=1, p1=1, obs=1), preempt=2, cost=8))]
    + [eq("equal-w13-n2", "1 and 3 pushes of two kinds of events, equal ones among them", params=prm(p0=1, p1=3, pre=3, pat=1), cost=4),
       eq("equal-w22-n2", "2 and 2 pushes of two kinds of events", params=prm(p0=2, p1=2, pre=3), cost=4)],
    thorough=[push("w33-n2", "3 + 3 pushes, every interleaving", np=3, params=prm(p0=3, p1=3), cost=60, max_states=90000000),
              push("w33-n3", "3 + 3 pushes, every interleaving", np=3, nb=3, params=prm(p0=3, p1=3), cost=60, max_states=90000000),
              push("w33-n1-pre1", "3 + 3 pushes, every interleaving", np=3, nb=1, params=prm(p0=3, p1=3, pre=1), cost=60, max_states=90000000),
              push("w42-n3-pre3", "4 + 2 pushes, every interleaving", np=4, nb=3, params=prm(p0=4, p1=2, pre=3), cost=60, max_states=90000000),
              push("obs-w22-n2", "2 + 2 pushes and an observer, at most 4 preemptions", params=prm(obs=1), preempt=4, cost=40, max_states=90000000),
              push("w3-211-n2", "3 writers, 2+1+1 pushes, at most 4 preemptions", nw=3, params=prm(p0=2, p1=1, p2=1), preempt=4, cost=60, max_states=90000000),
              push("w3-222-n2", "3 writers, 2+2+2 pushes, at most 3 preemptions", nw=3, params=prm(p0=2, p1=2, p2=2), preempt=3, cost=80, max_states=90000000),
              push("w3-222-n3-pre2", "3 writers, 2+2+2 pushes, at most 2 preemptions", nw=3, nb=3, params=prm(p0=2, p1=2, p2=2, pre=2), preempt=2, cost=30, max_states=90000000),
              push("w2x4-n2", "4 + 3 pushes, at most 5 preemptions", np=4, params=prm(p0=4, p1=3), preempt=5, cost=60, max_states=90000000),
              push("w4x1-n1-pre1", "4 writers x 1 push, at most 2 preemptions", nw=4, np=1, nb=1, params=prm(pre=1), preempt=2, cost=60, max_states=90000000),
              tso(push("w22-n2", "2 x 2 pushes, every interleaving", cost=60, max_states=90000000)),
              tso(push("w22-n1-pre1", "2 x 2 pushes, buffer full, at most 4 preemptions", nb=1, params=prm(pre=1), preempt=4, cost=60, max_states=90000000)),
              tso(push("obs-w11-n2", "1 + 1 pushes and an observer, at most 4 preemptions", params=prm(p0=1, p1=1, obs=1), preempt=4, cost=60, max_states=90000000)),
              tso(push("w31-n2", "3 + 1 pushes, at most 4 preemptions", np=3, params=prm(p0=3, p1=1), preempt=4, cost=60, max_states=90000000)),
              tso(push("w33-n2", "3 + 3 pushes, at most 2 preemptions", np=3, preempt=2, cost=60, max_states=90000000)),
              tso(push("mix-w22-n2", "push against push_all, 2 x 2, at most 3 preemptions", defs=["-DMIX"], preempt=3, cost=20, max_states=90000000)),
              tso(push("w3x1-n2", "3 writers x 1 push, at most 2 preemptions", nw=3, np=1, preempt=2, cost=60, max_states=90000000)),
              eq("equal-w33-n2", "3 and 3 pushes of two kinds of events, at most 3 preemptions", params=prm(p0=3, p1=3, pre=3), preempt=3, cost=60, max_states=90000000)],
)

CHECKS["C04"] = dict(keys="hang|livelock|deadlock|blocked.*|crash.*",
    quick=[push("g-w11-n2", "2 writers x 1 push: cycles of the state graph and every solo continuation", np=1, graph=True, solo=True),
           push("g-w11-n1", "the same, capacity 1", np=1, nb=1, graph=True, solo=True),
           push("g-w11-n2-pre2", "the same, buffer full", np=1, params=prm(pre=2), graph=True, solo=True),
           push("g-w21-n2", "2 + 1 pushes", params=prm(p0=2, p1=1), graph=True, solo=True, cost=5),
           push("g-w21-n3-pre1", "2 + 1 pushes on a non-empty buffer", nb=3, params=prm(p0=2, p1=1, pre=1), graph=True, solo=True, cost=5),
           push("g-w22-n2", "2 x 2 pushes: cycles of the state graph", graph=True, cost=6),
           push("g-w22-n1", "2 x 2 pushes, capacity 1", nb=1, graph=True, cost=6),
           push("g-all-w22-n2", "push_all", defs=["-DPUSH_ALL"], graph=True, cost=4),
           push("g-w22-solo-n2", "2 x 2 pushes, every solo continuation", graph=True, solo=True, cost=16),
           push("g-w31-n2", "3 + 1 pushes, every solo continuation", np=3, params=prm(p0=3, p1=1), graph=True, solo=True, cost=10),
           push("g-w32-n2", "3 + 2 pushes: cycles", np=3, params=prm(p0=3, p1=2), graph=True, cost=8),
           push("g-destroy-w22", "2 x 2 pushes and the destruction of the writers", defs=["-DDESTROY"], graph=True, cost=4),
           push("g-w3x1-n2", "3 writers x 1 push: cycles of the state graph", nw=3, np=1, graph=True, cost=12),
           eq("g-nan-w11-n1", "data that are not equal to themselves (NaN)", nb=1, defs=["-DDATA=double", "-DVAL(c)=((c)?__builtin_nan(\"\"):1.0)"], params=prm(p0=1, p1=1, pre=1), graph=True, cost=3),
           lap("lap-n300", "a buffer beyond 8 bits", nb=300, params=prm(lo=1, count=5, na=2, pre=254), graph=True, cost=5),
           lap("lap-n70000", "a buffer beyond 16 bits", nb=70000, params=prm(lo=1, count=2, na=1, pre=65535), graph=True, cost=9),
           push("g-reborn-w21", "a writer that is destroyed and constructed again between its pushes", params=prm(p0=2, p1=1), defs=["-DDESTROY", "-DREBORN"], graph=True, cost=6),
           push("g-destroy-w21", "pushes and the destruction of the writers", params=prm(p0=2, p1=1), defs=["-DDESTROY"], graph=True, cost=6)],
    thorough=[push("g-w22-solo-n1", "2 x 2 pushes, capacity 1, every solo continuation", nb=1, graph=True, solo=True, cost=30),
              push("g-w33-n2", "3 + 3 pushes: cycles", np=3, params=prm(p0=3, p1=3), graph=True, cost=60, max_states=90000000),
              push("g-w32-n3-pre2", "3 + 2 pushes: cycles", np=3, nb=3, params=prm(p0=3, p1=2, pre=2), graph=True, cost=30, max_states=90000000),
              push("g-destroy-w32", "3 + 2 pushes and destruction", np=3, params=prm(p0=3, p1=2), defs=["-DDESTROY"], graph=True, cost=40, max_states=90000000)],
)

CHECKS["C05"] = dict(keys="time-.*|own-time|stored-time|state-ts|hang|crash.*",
    quick=[push("clk-w21-n2", "2 + 1 pushes, the clock may or may not advance at every reading", params=prm(p0=2, p1=1, clock=1), cost=3),
           push("clk-w11-n1", "1 + 1 pushes", np=1, nb=1, params=prm(clock=1)),
           push("clk-w21-n3-pre2", "2 + 1 pushes on a non-empty buffer", nb=3, params=prm(p0=2, p1=1, clock=1, pre=2), cost=3),
           push("clk-w22-n2", "2 x 2 pushes, every interleaving", params=prm(clock=1), cost=12),
           push("clk-mix-w22-n2", "push against push_all", params=prm(clock=1), defs=["-DMIX"], cost=5),
           push("clk-w3x1-n2", "3 writers, at most 2 preemptions", nw=3, np=1, params=prm(clock=1), preempt=2, cost=8),
           push("far-w22-n3", "2 x 2 pushes seconds apart (2^30 ns), past 2^32", nb=3, params=prm(now=4294966000, tick=1 << 30), cost=3),
           push("far-clk-w21-n2", "2 + 1 pushes, the clock may or may not advance by a second at every reading", params=prm(p0=2, p1=1, clock=1, now=3221225472, tick=1 << 30), cost=3),
           push("tick-w22-n3", "2 x 2 pushes, clock ticking at every reading", nb=3, cost=3),
           push("tick-w31-n4", "3 + 1 pushes", np=3, nb=4, params=prm(p0=3, p1=1), cost=3),
           push("sec-w21-n3", "2 + 1 pushes, the second ends at any reading", nb=3, params=prm(p0=2, p1=1, clock=1, now=1699999999999999998), cost=3),
           push("sec-w22-n3", "2 x 2 pushes, the second ends between them", nb=3, params=prm(now=1699999999999999997), cost=3),
           tso(push("clk-w11-n2", "1 + 1 pushes, the clock may or may not advance", np=1, params=prm(clock=1), cost=2)),
           tso(push("clk-w21-n2", "2 + 1 pushes, the clock may or may not advance, at most 1 preemption", params=prm(p0=2, p1=1, clock=1), preempt=1, cost=6)),
           push("clk-w31-n2", "3 + 1 pushes, the clock may or may not advance at every reading", np=3, params=prm(p0=3, p1=1, clock=1), cost=6)],
    thorough=[push("clk-w32-n3", "3 + 2 pushes, at most 3 preemptions", np=3, nb=3, params=prm(p0=3, p1=2, clock=1), preempt=3, cost=40, max_states=90000000),
              tso(push("clk-w21-n2", "2 + 1 pushes, the clock may or may not advance, at most 3 preemptions", params=prm(p0=2, p1=1, clock=1), preempt=3, cost=60, max_states=90000000)),
              push("clk-w33-n2", "3 + 3 pushes, at most 1 preemption", np=3, params=prm(p0=3, p1=3, clock=1), preempt=1, cost=40, max_states=90000000),
              push("clk-w3-211-n2", "3 writers, 2+1+1 pushes, at most 2 preemptions", nw=3, params=prm(p0=2, p1=1, p2=1, clock=1), preempt=2, cost=50, max_states=90000000),
              push("clk-w3x1-n2", "3 writers, at most 4 preemptions", nw=3, np=1, params=prm(clock=1), preempt=4, cost=40, max_states=90000000)],
)

CHECKS["C06"] = dict(
    quick=[push("d-w%s-n%d" % ("".join(map(str, p)), n), "writers push and are destroyed, their memory is overwritten, then new writers push", nb=n, params=prm(p0=p[0], p1=p[1]), defs=["-DDESTROY"], cost=sum(p) + n)
           for n in (1, 2, 3) for p in ((1, 0), (2, 0), (1, 1), (2, 1))]
    + [push("d-w11-n2-pre2", "the same on a full buffer", np=1, params=prm(pre=2), defs=["-DDESTROY"]),
       push("d-w11-n2-pre1w1", "the last event came from the other writer", np=1, params=prm(pre=1, prew=1), defs=["-DDESTROY"]),
       push("d-w22-n2", "2 x 2", defs=["-DDESTROY"], cost=9),
       push("reborn-w21-n2", "a writer that is destroyed after each push and constructed again in the same memory, against another", params=prm(p0=2, p1=1), defs=["-DDESTROY", "-DREBORN"], cost=4),
       push("reborn-w21-n1-pre1", "the same, capacity 1", nb=1, params=prm(p0=2, p1=1, pre=1), defs=["-DDESTROY", "-DREBORN"], cost=4),
       push("reborn-w31-n2", "3 + 1, every interleaving", np=3, params=prm(p0=3, p1=1), defs=["-DDESTROY", "-DREBORN"], cost=12, max_states=90000000),
           push("reborn-w22-n2", "2 x 2, at most 5 preemptions", defs=["-DDESTROY", "-DREBORN"], preempt=5, cost=15),
           push("d-w32-n2", "3 + 2", np=3, params=prm(p0=3, p1=2), defs=["-DDESTROY"], cost=14),
           push("d-w22-n3-pre2", "2 x 2", nb=3, params=prm(pre=2), defs=["-DDESTROY"], cost=5),
       crd("rd-w2-n2", "the writer is destroyed while a reader synchronizes and pulls", params=prm(p0=2), defs=["-DDESTROY"], cost=3),
       crd("rd-w2-n2-pre2", "the same, reader synchronized before", params=prm(p0=2, pre=2, presync=2, rounds=2), defs=["-DDESTROY"], cost=4),
       crd("rd-w11-n3", "2 writers push, leave, and a reader goes on, at most 3 preemptions", nb=3, nw=2, params=prm(p0=1, p1=1, pre=1, presync=1), preempt=3, defs=["-DDESTROY"], cost=6),
       push("obs-w11-n2", "2 writers push and are destroyed, and an observer of state() and length(), at most 3 preemptions", np=1, params=prm(obs=1), preempt=3, defs=["-DDESTROY"], cost=6),
       tso(push("d-w11-n2", "push and destruction, every interleaving", np=1, defs=["-DDESTROY"], cost=2)),
       tso(push("d-w21-n2", "2 + 1, at most 3 preemptions", params=prm(p0=2, p1=1), defs=["-DDESTROY"], preempt=3, cost=8)),
       tso(push("reborn-w21-n2", "constructed again in the same memory, at most 2 preemptions", params=prm(p0=2, p1=1), defs=["-DDESTROY", "-DREBORN"], preempt=2, cost=8)),
       push("d-mix-w21-n2", "push and push_all", params=prm(p0=2, p1=1), defs=["-DDESTROY", "-DMIX"], cost=4),
       push("d-w3x1", "3 writers, at most 2 preemptions", nw=3, np=1, defs=["-DDESTROY"], preempt=2, cost=6)],
    thorough=[tso(push("d-w21-n2", "2 + 1, every interleaving", params=prm(p0=2, p1=1), defs=["-DDESTROY"], cost=30, max_states=90000000)),
              tso(push("d-w22-n2", "2 x 2, at most 4 preemptions", defs=["-DDESTROY"], preempt=4, cost=40, max_states=90000000)),
              tso(push("reborn-w21-n2", "constructed again in the same memory, at most 4 preemptions", params=prm(p0=2, p1=1), defs=["-DDESTROY", "-DREBORN"], preempt=4, cost=40, max_states=90000000)),
              push("reborn-w22-n2", "2 x 2, every interleaving", defs=["-DDESTROY", "-DREBORN"], cost=60, max_states=90000000),
              push("reborn-w32-n2", "3 + 2, at most 5 preemptions", np=3, params=prm(p0=3, p1=2), defs=["-DDESTROY", "-DREBORN"], preempt=5, cost=60, max_states=90000000),
              push("reborn-w3x1-n2", "3 writers, at most 3 preemptions", nw=3, np=1, defs=["-DDESTROY", "-DREBORN"], preempt=3, cost=40, max_states=90000000),
              push("d-w33-n2", "3 + 3", np=3, params=prm(p0=3, p1=3), defs=["-DDESTROY"], cost=60, max_states=90000000),
              push("d-w3-211", "3 writers, 2+1+1 pushes, at most 3 preemptions", nw=3, params=prm(p0=2, p1=1, p2=1), defs=["-DDESTROY"], preempt=3, cost=40, max_states=90000000),
              crd("rd-w11-n3", "2 writers push, leave, and a reader goes on, at most 4 preemptions", nb=3, nw=2, params=prm(p0=1, p1=1, pre=1, presync=1), preempt=4, defs=["-DDESTROY"], cost=30, max_states=90000000),
              push("d-w3x1", "3 writers, at most 4 preemptions", nw=3, np=1, defs=["-DDESTROY"], preempt=4, cost=40, max_states=90000000)],
)

# ---------------------------------------------------------------- C07 sequential reader
def rd(name, what, nb, depth, nr=1, defs=(), mode="seq", **kw):
    return cfg(name, "seqreader.cpp", what + ", capacity %d, depth %d" % (nb, depth), mode=mode, defs=["-DNB=%d" % nb, "-DNR=%d" % nr] + list(defs), params=dict(depth=depth), **kw)

CHECKS["C07"] = dict(
    quick=[rd("n%d" % n, "every sequence of push, synchronize, pull, pop", n, d, cost=d) for n, d in ((1, 12), (2, 13), (3, 13), (4, 13))]
    + [rd("writer-n%d" % n, "events pushed by a writer", n, 11, defs=["-DWITH_WRITER"], graph=True, cost=8) for n in (2, 3)]
    + [rd("mix-n%d" % n, "events pushed by a writer and to the buffer itself", n, 8, defs=["-DWITH_WRITER", "-DMIX"], graph=True, cost=8) for n in (2, 3)]
    + [rd("r2-n%d" % n, "two readers", n, 8, nr=2, cost=6) for n in (2, 3)]
    + [rd("n3O2", "optimised build", 3, 11, mode="seqO2", cost=5),
       rd("removed-n2", "another consumer takes events away", 2, 8, defs=["-DWITH_REMOVE"], cost=6), rd("removed-n3", "another consumer takes events away", 3, 8, defs=["-DWITH_REMOVE"], cost=6),
       rd("removed-r2-n3", "another consumer, two readers", 3, 6, nr=2, defs=["-DWITH_REMOVE"], cost=6),
       rd("blocks-n300", "hundreds of events at a time", 300, 6, defs=["-DBLOCKS=1,255,256,299,300,301,302"], cost=8),
       rd("blocks-n3", "hundreds of events at a time through a small buffer", 3, 5, defs=["-DBLOCKS=1,3,4,255,256,65536"], cost=8),
       rd("blocks-n70000", "a buffer beyond 16 bits", 70000, 3, defs=["-DBLOCKS=1,65535,65536,70000,70001"], cost=8),
       rd("n2step", "1.07 s (2^30 ns) between two events", 2, 11, defs=["-DSTEP=0x40000000L"], cost=5), rd("n3step16", "2^14 ns between two events", 3, 11, defs=["-DSTEP=0x4000L"], cost=5),
       rd("removed-n2step", "1.07 s between two events, another consumer", 2, 7, defs=["-DSTEP=0x40000000L", "-DWITH_REMOVE"], cost=5),
       rd("n3stepnow", "1.07 s between two events, real-time timestamps", 3, 11, defs=["-DSTEP=0x40000000L", "-DBASE=1700000000000000000L"], cost=5),
       rd("n3now", "real-time timestamps (19 digits)", 3, 11, defs=["-DBASE=1700000000000000000L"], cost=5)],
    thorough=[rd("n%d" % n, "every sequence of push, synchronize, pull, pop", n, d, cost=d + 10) for n, d in ((1, 16), (2, 16), (3, 16), (4, 15), (5, 15))]
    + [rd("writer-n%d" % n, "events pushed by a writer", n, 14, defs=["-DWITH_WRITER"], graph=True, cost=20) for n in (2, 3, 4)]
    + [rd("r2-n%d" % n, "two readers", n, 10, nr=2, cost=20) for n in (2, 3)],
)

# ---------------------------------------------------------------- C08 readers against writers
CHECKS["C08"] = dict(
    quick=[lap("lap-n2", "a reader stopped anywhere while a writer pushes 1 to 20 events, twice", params=prm(lo=1, count=20, bursts=2, pre=2, rounds=2), defs=["-DREADER"], cost=5),
           lap("lap-n4-300", "1 to 300 events", nb=4, params=prm(lo=1, count=300, pre=3, rounds=2, pulls=3), defs=["-DREADER"], cost=5),
           lap("lap-n3-64k", "65534 to 65538 events", nb=3, params=prm(lo=65534, count=5, pre=3, pulls=3), defs=["-DREADER"], cost=5)]
    + [lap("lap-n300", "a buffer beyond 8 bits, 1 to 5 events", nb=300, params=prm(lo=1, count=5, pre=254, rounds=2, pulls=3), defs=["-DREADER"], cost=5),
       lap("lap-n300-lap", "a buffer beyond 8 bits, a whole lap", nb=300, params=prm(lo=298, count=6, pre=254, rounds=2, pulls=3), defs=["-DREADER"], cost=5)]
    + [crd("w%d-n%d" % (p, n), "1 writer x %d pushes against synchronize and pulls" % p, nb=n, params=prm(p0=p), cost=p) for n in (2, 3) for p in (2, 3, 4)]
    + [crd("w5-n%d" % n, "5 pushes", nb=n, params=prm(p0=5, rounds=2, pulls=3), cost=6) for n in (2, 3)]
    + [crd("w3-n2-pre%d" % k, "reader synchronized before the writer starts", params=prm(p0=3, pre=k, presync=k, rounds=2, pulls=2), cost=4) for k in (2, 3, 4)]
    + [crd("w3-n3-pre%d" % k, "reader synchronized before the writer starts", nb=3, params=prm(p0=3, pre=k, presync=k, rounds=2, pulls=3), cost=4) for k in (3, 4)]
    + [crd("w4-n2-late", "reader lagging behind", params=prm(p0=4, pre=3, presync=2, rounds=1, pulls=3), cost=4),
       crd("free-n2", "6 free choices of synchronize or pull against 4 pushes", defs=["-DFREE"], params=prm(p0=4, pre=2, presync=2, steps=6), cost=9),
       crd("free-n3", "6 free choices against 4 pushes", nb=3, defs=["-DFREE"], params=prm(p0=4, pre=3, presync=2, steps=6), cost=9),
       crd("step-n2", "1.07 s (2^30 ns) between two events", params=prm(p0=4, pre=2, presync=2, rounds=2, pulls=2, tick=1 << 30), cost=4),
       crd("step-free-n2", "the same, 4 free choices", defs=["-DFREE"], params=prm(p0=3, pre=2, presync=2, steps=4, tick=1 << 30), cost=5),
       lap("lap-n2-step", "1.07 s (2^30 ns) between two events, bursts of 1 to 20 events", params=prm(lo=1, count=20, bursts=2, pre=2, rounds=2, step=1 << 30), defs=["-DREADER"], cost=5),
       tso(crd("w3-n2", "1 writer x 3 pushes against synchronize and pulls", params=prm(p0=3), cost=4)),
       tso(crd("w2-n2-pre2", "reader synchronized before the writer starts", params=prm(p0=2, pre=2, presync=2, rounds=2, pulls=2), cost=8)),
       tso(crd("free-n2", "3 free choices against 2 pushes, at most 2 preemptions", defs=["-DFREE"], params=prm(p0=2, pre=2, presync=2, steps=3), preempt=2, cost=8)),
       crd("w2x1-n3", "2 writers x 1 push, reader already synchronized", nb=3, nw=2, params=prm(p0=1, p1=1, pre=3, presync=3, rounds=2), cost=12),
       crd("w2x2-n2", "2 writers x 2 pushes, at most 2 preemptions", nw=2, params=prm(p0=2, p1=2, pre=2, presync=2, rounds=2), preempt=2, cost=9),
       crd("r2-n2", "2 readers, at most 3 preemptions", nr=2, params=prm(p0=3, pre=2, presync=1), preempt=3, cost=8),
       crd("pop-n2", "1 writer against synchronize, pull and pop", defs=["-DFREE", "-DWITH_POP"], params=prm(p0=3, pre=2, presync=2, steps=4), cost=5),
       crd("pop-n3", "1 writer against synchronize, pull and pop", nb=3, defs=["-DFREE", "-DWITH_POP"], params=prm(p0=2, pre=3, presync=3, steps=3), cost=3)],
    thorough=[crd("w6-n%d" % n, "6 pushes", nb=n, params=prm(p0=6, rounds=3, pulls=3), cost=20, max_states=90000000) for n in (2, 3, 4)]
    + [crd("free8-n%d" % n, "8 free choices against 5 pushes", nb=n, defs=["-DFREE"], params=prm(p0=5, pre=3, presync=2, steps=8), cost=40, max_states=90000000) for n in (2, 3, 4)]
    + [tso(crd("w3-n%d-pre%d" % (n, n), "reader synchronized before the writer starts", nb=n, params=prm(p0=3, pre=n, presync=n, rounds=2, pulls=n), cost=50, max_states=90000000)) for n in (2, 3)]
    + [tso(crd("free-n2", "4 free choices against 3 pushes, at most 3 preemptions", defs=["-DFREE"], params=prm(p0=3, pre=2, presync=2, steps=4), preempt=3, cost=50, max_states=90000000)),
       tso(crd("w2x1-n3", "2 writers x 1 push, reader already synchronized, at most 2 preemptions", nb=3, nw=2, params=prm(p0=1, p1=1, pre=3, presync=3, rounds=2), preempt=2, cost=50, max_states=90000000)),
       crd("w2x2-n2", "2 writers x 2 pushes, at most 3 preemptions", nw=2, params=prm(p0=2, p1=2, pre=2, presync=2, rounds=2), preempt=3, cost=60, max_states=90000000),
       crd("w2x2-n3", "2 writers x 2 pushes, at most 3 preemptions", nb=3, nw=2, params=prm(p0=2, p1=2, pre=3, presync=3, rounds=2), preempt=3, cost=60, max_states=90000000),
       crd("r2-n2", "2 readers, at most 4 preemptions", nr=2, params=prm(p0=3, pre=2, presync=1), preempt=4, cost=60, max_states=90000000),
       crd("pop-n2", "1 writer against synchronize, pull and pop", defs=["-DFREE", "-DWITH_POP"], params=prm(p0=4, pre=2, presync=2, steps=5), cost=20, max_states=90000000)],
)

# ---------------------------------------------------------------- C09 trace cursor
CHECKS["C09"] = dict(
    quick=[cfg("n%d" % n, "cursor.cpp", "every window and cursor position at every ring position, capacity %d, all navigation sequences" % n, defs=["-DNB=%d" % n], params=dict(more=2), cost=n) for n in (1, 2, 3, 4, 5, 6)]
    + [cfg("n3O2", "cursor.cpp", "optimised build", mode="seqO2", defs=["-DNB=3"], params=dict(more=2)),
       cfg("n3now", "cursor.cpp", "real-time timestamps", defs=["-DNB=3", "-DBASE=1700000000000000000L"], params=dict(more=2)),
       cfg("n4step", "cursor.cpp", "events and instants seconds apart (multiples of 2^30 ns)", defs=["-DNB=4", "-DSTEP=0x40000000L"], params=dict(more=2)),
       cfg("n3step16", "cursor.cpp", "multiples of 2^14 ns", defs=["-DNB=3", "-DSTEP=0x4000L"], params=dict(more=2)),
       cfg("n300", "cursor.cpp", "capacity 300, windows, cursors and instants around 0, 1, 255, 256, N-1, N and N+1 events from either end, 4 operations", mode="seqO2", defs=["-DNB=300", "-DBIG=0,1,255,256,NB-1,NB,NB+1"], params=dict(more=1, depth=5), cost=9),
       cfg("n70000", "cursor.cpp", "capacity 70000 (positions beyond 16 bits), distances 0, 1, 65535, 65536 and N, 2 operations", mode="seqO2", defs=["-DNB=70000", "-DBIG=0,1,65535,65536,NB"], params=dict(more=1, depth=3), cost=9)],
    thorough=[cfg("n%d" % n, "cursor.cpp", "capacity %d" % n, defs=["-DNB=%d" % n], params=dict(more=3), cost=n) for n in (3, 4, 5, 6, 7, 8, 9)]
    + [cfg("n70000", "cursor.cpp", "capacity 70000, 3 operations", mode="seqO2", defs=["-DNB=70000", "-DBIG=0,1,65535,65536,NB"], params=dict(more=1, depth=4), cost=20)],
)

# ---------------------------------------------------------------- C10 connectives
CHECKS["C10"] = dict(
    quick=[cfg("all", "kleene.cpp", "every argument combination of every connective and conversion, two levels of nesting, boundary durations"),
           cfg("allO2", "kleene.cpp", "optimised build", mode="seqO2"),
           cfg("debug", "kleene.cpp", "debug build", defs=["-DRTMLIB_DEBUG=3"])],
    thorough=[],
)

# ---------------------------------------------------------------- C11..C15, C22 operators
SETS = dict(future="fset_future.h", past="fset_past.h", duration="fset_duration.h", nested="fset_nested.h", between="fset_between.h", long="fset_long.h", longpast="fset_longpast.h", longdur="fset_longdur.h", deepnest="fset_deepnest.h", matrix="fset_matrix.h")
VAR = {
    # name: (what, NB, EV, NSYM, NGAP, NOFF, FIRST, MAXT, TSTEP, extra defs)
    "base": ("all traces of up to 6 events over 3 symbols and gaps of 1 or 2", 5, 6, 3, 2, 1, 2, 12, 1, []),
    "over": ("more events than the buffer holds", 3, 6, 2, 2, 1, 2, 13, 1, []),
    "offs": ("every ring position", 3, 4, 2, 2, 4, 2, 9, 1, []),
    "overoffs": ("more events than the buffer holds, every ring position", 3, 6, 2, 2, 4, 1, 13, 1, []),
    "offs8": ("every ring position, 6 events", 6, 6, 2, 2, 7, 1, 12, 1, []),
    "offs5": ("every ring position of a larger ring", 5, 4, 2, 2, 6, 2, 9, 1, []),
    "big": ("nanosecond timestamps of today, bounds in seconds", 5, 5, 3, 2, 1, 2, 20, 500000000, ["-DUNIT=1000000000L", "-DBASE=1700000000000000000L", "-DDT=long"]),
    "far": ("events 4 s and more apart: gaps and bounds beyond 32 bits", 5, 5, 3, 2, 1, 2, 20, 2147483648, ["-DUNIT=4294967296L", "-DBASE=1700000000000000000L"]),
    "far31": ("gaps and bounds that need the 32nd bit", 5, 5, 3, 2, 1, 2, 20, 1500000000, ["-DUNIT=3000000000L"]),
    "wide": ("wide symbols that agree in their lower bits", 5, 5, 3, 2, 1, 1, 10, 1, ["-DDT=long", "-DSYMS=1,65537,4294967297L", "-DPB=65537"]),
    "long": ("traces of hundreds of events in two blocks", 700, 0, 3, 0, 3, 0, 16, 1, ["-DLONG_TRACE", "-DMAXEV=700", "-DBLOCKS=2", "-DLENS=1,255,256,257"]),
    "long3": ("traces of hundreds of events in three blocks", 800, 0, 3, 0, 2, 0, 16, 1, ["-DLONG_TRACE", "-DMAXEV=800", "-DBLOCKS=3", "-DLENS=1,2,127,128,255,256,257"]),
    "long0": ("short traces in a ring beyond 8 bits, not optimised", 300, 0, 3, 0, 2, 0, 16, 1, ["-DLONG_TRACE", "-DMAXEV=8", "-DBLOCKS=3", "-DLENS=1,2"]),
    "mid": ("timestamps crossing 2^32, four symbols", 5, 5, 4, 2, 1, 1, 9, 1, ["-DBASE=4294967292L", "-DDT=short"]),
    "gap": ("gaps up to 4", 5, 5, 2, 4, 1, 2, 15, 1, ["-DDT=unsigned char"]),
    "same": ("events at the same instant", 5, 5, 3, 3, 1, 2, 10, 1, ["-DMINIGAP=0"]),
    "mx": ("all traces of up to 5 events over 3 symbols and gaps of 1 or 2", 4, 5, 3, 2, 1, 2, 11, 1, []),
    "mxoffs": ("all traces of up to 4 events over 2 symbols at every ring position", 3, 4, 2, 2, 4, 1, 9, 1, []),
    "mx6": ("all traces of up to 6 events over 3 symbols and gaps of 1 or 2", 5, 6, 3, 2, 1, 2, 12, 1, []),
    "deep": ("all traces of up to 8 events over 2 symbols", 8, 8, 2, 2, 1, 1, 16, 1, []),
    "deep3": ("all traces of up to 7 events over 3 symbols", 7, 7, 3, 2, 1, 1, 14, 1, []),
    "over4": ("up to 9 events through a buffer of 4", 4, 9, 2, 2, 1, 1, 18, 1, []),
}

def rm(fset, var, mode="seq", suffix="", more=(), **kw):
    what, nb, ev, nsym, ngap, noff, first, maxt, tstep, extra = VAR[var]
    return cfg("%s-%s%s" % (fset, var, suffix), "rmtld.cpp", "%s operators: %s" % (fset, what), mode=mode,
               defs=["-DNB=%d" % nb, "-DEV=%d" % ev, "-DNSYM=%d" % nsym, "-DNGAP=%d" % ngap, "-DNOFF=%d" % noff, "-DFIRST=%d" % first, "-DMAXT=%d" % maxt, "-DTSTEP=%d" % tstep, '-DFSET="%s"' % SETS[fset]] + extra + list(more), **kw)

# a property looks only at what it is about
V_ONLY = ["-DNO_REVISED", "-DNO_SIDE"]
R_ONLY = ["-DNO_VERDICT", "-DNO_SIDE"]
S_ONLY = ["-DNO_VERDICT", "-DNO_REVISED", "-DPLACEMENT", "-DOTHER_TRACE"]

DBG = ["-include", "dbgnull.h", "-DRTMLIB_ENABLE_DEBUGV_RMTLD3", "-DRTMLIB_ENABLE_DEBUG_RMTLD3", "-DNDEBUG"]

def only(spec, defs):
    for t in ("quick", "thorough"):
        for c in spec[t]:
            if not c.get("all_checks"):
                c["defs"] = c["defs"] + defs
    return spec

def ops(s, lng):
    return dict(quick=[rm(s, v, cost=6 if v == "base" else 3) for v in ("base", "over", "offs", "big", "far", "far31", "mid", "gap", "same", "wide")] + [rm(s, "offs", mode="seqO2", suffix="-O2"), rm(s, "offs", suffix="-debug", more=DBG), rm(lng, "long0", cost=3), rm(s, "long0", cost=3), rm(lng, "long", mode="seqO2", cost=6)],
                thorough=[rm(s, v, cost=30) for v in ("deep", "deep3", "over4", "offs5")] + [rm(lng, "long3", mode="seqO2", cost=40)])

CHECKS["C11"] = only(ops("future", "long"), V_ONLY)
CHECKS["C12"] = only(ops("past", "longpast"), V_ONLY)
CHECKS["C13"] = ops("duration", "longdur")
CHECKS["C13"]["quick"] += [rm("deepnest", v, cost=5) for v in ("base", "over", "offs")]
only(CHECKS["C13"], V_ONLY)
ALL4 = ("future", "past", "duration", "nested")
CHECKS["C14"] = only(dict(
    quick=[rm(s, v, cost=6 if v == "base" else 3) for s in ALL4 for v in ("base", "over", "same", "gap", "big", "far")] + [rm("between", "base", cost=6), rm("between", "gap", cost=3)] + [rm("deepnest", v, cost=6) for v in ("base", "over", "same", "gap")]
    + [rm("nested", "offs", suffix="-debug", more=DBG)]
    + [rm("matrix", v, suffix=x, more=m, cost=6) for v in ("mx", "over") for x, m in (("", []), ("-past", ["-DMX_PAST"]))],
    thorough=[rm(s, v, cost=30) for s in ALL4 for v in ("deep", "deep3", "over4")] + [rm("between", "deep", cost=30)],
), R_ONLY)
CHECKS["C15"] = only(dict(
    quick=[rm(s, v, cost=4) for s in ALL4 for v in ("offs", "offs5", "overoffs")]
    + [rm("deepnest", v, cost=4) for v in ("offs", "overoffs")]
    + [rm("matrix", "mxoffs", suffix=x, more=m, cost=6) for x, m in (("", []), ("-past", ["-DMX_PAST"]))]
    + [rm(s, "offs", suffix="-debug", more=["-DRTMLIB_ENABLE_DEBUG_RMTLD3", "-DRTMLIB_ENABLE_DEBUGV_RMTLD3", "-DRTMLIB_DEBUG=3", "-DNO_REVISED", "-DPLACEMENT"], cost=4, all_checks=True) for s in ALL4],
    thorough=[rm(s, v, cost=30) for s in ALL4 for v in ("over4", "offs8")],
), S_ONLY)
CHECKS["C22"] = only(dict(
    quick=[rm("nested", v, cost=6 if v == "base" else 3) for v in ("base", "over", "offs", "big", "far", "far31", "mid", "gap", "same", "wide")]
    + [rm("matrix", v, suffix=x, more=m, cost=6) for v in ("base", "over", "mxoffs", "big", "gap", "same") for x, m in (("", []), ("-past", ["-DMX_PAST"]))]
    + [rm("deepnest", v, cost=6) for v in ("base", "over", "offs", "big", "gap", "same")] + [rm("between", v, cost=4) for v in ("base", "offs", "gap", "big")] + [rm("nested", "offs", mode="seqO2", suffix="-O2"), rm("nested", "offs", suffix="-debug", more=DBG)],
    thorough=[rm("matrix", v, suffix=x, more=m, cost=60) for v in ("deep", "deep3", "over4") for x, m in (("", []), ("-past", ["-DMX_PAST"]))] + [rm(s, v, cost=30) for s in ("nested", "deepnest", "between") for v in ("deep", "deep3", "offs5")] + [rm("nested", "over4", cost=30)],
), V_ONLY)

# ---------------------------------------------------------------- C16, C17 tasks
def tk(name, what, defs=(), **kw):
    return conc(name, "task.cpp", what, defs=defs, **kw)

CHECKS["C16"] = dict(
    quick=[tk("ops5", "every sequence of 5 of enable, disable, isRunning and waits, then disable and join, every interleaving", params=prm(ops=5)),
           tk("ops4-dur", "runs that take time", params=prm(ops=4, dur=3)),
           tk("ops4-spur", "with 2 spurious wake-ups", params=prm(ops=4, spurious=2)),
           tk("ops4-late", "with 1 late scheduling", params=prm(ops=4, late=1), cost=3),
           tk("alive3", "an enabled monitor runs", defs=["-DENABLE_AT_END"], params=prm(ops=3)),
           ] + [tk("storage%d" % v, "the monitor's storage held %d everywhere before it was constructed" % v, defs=["-DENABLE_AT_END"], params=prm(ops=2, fill=v)) for v in range(7)] + [
           tk("alive4-spur", "an enabled monitor runs, spurious wake-ups", defs=["-DENABLE_AT_END"], params=prm(ops=4, spurious=1)),
           tk("two-threads", "two controlling threads", params=prm(ops=3, ops2=2), cost=3),
           tk("two-monitors", "two monitors", defs=["-DNM=2"], params=prm(ops=3), cost=3),
           tk("no-thread", "the system refuses to create the thread (EAGAIN)", params=prm(ops=5, nothread=1, failcreate=11)),
           tk("no-thread-0", "the same, zeroed storage, two controlling threads", params=prm(ops=3, ops2=2, nothread=1, failcreate=11, fill=0)),
           ] + [tk("no-thread-p%dprio%d" % (a, b), "policy %d with priority %d, which the system refuses" % (a, b), params=prm(ops=4, nothread=1, policy=a, prio=b, fill=f)) for a, b, f in ((0, 5, 0), (1, 0, 0), (2, 100, 1), (9, 1, 2))] + [
           tk("fifo", "SCHED_FIFO, priority 99", params=prm(ops=3, policy=1, prio=99)),
           tk("setperiod", "the period changes in a run", params=prm(ops=4, setat=1, newperiod=500)),
           tk("ops7", "7 operations", params=prm(ops=7), cost=2), tk("ops5-late", "2 late schedulings, 1 spurious wake-up", params=prm(ops=5, late=2, spurious=1), cost=15),
           tk("alive6-spur", "6 operations, 2 spurious wake-ups", defs=["-DENABLE_AT_END"], params=prm(ops=6, spurious=2), cost=3),
           tk("two-threads43", "two controlling threads, 4 and 3 operations", params=prm(ops=4, ops2=3), cost=6), tk("two-monitors4", "two monitors, 4 operations", defs=["-DNM=2"], params=prm(ops=4), cost=5),
           tso(tk("ops5", "5 operations", params=prm(ops=5), cost=2)), tso(tk("ops4-dur", "runs that take time, a spurious wake-up", params=prm(ops=4, dur=3, spurious=1), cost=2)),
           tk("debug", "debug build", defs=["-DRTMLIB_DEBUG=3"], params=prm(ops=3))],
    thorough=[tk("ops9", "9 operations", params=prm(ops=9), cost=30), tk("ops6-late", "2 late schedulings, 1 spurious wake-up", params=prm(ops=6, late=2, spurious=1), cost=60, max_states=90000000),
              tk("alive8-spur", "8 operations, 2 spurious wake-ups", defs=["-DENABLE_AT_END"], params=prm(ops=8, spurious=2), cost=40, max_states=90000000),
              tk("two-threads54", "two controlling threads, 5 and 4 operations", params=prm(ops=5, ops2=4), cost=60, max_states=90000000),
              tk("two-threads-late", "two controlling threads, late scheduling, spurious wake-ups", params=prm(ops=3, ops2=3, late=1, spurious=1), cost=60, max_states=90000000),
              tk("two-monitors5", "two monitors, 5 operations", defs=["-DNM=2"], params=prm(ops=5), cost=40, max_states=90000000)],
)

def pe(name, what, defs=(), **kw):
    return conc(name, "period.cpp", what, defs=defs, **kw)

CHECKS["C17"] = dict(
    quick=[pe("p1ms", "period 1 ms, 5 periods, every choice of run times up to 2.3 periods", params=prm(periods=5)),
           pe("p1ms-spur", "with 2 spurious wake-ups", params=prm(periods=3, spurious=2)),
           pe("p1.5s", "period 1.5 s", params=prm(period=1500000, newperiod=1000000, dur=4)),
           pe("p999999", "period 999999 us", params=prm(period=999999)),
           pe("p1s", "period 1 s", params=prm(period=1000000, periods=4, dur=4)),
           pe("behind", "runs of 13.7 periods: far behind its releases", params=prm(periods=6, dur=5)), pe("behind-s", "runs of 13.7 periods of 1.1 s", params=prm(period=1100000, newperiod=1000000, periods=4, dur=5)),
           pe("two-1-2", "two monitors, periods 1 ms and 2 ms", params=prm(other=2000, dur=2, periods=2), cost=5), pe("two-1-1.7", "two monitors, periods 1.7 s and 1 ms, one run of the first", params=prm(period=1700, other=1000, dur=1, periods=2), cost=5),
           pe("pmax", "period 2^32 - 1 us", params=prm(period=4294967295, newperiod=5, dur=2)),
           pe("inrun2", "the period is changed in run 2", params=prm(setat=2, periods=4)),
           pe("inrun1-short", "a shorter period from run 1 on", params=prm(setat=1, newperiod=400)),
           pe("change", "the period is changed at 7 instants", params=prm(change=7, dur=2)),
           pe("change-short", "a shorter period at 7 instants", params=prm(change=7, newperiod=400, dur=2, periods=2), cost=3),
           pe("change-ms-s", "from 1 ms to 2 s", params=prm(change=3, newperiod=2000000, dur=2, periods=2)),
           pe("again", "enable() again while running", params=prm(again=1, dur=3)),
           pe("late", "2 late schedulings: lower bounds", params=prm(late=2, dur=2), cost=3),
           tso(pe("p1ms", "4 periods", params=prm(periods=4))),
           pe("p1ms-8", "8 periods", params=prm(periods=8), cost=5), pe("p1ms-spur3", "3 spurious wake-ups", params=prm(periods=5, spurious=3), cost=2),
           pe("change-short-9", "a shorter period at 9 instants", params=prm(change=9, newperiod=400, dur=4, periods=2), cost=10), pe("late3", "3 late schedulings: lower bounds", params=prm(late=3, dur=3), cost=9)],
    thorough=[pe("p1ms-9", "9 periods", params=prm(periods=9), cost=20, max_states=90000000), pe("p1ms-spur7", "7 periods, 3 spurious wake-ups", params=prm(periods=7, spurious=3), cost=20, max_states=90000000),
              pe("change-short-12", "a shorter period at 12 instants", params=prm(change=12, newperiod=400, dur=4, periods=2), cost=30, max_states=90000000), pe("late4", "4 late schedulings", params=prm(late=4, dur=3), cost=60, max_states=90000000)],
)

# ---------------------------------------------------------------- C23 scheduling parameters
CHECKS["C23"] = dict(
    quick=[conc("linux", "sched.cpp", "every policy and priority, two monitors, one constructed by the other; a system where threads inherit by default", preempt=0, params=prm(explicit=0)),
           conc("explicit", "sched.cpp", "the same on a system where the attributes of a new thread count by default", preempt=0, params=prm(explicit=1)),
           conc("explicit-late", "sched.cpp", "at most 1 preemption", preempt=1, params=prm(explicit=1), cost=4),
           conc("two", "sched.cpp", "two monitors with different policies constructed by two threads at the same time, at most 1 preemption", preempt=1, params=prm(two=1, explicit=1), cost=6)],
    thorough=[conc("two", "sched.cpp", "two monitors constructed by two threads at the same time, at most 2 preemptions", preempt=2, params=prm(two=1, explicit=1), cost=20, max_states=90000000)],
)

# ---------------------------------------------------------------- C18 the whole chain
def ee(name, what, nb=6, nw=1, np=3, defs=(), **kw):
    return conc(name, "e2e.cpp", what + ", capacity %d" % nb, defs=["-DNB=%d" % nb, "-DNW=%d" % nw, "-DNP=%d" % np] + list(defs), **kw)

def mo(name, formula, defs=(), nb=6, np=4, **kw):
    return conc(name, "monitor.cpp", "writer, task thread and reader together: " + formula, defs=["-DNB=%d" % nb, "-DNP=%d" % np, "-DFORMULA=" + formula] + list(defs), **kw)

CHECKS["C18"] = dict(
    quick=[ee("w2-n6", "10 formulas evaluated against 2 pushes", params=prm(p0=2), cost=4),
           ee("w2-n6-wrap", "the ring wraps", params=prm(p0=2, extra=4), cost=4),
           ee("w2-n6-t1000", "the instant asked about lies among the concurrent events", params=prm(p0=2, t=1001, rounds=2), cost=5),
           ee("w2-n3-pre3", "events are overwritten while being read", nb=3, params=prm(p0=2, pre=3), cost=4),
           ee("w3-n2", "a buffer of 2 overwritten", nb=2, params=prm(p0=3), cost=8),
           ee("sym-w2-n4", "events stored in two steps", nb=4, defs=["-DSYMDATA"], params=prm(p0=2, nsym=2, f0=0, f1=4), cost=6),
           ee("w11-n6", "2 writers x 1 push, at most 2 preemptions", nw=2, params=prm(p0=1, p1=1, nsym=1), preempt=2, cost=8),
           ee("m2-n4", "2 monitors evaluating any two of 10 formulas at the same time, at most 1 preemption", nb=4, defs=["-DNM=2"], params=prm(p0=1, nsym=1, pre=3), preempt=1, cost=6),
           ee("m2-n2", "2 monitors, overwritten, at most 1 preemption", nb=2, defs=["-DNM=2"], params=prm(p0=1, nsym=1, pre=3, t=999), preempt=1, cost=6),
           ee("same-n4-pat1", "2 monitors evaluating the same formula (any of 10) at any two of 3 instants, every interleaving", nb=4, defs=["-DNM=2"], params=prm(p0=0, pre=4, nt=3, same=1, still=1, pat=1), cost=2),
           ee("same-n4-pat2", "the same on other events", nb=4, defs=["-DNM=2"], params=prm(p0=0, pre=4, nt=3, same=1, still=1, pat=2), cost=2),
           ee("same-n4-pat5", "the same on other events", nb=4, defs=["-DNM=2"], params=prm(p0=0, pre=4, nt=3, same=1, still=1, pat=5), cost=2),
           ee("same-n4-nested", "the same, 6 nested formulas", nb=4, defs=["-DNM=2", "-DNESTED"], params=prm(p0=0, pre=4, nt=3, same=1, still=1, f0=10, f1=15), cost=2),
           ee("same-n4-nested-pat5", "the same, 6 nested formulas", nb=4, defs=["-DNM=2", "-DNESTED"], params=prm(p0=0, pre=4, nt=3, same=1, still=1, f0=10, f1=15, pat=5), cost=2),
           ee("still-n4", "2 monitors evaluating any two of 16 formulas, every interleaving of what they share", nb=4, defs=["-DNM=2", "-DNESTED"], params=prm(p0=0, pre=4, still=1), cost=4),
           ee("nested-w2-n6", "6 nested formulas evaluated against 2 pushes", defs=["-DNESTED"], params=prm(p0=2, f0=10, f1=15), cost=4),
           ee("nested-w2-n3-pre3", "6 nested formulas, events are overwritten while being read", nb=3, defs=["-DNESTED"], params=prm(p0=2, pre=3, f0=10, f1=15), cost=4),
           ee("w3-n6", "3 pushes", params=prm(p0=3), cost=16), ee("w3-n3-pre3", "3 pushes, overwriting", nb=3, params=prm(p0=3, pre=3), cost=15),
           mo("mon5", "Until<A,B,4>", np=5, cost=26),
           tso(ee("w1-n6", "10 formulas evaluated against 1 push, at most 2 preemptions", params=prm(p0=1), preempt=2, cost=6)),
           tso(ee("w2-n3-pre3", "events are overwritten while being read, at most 1 preemption", nb=3, params=prm(p0=2, pre=3), preempt=1, cost=8)),
           mo("mon-until", "Until<A,B,4>"), mo("mon-until-early", "Until<A,B,4>", params=prm(t=300)),
           mo("mon-always", "Always<Or<A,Since<True_,A,2>>,4>", params=prm(t=500)), mo("mon-dur", "Less<Dur<A,3>,Const<2>>", params=prm(t=400)),
           mo("mon-spur", "EvEq<B,2>", params=prm(t=300, spurious=1)), mo("mon-hist", "Hist<A,2>", params=prm(t=900))],
    thorough=[tso(ee("w2-n6", "10 formulas evaluated against 2 pushes, at most 2 preemptions", params=prm(p0=2), preempt=2, cost=50, max_states=90000000)),
              ee("m2-n2", "2 monitors, overwritten, at most 2 preemptions", nb=2, defs=["-DNM=2"], params=prm(p0=1, nsym=1, pre=3, f0=0, f1=4, t=999), preempt=2, cost=60, max_states=90000000),
              ee("w4-n6", "4 pushes", np=4, params=prm(p0=4), cost=60, max_states=90000000), ee("w4-n3-pre3", "4 pushes, overwriting", nb=3, np=4, params=prm(p0=4, pre=3), cost=60, max_states=90000000),
              ee("w11-n6", "2 writers x 1 push", nw=2, params=prm(p0=1, p1=1, nsym=1), cost=60, max_states=90000000),
              ee("w22-n4", "2 writers x 2 pushes, at most 2 preemptions", nb=4, nw=2, params=prm(p0=2, p1=2, nsym=1), preempt=2, cost=60, max_states=90000000),
              mo("mon6", "Until<A,B,4>", np=6, cost=30, max_states=90000000)],
)

# ---------------------------------------------------------------- C19, C20 events, time
CHECKS["C19"] = dict(
    quick=[cfg("int", "events.cpp", "all pairs of events over boundary values")] + [cfg(n, "events.cpp", "data type " + t, defs=["-DDATA=" + t]) for n, t in (("u8", "uint8_t"), ("short", "short"), ("long", "long"), ("uint", "unsigned"), ("dbl", "double"))]
    + [cfg("intO2", "events.cpp", "optimised build", mode="seqO2")],
    thorough=[],
)
CHECKS["C20"] = dict(
    quick=[cfg("all", "timespecs.cpp", "all pairs of boundary timespecs, periods and clock values"), cfg("allO2", "timespecs.cpp", "optimised build", mode="seqO2")],
    thorough=[],
)

# ---------------------------------------------------------------- C21 other targets
HW = ["-I" + PORT, "-fpermissive", "-include", "hw.h"]
RV = ["-I" + PORT, "-fpermissive", "-include", "riscv.h"]
RVN = ["-I" + PORT, "-fpermissive", "-include", "riscv_nothreads.h"]
ARM = ["-I" + PORT, "-fpermissive", "-include", "arm.h"]
ARMF = ["-I" + PORT, "-fpermissive", "-include", "arm_freertos.h"]
RVR = ["-I" + PORT, "-fpermissive", "-include", "riscv_rtems.h"]
X86 = ["-I" + PORT, "-fpermissive", "-include", "x86.h"]
LOW = ["-Wl,-Ttext-segment=0x20000000"]

def port(c, tag, defs, **kw):
    c = dict(c)
    c["name"] = tag + "-" + c["name"]
    c["what"] = "as " + tag + ": " + c["what"]
    c["defs"] = c["defs"] + defs
    c.update(kw)
    if tag == "riscv-rtems": # there the time is that of the monotonic clock
        c["params"] = dict(c.get("params", {}), mono=0)
    return c

def seqset(with_writer):
    r = [cfg("buf-n3", "seqbuf.cpp", "buffer, all operation sequences to the fixpoint", defs=["-DNB=3"]), 
         rd("reader-n3", "reader", 3, 11, cost=4), cfg("cursor-n3", "cursor.cpp", "cursor", defs=["-DNB=3"], params=dict(more=2)),
         cfg("copy-n2", "seqcopy.cpp", "assignment, to the fixpoint", defs=["-DNB=2"])]
    r += [rm(s, "offs", cost=3) for s in ("future", "past", "duration", "nested")]
    if with_writer:
        r += [cfg("bufw-n2", "seqbuf.cpp", "buffer with writers, depth 7", defs=["-DNB=2", "-DWITH_WRITER"], graph=True, params=dict(depth=7)), rd("readerw-n3", "reader and writer", 3, 10, defs=["-DWITH_WRITER"], graph=True, cost=4)]
    return r

PORTS = [("hw", HW, {}), ("riscv", RV, {}), ("arm", ARM, dict(ld=LOW)), ("x86", X86, dict(ld=LOW))]

CHECKS["C21"] = dict(
    quick=[port(c, "hw", HW) for c in seqset(False)]
    + [port(c, "riscv", RV) for c in seqset(True)]
    + [port(c, "arm", ARM, ld=LOW) for c in seqset(True)]
    + [port(push("w22-n2", "2 writers x 2 pushes, every interleaving", cost=4), "riscv", RV), port(push("w22-n2", "2 writers x 2 push_all", defs=["-DPUSH_ALL"], cost=3), "riscvnt", RVN), port(push("w22-n2", "2 writers x 2 pushes, every interleaving", cost=4), "arm-freertos", ARMF, ld=LOW),
       port(push("w22-n2", "2 writers x 2 pushes, at most 3 preemptions", preempt=3, cost=4), "arm", ARM, ld=LOW),
       port(push("aba-w31-n2", "3 pushes against 1: a state published again", np=3, params=prm(p0=3, p1=1), cost=4), "riscv", RV),
       port(push("aba-w31-n2", "3 pushes against 1: a state published again, at most 4 preemptions", np=3, params=prm(p0=3, p1=1), preempt=4, cost=4), "arm", ARM, ld=LOW),
       port(crd("creader-n2", "1 writer against a reader", params=prm(p0=3, pre=2, presync=2, rounds=2, pulls=2), cost=3), "riscv", RV),
       port(crd("creader-n2", "1 writer against a reader", params=prm(p0=3, pre=2, presync=2, rounds=2, pulls=2), cost=3), "arm", ARM, ld=LOW),
       port(tk("task", "enable, disable, join", params=prm(ops=4)), "riscv", RV), port(pe("period", "periodic runs", params=prm(periods=4)), "riscv", RV)]
    + [port(c, t, d, **k) for t, d, k in (("arm-freertos", ARMF, dict(ld=LOW)), ("riscv-rtems", RVR, {})) for c in (
        cfg("time", "timespecs.cpp", "time conversion and the clock"), push("w11-n2", "2 writers x 1 push", np=1, params=prm(clock=1)), crd("creader-n2", "1 writer against a reader", params=prm(p0=2, pre=2, presync=2)),
        tk("task", "enable, disable, join", params=prm(ops=4)), pe("period", "periodic runs", params=prm(periods=4)))]
    + [port(cfg("time", "timespecs.cpp", "time conversion and the clock"), t, d, **k) for t, d, k in (("hw", HW, {}), ("riscv", RV, {}), ("arm", ARM, dict(ld=LOW)))]
    + [port(c, "x86", X86, ld=LOW) for c in seqset(True)]
    + [port(c, "x86", X86, ld=LOW) for c in (
        push("w22-n2", "2 writers x 2 pushes, every interleaving", cost=4),
        push("aba-w31-n2", "3 pushes against 1: no state is published again", np=3, params=prm(p0=3, p1=1), cost=4),
        crd("creader-n2", "1 writer against a reader", params=prm(p0=3, pre=2, presync=2, rounds=2, pulls=2), cost=3),
        cfg("time", "timespecs.cpp", "time conversion and the clock"), push("clk-w11-n2", "2 writers x 1 push", np=1, params=prm(clock=1)),
        tk("task", "enable, disable, join", params=prm(ops=4)), pe("period", "periodic runs", params=prm(periods=4)))]
    + [port(push("clk-w11-n2", "2 writers x 1 push, the timer interrupt comes anywhere", np=1, params=prm(clock=1, now=999998)), "arm", ARM, ld=LOW),
       port(tk("task", "enable, disable, join", params=prm(ops=4)), "arm", ARM, ld=LOW), port(pe("period", "periodic runs", params=prm(periods=4)), "arm", ARM, ld=LOW)]
    + [port(c, t, d) for t, d in (("hw", HW), ("riscv", RV)) for c in (
        cfg("buf-n300", "seqbuf.cpp", "capacity 300", mode="seqO2", defs=["-DNB=300", "-DMACRO_OPS"], params=dict(depth=4), cost=4),
        cfg("buf-n70000", "seqbuf.cpp", "capacity 70000", mode="seqO2", defs=["-DNB=70000", "-DMACRO_OPS"], params=dict(depth=2), cost=4),
        rd("reader-n300", "hundreds of events", 300, 4, mode="seqO2", defs=["-DBLOCKS=1,255,256,299,300,301"], cost=4),
        cfg("cursor-n300", "cursor.cpp", "capacity 300", mode="seqO2", defs=["-DNB=300", "-DBIG=0,1,255,256,NB-1,NB"], params=dict(more=1, depth=3), cost=4))]
    + [port(c, t, d, **k) for t, d, k in PORTS for c in (
        cfg("events", "events.cpp", "all pairs of events over boundary values"), cfg("kleene", "kleene.cpp", "every connective and conversion"),
        rm("deepnest", "offs", cost=3), rm("between", "offs", cost=3), rm("matrix", "mxoffs", cost=4), rm("nested", "base", cost=4))]
    + [port(c, t, d, **k) for t, d, k in PORTS if t != "hw" for c in (
        push("d-w11-n3", "writers push and are destroyed, their memory is overwritten", np=1, nb=3, defs=["-DDESTROY"], cost=3),
        ee("chain-n6", "10 formulas evaluated against 2 pushes", params=prm(p0=2), cost=4),
        ee("chain-n3-pre3", "events are overwritten while being read", nb=3, params=prm(p0=2, pre=3), cost=4),
        ee("same-n4", "2 monitors evaluating the same formula", nb=4, defs=["-DNM=2"], params=prm(p0=0, pre=4, nt=3, same=1, still=1, pat=1), cost=2),
        mo("mon-until", "Until<A,B,4>"))]
    + [port(push("d-w21-n2", "writers push and are destroyed, their memory is overwritten", params=prm(p0=2, p1=1), defs=["-DDESTROY"], cost=4), "x86", X86, ld=LOW),
       port(lap("lap-n2", "a writer stopped anywhere while another one pushes 1 to 8 events", params=prm(lo=1, count=8, bursts=2, na=1, pre=2), cost=4), "x86", X86, ld=LOW)], # its state has a version counter; for the others see aba-w31-n2
    thorough=[port(c, t, d, **k) for t, d, k in PORTS for c in [rm(s, v, cost=6) for s in ("future", "past", "duration", "nested", "deepnest") for v in ("base", "over", "gap")] + [rm("matrix", "base", cost=6), rm("matrix", "base", suffix="-past", more=["-DMX_PAST"], cost=6), cfg("buf-n5", "seqbuf.cpp", "buffer, to the fixpoint", defs=["-DNB=5"], cost=5), cfg("copy-n3", "seqcopy.cpp", "assignment, to the fixpoint", defs=["-DNB=3"], cost=5), rd("reader-n3", "reader", 3, 14, cost=8)]]
    + [port(c, t, d, **k) for t, d, k in PORTS if t == "x86" for c in (
        push("w32-n2", "3 + 2 pushes, at most 4 preemptions", np=3, params=prm(p0=3, p1=2), preempt=4, cost=20, max_states=90000000),
        crd("w4-n2", "1 writer x 4 pushes against synchronize and pulls", params=prm(p0=4), cost=6),
        push("d-w22-n2", "2 x 2 pushes and destruction, at most 4 preemptions", defs=["-DDESTROY"], preempt=4, cost=20, max_states=90000000))],
)
