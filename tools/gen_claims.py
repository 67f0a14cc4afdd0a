#!/usr/bin/env python3
"""Writes tools/claims.json: what MANIFEST.json says about each check."""
import json, os
MON = "Randomised and enumerated executions of the real code, judged step by step by the oracle; nothing is said about executions that were not driven. Case lists depend only on VERIF_SEED. "
READ = "Trusts the injected readers to behave legally (they are checked by the same monitor). "
C = []
def c(p, technique, note, level="exploration"):
    C.append({"property": p, "technique": technique, "level": level, "level_note": note})
model = "online reference-model monitor over call histories on instrumented readers"
c("B01", model, MON + READ + "Also real files and pipes; lengths to 2 MiB in quick, around every power-of-two block edge.")
c("B02", model + ", plus race detector with copies on separate goroutines", MON + READ)
c("B03", model + ", counts compared with the bytes later delivered", MON + READ + "Only true lengths are judged.")
c("B04", "trace specification over the calls the reader receives (close exactly once, by the last)", MON + "Histories over up to ~12 copies, failing Close, plus racing closers under the race detector.")
c("B05", model + " for the calls after Close, and a reader that records any call", MON)
c("B06", model + " with a read fault at enumerated and random positions", MON + READ + "Faults: permanent and transient, with and without data, failing internal seeks.")
c("B07", model + " with all origins and extreme offsets", MON + "Targets overflowing 64 bits excepted.")
c("B08", model + " with positional reads below, inside, at and beyond the end", MON + READ)
c("B09", model + " with faulty destinations (fail or short count at every position)", MON)
c("B10", "race detector, linearizability checking of recorded histories (stream partition, porcupine), deadlock analysis of goroutine dumps", MON + "Schedules are those the Go scheduler and injected delays produced; a deadlock verdict needs frozen goroutines on library locks, never the clock alone.")
c("B11", "heap measurement after forced collection at quiescent points, and read-ahead counted at the source", MON + "Bounds are slack (several blocks) so that the code may choose its own block size.")
c("B12", "decode-and-compare now and after other bodies were created, race detector on concurrent creation", MON)
c("B13", "enumeration of all reader capability combinations with discovery faults, monitored at the reader", MON)
c("B14", "online contract monitor inside the adopted reader (bytes asked for, calls after the end, overlapping calls counted)", MON + READ + "Overlap is looked for with slow readers; schedules are those the Go scheduler and injected delays produced.")
c("R01", "reference model of the builder compared after each Build", MON)
c("R02", "snapshots of every live builder and response compared after each step; race detector while serving copies", MON)
c("R03", "conservation between what was built and what a real client received (loopback HTTP/1.1 and HTTP/2)", MON + "Trusts net/http's server and client.")
c("R04", "trace specification over an instrumented writer and reader, a fault at every event position", MON + "For each generated response every event of its fault-free run is failed in turn, and pairs are sampled.", "fault_enumeration")
c("R05", "trace specification over the event log of an instrumented response writer", MON)
c("R06", "trace specification over the event log of an instrumented response writer", MON)
c("R07", "conservation between the accounting reported and the instrumented writer's log, with write faults at random and enumerated positions", MON + "Bytes of a forwarded call that panicked are a listed finding.")
c("R08", "trace specification over the event log, and real HEAD/204/304 exchanges over loopback", MON + "Trusts net/http.")
c("R09", "enumeration of all 32 capability combinations, results and arguments of every forwarded call compared", MON)
c("R10", "reference model of the generated pages, markup tokenised and compared", MON)
c("H01", "real servers and clients under fault injection in handlers, with probes on healthy connections; race detector", MON + "Trusts net/http; deadlines only make a run inconclusive.")
c("H02", "one-to-one matching of hook calls with failed requests", MON)
c("H03", "conservation between prometheus collectors, writers and clients", MON)
c("H04", "comparison of what the client's HTTP library accepted as complete with what was sent, a reader fault at every kind of position", MON + "The undeclared-length case is a listed finding.")
c("H05", "conservation between the request given to the adaptor and the one the handler observes; echo over real servers, many requests at once", MON + "Trusts net/http.")
c("M01", "script and single-step-deviation generator with an accept/reject oracle; concurrent callers under the race detector", MON)
json.dump(C, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.json"), "w"), indent=1)
