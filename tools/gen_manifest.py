#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T="deterministic simulation with fault injection: "
N={
"C01":("seeded call schedules (splits, reuse, interleaved objects) against reference hashes","independent models of all 16 hashes decide every digest byte; also runs past the 2^29, 2^32 byte counter carries in the marathon part, and outputs of more than 4 GiB"),
"C02":("seeded call schedules against reference keystreams","independent models of all native stream ciphers"),
"C03":("seeded call schedules on both sides of a mode, against reference modes","reference modes over a frozen copy of the block ciphers (which N01 leaves unverified)"),
"C04":("seeded call schedules and candidate tags against reference MACs","independent HMAC/OMAC/XCBC/Skein/Keccak models; altered tags of several shapes"),
"C05":("a simulated channel that loses, repeats, reorders, cuts, extends and corrupts between two seeded peers","reference EAX/EAX2; 18 kinds of channel fault"),
"C06":("seeded histories of rekeying, rounds, tweaks and use over several objects against per-step references","frozen copy of the block ciphers re-created from scratch for each configuration"),
"C07":("seeded preemptive scheduler at memory-access granularity, compared with each task alone","instrumented build: every edge, load and store is a preemption point; libc internals are atomic"),
"C08":("seeded preemptive scheduler over shared objects and descriptors, compared with each task alone","as C07, plus bit-for-bit comparison of the shared memory"),
"C09":("allocation failures at sampled and enumerated points of seeded histories, compared with the fault-free run","single failures exhaustively for short plans, sampled multiple and persistent failures"),
"C10":("allocation, open and read failures in seeded histories with a tracking allocator","every block and handle accounted; use after release by poisoned memory (AddressSanitizer as a sensor inside the simulator)"),
"C11":("seeded histories on exactly sized guarded buffers, with faults","AddressSanitizer as the access sensor inside the simulated heap, plus canaries; builds that trap on indices outside an array and on unaligned word accesses"),
"C12":("twin executions under different fillings of fresh and recycled heap and of the stack","equality of all results over four fillings and two optimisation levels"),
"C13":("twin executions differing in secret values only, comparing all memory at the release seam, with faults","byte comparison of every released heap block; stack contents are outside the property"),
"C14":("virtual step clock and access trace over seeded candidate tags","trace equality among all altered candidates (and within 32 steps of the equal one) at edge/load/store granularity of a clang -O2 build"),
"C15":("seeded device fault sequences behind stdio and behind the Windows generator functions; reads of more than 4 GiB","models the delivered byte stream; real glibc stdio over a simulated device; the Windows system functions are stand-ins over the same device"),
"C16":("seeded broken, faulty and healthy devices","own recomputation of the statistics with margins: borderline samples are not judged"),
"C17":("seeded volumes, clock jumps and allocation failures on the portable build","kripto_scrypt inside the generator is a stand-in, the rest is real"),
"C18":("seeded parameters, memory contents and allocation failures against reference PBKDF2/scrypt","independent models"),
"C19":("a simulated corrupting channel between padding peers against a reference unpadder","independent model"),
"C20":("virtual step clock with a work budget over seeded histories with faults, and proportional growth of the same call at 1, 4 and 16 times its work","budget is generous (see DESIGN.md), the growth check is not; counts edges, loads and stores of instrumented code"),
"C21":("the same seeded histories on differently configured builds","equality of all results between 7 (thorough: 10) builds, one of them without assertions"),
"C22":("seeded caller-supplied primitives that may fail, move and refuse, under every mode and construction, against reference constructions","stand-in primitives through the public descriptor structures (stubs, by design), the modes and constructions above them are real; limits: block sizes 1 to 255"),
"C23":("seeded histories of rekeying between extreme configurations with allocation failures, all queries repeated after the steps","limits compared with a table of the algorithms' own; unlimited lengths tried up to 100000 bytes"),
}
m={"version":1,"setup_cmd":"python3 check.py setup",
"checks":[{"property":k,"quick_cmd":"python3 check.py "+k,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+k,"technique":T+t,"level":"exploration","level_note":n+". Seeded sampling: no proof of absence."} for k,(t,n) in N.items()],
"not_applicable":[{"property":"N01","reason":"A block cipher's permutation is a pure function of rounds, key, tweak and block: no schedule, clock, I/O, allocation, fault or multi-party behaviour takes part in it, so there is nothing for a simulator to control; random sampling of inputs against a second implementation would be ordinary differential testing."}],
"notes":"No hooks in /repo: the seams are the library's undefined symbols (allocator, stdio, environment, clock), redirected when the checks link it."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
