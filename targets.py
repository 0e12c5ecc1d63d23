"""What is compiled, linked and explored for each property."""
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
DEFS = ["-DVDF_MODE=0", "-DNDEBUG", "-DFAST_MACHINE=1", "-DCHIAVDF_SIM", '-DCHIAVDF_VERSION="dev"']
OBJ, TARGETS, CHECKS = {}, {}, {}


def sut(name, src, flags=(), weight=10, asan=False, cc="clang++", std="-std=c++17", opt="-O1", cov=True):
    OBJ[name] = dict(sut=True, weight=weight, cmd=[cc, std, "-g", opt] + DEFS + ["-include", "@SIM@/sim_pre.h"] + (COV if cov else []) +
                     (["-fsanitize=address"] if asan else []) + list(flags) + ["-w", "-c", src, "-o", "@OUT@"])
    return name


def harness(name, src=None, flags=()):
    OBJ[name] = dict(sut=False, weight=5, cmd=["clang++", "-std=c++17", "-O2", "-g", "-Wall"] + list(flags) + ["-c", src or "@SIM@/%s.cpp" % name, "-o", "@OUT@"])
    return name


CORE = [harness(n) for n in ("dsim", "interpose", "runner", "ref")]
OBJ["lzcnt"] = dict(sut=True, cmd=["clang", "-std=c11", "-O2", "-w", "-c", "@SRC@/refcode/lzcnt.c", "-o", "@OUT@"])
LIBS = ["-lgmpxx", "-lgmp", "-lpthread", "-ldl"]


def target(name, objs, asan=False, pre=(), libs=()):
    TARGETS[name] = dict(objs=list(objs) + CORE, pre=["-no-pie"] + (["-fsanitize=address"] if asan else []) + list(pre), link=list(libs) + LIBS)


# ---- whole vdf_client sessions (portable squaring path)
harness("scen_client")
for a in (False, True):
    n = "client_asan" if a else "client_plain"
    sut("sut_" + n, "@SRC@/vdf_client.cpp", ["-DCHIA_DISABLE_ASM", "-Dmain=sut_main"], asan=a, weight=30 if a else 20)
    target(n, ["sut_" + n, "lzcnt", "scen_client"], asan=a)

# ---- provers driven directly
harness("scen_prover")
for a in (False, True):
    n = "prover_asan" if a else "prover_plain"
    sut("sut_" + n, "@SIM@/sut_prover.cpp", ["-I@SRC@", "-DCHIA_DISABLE_ASM"], asan=a, weight=15)
    target(n, ["sut_" + n, "lzcnt", "scen_prover"], asan=a)

# ---- library calls
harness("scen_capi")
for a in (False, True):
    n = "capi_asan" if a else "capi_plain"
    sut("sut_" + n, "@SIM@/sut_capi.cpp", ["-I@SRC@", "-DCHIA_DISABLE_ASM"], asan=a, weight=12)
    target(n, ["sut_" + n, "lzcnt", "scen_capi"], asan=a)

# ---- the accelerated squaring path with its generated assembly
# Stores of the generated gcd routine become preemption points: a call that keeps all state is put behind each.
OBJ["asm_parts"] = dict(sut=True, weight=40, shell=True, cmd=[r"""
D=$(mktemp -d @B@/asm.XXXXXX); trap 'rm -rf "$D"' EXIT
g++ -std=c++17 -O0 -w -DVDF_MODE=0 -DFAST_MACHINE=1 -I@SRC@ @SRC@/compile_asm.cpp -o $D/c -lgmpxx -lgmp -lpthread
cd $D; ./c; ./c avx2; ./c avx512
for f in asm_compiled avx2_asm_compiled avx512_asm_compiled; do
  sed -E '/func_gcd_unsigned:/,$ { /: (JMP|CALL|CMP|TEST|PREFETCH[A-Z0-9]*|NOP) /! s/^([^#]*: [A-Z0-9]+ (QWORD PTR )?\[R(AX|BX|CX|DX|SI|DI|BP|[0-9]+)[^#]*)(#.*)?$/\1\nlea rsp,[rsp-2048]\ncall dsim_asm_tramp\nlea rsp,[rsp+2048]/ }' $f.s > i_$f.s
  gcc -c i_$f.s -o $f.o
done
ld -r -o @OUT@ asm_compiled.o avx2_asm_compiled.o avx512_asm_compiled.o
"""])
harness("scen_fast"); harness("asm_tramp")
sut("sut_fast", "@SIM@/sut_fast.cpp", ["-I@SRC@"], weight=25)
target("fast", ["sut_fast", "asm_parts", "asm_tramp", "lzcnt", "scen_fast"])

# ---- the hardware timelord client with a simulated chip
harness("scen_hw")
HW = ["hw/hw_vdf_client", "hw/hw_proof", "hw/hw_interface", "hw/chia_driver", "hw/ftdi_driver", "hw/vdf_driver", "hw/hw_util", "hw/pll_freqs", "hw/emu_funcs", "vdf_base", "prover_runtime"]
for a in (False, True):
    n = "hw_asan" if a else "hw_plain"
    objs = [sut("sut_%s_%s" % (n, f.split("/")[-1]), "@SRC@/%s.cpp" % f, ["-I@SRC@", "-I@SRC@/hw", "-I@SIM@/hwstub", "-DCHIA_DISABLE_ASM", "-Dmain=hw_sut_main"], asan=a, weight=12 if f in HW[:2] else 4) for f in HW]
    target(n, objs + ["lzcnt", "scen_hw"], asan=a)

CLIENT_REAL = ["vdf_client.cpp: main, session handling, request parsing, answer framing", "vdf.h: ProverManager, ProveOneWesolowski, ProveTwoWeso, repeated_square",
               "provers.h, prover_impl.hpp, callback.h, fast_storage.h, nucomp.h (portable path), Reducer.h, bqfc.c, proof_common.h", "boost::asio, libstdc++ threads, GMP"]
CLIENT_STUBS = ["the operating system below libc: socket, poll, recv/send, mutex/condition/thread/sleep/clock calls are answered by the simulator", "the timelord peer is simulated",
                "number of processors, segment count and proving threads are drawn per run", "the 2-weso constants are scaled down a thousandfold by the CHIAVDF_SIM guard"]
CLIENT_ASSUME = ["sequentially consistent memory: weak-memory reorderings are not simulated", "preemption at every memory access and basic block of instrumented code; GMP and libstdc++ internals run without preemption",
                 "discriminants of 64 to 256 bits stand for the 1024-bit ones in use", "an independent GMP implementation of forms, hashing and serialization (sim/ref.cpp) is the oracle"]


def check(prop, parts, rule, quick=60, thorough=900, real=CLIENT_REAL, stubs=CLIENT_STUBS, assume=CLIENT_ASSUME):
    CHECKS[prop] = dict(parts=parts, rule=rule, quick_secs=quick, thorough_secs=thorough, real=real, stubs=stubs, assumptions=list(assume))


R = ("A case is one whole client session: plan (mode, discriminant, requests and their timing, faults) and schedule drawn from one seed. ")
P, A = "client_plain", "client_asan"
check("C01", [dict(target=P, share=1)], R + "Non-trivial: at least one answer arrived and was compared with the reference.",
      assume=CLIENT_ASSUME + ["proving threads lag the squaring loop by less than 20 segments (kept so by throttling the squaring thread)"])
check("C02", [dict(target=P, share=1)], R + "Non-trivial: at least one answer arrived and was compared with the reference; liveness is judged within a step budget after faults stop.",
      assume=CLIENT_ASSUME + ["proving threads lag the squaring loop by less than 20 segments (kept so by throttling the squaring thread)"])
check("C03", [dict(target=P, share=1)], R + "Non-trivial: at least one answer arrived and was compared with the reference.")
check("C04", [dict(target=P, share=0.6), dict(target=A, share=0.4)], R + "Half of the sessions exceed a hundred distinct counts. Non-trivial: at least one answer arrived.")
check("C05", [dict(target=P, share=0.7), dict(target=A, share=0.3)], R + "Non-trivial: the answer arrived and was compared with the reference.")
check("C06", [dict(target=P, share=0.8), dict(target=A, share=0.2)], R + "The stop request comes at an arbitrary instant. Non-trivial: the session reached its end.")
check("C07", [dict(target=P, share=0.4), dict(target=A, share=0.6)], R + "Every session loses or meets a misbehaving peer. Non-trivial: the session reached its end.")
check("C08", [dict(target=P, share=1)], R + "Short writes and fragments are frequent. Non-trivial: at least one answer arrived.")
check("C11", [dict(target=P, share=0.8), dict(target=A, share=0.2)], R + "The machine reports 16 to 64 processors, so intermediates are stored by six background threads. Non-trivial: at least one answer was compared with the reference, or a stop at an arbitrary instant was followed to the end.")

PROVER_STUBS = ["mutex/condition/thread/sleep/clock calls are answered by the simulator", "the manager that starts, pauses, resumes and stops proofs is simulated"]
PROVER_ASSUME = CLIENT_ASSUME[:3] + [CLIENT_ASSUME[3]]
check("C12", [dict(target="prover_plain", share=0.7), dict(target="prover_asan", share=0.3)],
      "A case is one history of up to three concurrent segment proofs (2^16 or 2^18) with pause, resume, stop and wait calls at arbitrary instants. Non-trivial: at least one finished proof was verified or one was stopped.",
      real=["provers.h: InterruptableProver", "prover_impl.hpp: GenerateProof", "callback.h: FastAlgorithmCallback (stored intermediates)", "vdf.h: event notification", "libstdc++ threads, GMP"], stubs=PROVER_STUBS, assume=PROVER_ASSUME)
check("C16", [dict(target="prover_plain", share=0.7), dict(target="prover_asan", share=0.3)],
      "A case is one two-thread proof with arbitrary length, block size and split, values that may arrive late and possibly a stop at an arbitrary instant. Non-trivial: the proof was verified or the stop was followed to the end.",
      real=["prover_impl.hpp: ParallelProver", "nucomp.h, Reducer.h, xgcd_partial.c", "libstdc++ threads, GMP"], stubs=["thread calls are answered by the simulator", "the source of intermediate values is a table"], assume=PROVER_ASSUME)

CAPI_REAL = ["c_bindings/c_wrapper.cpp", "prover_slow.h", "verifier.h, create_discriminant.h, proof_common.h", "nucomp.h, xgcd_partial.c, Reducer.h, bqfc.c, integer_common.h", "libstdc++, GMP"]
CAPI_ASSUME = ["sequentially consistent memory: weak-memory reorderings are not simulated", "preemption at every memory access and basic block of instrumented code; GMP and libstdc++ internals run without preemption",
               "what a call returns alone is taken from the same call in a process of its own; proofs are also checked by an independent GMP implementation (sim/ref.cpp)"]
check("C13", [dict(target="capi_plain", share=0.85), dict(target="capi_asan", share=0.15)],
      "A case is up to three concurrent proving calls with markers that stay, disappear at an arbitrary point of the work or never exist, and interrupted marker checks. Non-trivial: a full proof was verified or a cancelled call was timed.",
      real=CAPI_REAL, stubs=["the file-status calls are answered by the simulator from the state of the scratch marker files"], assume=CAPI_ASSUME + ["work after the marker disappears is measured in instrumented steps, calibrated per discriminant, with a margin of 15 percent"])
check("C14", [dict(target="capi_plain", share=0.75), dict(target="capi_asan", share=0.25)],
      "A case is two to six threads, started and ended at arbitrary times, issuing a mix of library calls drawn from a pool of about 150. Non-trivial: at least two calls were compared with the same call run alone.",
      real=CAPI_REAL, stubs=["thread calls are answered by the simulator"], assume=CAPI_ASSUME)
check("C15", [dict(target="capi_plain", share=0.6), dict(target="capi_asan", share=0.4)],
      "A case is a sequence of C API calls, in one to three threads, in which the n-th allocation inside a call fails once or from then on. Non-trivial: an allocation failed inside at least one call.",
      real=CAPI_REAL, stubs=["operator new is the simulator's; GMP's own blocks are counted but never refused"], assume=CAPI_ASSUME + ["only C++ allocations fail: GMP aborts the process when its own do"])

FAST_REAL = ["vdf_fast.h: square_state_type, repeated_square_fast and its two threads", "threading.h: counters, fences, matrix application", "asm_gcd_unsigned.h and the rest of the generated assembly (both the plain and the AVX2 one), avx512_integer.h where the processor has it", "vdf.h: repeated_square; callback.h: 1- and 2-weso callbacks; vdf_original.h", "GMP"]
FAST_STUBS = ["thread calls are answered by the simulator", "the spin limit and the batch length are drawn per run (guard CHIAVDF_SIM)", "a copy of the generated assembly text gets a preemption point behind each store of the gcd routine"]
FAST_ASSUME = ["sequentially consistent memory: weak-memory reorderings are not simulated (the generated assembly only runs on x86)", "discriminants of 256 to 1024 bits; exact values come from an independent GMP implementation (sim/ref.cpp)"]
check("C09", [dict(target="fast", share=1)],
      "A case is one call of the pipeline (up to 30 squarings) or one run of the squaring loop (up to 80), from a power of the generator, with a spin limit, stalls and a schedule drawn from one seed. Non-trivial: at least one squaring was counted and compared with the reference.",
      real=FAST_REAL, stubs=FAST_STUBS, assume=FAST_ASSUME)
check("C10", [dict(target="fast", share=1)],
      "As for C09, with one to three bits of the pipeline's integers turned over while its two threads run, at an arbitrary step or at the code's own injection points. Non-trivial: squarings were counted and compared, or corruption was reported and the input found unchanged.",
      real=FAST_REAL, stubs=FAST_STUBS, assume=FAST_ASSUME + ["the corrupted integers keep a valid GMP header and sign", "integers are corrupted while both threads run and not while a value is being copied out to the observer"])

HW_REAL = ["hw/hw_vdf_client.cpp: connections, requests, main loop", "hw/hw_proof.cpp: value validation and repair, proof threads", "hw/hw_interface.cpp, hw/vdf_driver.cpp, hw/chia_driver.cpp, hw/ftdi_driver.cpp, hw/hw_util.cpp, hw/pll_freqs.cpp", "prover_impl.hpp, vdf_base.cpp, nucomp.h, Reducer.h", "libstdc++ threads, GMP"]
HW_STUBS = ["the chip: a model behind the USB bridge library (sim/hwstub, sim/scen_hw.cpp) that squares by table and returns its redundant 16-bit digit encoding", "sockets: a simulated loopback network with one listener and up to three timelord connections", "clock, sleeps, mutexes, threads", "interval between stored values, checkpoint threshold and job length are variables (guard CHIAVDF_SIM), so that a session needs thousands instead of millions of squarings"]
HW_ASSUME = ["sequentially consistent memory: weak-memory reorderings are not simulated", "preemption at every memory access and basic block of instrumented code; GMP and libstdc++ internals run without preemption",
             "sessions of at most 60000 squarings over 64 to 1024 bit discriminants"]
def hwcheck(prop, rule, more):
    check(prop, [dict(target="hw_plain", share=0.7), dict(target="hw_asan", share=0.3)], "A case is one run of the whole hardware client: up to three connections, their requests, the chip's faults and the schedule drawn from one seed. " + rule, real=HW_REAL, stubs=HW_STUBS, assume=HW_ASSUME + more)
hwcheck("C17", "Chip faults are frequent. Non-trivial: at least one answer was compared with the reference.",
        ["a chip value that is itself a form of the discriminant with a plausible count can only be noticed by recomputing it; the process may then end itself rather than answer"])
hwcheck("C18", "Chip faults end before the fair phase. Non-trivial: at least one answer arrived.", ["wrong chip values are ones that can be recognised as wrong (not another form of the same discriminant)", "liveness is judged within a step budget after faults stop"])
hwcheck("C19", "Connections are cut, stopped, slow or malformed at arbitrary bytes. Non-trivial: at least one session was opened.", ["liveness is judged within a step budget after faults stop"])
