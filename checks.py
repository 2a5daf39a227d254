"""Registry of checks: which sources and which harness decide which property."""
import os
BASE = ("stateless exhaustive exploration of the real code: every choice sequence of the driver within the stated bounds is executed on "
        "the library built from /repo (AddressSanitizer, tracked allocator, virtual descriptors) and compared step by step with %s")
NOTE = ("Exhaustive within the bounds printed in the evidence file (alphabet, length, deviation budget); nothing is said about values outside "
        "the alphabet. Trusts the reference in harness/ref.hpp, gcc, AddressSanitizer. ")
def chk(harness, oracle, note="", **kw):
    return dict(harness=harness, technique=BASE % oracle, note=NOTE + note, **kw)
PTHREAD = ["pthread_%s=vt_%s" % (s, s) for s in ("mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock mutexattr_init mutexattr_settype mutexattr_destroy "
           "cond_init cond_destroy cond_wait cond_timedwait cond_signal cond_broadcast condattr_init condattr_destroy condattr_setclock "
           "attr_init attr_destroy attr_setdetachstate self equal create join detach").split()] + \
          ["%s=vt_%s" % (s, s) for s in "usleep sleep nanosleep clock_nanosleep gettimeofday clock_gettime time".split()] + ["sched_yield=vt_yield"]
VOS = ["%s=vo_%s" % (s, s) for s in ("pipe pipe2 close dup dup2 fcntl read write recv send recvfrom sendto select poll socket bind listen accept setsockopt shutdown connect "
       "waitpid kill getcwd chdir sigpending sigtimedwait sigwait signal sigaction").split()] + \
      ["posix_spawnp=vo_spawnp", "posix_spawn=vo_spawn", "pthread_sigmask=vo_sigmask", "sigprocmask=vo_sigprocmask", "fcntl64=vo_fcntl64"] + \
      ["posix_spawn_file_actions_%s=vo_fa_%s" % (s, s) for s in "init destroy addclose adddup2".split()]
MEX = ["-DOCTAVE", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "mex")]
OPENCV = ["-I/usr/include/opencv4"]
CLIENT = ["support/client/%s.cpp" % s for s in ("client", "process", "threads", "timer")]
CHECKS = {
    "M01": chk(["m01.cpp"], "the message content that was sent"),
    "M02": chk(["m02.cpp"], "a reference line parser and reference protocol automata"),
    "M03": chk(["m03.cpp"], "AddressSanitizer, the tracked allocator (leaks, double release), a bound on I/O calls and time, and the well-formedness of everything returned"),
    "M04": chk(["m04.cpp"], "a reference prediction under every stream cut, short transfer, EINTR and error within the deviation budget"),
    "M05": chk(["m05.cpp"], "the bytes that crossed the virtual descriptors, under all transport behaviours within the deviation budget"),
    "C01": chk(["c01.cpp"], "a std::map reference observed through every accessor after every operation"),
    "C02": chk(["c02.cpp"], "a reference vector of region descriptions and property maps"),
    "I01": chk(["i01.cpp"], "the image content that was created and, for the wire text, the documented encoding"),
    "I02": chk(["i02.cpp"], "a byte-level reference of the pixel rows and a reference channel map"),
    "R01": chk(["r01.cpp"], "the region that was encoded and a reference decoder of the textual forms"),
    "R02": chk(["r02.cpp"], "the documented limits and exact reference pixel sets"),
    "R03": chk(["r03.cpp"], "exact geometric predicates"),
    "R04": chk(["r04.cpp"], "exact pixel sets computed with rational arithmetic"),
    "R05": chk(["r05.cpp"], "exact pixel sets computed with rational arithmetic, the older rule with integers"),
    "S01": chk(["s01.cpp"], "a reference server automaton"),
    "S02": chk(["s02.cpp"], "a reference client automaton"),
    "M06": chk(["m06.cpp"], "simulated sockets: what a connection can be, given when the peer connects, which call fails and when signals arrive", "Trusts the simulation of the socket calls (Linux: select() reports the remaining time).", redef=["%s=ms_%s" % (s, s) for s in "socket setsockopt getsockopt connect listen select poll accept sleep usleep nanosleep time clock_gettime gettimeofday".split()]),
    "S03": chk(["s03.cpp"], "the declared capabilities"),
    "S04": chk(["s04.cpp"], "the actions of the other peer, two real handles being driven as fibers"),
    "S05": chk(["s05.cpp"], "a reference of termination, a count of live allocations and of open descriptors"),
    "S07": chk(["s07.cpp"], "what each of two operations gives alone", "The interruption points are the basic blocks that gcc makes of the library (-O0), not single instructions.", cflags=["-O0", "-fsanitize-coverage=trace-pc"]),
    "S06": chk(["s06.cpp"], "the same session without the refused calls"),
    "W01": chk(["w01.cpp"], "the values last given to each object, and the counts of live allocations (malloc and operator new)"),
    "W02": chk(["w02.cpp"], "the same history run through the C functions"),
    "P05": chk(["p05.cpp"], "a monitor of who is inside and what was notified, the real locks and signals running on simulated threads under a controlled scheduler with virtual time",
               "Preemption happens at synchronisation and time calls only.", repo=["support/client/threads.cpp"], redef=PTHREAD),
    "P06": chk(["p06.cpp"], "the entries that were saved", "The file is a real one in shared memory (or /tmp), removed afterwards.", repo=["src/*.c", "src/*.cpp"] + CLIENT),
    "P02": chk(["p02.cpp"], "a reference tokenizer and environment, seen through a virtual posix_spawn and a simulated tracker that must be able to answer", "", repo=["src/*.c", "src/*.cpp"] + CLIENT, redef=PTHREAD + VOS),
    "P01": chk(["p01.cpp"], "a simulated tracker process and a monitor of results, time, descriptors, processes and threads", "Preemption happens at synchronisation, time and I/O calls only.", repo=["src/*.c", "src/*.cpp"] + CLIENT, redef=PTHREAD + VOS),
    "P04": chk(["p04.cpp"], "the lines that a simulated tracker prints and receives", "Preemption happens at synchronisation, time and I/O calls only.", repo=["src/*.c", "src/*.cpp"] + CLIENT, redef=PTHREAD + VOS),
    "P09": chk(["p09.cpp"], "simulated trackers that know which session they belong to and check what they get", "Preemption happens at synchronisation, time and I/O calls only.", repo=["src/*.c", "src/*.cpp"] + CLIENT, redef=PTHREAD + VOS),
    "P03": chk(["p03.cpp"], "a virtual process table that records every pipe, close, spawn, wait and signal", "Child events happen between calls and at system calls.", repo=["support/client/process.cpp", "support/client/threads.cpp"], redef=PTHREAD + VOS),
    "P07": chk(["p07.cpp"], "a reference run of the experiment that the switches and files describe: the calls that a scripted tracker sees, the output and the timings", "The tracker process is replaced by a scripted one with the same interface; time is virtual. Trusts the installed OpenCV for sample images.", includes=["support/client/cli.cpp"], repo=["src/*.c", "src/*.cpp", "support/opencv/opencv.cpp"] + CLIENT, cflags=OPENCV, hflags=OPENCV, libs=["-lopencv_imgcodecs", "-lopencv_imgproc", "-lopencv_core"]),
    "P08": chk(["p08.cpp"], "the picture of the repository and the conversation that the protocol prescribes, with a scripted tracker that can fail or end the session at every call", "The tracker process is replaced by a scripted one with the same interface.", includes=["support/client/tester.cpp"], repo=["src/*.c", "src/*.cpp", "support/client/tester_resources.c"] + CLIENT, cflags=OPENCV, hflags=OPENCV, libs=["-lopencv_imgcodecs", "-lopencv_imgproc", "-lopencv_core"]),
    "L01": chk(["l01.cpp"], "the same operation in the standard locale", "The locales are made with localedef from the definitions that are installed.", repo=["src/*.c", "src/*.cpp"] + CLIENT, redef=PTHREAD + VOS),
    "T02": chk(["t02.cpp"], "the pixels, coordinates and masks that were put in, read directly from the matrices and regions", "Trusts the installed OpenCV.",
               repo=["src/*.c", "src/*.cpp", "support/opencv/opencv.cpp"], cflags=OPENCV, hflags=OPENCV, libs=["-lopencv_imgcodecs", "-lopencv_imgproc", "-lopencv_core"]),
    "T03": chk(["t03.cpp"], "the values that a real C client sends and receives, and a reference run of the callback loop over a scripted tracker", "MATLAB and Octave are replaced by a strict implementation of the MEX interface (lib/mex).",
               includes=["support/matlab/traxserver.cpp", "support/matlab/traxclient.cpp", "support/matlab/helpers.h"], repo=["src/*.c", "src/*.cpp", "support/matlab/helpers.cpp"] + CLIENT, cflags=MEX, hflags=MEX),
    "T01": dict(runner="t01", technique="stateless exhaustive exploration of the real code: every choice sequence of a Python driver within the stated bounds is executed on the Python package of the repository, "
                "loaded on the C library built from it (AddressSanitizer, allocation count), over real pipes; sessions run three times, with C peers only and with each side in Python, and compared with the first",
                note="Exhaustive within the bounds printed in the evidence file. Trusts CPython, numpy, ctypes, and the C library where other checks decide it. Sessions are strict alternations, so the scheduling of the two peers does not matter."),
}
NOT_CLAIMED = {}
