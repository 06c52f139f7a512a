"""Per-property build and run tables (see DESIGN.md)."""
BASE_FLAGS = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer"]
ASAN = ["-O1", "-fsanitize=address"]
UBSAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
SPECS = {}

import os as _os
# clang build whose runs are guided by the coverage of the code under test (see harness/pbt.h)
COV = ["-DPBT_COV", "-fsanitize-coverage=inline-8bit-counters,trace-cmp", "-fsanitize-coverage-allowlist=" + _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "harness", "cov.allow")]

FAST = ["-DFN_LOG_MAX_ASYNC_SLEEP_MS=1"]
SMALL = FAST + ["-DFN_LOG_MAX_LOG_SIZE=800", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=16", "-DFN_LOG_MAX_CHANNEL_SIZE=4"]

SPECS["C09"] = dict(
    rule="integers from boundary families (powers of 2/10 +-2, digit patterns, type limits, uniform bit widths) and doubles/floats from bit patterns, 4-decimal values, boundaries of each formatting branch; non-trivial = more than one digit / fractional value; distinct by value",
    builds={"num": dict(src=["c09.cc"], flags=UBSAN + SMALL), "numO2": dict(src=["c09.cc"], flags=["-O2"] + SMALL)},
    runs=[dict(build="num", prop="ints", quick=(160000, 12), thorough=(4000000, 200)),
          dict(build="num", prop="doubles", quick=(160000, 12), thorough=(4000000, 200)),
          dict(build="numO2", prop="ints", quick=(400000, 6), thorough=(20000000, 120)),
          dict(build="numO2", prop="doubles", quick=(400000, 6), thorough=(20000000, 120))])

MID = FAST + ["-DFN_LOG_MAX_LOG_SIZE=2000", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=16", "-DFN_LOG_MAX_CHANNEL_SIZE=4"]
SPECS["C10"] = dict(
    rule="histories of up to 40 instants on 1-3 threads (day/month/year ends, DST transitions, random) in 21 zones, random prefix masks, names, paths; non-trivial = at least two statements with the clock moved (for `dates`: across a day change); oracle: libc localtime_r + independent prefix model",
    builds={"prefix": dict(src=["c10.cc"], flags=UBSAN + MID), "prefixO2": dict(src=["c10.cc"], flags=["-O2"] + MID)},
    runs=[dict(build="prefix", prop="prefix", quick=(24000, 10), thorough=(1000000, 250)),
          dict(build="prefixO2", prop="prefix", quick=(60000, 8), thorough=(3000000, 150)),
          dict(build="prefixO2", prop="dates", quick=(120000, 8), thorough=(6000000, 200)),
          dict(build="prefix", prop="shortpath", quick=(80000, 3), thorough=(800000, 20))])

BIG = FAST + ["-DFN_LOG_MAX_LOG_SIZE=6000", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=16", "-DFN_LOG_MAX_CHANNEL_SIZE=4"]
SPECS["C11"] = dict(
    rule="random values of 34 scalar/container/nested types, binary buffers of 0-300 bytes, helpers, and every front-end macro; non-trivial = non-empty value; oracle: independent reference renderer",
    builds={"render": dict(src=["c11.cc"], flags=UBSAN + BIG), "renderO2": dict(src=["c11.cc"], flags=["-O2"] + BIG)},
    runs=[dict(build="render", prop="values", quick=(120000, 10), thorough=(3000000, 200)),
          dict(build="render", prop="binary", quick=(60000, 6), thorough=(1500000, 120)),
          dict(build="render", prop="helpers", quick=(60000, 5), thorough=(1500000, 80)),
          dict(build="render", prop="frontends", quick=(60000, 6), thorough=(2000000, 120)),
          dict(build="renderO2", prop="values", quick=(200000, 6), thorough=(4000000, 80))])
SPECS["C08"] = dict(
    rule="messages of up to 12 pieces (strings, numbers, dumps, containers, printf) with lengths aimed at the record size, up to 4 statements open at once, ring of 16 records, sync/async, optionally transmitted; non-trivial = at least two messages and one within 60 bytes of the limit; oracle: set of acceptable contents",
    builds={"bound": dict(src=["c08.cc"], flags=UBSAN + SMALL), "boundO2": dict(src=["c08.cc"], flags=["-O2"] + SMALL),
            "boundfull": dict(src=["c08.cc"], flags=["-O2"] + FAST + ["-DFN_LOG_MAX_LOG_QUEUE_SIZE=12"])},
    runs=[dict(build="bound", prop="bounded", quick=(12000, 14), thorough=(600000, 300)),
          dict(build="boundO2", prop="bounded", quick=(24000, 10), thorough=(1500000, 200)),
          dict(build="boundfull", prop="bounded", quick=(8000, 8), thorough=(400000, 120))])
SPECS["C05"] = dict(
    rule="configurations of 1-4 sync/async channels x 0-4 file/empty/virtual devices with random priority, category, identify ranges and masks (written as lists, masks, black or white), up to 40 statements aimed at the filters' edges mixed with run-time changes through the four setters; non-trivial = at least one line output and one refused; oracle: reference predicate applied to every statement and device",
    builds={"filter": dict(src=["c05.cc"], flags=UBSAN + MID), "filterO2": dict(src=["c05.cc"], flags=["-O2"] + MID), "filteratom": dict(src=["c05.cc"], flags=["-O2", "-DFN_LOG_USING_ATOM_CFG"] + MID)},
    runs=[dict(build="filter", prop="filters", quick=(6000, 10), thorough=(300000, 250)),
          dict(build="filterO2", prop="filters", quick=(16000, 10), thorough=(800000, 250)),
          dict(build="filteratom", prop="filters", quick=(12000, 8), thorough=(600000, 200)),
          dict(build="filter", prop="builtin", quick=(2000, 6), thorough=(60000, 80))])
SPECS["C06"] = dict(
    rule="random configuration models (1-4 channels x 0-6 devices) rendered with random indentation, dashes, blanks, tabs, comments, quotes, brackets, line ends, option order, spellings, define/var macros (nested), BOM, with 1-3 configurations in a row on one logger; plus random bit lists; non-trivial = text of more than 60 bytes / list of at least two items; oracle: the model the text was rendered from",
    builds={"config": dict(src=["c06.cc"], flags=UBSAN + MID), "configO2": dict(src=["c06.cc"], flags=["-O2"] + MID), "configatom": dict(src=["c06.cc"], flags=["-O2", "-DFN_LOG_USING_ATOM_CFG"] + MID)},
    runs=[dict(build="config", prop="fidelity", quick=(24000, 14), thorough=(600000, 250)),
          dict(build="configO2", prop="fidelity", quick=(40000, 12), thorough=(1500000, 250)),
          dict(build="configatom", prop="fidelity", quick=(16000, 8), thorough=(600000, 150)),
          dict(build="config", prop="bitlist", quick=(40000, 6), thorough=(1000000, 100)),
          dict(build="config", prop="sample", quick=(8, 5), thorough=(64, 5))])
SPECS["C07"] = dict(
    rule="valid generated texts with byte/line/token mutations, key-value soups with hostile values, raw byte strings, well-formed texts with one value of any length, and texts at and beyond every size limit, as text or file; the parsecov build keeps the cases that reach new code, repetition counts or comparison outcomes in the logger's code and makes 7 of 8 further cases from them; non-trivial = more than 20 bytes; oracle: ASan/UBSan, termination within 3 s, bounds of the accepted configuration, the logger still starts and logs afterwards",
    builds={"parse": dict(src=["c07.cc"], flags=UBSAN + MID), "parseO2": dict(src=["c07.cc"], flags=["-O2"] + MID), "parsecov": dict(src=["c07.cc"], cxx="clang++", flags=UBSAN + MID + COV)},
    runs=[dict(build="parse", prop="mutated", quick=(24000, 10), thorough=(1500000, 250)),
          dict(build="parse", prop="soupy", quick=(40000, 10), thorough=(2500000, 250)),
          dict(build="parse", prop="raw", quick=(40000, 8), thorough=(1500000, 150)),
          dict(build="parse", prop="valuelen", quick=(24000, 8), thorough=(600000, 120)),
          dict(build="parse", prop="limits", quick=(3000, 8), thorough=(100000, 100)),
          dict(build="parseO2", prop="soupy", quick=(40000, 6), thorough=(2500000, 150)),
          dict(build="parsecov", prop="soupy", quick=(200000, 10), thorough=(10000000, 300)),
          dict(build="parsecov", prop="raw", quick=(200000, 8), thorough=(10000000, 150)),
          dict(build="parsecov", prop="mutated", quick=(100000, 6), thorough=(5000000, 200))])

SPECS["C12"] = dict(
    rule="1-3 file devices x random limit (1 byte to 600 bytes, or 1 MB through the text), rollback 0-12, stuff_up, pre-existing files and backups, 1-4 runs of up to 40 lines with lengths aimed at the remaining room; `huge`: sparse files and limits around 2^31, 2^32 and larger; whole directory compared with the model after every synchronous statement; non-trivial = at least one roll; oracle: reference file model + contiguity and size invariants read off the files",
    builds={"roll": dict(src=["c12.cc"], flags=UBSAN + MID), "rollO2": dict(src=["c12.cc"], flags=["-O2"] + MID), "rollbig": dict(src=["c12.cc"], flags=["-O2", "-DFN_LOG_FORCE_FLUSH_QUE=3"] + BIG)},
    runs=[dict(build="roll", prop="sizeroll", quick=(8000, 12), thorough=(400000, 300)),
          dict(build="rollO2", prop="sizeroll", quick=(16000, 12), thorough=(800000, 300)),
          dict(build="roll", prop="huge", quick=(1600, 5), thorough=(60000, 80)),
          dict(build="rollbig", prop="mega", quick=(160, 6), thorough=(8000, 120))])
SPECS["C13"] = dict(
    rule="1-3 file devices with random path and name patterns (every variable, partial and unknown escapes, default name, nested and absolute paths, backslashes), none/daily/hourly rolling, 21 zones, histories of up to 2x30 instants forward and backward aimed at day/hour boundaries and clock changes; `combo` adds rollback/limit/stuff_up; `procname` starts a program under generated names (any bytes, variables inside, paths up to 2 kB); whole directory tree compared with the model after every synchronous statement; non-trivial = at least two lines and a day change or a re-open; oracle: libc local time + independent pattern expansion and file model",
    builds={"date": dict(src=["c13.cc"], flags=UBSAN + MID), "dateO2": dict(src=["c13.cc"], flags=["-O2"] + MID)},
    runs=[dict(build="date", prop="dateroll", quick=(8000, 12), thorough=(300000, 250)),
          dict(build="dateO2", prop="dateroll", quick=(16000, 12), thorough=(600000, 250)),
          dict(build="dateO2", prop="combo", quick=(8000, 8), thorough=(600000, 200)),
          dict(build="date", prop="procname", quick=(1600, 5), thorough=(40000, 60))])

# the code under test instrumented with -fsanitize=thread and linked with our own runtime (harness/sched_rt.cc)
CONC = ["-DFN_LOG_MAX_ASYNC_SLEEP_MS=3", "-DFN_LOG_MAX_LOG_SIZE=800", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=11", "-DFN_LOG_MAX_CHANNEL_SIZE=4"]
def sched_build(src, extra=()):
    return dict(src=[], parts=[(src, ["-O1", "-fsanitize=thread", "-DUSE_SCHED"] + CONC + list(extra)), ("sched_rt.cc", ["-O2"])], flags=["-O1"])
def conc_spec(kind, oracle):
    return dict(
        rule="`%s`: deterministic schedules (thread priorities with up to 6 change points, or random walks; every access to queue indices, record marks, states, mutexes, sleeps and file calls is a scheduling point) of 1-4 logging threads, main and 1-2 writer threads over 0-50 statements per thread on a queue of 11 records; `stress_%s`: 2-6 real threads x 50-600 statements; non-trivial = at least 3 lines output and 6 context switches; oracle: %s" % (kind, kind, oracle),
        builds={"exact": sched_build("c01.cc"), "stress": dict(src=["c01.cc"], flags=["-O2"] + CONC), "stress16": dict(src=["c01.cc"], flags=["-O1", "-fsanitize=address", "-DFN_LOG_FORCE_FLUSH_QUE=3", "-DFN_LOG_MAX_ASYNC_SLEEP_MS=1", "-DFN_LOG_MAX_LOG_SIZE=800", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=64", "-DFN_LOG_MAX_CHANNEL_SIZE=4"])},
        runs=[dict(build="exact", prop=kind, quick=(80000, 14), thorough=(6000000, 500)),
              dict(build="stress", prop="stress_" + kind, quick=(1600, 5), thorough=(400000, 120), shards=4),
              dict(build="stress16", prop="stress_" + kind, quick=(800, 5), thorough=(200000, 100), shards=4)],
        assumptions=["the scheduler explores sequentially consistent interleavings; hardware and compiler reorderings only through the real-thread runs"])
SPECS["C01"] = conc_spec("once", "every accepted statement's exact bytes once in each device file, nothing else; no deadlock or step-limit overrun")
SPECS["C02"] = conc_spec("order", "no statement precedes one that ended before it began; pairwise equal relative order of common lines across devices")
SPECS["C04"] = dict(
    rule="`nestedsync`: up to 30 outermost statements, nested up to 3 deep over 1-3 sync/async channels, stream objects kept open and closed in any order, files read after every return; `syncthreads`/`stress_sync`: 2-6 threads (generated schedules / real threads), with size rolling in half the cases, files read when all threads have returned; non-trivial = at least two records (and 3 context switches); oracle: longest closed prefix of statements in begin order per channel, filtered per device",
    builds={"sync": dict(src=["c04.cc"], flags=UBSAN + CONC), "syncO2": dict(src=["c04.cc"], flags=["-O2"] + CONC), "syncsched": sched_build("c04.cc", ["-DFN_LOG_FORCE_FLUSH_QUE=1"])},
    runs=[dict(build="sync", prop="nestedsync", quick=(6000, 8), thorough=(400000, 200)),
          dict(build="syncO2", prop="nestedsync", quick=(12000, 8), thorough=(800000, 200)),
          dict(build="syncsched", prop="syncthreads", quick=(20000, 10), thorough=(1500000, 300)),
          dict(build="syncO2", prop="stress_sync", quick=(800, 5), thorough=(60000, 100), shards=4)],
    assumptions=["at most 9 statements open at once on a channel (queue of 11 records)", "sequentially consistent interleavings in `syncthreads`"])
SPECS["C03"] = dict(
    rule="histories of up to 60 operations on 1-2 loggers: starts (text, file, two steps) with 1-4 generated configurations of 1-3 sync/async channels, invalid and missing ones, stops, destruction, statements and bursts on existing and missing channels, setters/getters in every state, configurations loaded without a start, starts without a configuration, unreadable files, starts and restarts with no thread to be had, restarts after a blocked path; `leaks`: one generated life of a logger (starts, stops, statements, rolling, updates, failures) repeated five times; non-trivial = at least one successful start and one statement; oracle: two-state model of return codes + exact content of every file after each stop; descriptors after each stop, descriptors, threads, memory blocks and segments after each destruction as before",
    builds={"hist": dict(src=["c03.cc"], flags=UBSAN + CONC), "histO2": dict(src=["c03.cc"], flags=["-O2"] + CONC)},
    runs=[dict(build="hist", prop="history", quick=(3000, 12), thorough=(200000, 300)),
          dict(build="histO2", prop="history", quick=(4000, 12), thorough=(300000, 300)),
          dict(build="histO2", prop="leaks", quick=(2000, 10), thorough=(150000, 200)),
          dict(build="hist", prop="leaks", quick=(600, 6), thorough=(50000, 100))])
SPECS["C21"] = dict(
    rule="`startstop`: generated schedules of 2-4 threads each performing up to 30 starts (1-3 configurations of sync/async channels), stops, statements, sleeps and streams kept open across them; `stress_startstop`: the same on 2-5 real threads under ASan; non-trivial = at least one state change, one line output and 4 context switches; oracle: return codes and alternation, completeness and uniqueness of every line in the files, presence of every statement made between a successful start and the next stop, usable logger afterwards, no deadlock",
    builds={"ctl": sched_build("c21.cc"), "ctlreal": dict(src=["c21.cc"], flags=ASAN + CONC)},
    runs=[dict(build="ctl", prop="startstop", quick=(40000, 16), thorough=(3000000, 500)),
          dict(build="ctlreal", prop="stress_startstop", quick=(1200, 7), thorough=(60000, 150), shards=4)],
    assumptions=["sequentially consistent interleavings in `startstop`"])
SPECS["C16"] = dict(
    rule="`hotupdate`: histories of up to 60 statements, clock steps and file changes (valid: filters, limits, enable flags, appended devices of all kinds, channels/devices missing or added, hot_update switched off; broken; missing; directory; mtime forward or backward) on 1-3 sync/async channels, all settings and files compared after every step; `hotsched`: generated schedules of 1-3 loggers, writers checking in every round, main changing the file up to 8 times and stopping at any moment; non-trivial = a line and an update taken or refused (3 lines and 6 switches); oracle: per-channel model of the settings in force",
    builds={"hot": dict(src=["c16.cc"], flags=UBSAN + MID), "hotO2": dict(src=["c16.cc"], flags=["-O2"] + MID), "hotatom": dict(src=["c16.cc"], flags=["-O2", "-DFN_LOG_USING_ATOM_CFG"] + MID), "hots": sched_build("c16.cc", ["-DFN_LOG_HOTUPDATE_INTERVEL=0"])},
    runs=[dict(build="hot", prop="hotupdate", quick=(5000, 10), thorough=(300000, 250)),
          dict(build="hotO2", prop="hotupdate", quick=(6000, 8), thorough=(400000, 200)),
          dict(build="hotatom", prop="hotupdate", quick=(4000, 6), thorough=(200000, 100)),
          dict(build="hots", prop="hotsched", quick=(20000, 12), thorough=(1500000, 400))],
    assumptions=["a change of the file is one with another modification time and is visible at once (written aside and renamed)", "sequentially consistent interleavings in `hotsched`"])

SPECS["C15"] = dict(
    rule="chains of 2-5 processes of one configuration (1-2 sync/async channels x 1-2 file devices, filters) on one emulated segment, each with 0-3 threads x 0-64 statements and dying at a generated step while starting, logging, stopping or idle, or ending cleanly (`chain`: generated schedules; `chain_real`: real threads, SIGKILL at a random moment; `chain_sysv`: the same on real System V memory); queue indices optionally near their wrap; non-trivial = at least one death and a line output of a process that died; oracle: exactly once / unaltered / order for complete statements, at most one marked line per statement in progress, only the line being written at a death may be repeated, segment gone after a clean end",
    builds={"chain": sched_build("c15.cc"), "chainreal": dict(src=["c15.cc"], flags=["-O2"] + CONC)},
    runs=[dict(build="chain", prop="chain", quick=(20000, 20), thorough=(1500000, 500)),
          dict(build="chainreal", prop="chain_real", quick=(1200, 8), thorough=(80000, 150), shards=4),
          dict(build="chainreal", prop="chain_sysv", quick=(200, 4), thorough=(6000, 60), shards=2)],
    assumptions=["a write is never torn (the process is not killed inside fwrite) and reaches the file at once", "sequentially consistent interleavings in `chain`"])
SPECS["C14"] = dict(
    rule="histories of up to 60 statements, clock steps, restarts and obstacles appearing and disappearing (parent is a file, path is a directory, symlink loop, dangling symlink, no permission as an unprivileged user, no file descriptors, files cannot grow beyond a size; some devices with a path that is always too long) on 1-3 sync/async channels x 1-3 file devices with size, daily or hourly rolling; every file read after every statement; non-trivial = at least one obstacle, 3 lines and a line due again after a failure; oracle: per-line must / may / never, complete lines only, once, in order",
    builds={"obst": dict(src=["c14.cc"], flags=UBSAN + ["-fno-sanitize=vptr"] + MID), "obstO2": dict(src=["c14.cc"], flags=["-O2"] + MID)},
    runs=[dict(build="obst", prop="obstacles", quick=(3000, 14), thorough=(200000, 300)),
          dict(build="obstO2", prop="obstacles", quick=(4000, 12), thorough=(300000, 300))],
    assumptions=["a disk that is full is represented by a file size limit of the process; a named pipe in place of the file is outside the domain"])
SPECS["C17"] = dict(
    rule="`counters`: histories of up to 60 bursts of statements, stops, restarts with 1-3 configurations (1-3 channels x 1-4 file/empty/screen/UDP/unreachable UDP/virtual devices, filters, size rolling), hook changes and clock steps, every counter compared while running, stopped and restarted; `countsched`/`stress_count`: 2-5 threads under generated schedules / real threads; non-trivial = at least one statement accepted and 3 made; oracle: counters recomputed from the accepted statements and from the bytes found in files, datagrams and hook calls",
    builds={"cnt": dict(src=["c17.cc"], flags=UBSAN + MID), "cntO2": dict(src=["c17.cc"], flags=["-O2"] + CONC), "cnts": sched_build("c17.cc")},
    runs=[dict(build="cnt", prop="counters", quick=(3000, 10), thorough=(200000, 250)),
          dict(build="cntO2", prop="counters", quick=(4000, 10), thorough=(300000, 250)),
          dict(build="cnts", prop="countsched", quick=(20000, 10), thorough=(1500000, 300)),
          dict(build="cntO2", prop="stress_count", quick=(400, 4), thorough=(40000, 80), shards=4)],
    assumptions=["priorities trace to fatal", "sequentially consistent interleavings in `countsched`"])
SPECS["C18"] = dict(
    rule="`udp_out`: histories of bursts of statements (arbitrary bytes up to the record size) on 1-2 sync/async channels x 1-4 devices sending to three receivers (two addresses), restarts at once, enable/disable, address changes (by setting, and with appended devices through the file), statements while no descriptor is to be had, clock steps; `udp_in`: datagrams of 1 byte to beyond the record size to 1-4 input devices (file/screen/empty) mixed with statements, stops, restarts, enable/disable, ports in use; `udpsched`/`stress_udp`: senders and 1-3 logging threads on one channel under generated schedules / real threads; non-trivial = at least two datagrams (and 4 context switches); oracle: the exact sequence of datagrams per receiver and channel, the exact bytes of each input device's file and of the screen",
    builds={"udp": dict(src=["c18.cc"], flags=UBSAN + MID), "udpO2": dict(src=["c18.cc"], flags=["-O2"] + CONC), "udps": sched_build("c18.cc")},
    runs=[dict(build="udp", prop="udp_out", quick=(2000, 10), thorough=(100000, 250)),
          dict(build="udp", prop="udp_in", quick=(2000, 10), thorough=(100000, 250)),
          dict(build="udpO2", prop="udp_out", quick=(2000, 10), thorough=(100000, 250)),
          dict(build="udpO2", prop="udp_in", quick=(2000, 10), thorough=(100000, 250)),
          dict(build="udps", prop="udpsched", quick=(10000, 10), thorough=(800000, 300)),
          dict(build="udpO2", prop="stress_udp", quick=(200, 5), thorough=(20000, 80), shards=4)],
    assumptions=["the loopback interface neither loses nor reorders datagrams within the sizes used"])
SPECS["C19"] = dict(
    rule="`screen`: histories of up to 40 bursts of statements (any bytes except NUL, percent signs and escape sequences favoured, up to beyond the record size, all priorities) on 1-3 channels x 1-3 filtered screen devices, with restarts and configuration changes; `screensched`/`stress_screen`: 2-6 threads on 1-4 channels under generated schedules / real threads; non-trivial = at least two lines shown (4 context switches); oracle: the exact bytes of standard output, recomputed from the accepted statements; for threads a parse of standard output into whole coloured lines, each exactly once and in order per thread and channel",
    builds={"scr": dict(src=["c19.cc"], flags=UBSAN + MID), "scrO2": dict(src=["c19.cc"], flags=["-O2"] + CONC), "scrs": sched_build("c19.cc")},
    runs=[dict(build="scr", prop="screen", quick=(6000, 10), thorough=(400000, 200)),
          dict(build="scrO2", prop="screen", quick=(8000, 10), thorough=(600000, 200)),
          dict(build="scrs", prop="screensched", quick=(10000, 10), thorough=(800000, 250)),
          dict(build="scrO2", prop="stress_screen", quick=(400, 6), thorough=(40000, 120), shards=4)],
    assumptions=["nothing but the logger writes to standard output"])
SPECS["C20"] = dict(
    rule="`hooks`: histories of up to 60 bursts of statements (empty to over-long, embedded NULs, with and without prefix) on 1-4 sync/async channels x 0-4 file/empty/virtual devices with generated filters; two hooks installed, replaced and removed; the hook transmits records of each channel to generated targets (own channel and non-existing ones included); restarts, configuration changes; `transsched`/`stress_trans`: 2-6 threads whose records the hook sends on to 1-2 channels, generated schedules / real threads; non-trivial = at least one hook call (4 context switches); oracle: reference filter model predicting every call, its arguments, thread and moment, and the exact contents of every file",
    builds={"hook": dict(src=["c20.cc"], flags=UBSAN + MID), "hookO2": dict(src=["c20.cc"], flags=["-O2"] + CONC), "hooks": sched_build("c20.cc")},
    runs=[dict(build="hook", prop="hooks", quick=(5000, 12), thorough=(300000, 250)),
          dict(build="hookO2", prop="hooks", quick=(8000, 12), thorough=(500000, 250)),
          dict(build="hooks", prop="transsched", quick=(10000, 10), thorough=(800000, 250)),
          dict(build="hookO2", prop="stress_trans", quick=(400, 6), thorough=(40000, 120), shards=4)],
    assumptions=["one virtual device per channel", "hooks that transmit form no cycle between channels used by several threads"])
def variant(cxx, std, opt, size=None, queue=None, chans=None, devs=None, sleep=None, flush=None, hot=None, atom=False, more=(), thorough=False, tu=False, dist=False):
    f = list(opt) + (["-DFN_LOG_USING_ATOM_CFG"] if atom else []) + list(more)
    for n, v in (("MAX_LOG_SIZE", size), ("MAX_LOG_QUEUE_SIZE", queue), ("MAX_CHANNEL_SIZE", chans), ("MAX_DEVICE_SIZE", devs), ("MAX_ASYNC_SLEEP_MS", sleep), ("FORCE_FLUSH_QUE", flush), ("HOTUPDATE_INTERVEL", hot)):
        if v is not None: f.append("-DFN_LOG_%s=%d" % (n, v))
    # tu: fn-log included in two translation units; dist: the single header made by distribute.sh
    return dict(src=["c22w.cc"] + (["c22t.cc"] if tu else []), cxx=cxx, base=["-std=c++%d" % std, "-w"], flags=f + (["-DTWO_TU"] if tu else []), thorough_only=thorough, dist=dist)
_SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
VARIANTS = {
    "defaults": variant("g++", 17, ["-O0"]),
    "g11tiny": variant("g++", 11, ["-O2"], 611, 11, 2, 3, 2, 1, atom=True),
    "clang14": variant("clang++", 14, ["-O2"], 800, 64, 8, 5, 5),
    "clang11atom": variant("clang++", 11, ["-O0"], 2000, 12, 4, 20, 20, 3, hot=0, atom=True),
    "g20O3": variant("g++", 20, ["-O3", "-DNDEBUG"], 5000, 500, 2, 20, 10, 5, hot=60),
    "clang20O3": variant("clang++", 20, ["-O3"], 640, 1000, 3, 7, 2, 0, atom=True),
    "gsan": variant("g++", 17, _SAN, 700, 17, 5, 4, 2),
    "clangsanatom": variant("clang++", 17, _SAN, 1500, 13, 2, 9, 3, 2, hot=1, atom=True),
    "gdist2tu": variant("g++", 14, ["-O2"], 1200, 40, 3, 6, 3, tu=True, dist=True),
    "clang2tu": variant("clang++", 17, ["-O1"], 900, 30, 5, 5, 2, atom=True, tu=True, thorough=True),
    "gOs": variant("g++", 14, ["-Os"], 4097, 100, 16, 3, 2, 100000, atom=True, thorough=True),
    "gfast": variant("g++", 17, ["-O3", "-funroll-loops", "-fwrapv", "-fstack-protector-all"], 60000, 300, 2, 33, 100, thorough=True),
    "clangOz": variant("clang++", 17, ["-Oz"], 611, 4096, 7, 64, 2, 7, hot=2, thorough=True),
    "clanglto": variant("clang++", 11, ["-O2", "-DNDEBUG", "-fno-strict-aliasing"], 1024, 1024, 4, 4, 4, 1, atom=True, thorough=True),
    "g11O3atom": variant("g++", 11, ["-O3", "-D_FORTIFY_SOURCE=2"], 999, 99, 9, 9, 9, 9, hot=9, atom=True, thorough=True),
}
SPECS["C22"] = dict(
    builds_decide=list(VARIANTS),   # one of these failing to compile while others do is a violation
    rule="`variants`: histories of up to 60 operations (starts from text and file, stops, restarts, statements with up to 6 pieces of 28 kinds through streams, threads, streams kept open and every macro, run-time settings, file updates, hooks with transmission, clock steps, capacity limits) on 1-2 sync/async channels x 1-3 file/screen/UDP/virtual/empty devices; `texts`: generated and damaged configuration texts; each history executed by 8 (thorough: 13) builds differing in compiler, language standard, optimisation, sanitizers and every macro; non-trivial = at least 3 statements and a line output / text of more than 60 bytes; oracle: byte-identical transcripts (return codes, settings, counters, hook calls, datagrams, screen, all files)",
    builds=dict([("compare", dict(src=["c22.cc"], flags=["-O1"], bins=list(VARIANTS)))] + list(VARIANTS.items())),
    runs=[dict(build="compare", prop="variants", quick=(1200, 25), thorough=(200000, 500), shrink_ms=40000),
          dict(build="compare", prop="texts", quick=(600, 12), thorough=(80000, 250), shrink_ms=40000)],
    assumptions=["texts longer than the smallest record size are compared up to 380 bytes, without byte counters and size limits"])
