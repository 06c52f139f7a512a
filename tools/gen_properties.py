#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the long texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":["src/include/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

RING=("hold/write/proc/read indices + per-slot mark","ring hand-over between producers and the writer thread","fn_data.h RingBuffer, LogData")
p("C01","Async channels output every accepted statement exactly once, byte-intact",
 "On an asynchronous channel, every log statement that completes while the logger is running is written exactly once and byte for byte to every enabled device whose filters accept it, for every interleaving of logging threads with the channel's writer thread, through queue wrap-around and also when producers outrun the writer and the queue is full. "
 "When StopLogger returns after all logging threads have finished their statements, nothing has been lost, duplicated, torn or mixed with another message, and no logging call or StopLogger hangs.",
 ["schedules","inputs","configurations"],"all interleavings of 1..n producers with the writer thread at every shared-memory access, all queue lengths, message lengths and device sets",
 "Tests and benchmarks run one OS schedule and check only a line count; the lost, duplicated and torn hand-overs need one particular preemption inside the claim/publish/consume protocol or a ring that wraps while a slot is still held.",
 ["fn_channel.h","fn_core.h","fn_stream.h","fn_data.h"],
 [("HoldChannel/PushChannel lock-free claim and publish","fn_channel.h"),("EnterProcChannel consume loop and read index advance","fn_channel.h"),("StopChannels drain","fn_core.h")],[RING],
 ["lines in the log files of each device after StopLogger","StopLogger return"])
p("C02","Output order respects statement order and is the same on all devices",
 "If one log statement to an asynchronous channel completes before another one to that channel begins, on the same thread or on different threads, then the first precedes the second in the output of every device that receives both. "
 "A synchronous channel keeps that order when one thread uses it. All devices of an asynchronous channel show the lines they have in common in the same relative order, under every interleaving.",
 ["schedules","histories"],"all interleavings of logging threads, all device sets of a channel, all queue lengths",
 "No test compares line order between threads or devices; a re-ordering needs a preemption between claiming a slot and publishing it, or a wrapped ring.",
 ["fn_channel.h","fn_stream.h"],[("slot order = hold order; in-order publish loop","fn_channel.h PushChannel"),("single writer thread dispatching each record to all devices in turn","fn_channel.h EnterProcChannel/DispatchLog")],[RING],
 ["line sequence of every file device and virtual device"])
p("C03","Start/stop/restart histories behave like a two-state machine and Stop drains",
 "For every history of starts (valid text, invalid text, missing file), stops, restarts with other configurations and log statements: starting a stopped logger with a valid configuration succeeds and the new configuration is in force, starting a running logger returns the in-use error without disturbing it, stopping a stopped logger returns the not-running error, and a failed start (of a text, a file, or for want of a thread) leaves the logger stopped and startable. "
 "When StopLogger (or the Logger destructor) returns, every line logged before it on any channel of either kind is completely in its files; statements made while stopped produce no output and do not block or crash. A stopped logger holds no file, socket or thread; a destroyed one no memory or segment.",
 ["histories","configurations"],"all operation sequences over one or several loggers, all valid/invalid configuration texts",
 "The tests start once and check a handful of return codes; state leaking from one run into the next (stale handles, indices, states, names, keys) needs particular multi-step histories.",
 ["fn_core.h","fn_load.h","fn_log.h"],[("logger_state_ / state_lock_ transitions","fn_core.h StartLogger/StopLogger/ParseAndStartLogger/LoadAndStartLogger"),("InitFromYMAL installs the parsed configuration","fn_load.h"),("CleanChannels + handle close","fn_core.h")],None,
 ["return codes","log files","logger reuse after failure"])
p("C04","Sync channel: the line is in the file when the statement returns",
 "On a synchronous channel used from one thread, when an outermost log statement returns its complete line is already readable (by another process) in the file of every device that accepts it, including after a roll-over, and lines appear in the order in which the statements began, also when a logged expression itself logs to the same or to another channel. "
 "With several threads logging to a synchronous channel, once all of them have returned every line is in the files exactly once and intact.",
 ["histories","schedules","inputs"],"all sequences of (nested) statements of any length/priority over several sync channels; interleavings of several threads at the lock/atomic level",
 "Existing sync tests look at counters after sleeping, never at the file at the moment the statement returns, and never nest statements.",
 ["fn_channel.h","fn_stream.h","fn_out_file_device.h","fn_file.h"],[("PushChannel runs the consume loop in the caller for CHANNEL_SYNC","fn_channel.h"),("flush after processing","fn_channel.h EnterProcChannel")],None,["bytes of the log files right after each statement"])
p("C05","A line reaches a device exactly when channel and device filters accept it",
 "A statement with given priority, category and identify is output by a device if and only if the logger is running, the channel exists, the device is enabled, and both the channel's and the device's filters accept it: priority at or above the threshold; category/identify inside [begin, begin+extend) when extend>0; and, when a 64-bit mask is set, the bit of that category/identify is set. "
 "This holds for every combination, for values set in the configuration text or changed at run time through SetChannelConfig/SetDeviceConfig/BatchSetChannelConfig/BatchSetDeviceConfig or the shorthands of fn_log.h (EnableAll*, SetAll*), and the getters return what was set; devices and channels do not influence each other.",
 ["inputs","configurations","histories"],"all priorities, categories, identifies (0..63 when a mask is set), thresholds, ranges, masks, device sets and run-time configuration changes",
 "The filter tests try a few dozen fixed combinations with one filter active at a time; the filter is written three times (entry, dispatch, hook) and can disagree on rare combinations.",
 ["fn_channel.h","fn_core.h"],[("BlockInput entry filter","fn_channel.h"),("DispatchLog per-device filter","fn_channel.h"),("Set*/BatchSet*/Get* accessors","fn_core.h")],None,["which file/virtual/empty device received which statement","GetDeviceConfig/GetDeviceLog"])
p("C06","The effective configuration is exactly what the text says",
 "For every configuration text in the documented language - whatever its indentation, spacing, comments, quoting, line endings, optional dashes, option spelling and order, and use of define/var macros - starting a logger yields exactly the channels, devices, types, filters (including white/black lists and masks), limits, addresses, file names, logger name and description that the text describes, with documented defaults for whatever is absent. "
 "The outcome does not depend on earlier configurations or on other loggers.",
 ["inputs","configurations"],"all configuration models (channels x devices x options) rendered in all layout variants",
 "The lexer/parse tests use a dozen fixed texts; defaults, ordering, indentation, separators and macros combine freely.",
 ["fn_parse.h","fn_load.h"],[("InitLex/ParseLogger/ParseChannel/ParseDevice","fn_parse.h"),("define/var expansion","fn_parse.h PredefinedInplace/PredefinedVar"),("ParseBitArray, size and number parsing","fn_parse.h")],None,["ParseLogger result","GetDeviceConfig after start"])
p("C07","No configuration bytes can crash, hang or corrupt the logger",
 "Starting from any byte string as configuration text or file (malformed, truncated, binary, over-long names, more channels or devices than allowed, very large numbers) terminates promptly and either succeeds or returns an error, without reading or writing out of bounds. "
 "Over-long names or paths and excess or out-of-sequence channels and devices are rejected or cut to their limit and never overflow, and after a rejected text the same logger can still be started with a valid one and works.",
 ["inputs"],"all byte strings up to several kilobytes, mutated from valid configurations and generated from the grammar",
 "Tests feed a few hand-written malformed texts; memory safety and termination quantify over all inputs.",
 ["fn_parse.h","fn_load.h","fn_file.h"],[("length checks in ParseLogger/ParseChannel/ParseDevice","fn_parse.h"),("lexer end-of-text handling","fn_parse.h"),("error report in InitFromYMAL","fn_load.h")],None,["return code, sanitizer reports, subsequent start"])
p("C08","Messages of any length are bounded: exact prefix, newline, no spill-over",
 "A log line never exceeds the configured maximum record size: a message that fits is output completely, and a longer one is output as exactly its first (maximum-2) bytes followed by one newline, whatever sequence of text pieces, strings, characters, printf-style formatting or binary dumps produced it; a number, pointer or timestamp that no longer fits is left out whole rather than cut. "
 "A message at or beyond the limit never alters any other line, and never writes outside its own record.",
 ["inputs","histories"],"all sequences of appended pieces with lengths around and beyond the record size, all positions in the ring, neighbours before and after",
 "test_buffer_correct tries a couple of lengths; each writer has its own bound check that matters only within a few bytes of the limit.",
 ["fn_stream.h","fn_channel.h","fn_macro.h","fn_fmt.h"],[("write_buffer clamp and 30/40 byte reserve of numeric writers","fn_stream.h"),("PushChannel clamp + newline","fn_channel.h"),("LOG_FORMAT snprintf clamp","fn_macro.h"),("TransmitChannel copy","fn_channel.h")],None,["file contents","AddressSanitizer"])
p("C09","Numbers, booleans, characters and pointers are rendered exactly",
 "Every integer of every built-in type is rendered as its exact decimal value (as std::to_string), every pointer as 0x followed by its upper-case hexadecimal value (null pointers as null), and the fixed-width decimal, hexadecimal and binary helpers give the exact digits, zero-padded to their minimum width. "
 "Finite normal floating-point values of magnitude 0 or 1e-4..2^60 are rendered with the correct sign and truncated toward zero to at most four decimals without trailing noise; smaller and larger magnitudes keep their sign and parse back to the value within 1e-8 absolute or 1e-9 relative error; nan and inf are named.",
 ["inputs"],"all 64-bit integers, all bit patterns of double/float, all pointer values, all widths",
 "test_serialize tests a few constants; the lookup-table digit code and the float branches have boundaries no sample hits.",
 ["fn_fmt.h","fn_stream.h"],[("write_dec/hex/bin/double_unsafe","fn_fmt.h"),("LogStream::operator<<","fn_stream.h")],None,["rendered text"])
p("C10","Every line's prefix states the right time, level, thread and place",
 "The prefix of every line consists of exactly the requested fields in the documented form and order: [YYYYMMDD HH:MM:SS.mmm] being the local time of the instant at which the statement was made, level name, logging thread's id, logger name and description, [file:line] with at most the last three path components, and (function). "
 "The time is right for any sequence of timestamps on any thread - backwards, across midnight, month and year ends and daylight-saving changes, in any time zone - and likewise when a LogTimestamp value is logged.",
 ["inputs","histories","configurations"],"all timestamp sequences in 1970..9999, all time zones, all prefix masks, all file paths and lines",
 "No test checks the text of a timestamp; the per-thread day cache is right or wrong depending on the history of earlier timestamps and on the zone rules.",
 ["fn_fmt.h","fn_stream.h","fn_file.h"],[("write_date_unsafe per-thread day cache","fn_fmt.h"),("LogStream constructor prefix","fn_stream.h"),("short_path","fn_file.h")],None,["prefix text of the output line"])
p("C11","Composite values and all statement styles render the same documented text",
 "Strings, characters, pairs, and vector/list/deque/set/map/unordered containers (nested too) render as name:(size)[first five elements, separated by comma-blank, then '..., ' if more], binary dumps show every byte of the buffer exactly once in text and hex rows of 32 with their addresses, and percent and alignment helpers render as documented by their examples. "
 "The stream, template-pack, macro and printf-style front ends produce the same line for the same values, on the channel, priority, category and identify they name.",
 ["inputs","programs"],"all nestings and sizes of containers and element types, all binary buffers, all front-end macros",
 "test_serialize_object prints samples without checking the text.",
 ["fn_stream.h","fn_macro.h"],[("write_container/write_binary/operator<< overloads","fn_stream.h"),("LogXxx/PackXxx/LOGx/LOGFMTx macros","fn_macro.h")],None,["rendered text","device receiving it"])
p("C12","Size rolling keeps every line, the size limit and the newest backups in order",
 "With limit_size and rollback N set, no log file ever exceeds the limit (unless a single line is longer), no line is split across files, and reading backups .N down to .1 and then the live file gives a contiguous run of the most recent lines in order, at most N backups being kept and none dropped before N exist. "
 "Without stuff_up a (re)start begins a fresh file by moving the old one to .1; with stuff_up it appends to the existing file and its size counts towards the limit; with neither limit nor rollback everything is appended to one file.",
 ["histories","configurations","inputs"],"all limits, N, stuff_up settings, line lengths, restart points and pre-existing files",
 "test_rolling checks a few file counts for one configuration.",
 ["fn_out_file_device.h","fn_file.h"],[("OpenFileDevice limit/rollback decision","fn_out_file_device.h"),("FileHandler::rollback rename chain","fn_file.h")],None,["directory contents after every statement"])
p("C13","Date and time rolling put every line in the file named for its time",
 "With rolldaily (rollhourly) set, each line is appended to the file whose name results from expanding the configured path and name pattern with the local time at which that file was opened, and a new file is opened exactly when the line's local day (hour) differs from the one the current file was opened in, also when time goes backwards and across daylight-saving changes. "
 "$PNAME, $PID, $YEAR, $MON, $DAY, $HOUR, $MIN, $SEC and %F expand to the documented values wherever they occur, directories are created as needed, and existing files are appended to.",
 ["histories","inputs","configurations"],"all timestamp sequences, patterns, time zones",
 "test_rolling walks a couple of days in UTC with one pattern.",
 ["fn_out_file_device.h","fn_file.h"],[("daily/hourly comparison with the stored creation day/hour","fn_out_file_device.h OpenFileDevice"),("MakeFileName/MakePathName","fn_out_file_device.h"),("create_dir","fn_file.h")],None,["files and contents produced"])
p("C14","A failing log file never harms others and recovers by itself",
 "While a device's file cannot be opened or written (blocked path, missing permission, path too long, device full), log statements neither crash, block nor fail, and all other devices and channels still receive every line completely. "
 "Once the obstacle is gone, the device resumes by itself with complete lines no later than for the first line logged 5 seconds or more after its last failed attempt (a clock that is set back to before that attempt does not put this off), without restart.",
 ["fault_sequences","histories"],"all sequences of obstacles appearing and disappearing between statements, all spacing of statements in time",
 "No test makes an open or write fail.",
 ["fn_out_file_device.h","fn_file.h","fn_channel.h"],[("LAST_TRY_CREATE_* back-off","fn_out_file_device.h"),("FileHandler::write closes on short write","fn_file.h")],None,["file contents of healthy and faulty devices"])
p("C15","Shared-memory logs survive a killed process: exactly once, in order",
 "With shm_key set, if the process dies at any moment, the next process starting the same configuration outputs every line that had been completely logged before the death and not yet taken by the writer, exactly once, unaltered and in order, followed by what the new process logs; a statement in progress at the death yields at most one line, marked as recovered, and disturbs no other line. "
 "This holds repeatedly (death during or after recovery, wrapped or full queue) and the segment is removed on clean destruction so nothing is replayed afterwards.",
 ["crash_points","histories"],"all death points relative to the queue contents and to statements in progress, all wrap positions, repeated crashes",
 "test_shm dies once at one point with an almost empty queue.",
 ["fn_load.h","fn_channel.h","fn_data.h"],[("LoadSharedMemory attach + repair of half-written records","fn_load.h"),("ring indices and marks kept in the segment","fn_data.h"),("UnloadSharedMemory","fn_load.h")],[RING],["lines output by the successive processes"])
p("C16","Hot update applies valid settings, ignores bad ones, never disturbs logging",
 "With hot_update on, after the configuration file changes to another valid text the running channels take over its filters, limits and enable flags and appended devices within the check interval, also after the clock was set back (a synchronous channel at its first accepted statement after it), and the logger then behaves as if it had been configured so; a broken, missing or structurally mismatched file leaves the current settings in force, and a later valid change is still taken; hot_update off (from the start or by an update) makes later changes ignored. "
 "Lines logged before, during and after an update are output exactly once, and stopping the logger while an update is due or in progress does not deadlock.",
 ["histories","schedules","configurations"],"all sequences of file edits, clock advances, statements and stops; schedules of Stop against the update check",
 "test_hotupdate makes one valid edit and sleeps.",
 ["fn_load.h","fn_channel.h"],[("HotUpdateLogger mtime/interval check and field copy","fn_load.h"),("call from the consume loop","fn_channel.h EnterProcChannel")],None,["GetDeviceConfig, which devices receive lines, HOTUPDATE counters, StopLogger return"])
p("C17","Statistics equal what was actually done",
 "Whenever no statement is in progress and the queue is drained, each device's counters (lines, bytes, bytes per priority, current file size) equal the lines and bytes it has actually output, and each channel's hold, push and processed counts and byte counts (total and per priority) equal the statements accepted, with refused statements counted nowhere; the longest queue and the longest delay are those that occurred. "
 "The counters accumulate across stop/start of the same logger and are independent between channels and devices.",
 ["histories","configurations","inputs"],"all histories of statements, filters, rolls and restarts on quiescent loggers",
 "Tests compare a few line counters after fixed loops.",
 ["fn_channel.h","fn_out_file_device.h","fn_out_empty_device.h","fn_out_screen_device.h","fn_out_udp_device.h","fn_out_virtual_device.h","fn_load.h"],[("AtomicInc* at each stage","fn_channel.h, fn_out_*_device.h"),("counter carry-over at re-initialisation","fn_load.h InitFromYMAL")],None,["GetChannelLog/GetDeviceLog versus file contents"])
p("C18","UDP devices map lines to datagrams one to one",
 "A UDP output device sends every accepted line as exactly one datagram with exactly the bytes of the line, in order, to the address and port in force (configured, set at run time, or updated through the file); a line for which no socket can be had is counted as lost and later lines are sent again, also when the clock was set back meanwhile. "
 "A UDP input device outputs each datagram received exactly once, in order, unaltered (one of the record size or more is cut to the record size less two bytes plus a newline), on its own output device and nowhere else, and follows enable/disable without restart.",
 ["inputs","histories"],"all payloads and sizes, several devices/channels, enable/disable histories over loopback",
 "test_udp is not in the stable suite and checks no payload.",
 ["fn_out_udp_device.h","fn_channel.h","fn_file.h"],[("EnterProcOutUDPDevice","fn_out_udp_device.h"),("UDP read loop","fn_channel.h EnterProcChannel"),("UDPHandler","fn_file.h")],None,["datagrams on a loopback receiver; file contents of the input device"])
p("C19","Screen output shows each accepted line once, literally, in its colour",
 "Each line accepted by a screen device appears on standard output exactly once, unaltered (percent signs and other format characters included), TRACE and DEBUG plain and each higher priority wrapped in that priority's colour sequence and the reset sequence. "
 "Lines of several channels and threads are never interleaved within a line.",
 ["inputs","schedules"],"all message bytes except NUL, all priorities, several channels/threads",
 "Nothing checks standard output.",
 ["fn_out_screen_device.h","fn_fmt.h"],[("EnterProcOutScreenDevice under screen lock","fn_out_screen_device.h"),("PRIORITY_RENDER","fn_fmt.h")],None,["bytes on standard output"])
p("C20","Virtual-device hook and transmit see each accepted line once, in the caller",
 "With a hook installed, each statement accepted by the channel and by the channel's enabled virtual device calls the hook exactly once, in the logging thread, before the statement returns, with the statement's priority, category, identify and full NUL-terminated text; statements on channels without a virtual device, or refused by it, do not call it. "
 "A hook that transmits the record to another channel makes the text appear there exactly once, subject to that channel's filters and leaving the original unaffected; transmitting to the same channel does nothing.",
 ["inputs","configurations","histories"],"all filters, messages (also over-long), channel/device layouts and threads",
 "test_trans_log counts lines for one layout.",
 ["fn_out_virtual_device.h","fn_stream.h","fn_channel.h"],[("LogStream destructor + EnterProcOutVirtualDevice","fn_stream.h, fn_out_virtual_device.h"),("TransmitChannel","fn_channel.h")],None,["hook calls and their arguments","target channel's files"])
p("C21","Concurrent start, stop and logging is safe",
 "Any threads may log, start and stop the same logger concurrently: no call crashes or hangs, of several concurrent starts (stops) exactly one succeeds per actual state change and the others return an error, and every line that reaches a file is complete, unmixed and not duplicated. "
 "Statements that begin after a start has succeeded and that end, together with those begun before them on the same channel, before the next stop begins are output.",
 ["schedules","histories"],"all interleavings of logging threads with threads that start and stop",
 "The concurrent_reboot stress test runs one OS schedule with output discarded.",
 ["fn_core.h","fn_channel.h","fn_load.h","fn_stream.h"],[("state_lock_, logger_state_, channel_state_ checks","fn_core.h, fn_channel.h"),("StopChannels waiting for the writers","fn_core.h")],None,["return codes, file contents, absence of deadlock"])
p("C22","Every legal build configuration behaves identically",
 "For every legal choice of the compile-time options (queue length, record size, device and channel counts, sleep interval, flush threshold, atomic configuration mode), optimisation level, number of translation units (also with the single header made by distribute.sh) and supported compiler, the same history of configuration, statements and control calls gives the same output and return codes, apart from the truncation length and limits those options name.",
 ["configurations","histories"],"all combinations of the compile-time macros within their static assertions; g++ and clang++, C++11/14/17, -O0 to -O3, one or two translation units, the src headers or the distributed single header",
 "The tests are built once with defaults; the atomic-configuration branch is never compiled by them.",
 ["fn_data.h","fn_core.h","fn_channel.h","fn_load.h","fn_parse.h"],[("FN_LOG_* macros and static_asserts","fn_data.h"),("AtomicLoadC and ConfigFields alternatives","fn_data.h")],None,["differential comparison of outputs"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
