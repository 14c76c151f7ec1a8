# Harness targets per property: name, src (under props/), san, libs, extra sources, ...
LIQ = ["-lliquid", "-lm"]
LIQI = ["/usr/include/liquid"]
PLOTS = ["$REPO/desktop_blocks/plots/plot_%s.cpp" % x for x in ("timeseries", "cspectrum", "cspectrogram")]
TARGETS = {
    "C01": [dict(name="seq", src="C01.cpp"), dict(name="plain", src="C01.cpp", defs=["-DPLATFORM=1"]), dict(name="bsd", src="C01.cpp", defs=["-DPLATFORM=2"])],
    "C02": [dict(name="win", src="C02.cpp"), dict(name="plain", src="C02.cpp", defs=["-DPLATFORM=1"]), dict(name="bsd", src="C02.cpp", defs=["-DPLATFORM=2"])],
    "C04": [dict(name="own", src="C04.cpp")],
    "C05": [dict(name=n, src="C05.cpp", defs=d, libs=["-Wl," + ",".join("--wrap=" + x for x in "mmap munmap ftruncate close shm_open shm_unlink memfd_create syscall".split())]) for n, d in (("vmem", []), ("bsd", ["-DPLATFORM=2"]))],
    "C06": [dict(name="graph", src="C06.cpp", defs=["-DCLER_DEFAULT_MAX_WORKERS=4"]), dict(name="tsan", src="C06t.cpp", san="tsan", width=2, defs=["-DWHICH=6"])],
    "C07": [dict(name="graph", src="C07.cpp", defs=["-DCLER_DEFAULT_MAX_WORKERS=4"]), dict(name="tsan", src="C06t.cpp", san="tsan", width=2, defs=["-DWHICH=7"])],
    "C08": [dict(name="graph", src="C08.cpp", defs=["-DCLER_DEFAULT_MAX_WORKERS=4"]), dict(name="tsan", src="C06t.cpp", san="tsan", width=2, defs=["-DWHICH=8"]), dict(name="report", src="C08r.cpp")],
    "C09": [dict(name="core", src="C09.cpp"), dict(name="ubsan_clang", src="C09.cpp", cxx="clang++"), dict(name="fallback", src="C09.cpp", defs=["-DFALLBACK"])],
    "C10": [dict(name=n, src="C10.cpp", defs=["-DRTOS=%d" % i, "-DCLER_DEFAULT_MAX_WORKERS=4"], inc=["$VERIF/props/rtos"]) for i, n in ((1, "freertos"), (2, "threadx"), (3, "zephyr"))],
    "C11": [dict(name="math", src="C11.cpp")],
    "C12": [dict(name="utils", src="C12.cpp")],
    "C13": [dict(name="src", src="C13.cpp")],
    "C14": [dict(name="awgn", src="C14.cpp")],
    "C15": [dict(name="fmlpf", src="C15.cpp", libs=LIQ, inc=LIQI)],
    "C16": [dict(name="bank", src="C16.cpp", libs=LIQ, inc=LIQI)],
    "C17": [dict(name="msresamp", src="C17.cpp", libs=LIQ, inc=LIQI)],
    "C18": [dict(name="file", src="C18.cpp")],
    "C19": [dict(name="pool", src="C19.cpp", extra=["$REPO/desktop_blocks/blob.cpp"]), dict(name="ndebug", src="C19.cpp", ndebug=True, extra=["$REPO/desktop_blocks/blob.cpp"]), dict(name="tsan", src="C19.cpp", san="tsan", width=3, defs=["-DONLY_THREADS"], extra=["$REPO/desktop_blocks/blob.cpp"])],
    "C20": [dict(name="udp", src="C20.cpp", extra=["$REPO/desktop_blocks/blob.cpp", "$REPO/desktop_blocks/udp/shared.cpp"], libs=["-Wl," + ",".join("--wrap=" + x for x in "bind setsockopt recvmsg recv recvfrom sendmsg send sendto".split())])],
    "C21": [dict(name="decode", src="C21.cpp", extra=["$REPO/desktop_blocks/adsb/modes.c"], libs=["-Wl," + ",".join("--wrap=" + x for x in "time printf __printf_chk puts putchar".split()), "-lm"])],
    "C22": [dict(name="detect", src="C22.cpp", extra=["$REPO/desktop_blocks/adsb/modes.c", "$REPO/desktop_blocks/adsb/modes_2400.c"], libs=["-lm"])],
    "C23": [dict(name="cpr", src="C23.cpp", extra=["$REPO/desktop_blocks/adsb/cpr.c"], libs=["-lm"])],
    "C24": [dict(name="table", src="C24.cpp", extra=["$REPO/desktop_blocks/adsb/modes.c", "$REPO/desktop_blocks/adsb/cpr.c"], inc=["$VERIF/props/stubs", "$REPO/desktop_blocks/adsb"], libs=["-Wl,--wrap=time", "-lm"]),
            dict(name="threads", src="C24t.cpp", san="tsan", width=3, extra=["$REPO/desktop_blocks/adsb/modes.c", "$REPO/desktop_blocks/adsb/cpr.c"], inc=["$VERIF/props/stubs", "$REPO/desktop_blocks/adsb"], libs=["-lm"])],
    "C25": [dict(name="shp", src="C25.cpp")],
    "C26": [dict(name="modem", src="C26.cpp", extra=["$REPO/desktop_blocks/blob.cpp", "$REPO/desktop_blocks/ezgmsk/_ezgmsk_mod.c", "$REPO/desktop_blocks/ezgmsk/_ezgmsk_demod.c"], inc=LIQI + ["$VERIF/props/stubs", "$REPO/desktop_blocks/ezgmsk"], libs=LIQ)],
    "C27": [dict(name="logger", src="C27.cpp", extra=["$REPO/desktop_logger/desktop_logger.cpp", "$REPO/desktop_logger/zf_log/zf_log.c"], inc=["$REPO/desktop_logger/zf_log"]),
            dict(name="threads", src="C27t.cpp", san="tsan", width=3, libs=["-Wl,--wrap=time"], extra=["$REPO/desktop_logger/desktop_logger.cpp", "$REPO/desktop_logger/zf_log/zf_log.c"], inc=["$REPO/desktop_logger/zf_log"])],
    "C28": [dict(name="mermaid", src="C28.cpp", extra=["$REPO/tools/mermaid/src/flowgraph.cpp", "$REPO/tools/mermaid/src/mermaid_renderer.cpp"])],
    "C39": [dict(name="reader", src="C39.cpp", inc=["$VERIF/props/stubs/ts"], extra=["$VERIF/props/stubs/ts/ts_standin.cpp"] + ["$REPO/tools/mermaid/src/%s.cpp" % x for x in ("flowgraph", "mermaid_renderer", "cpp_parser")])],
    "C29": [dict(name="windows", src="C29.cpp")],
    "C30": [dict(name="plots", src="C30.cpp", extra=PLOTS, inc=LIQI + ["$VERIF/props/stubs"], libs=LIQ),
            dict(name="nomap", src="C30.cpp", ndebug=True, defs=["-DNOMAP"], extra=PLOTS, inc=LIQI + ["$VERIF/props/stubs"], libs=LIQ + ["-Wl,--wrap=ftruncate"]),
            dict(name="threads", src="C30t.cpp", san="tsan", width=2, extra=PLOTS, inc=LIQI + ["$VERIF/props/stubs"], libs=LIQ)],
    "C31": [dict(name="audio", src="C31.cpp", cxxflags=["-Wno-deprecated-declarations"], libs=["-Wl," + ",".join("--wrap=" + x for x in "avformat_open_input avformat_close_input avcodec_alloc_context3 avcodec_free_context swr_init swr_free av_frame_alloc av_frame_free".split()), "-lavformat", "-lavcodec", "-lswresample", "-lavutil"])],
    "C32": [dict(name="sources", src="C32.cpp", inc=["$VERIF/props/stubs/radio"], libs=["-lSoapySDR"])],
    "C33": [dict(name="sinks", src="C33.cpp", inc=["$VERIF/props/stubs/radio"], libs=["-lSoapySDR"])],
    "C34": [dict(name="heap", src="C34.cpp", san="none", libs=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=free,--wrap=mmap"])],
    "C35": [dict(name="map", src="C35.cpp", extra=["$REPO/desktop_blocks/adsb/modes.c", "$REPO/desktop_blocks/adsb/cpr.c"], inc=["$VERIF/props/stubs", "$REPO/desktop_blocks/adsb"], libs=["-lm"])],
    "C36": [dict(name="preview", src="C36.cpp", san="none", defs=['-DEXT_DRIVER="$VERIF/props/ext/driver.js"'])],
    "C37": [dict(name="blocks", src="C37.cpp", extra=PLOTS + ["$REPO/desktop_blocks/" + x for x in ("blob.cpp", "udp/shared.cpp", "ezgmsk/_ezgmsk_mod.c", "ezgmsk/_ezgmsk_demod.c", "adsb/modes.c", "adsb/modes_2400.c", "adsb/cpr.c")], inc=LIQI + ["$VERIF/props/stubs", "$REPO/desktop_blocks/ezgmsk", "$REPO/desktop_blocks/adsb"], libs=LIQ),
            dict(name="nomap", ndebug=True, defs=["-DNOMAP"], src="C37.cpp", extra=PLOTS + ["$REPO/desktop_blocks/" + x for x in ("blob.cpp", "udp/shared.cpp", "ezgmsk/_ezgmsk_mod.c", "ezgmsk/_ezgmsk_demod.c", "adsb/modes.c", "adsb/modes_2400.c", "adsb/cpr.c")], inc=LIQI + ["$VERIF/props/stubs", "$REPO/desktop_blocks/ezgmsk", "$REPO/desktop_blocks/adsb"], libs=LIQ + ["-Wl,--wrap=ftruncate"])],
    "C38": [dict(name="window", src="C38.cpp", extra=["$REPO/desktop_blocks/gui/gui_manager.cpp"], inc=["$VERIF/props/stubs/gui"])],
    "C03": [dict(name="sched", src="C03.cpp"), dict(name="tsan", src="C03t.cpp", san="tsan", width=2)],
}
ASSUMPTIONS = {}
TECH = {
    "C01": "stateful property-based testing of operation histories against a deque model",
    "C02": "stateful property-based testing of window/commit histories against a deque model",
    "C03": "property-based testing over generated thread schedules (instrumented interleavings, then real threads under ThreadSanitizer) against a FIFO model",
    "C04": "stateful property-based testing with counted objects: every constructed element is destroyed once, contents against a deque model",
    "C05": "property-based testing with fault injection at every system call of the allocation; oracle: aliasing of the two mappings, and balance of mappings and descriptors",
    "C06": "property-based testing of generated flowgraphs and configurations against a sequential model of the blocks, also under ThreadSanitizer",
    "C07": "stateful property-based testing of run/stop/error histories against a model of the flowgraph's life",
    "C08": "property-based testing of scripted block results against exactly computed statistics and a model of the adaptive sleep",
    "C09": "property-based testing of the utilities against independent definitions",
    "C10": "property-based testing of task layers over recording stand-ins of the RTOS calls; oracle: calls made and tasks run",
    "C11": "property-based testing of blocks under generated chunking against formulas; differential between chunkings",
    "C12": "property-based testing of blocks under generated chunking; oracle: delivered streams, rates in a bounded window",
    "C13": "property-based testing of signal generators under generated chunking against a high-precision phase model",
    "C14": "property-based testing with statistical oracles of known error probability, and independence between outputs",
    "C15": "property-based testing of filters under generated chunking against direct convolution and an exact demodulator",
    "C16": "property-based testing of the channelizer against a frame-by-frame reference and the alignment of its outputs",
    "C17": "differential property-based testing of the resampler: chunked run against one-shot reference",
    "C18": "property-based testing of round trips through files with injected short writes and I/O errors",
    "C19": "stateful property-based testing of pool histories against a model of owned slots, also with threads under ThreadSanitizer",
    "C20": "stateful property-based testing over loopback sockets with injected socket faults; oracle: list of datagrams sent",
    "C21": "property-based testing of the decoder against an independent Mode S encoder; metamorphic bit damage",
    "C22": "property-based testing of generated pulse trains (offset, level, noise) against the messages put in",
    "C23": "property-based testing: round trip of an exact CPR encoder through the decoder",
    "C24": "stateful property-based testing of message histories against a reference aircraft table",
    "C25": "property-based testing and mutation fuzzing of generated map files against a reference reader",
    "C26": "property-based testing: modem round trip over generated settings, payloads and channel impairments",
    "C27": "stateful property-based testing of logger lives and rotations against a model of the files; threads",
    "C28": "grammar-based generation of flowgraph sources; oracle: the generated graph, read back from the drawing",
    "C39": "grammar-based generation of C++ sources over a stand-in parser; oracle: the flowgraph they were generated from",
    "C29": "property-based testing of window coefficients against the defining formulas in extended precision",
    "C30": "stateful property-based testing of plots through recording stand-ins of the GUI against the list of samples sent",
    "C31": "property-based testing with generated and damaged audio files, against sample-accurate expectations; injected device failures",
    "C32": "stateful property-based testing against scripted stand-in devices with injected failures; oracle: samples delivered, calls balanced",
    "C33": "stateful property-based testing against scripted stand-in devices with injected failures; oracle: samples accepted by the device, calls balanced",
    "C34": "property-based testing of operation histories and flowgraph configurations; oracle: count of allocations",
    "C35": "stateful property-based testing of pointer histories through recording stand-ins of the GUI, against an exact projection; coastlines compared as point sets",
    "C38": "stateful property-based testing over a stand-in display that checks the rules of its use and fails on demand",
    "C37": "property-based testing of block lives, refused constructions and flowgraph runs; oracle: a ledger of heap bytes, descriptors, mappings, threads and files",
    "C36": "stateful property-based testing of editor histories (the extension under node, stand-ins for the editor and the tool) against a model of the diagram shown",
}
NOTE = {}
NOT_APPLICABLE = {}
