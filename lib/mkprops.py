#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ queue
prop("Q01", "Lossless sample queue delivers every buffer exactly once, in order",
     "With a lossless (blocking) sample queue, the consumer receives every buffer the producer was told was accepted, exactly once, in production order, with unchanged length and content. This holds for every queue depth, buffer size, producer/consumer speed and thread interleaving.",
     ["schedules", "inputs", "histories"],
     "all interleavings of producer and consumer operations, queue depths from 1, buffer lengths from 1 to the maximum",
     "test_queue drives put/take from a handful of hand-ordered calls with one depth; a lost, duplicated, reordered or overwritten buffer needs a specific wrap-around or interleaving.",
     ["src/queue.c", "src/queue.h"],
     [("free/filled/detached node lists under one mutex", "src/queue.c"), ("condition wait when no free node", "src/queue.c queue_put")],
     ["return value of put", "buffers returned by take"],
     [("nodes", "every node is in exactly one of free, filled, detached", "src/queue.c")])
prop("Q02", "Real-time queue never blocks and sacrifices only the newest waiting buffer",
     "With a real-time (non-blocking) sample queue, a producer never waits for the consumer: when the queue is full the newest waiting buffer is replaced by the incoming one and every older waiting buffer survives. Buffers are delivered in production order with unchanged content, and the buffer the consumer is currently processing is never modified until the consumer releases it. If the only buffer of the queue is being processed, the incoming one is refused.",
     ["schedules", "inputs", "histories"],
     "all producer/consumer interleavings, depths from 1 (including depth 1 with a buffer being processed), overload bursts of any length",
     "the unit tests overflow the queue once, single-threaded, and never with a buffer checked out or with depth 1.",
     ["src/queue.c", "src/dsp_worker.c"],
     [("overwrite of the last filled node when no free node", "src/queue.c queue_put"), ("detached node is outside both lists", "src/queue.c take_buffer_for_processing")],
     ["return value and duration of put", "buffers returned by take", "content of the checked-out buffer while the producer keeps going"])
prop("Q03", "Queue shutdown drains buffered data and wakes everybody",
     "After shutdown of a sample queue is requested, the consumer still receives every buffer accepted before the request and only then the end-of-stream mark, repeatedly. Producers and consumers that are waiting at that moment return promptly, and a lossless queue refuses any later buffer.",
     ["schedules", "histories"],
     "shutdown requested at any moment relative to put/take/release by other threads",
     "the tests interrupt an empty or prepared queue from one thread; a missed wake-up or a discarded tail needs the request to land while the other side is waiting or holding a buffer.",
     ["src/queue.c"],
     [("poison pill plus broadcast", "src/queue.c interrupt_waiting_the_data"), ("drain before returning NULL", "src/queue.c take_buffer_for_processing")],
     ["buffers and end marks returned by take", "return of blocked callers"])

# ------------------------------------------------------------------ server
prop("S01", "Each opening request gets exactly one response that matches its validity",
     "Every connection that sends an opening message gets exactly one well-formed response: success for a ping and for every receive or transmit request that satisfies the documented field and configuration requirements, a failure for every other one (naming an invalid request if a documented field is missing or unknown, an internal error if the signal blocks or the device cannot work with the values), and the connection is closed after a ping or a failure. A successful receive or transmit response carries an identifier that increases with every accepted connection and is never reused, and a receive client sees that response before any demodulated data.",
     ["inputs", "configurations", "histories"],
     "all combinations of present, missing, zero and extreme request fields, message types, protocol versions, body lengths and server device configurations",
     "test_invalid_requests posts a fixed list of about a dozen requests, each with one field zeroed, against one configuration per test.",
     ["src/tcp_server.c", "src/api_utils.c", "api.proto"],
     [("request validation", "src/tcp_server.c validate_rx_request, validate_tx_request"), ("response writer", "src/api_utils.c api_utils_write_response"), ("connection counter", "src/tcp_server.c acceptor_worker")],
     ["bytes sent to every client socket", "socket close"])
prop("S02", "No byte stream can crash, wedge or corrupt the server",
     "Whatever bytes clients send, in whatever fragments and with disconnects at any point, before or after a session is established, the server neither crashes nor performs an invalid memory access or undefined operation. It goes on serving sessions already established and new clients.",
     ["inputs", "histories"],
     "arbitrary and mutated byte streams, truncated at any offset, on fresh connections and inside established sessions, with extreme values in every request field",
     "the tests send well-formed messages with a few invalid fields; parsers and module constructors are never exercised with boundary values, unexpected message types in a session, or truncated bodies under a sanitizer.",
     ["src/tcp_server.c", "src/api_utils.c", "src/api.pb-c.c", "src/dsp_worker.c", "src/dsp/fsk_demod.c", "src/dsp/gfsk_mod.c", "src/dsp/doppler.c", "src/sgpsdp/sgp_in.c"],
     [("message length limit", "src/api_utils.c"), ("field validation", "src/tcp_server.c"), ("constructor error codes", "src/dsp")],
     ["process exit", "AddressSanitizer and UndefinedBehaviorSanitizer reports", "liveness probe after every stream"])
prop("S03", "Messages inside a session are framed independently of each other",
     "Inside an established session every complete message is handled exactly once and in order, however the bytes are fragmented and however long the pauses between and inside of messages are; only the body of a transmit-data message that pauses for longer than the read timeout is given up and answered as an invalid request. A message of unsupported type or version, including its body, is ignored without affecting the messages that follow, and every transmit-data message gets exactly one response, in order.",
     ["inputs", "histories"],
     "all sequences of valid, unsupported and oversized messages, cut into any fragments, with idle gaps longer than the read timeout",
     "the tests only ignore unsupported headers with an empty body and always write each message in one piece.",
     ["src/tcp_server.c", "src/api_utils.c", "src/tcp_utils.c"],
     [("session loop", "src/tcp_server.c tcp_worker_callback"), ("exact-length reads", "src/tcp_utils.c")],
     ["responses read by the client", "samples reaching the transmitter"])
prop("S04", "A receive client gets exactly the demodulation of its input samples",
     "For every accepted receive request the demodulated bytes are those of the configured demodulator applied to the input samples in order, with nothing lost, repeated or invented when the input is a recording, and independent of the server's buffer size and queue depth. They go to the socket, to the output file or to both, as requested, byte for byte the same, and the requested dump of the input contains exactly the samples received.",
     ["inputs", "configurations", "schedules"],
     "all request parameters, recordings shorter than one buffer up to many buffers, buffer and queue sizes, destinations, dump flags, Doppler on and off",
     "test_file_data and test_read_data use one recording and one buffer size that swallows it in one piece, so batching, first/last-batch and routing errors stay invisible.",
     ["src/dsp_worker.c", "src/sdr_worker.c", "src/sdr/file_source.c", "src/queue.c", "src/dsp/fsk_demod.c"],
     [("per-client worker thread fed by a queue", "src/dsp_worker.c"), ("fan-out to clients", "src/sdr_worker.c")],
     ["bytes read from the client socket", "demodulated output file", "input dump file"])
prop("S05", "Upstream delivery pattern does not change what is demodulated",
     "The demodulated stream depends only on the sequence of samples the upstream SDR server sends, not on how the bytes are split, delayed or paused, including splits inside a sample and pauses longer than the read timeout. When the upstream connection ends, everything received up to then is still processed.",
     ["schedules", "inputs"],
     "all segmentations of the upstream byte stream, pauses around the read timeout, end of stream at any byte",
     "the mock in the tests sends whole buffers back to back; partial samples and mid-buffer timeouts never occur.",
     ["src/sdr/sdr_server_client.c", "src/tcp_utils.c", "src/sdr_worker.c"],
     [("partial reads", "src/tcp_utils.c tcp_utils_read_data_partially"), ("timeout handling in the reader loop", "src/sdr_worker.c sdr_worker_callback")],
     ["input dump file", "demodulated output"])
prop("S06", "Concurrent receive clients are isolated from each other",
     "With any number of concurrent receive clients, each gets the demodulation of its own input with its own parameters, whatever the others do: join, leave abruptly or stop reading. No client ever receives bytes meant for another, a client that stops reading never stalls the others, and each client's files are its own.",
     ["schedules", "histories"],
     "all interleavings of client arrivals, departures and stalls on shared and separate inputs",
     "test_multiple_clients runs three well-behaved clients one after another with tiny data.",
     ["src/sdr_worker.c", "src/dsp_worker.c", "src/tcp_server.c"],
     [("one queue and thread per client", "src/dsp_worker.c"), ("list of clients under the reader's mutex", "src/sdr_worker.c")],
     ["bytes read by every client", "output files per client"])
prop("S07", "Upstream connections are shared exactly when the tuning is the same",
     "Receive clients with the same centre frequency, offset and sampling rate share one upstream connection, and clients that differ in any of them get their own, requested with the right tuned frequency, band frequency and rate. The connection is opened when the first client needs it, stays up while any client uses it, and is shut down with the shutdown message once the last one leaves.",
     ["histories", "inputs"],
     "all sequences of joins and leaves over several tuning tuples",
     "test_multiple_clients checks one join order; rates that differ, re-joins after the last leave and upstream request encoding for offsets are not covered.",
     ["src/tcp_server.c", "src/sdr_worker.c", "src/sdr/sdr_server_client.c"],
     [("search for a compatible upstream worker", "src/sdr_worker.c sdr_worker_find_closest"), ("last client tears the worker down", "src/sdr_worker.c sdr_worker_destroy_by_dsp_worker_id")],
     ["connections, requests and shutdown messages seen by the upstream server"])
prop("S08", "Transmitted samples are the exact modulation of the data sent",
     "The samples handed to the transmitter are the modulation of the concatenated data of the transmit messages, in order, continuous across messages, shifted by the requested offset or Doppler correction. They do not depend on how the data is split into messages or on the server's buffer size, and the requested dump contains exactly the samples transmitted.",
     ["inputs", "configurations", "histories"],
     "all data, message splits, modulation parameters, offsets, Doppler settings and buffer sizes",
     "test_plutosdr_tx and test_file_data send one or two fixed messages that fit in one buffer.",
     ["src/tcp_server.c", "src/dsp/gfsk_mod.c", "src/dsp/doppler.c", "src/dsp/sig_source.c", "src/sdr/file_source.c", "src/sdr/plutosdr.c"],
     [("batch loop over the message", "src/tcp_server.c handle_tx_data")],
     ["transmit file", "samples pushed to the device", "transmit dump file"])
prop("S09", "A transmit acknowledgement means all of the data was transmitted",
     "Each transmit message is answered with success only if the device accepted every sample of it, and with a failure naming an internal error if the device failed at any point. After a failure the session stays usable and the next message is modulated, transmitted and answered on its own.",
     ["fault_sequences", "inputs", "histories"],
     "device failures at any push of any message in a session, messages of any size up to the protocol limit",
     "test_plutosdr_failures2 fails the very first push of a one-push message only.",
     ["src/tcp_server.c", "src/sdr/plutosdr.c", "src/sdr/file_source.c"],
     [("status of every device write is checked", "src/tcp_server.c handle_tx_data"), ("negative push result is an error", "src/sdr/plutosdr.c plutosdr_process_tx")],
     ["responses", "samples accepted by the device"])
prop("S10", "The transmitter and a directly attached receiver have one owner at a time",
     "At most one client at a time owns the transmitter, and at most one a directly attached receiver: a competing request is refused with the matching in-use reason and does not disturb the owner. When the owner leaves in any way, or its set-up fails, the device is released and the next request succeeds; a client that has asked to leave and has seen its connection closed can be followed at once. Use of one device does not keep the other from being released.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of acquire, compete, graceful and abrupt leave, and failed set-up",
     "test_plutosdr_failures2 tries one competing transmit client; release after abrupt leave and after failed set-up is not tested.",
     ["src/tcp_server.c", "src/sdr/plutosdr.c"],
     [("in-use flags recomputed when workers terminate", "src/tcp_server.c cleanup_terminated_threads")],
     ["responses", "device open/close events"])
prop("S11", "Stop request ends the server promptly from any state",
     "After a stop signal the server process ends by itself with success in bounded time, whatever the clients and the upstream are doing: idle, streaming, stalled, not reading, or in the middle of a request. All client connections are closed, the upstream connection is shut down with the shutdown message, and output files contain everything that was processed. It can be started again on the same address at once.",
     ["schedules", "histories", "crash_points"],
     "stop delivered at any moment of any mix of sessions",
     "the tests stop an idle server after their clients have left.",
     ["src/main.c", "src/tcp_server.c", "src/sdr_worker.c", "src/dsp_worker.c", "src/sdr/sdr_server_client.c"],
     [("listening socket shutdown unblocks the acceptor", "src/tcp_server.c tcp_server_destroy"), ("cascade of worker destruction", "src/tcp_server.c, src/sdr_worker.c, src/dsp_worker.c")],
     ["process exit status and time", "socket closes", "upstream shutdown message", "output files"])
prop("S12", "Sessions leave nothing behind",
     "After any number of sessions that succeeded, were refused, failed or were aborted, the server's open descriptors, threads and memory return to the level before them by the time the next client has been answered. When the server stops, all memory has been released.",
     ["histories", "fault_sequences"],
     "all mixes and orders of session outcomes, repeated",
     "unit tests never look at descriptors, threads or memory, and run each kind of session once.",
     ["src/tcp_server.c", "src/api_utils.c", "src/sdr_worker.c", "src/dsp_worker.c", "src/sdr/sdr_server_client.c", "src/sdr/file_source.c", "src/sdr/plutosdr.c"],
     [("destroy functions on every exit path", "src")],
     ["/proc/<pid>/fd, /proc/<pid>/task", "LeakSanitizer at exit"])
prop("S13", "A resource failure affects only the request that needed the resource",
     "If an allocation, thread creation, socket, file or device operation fails while a request is handled, that client gets a failure response or is disconnected. The server does not crash, corrupt memory or leak, keeps serving the other sessions, and handles the next request normally.",
     ["fault_sequences", "inputs"],
     "a single failure at each resource operation a session performs, for receive and transmit sessions and every module constructor",
     "no test injects an allocation, thread or file failure; the error paths have never run.",
     ["src/tcp_server.c", "src/dsp_worker.c", "src/sdr_worker.c", "src/sdr", "src/dsp", "src/queue.c", "src/api_utils.c", "src/linked_list.c"],
     [("error return and clean-up path of every constructor", "src")],
     ["constructor return codes", "sanitizer reports", "responses", "liveness probe"])
prop("S14", "The server is free of data races",
     "No two threads of the server ever access the same memory without synchronisation when at least one of them writes, and no thread uses an object that another has released. This holds for any mix of concurrent sessions, disconnects, upstream failures and server stop.",
     ["schedules"],
     "thread schedules of sessions joining, streaming, leaving, failing and stopping concurrently, with injected delays",
     "the tests run without a race detector and clients come and go one at a time.",
     ["src/tcp_server.c", "src/sdr_worker.c", "src/dsp_worker.c", "src/queue.c", "src/sdr/plutosdr.c", "src/sdr/file_source.c", "src/sdr/sdr_server_client.c", "src/sgpsdp/sgp_time.c"],
     [("server mutex, reader mutex, queue mutex, atomic flags", "src")],
     ["ThreadSanitizer and AddressSanitizer reports"])
prop("S15", "Upstream failures are contained and recoverable",
     "If the upstream SDR server is unreachable, refuses, answers garbage or goes silent during set-up, the client gets a failure naming an internal error and the server continues. If the upstream ends a running stream, its clients are disconnected after having received everything that was demodulated from it, and a later request for the same tuning opens a new upstream connection and receives its data.",
     ["fault_sequences", "histories"],
     "all ways and moments for the upstream to fail, during set-up and during streaming",
     "only an unreachable upstream is tested.",
     ["src/sdr/sdr_server_client.c", "src/sdr_worker.c", "src/tcp_server.c"],
     [("response checks", "src/sdr/sdr_server_client.c sdr_server_client_create"), ("end of stream handling", "src/sdr_worker.c sdr_worker_callback")],
     ["responses", "connections seen by the upstream server", "data delivered afterwards"])
prop("C01", "Configuration files are read faithfully or refused",
     "Every configuration file yields either the values it states, with the documented default for every absent setting, or a clean refusal when it is unreadable, names an unsupported device type or a non-positive read timeout, or holds a value of the wrong type or out of range. No configuration file can crash the program at start-up.",
     ["inputs", "configurations"],
     "all combinations of present, absent, mistyped and extreme settings",
     "test_server_config reads about six fixed files.",
     ["src/server_config.c", "src/main.c", "src/resources/config.conf"],
     [("per-setting lookup with default", "src/server_config.c")],
     ["parsed values", "exit status"])

# ------------------------------------------------------------------ devices
prop("P01", "PlutoSDR samples are converted and batched exactly",
     "Samples sent to the device are the 16-bit full-scale conversion of the requested samples, all of them, once and in order, however many are requested at a time and whatever the buffer size. Received samples are the device's 12-bit values scaled to plus or minus one, in order, and a buffer larger than announced or a device error is reported as an error and never delivered as data.",
     ["inputs", "configurations", "fault_sequences"],
     "all sample values including out-of-range, request lengths, buffer sizes and device error positions",
     "test_plutosdr converts one short fixed vector.",
     ["src/sdr/plutosdr.c"],
     [("scale factors and batch loop", "src/sdr/plutosdr.c plutosdr_process_tx, plutosdr_process_rx")],
     ["values in the device buffer at every push", "samples returned"])
prop("P02", "PlutoSDR set-up is all-or-nothing and configures what was asked",
     "Opening the device either programs the requested frequency, rate, bandwidth and gain on the right direction and succeeds, or fails, and in every case everything acquired is released exactly once. The shared device context lives exactly as long as some session uses it.",
     ["fault_sequences", "histories", "inputs"],
     "a failure at each device call of receive and transmit set-up, sampling rates across all filter ranges, and all orders of opening and closing receive and transmit",
     "test_plutosdr and test_plutosdr_failures fail a selection of calls and only look at the return code.",
     ["src/sdr/plutosdr.c", "src/sdr/iio_lib.c"],
     [("reference-counted context", "src/sdr/plutosdr.c global_iio_ctx_usages"), ("destroy on every failure", "src/sdr/plutosdr.c plutosdr_create")],
     ["acquire/release events and attribute writes at the device library boundary"])
prop("F01", "File devices replay and record samples exactly",
     "Reading from a recording yields its samples in order, completely, shifted by the configured offset, and after the last sample the reader waits until it is told to stop. Writing to a file device stores exactly the samples written, in order.",
     ["inputs", "configurations", "schedules"],
     "all file lengths (including empty and not a whole number of samples), buffer sizes, offsets and stop moments",
     "test_file_source uses one short file and one buffer size.",
     ["src/sdr/file_source.c", "src/dsp/sig_source.c"],
     [("buffered reads, stop condition", "src/sdr/file_source.c")],
     ["samples returned", "file content"])

# ------------------------------------------------------------------ signal processing
prop("D01", "Decimating filter computes the convolution, however the input is cut",
     "The decimating low-pass filter outputs every decimation-th sample of the convolution of its whole input history with its taps, for real and complex samples. The concatenated output is the same for every way of cutting the input into buffers, including buffers shorter than the filter or the decimation factor.",
     ["inputs", "configurations"],
     "all inputs, taps lengths, decimation factors, memory alignments and cuts",
     "the tests compare a few outputs of one input against stored numbers with equal-sized buffers.",
     ["src/dsp/fir_filter.c", "src/dsp/lpf.c"],
     [("history kept between buffers", "src/dsp/fir_filter.c")],
     ["filter output"])
prop("D02", "Low-pass design has unit gain, linear phase and the requested selectivity",
     "For every accepted sampling rate, cut-off and transition width the designed filter has an odd number of symmetric taps, unit gain at zero frequency, pass-band ripple and stop-band attenuation of the Hamming design around the cut-off. Zero or out-of-range parameters are refused.",
     ["inputs"],
     "all accepted parameter triples",
     "test_lpf_taps compares one design against stored numbers.",
     ["src/dsp/lpf_taps.c"],
     [("windowed sinc with normalisation", "src/dsp/lpf_taps.c")],
     ["taps"])
prop("D03", "Modulator output is a unit-amplitude, phase-continuous GMSK waveform",
     "For every data sequence, and every deviation below the sampling rate, the modulator emits eight times the samples-per-symbol samples per byte, each of unit magnitude, whose phase advances by the deviation-scaled Gaussian-filtered symbol sequence, most significant bit first. The waveform is the same however the data is cut into calls.",
     ["inputs", "configurations"],
     "all data, samples-per-symbol values, deviations and cuts",
     "test_gfsk_mod compares a short fixed sequence against stored numbers.",
     ["src/dsp/gfsk_mod.c", "src/dsp/interp_fir_filter.c", "src/dsp/gaussian_taps.c", "src/dsp/frequency_modulator.c"],
     [("polyphase interpolator, phase accumulator", "src/dsp")],
     ["modulator output"])
prop("D04", "Quadrature demodulator reports the phase step between samples",
     "The output is the configured gain times the phase difference between consecutive samples, accurate to a ten-thousandth of a radian for every pair of non-zero samples in every quadrant, independent of amplitude, with the same result however the input is cut into buffers.",
     ["inputs"],
     "all sample pairs including axis-aligned, tiny and large amplitudes; all cuts",
     "test_quadrature_demod checks one stored sequence.",
     ["src/dsp/quadrature_demod.c", "src/math/fast_atan2f.c"],
     [("conjugate product and table arctangent", "src/math/fast_atan2f.c")],
     ["demodulator output"])
prop("D05", "Symbol timing recovery is independent of buffering and tracks the signal",
     "The recovered symbol sequence depends only on the (finite) sample sequence, not on how it is cut into buffers, and every symbol of a clean signal is recovered once, in order, for any initial timing phase and a rate error inside the configured limit. Non-finite input spoils at most the few symbols around it and never stops it from recovering later clean input.",
     ["inputs", "configurations"],
     "all signals, samples-per-symbol values, timing phases, rate errors and cuts",
     "test_clock_recovery_mm feeds one stored signal in equal buffers.",
     ["src/dsp/clock_recovery_mm.c", "src/dsp/mmse_fir_interpolator.c"],
     [("Mueller and Mueller loop with clipped rate", "src/dsp/clock_recovery_mm.c"), ("history kept between buffers", "src/dsp/clock_recovery_mm.c")],
     ["recovered symbols"])
prop("D06", "DC blocker is the same linear high-pass filter for every input and cut",
     "The DC blocker computes the delayed input minus its four-stage moving average: a constant input decays to zero, the response is the same for every way of cutting the input, and it stays accurate over long runs.",
     ["inputs", "configurations"],
     "all inputs, lengths and cuts",
     "test_dc_blocker checks one stored sequence.",
     ["src/dsp/dc_blocker.c"],
     [("four cascaded moving averages and a delay", "src/dsp/dc_blocker.c")],
     ["blocker output"])
prop("D07", "Frequency shift is exact, phase-continuous and unit-gain",
     "Shifting by a frequency multiplies the samples by a unit-magnitude carrier of exactly that frequency, positive or negative, with a phase that is continuous across buffers and across changes of frequency. Accuracy does not degrade over long runs, and buffers beyond the announced size are refused.",
     ["inputs", "histories"],
     "all frequencies up to the sampling rate in magnitude, sampling rates, amplitudes, cuts and sequences of frequency changes",
     "test_sig_source compares a few samples against stored numbers.",
     ["src/dsp/sig_source.c"],
     [("phase accumulator with wrap", "src/dsp/sig_source.c")],
     ["generated carrier", "shifted samples"])
prop("D08", "Doppler correction follows the satellite's line-of-sight velocity",
     "Receive correction shifts the signal by the Doppler shift of the satellite as seen from the station at the sample's time, with the sign that cancels it, transmit correction by the opposite shift plus the constant offset, updated every second and interpolated in between. How the samples are cut into buffers changes the applied frequency by no more than the drift within one buffer.",
     ["inputs", "configurations", "histories"],
     "all orbits, stations, start times, frequencies, sampling rates and cuts, over many seconds",
     "test_doppler uses one satellite, one station and compares stored numbers of a few samples.",
     ["src/dsp/doppler.c", "src/sgpsdp"],
     [("shift from range rate once per second with linear interpolation", "src/dsp/doppler.c")],
     ["corrected samples"])
prop("D09", "Orbit prediction matches the reference model and refuses bad elements",
     "For every valid two-line element set, near-earth or deep-space, the predicted position and the observed range and range rate match an independent implementation of the model, independently of what other satellites are predicted before or at the same time. Element sets with a wrong checksum, misplaced fields or impossible values are refused without any invalid memory access.",
     ["inputs", "histories"],
     "all element sets, epochs, propagation times and stations; all corruptions of an element set",
     "test_sgp4_001/002 check the two published test cases.",
     ["src/sgpsdp/sgp4sdp4.c", "src/sgpsdp/sgp_in.c", "src/sgpsdp/sgp_obs.c", "src/sgpsdp/sgp_time.c", "src/sgpsdp/sgp_math.c"],
     [("SGP4/SDP4 propagators", "src/sgpsdp/sgp4sdp4.c"), ("checksum and field checks", "src/sgpsdp/sgp_in.c")],
     ["position, velocity, range, range rate", "accept/refuse"])
prop("D10", "What is modulated can be demodulated",
     "Data modulated and demodulated with matching parameters is recovered bit for bit after the start-up transient, for every data sequence with ordinary bit density, samples-per-symbol ratio, deviation sign and decimation, with moderate noise, amplitude and carrier offset when the DC blocker is on. The result does not depend on buffer boundaries.",
     ["inputs", "configurations"],
     "data, baud rates, sampling rates, deviations, decimations, offsets, noise and cuts",
     "no test joins the two directions; each is compared with stored numbers for one parameter set.",
     ["src/dsp/fsk_demod.c", "src/dsp/gfsk_mod.c", "src/dsp/clock_recovery_mm.c", "src/dsp/quadrature_demod.c", "src/dsp/lpf.c", "src/dsp/dc_blocker.c"],
     [("demodulator chain", "src/dsp/fsk_demod.c"), ("modulator chain", "src/dsp/gfsk_mod.c")],
     ["recovered bits"])
prop("D11", "Signal blocks tolerate any samples and any accepted parameters",
     "For every parameter set a block accepts, and every sequence of samples including non-finite and extreme ones in buffers of any allowed length, processing stays within its memory, performs no undefined operation, terminates and never produces more output than its bound. An over-long buffer yields no output and no damage, and unusable parameters are refused with an error.",
     ["inputs", "configurations", "histories"],
     "all parameter values representable in the interface, all sample values, all buffer length sequences",
     "the tests use a handful of sane parameter sets without a sanitizer, and vector kernels hide overruns from it.",
     ["src/dsp"],
     [("length checks", "src/dsp"), ("parameter checks", "src/dsp/lpf_taps.c")],
     ["AddressSanitizer and UndefinedBehaviorSanitizer reports with instrumented vector kernels", "return codes and output lengths"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
