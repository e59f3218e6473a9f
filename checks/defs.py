"""What each check runs. Counts of cases are fixed, so that a run is determined by the seed and tier."""
import os, subprocess, sys
from __main__ import Job, CheckError, VERIF, REPO

def zoo(seed_offset, quick=6, thorough=14, *args):
    def gen(seed, tier):
        n = quick if tier == "quick" else thorough
        return subprocess.run([sys.executable, os.path.join(VERIF, "tools", "gen_types.py"), str(seed * 1000 + seed_offset), str(n), "G", *args],
                              capture_output=True, text=True, check=True).stdout
    return gen

def api(seed_offset, quick=4, thorough=16):
    def gen(seed, tier):
        n = quick if tier == "quick" else thorough
        return subprocess.run([sys.executable, os.path.join(VERIF, "tools", "gen_api.py"), str(seed * 1000 + seed_offset), str(n)],
                              capture_output=True, text=True, check=True).stdout
    return gen

O0_ASAN = "-O0 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,vptr,null -fno-sanitize-recover=all"

CHECKS = {
    "C01": dict(
        jobs=[Job("c01_json_roundtrip.cpp", quick=24000, thorough=600000, gen=zoo(1))],
        require={"round_trips": 1000},
        rule="an object of one of the fixed or generated classes filled with random values is written as JSON, the text is parsed by an independent "
             "strict parser and compared with the values member by member, then read into an object with other contents; distinct by class and text"),
    "C02": dict(
        jobs=[Job("c02_json_spelling.cpp", quick=24000, thorough=600000, gen=zoo(2))],
        require={"texts_read": 1000, "unknown_members": 100, "absent_members": 100},
        rule="random contents spelled as JSON with random layout, member order, escapes, number notation, unknown and absent members are read into an object "
             "with other contents and compared with the values spelled; distinct by class and text"),
    "C03": dict(
        jobs=[Job("c03_binary.cpp", quick=24000, thorough=600000, gen=zoo(3))],
        require={"round_trips": 1000, "oversized_refused": 10},
        rule="an object filled with random values is written in binary format with 8, 16 or 32 bit sizes and compared with bytes produced by an independent encoder, "
             "then read into an object with other contents, also followed by foreign bytes; distinct by class, size type and bytes"),
    "C04": dict(
        jobs=[Job("c04_hostile_input.cpp", quick=24000, thorough=600000, gen=zoo(4))],
        require={"inputs_json": 1000, "inputs_binary": 1000, "inputs_form": 500, "inputs_for_limited_depth": 500, "accepted": 100, "refused_by_exception": 1000, "reused": 1000},
        rule="a valid text or byte string of one of the classes is truncated, mutated, nested or replaced by random bytes and read from memory of exactly its size under the address and "
             "undefined behaviour sanitizers, with a watch over the kind of the outcome, the memory requested and leaked and the usability of the object afterwards; distinct by class, format and bytes"),
    "C05": dict(
        jobs=[Job("c05_buffers.cpp", quick=200000, thorough=4000000), Job("c05_huge.cpp", san="O2", quick=2, thorough=3, shards=2)],
        require={"streams": 1000, "cleared": 1000, "flushed": 1000, "overfull": 100, "huge_streams": 2},
        rule="a random sequence of writes of characters, strings and blocks, sizes often at the edges of capacity, with clearing and flushing, into each kind of buffer with capacities 1 to 4096, "
             "compared after every operation with a plain string; two streams of more than 2 GB; distinct by kind and the sequence of operations"),
    "C06": dict(
        jobs=[Job("c06_forms.cpp", quick=100000, thorough=2000000)],
        require={"round_trips": 1000, "foreign_forms_read": 1000, "arguments_written": 1000, "arguments_foreign": 1000, "unknown_fields": 100, "empty_fields": 100},
        rule="objects and arguments of random texts and numbers are encoded by the library and decoded by an independent decoder and by the library, or encoded by an independent encoder in random "
             "order, escaping and with unknown and empty fields and read by the library; distinct by the encoded text"),
    "C07": dict(
        jobs=[Job("c07_http_framing.cpp", quick=20000, thorough=400000)],
        require={"requests": 10000, "segments": 100000, "status_200": 1000, "status_404": 100, "status_400": 100, "status_500": 100, "status_501": 100},
        rule="one to six random valid requests with bodies resembling requests are given to a session one by one and then as one stream cut at random, interesting or all positions; the calls on the "
             "application and the bytes of responses after every segment are compared; distinct by the stream"),
    "C08": dict(
        jobs=[Job("c08_http_responses.cpp", quick=100000, thorough=2000000)],
        require={"successful": 5000, "failed_before_output": 1000, "failed_after_output": 1000, "responder_requests": 5000, "pages": 500, "large": 10},
        rule="an application produces a body of random size and type in random pieces with known or unknown size and ends in one of ways including failures at any point, or the library's own responders "
             "are asked to perform calls; the output is read by a strict independent parser of responses; distinct by the plan of the application or the requests"),
    "C09": dict(
        jobs=[Job("c09_http_hostile.cpp", quick=60000, thorough=1200000)],
        require={"length_invalid": 1000, "length_contradictory": 1000, "length_missing": 1000, "length_chunked": 1000, "arbitrary_streams": 10000, "calls": 1000, "closed": 1000},
        rule="streams of random, mutated, truncated and valid requests cut in random ways, given from memory of exactly their size, and requests without a usable body length followed by what must not be "
             "executed; distinct by the stream"),
    "C10": dict(
        jobs=[Job("c10_receive_buffer.cpp", quick=24000, thorough=500000)],
        require={"blocks": 10000, "partially_consumed": 1000, "waited_for_more": 1000, "long_messages": 1000, "shrunk_after_long": 100, "disconnected": 100},
        rule="blocks of random sizes are received by the buffer and a simulated protocol consumes messages of random sizes (often around the sizes of the buffer's parts), comparing what it is offered with "
             "a model of the received and unconsumed bytes every time; distinct by the sequence of blocks"),
    "C13": dict(
        jobs=[Job("c13_remote_calls.cpp", quick=80000, thorough=1600000, gen=api(13))],
        require={"calls_binary": 1000, "calls_binary32": 1000, "calls_json": 1000, "calls_form": 300, "calls_async": 1000, "calls_sync": 1000, "wide_objects": 500, "very_wide_far": 50, "very_wide_near": 50},
        rule="procedures with generated arguments and results, in trees of generated classes and run-time composed objects, are called through a client and a server over a simulated connection cutting "
             "data at random, directly or with several calls outstanding; the calls recorded by the procedures and the results are compared with those given; distinct by protocol, procedure and arguments"),
    "C26": dict(
        jobs=[Job("c26_binary_server.cpp", quick=60000, thorough=1200000, gen=api(26))],
        require={"requests": 10000, "segments": 100000, "closed": 3000, "size_type_8": 1000, "size_type_16": 1000, "size_type_32": 1000},
        rule="sequences of requests for generated procedures made by an independent encoder, possibly ended by one with a wrong size, missing arguments, unknown or failing procedure and followed by others, are "
             "given to a session in segments cut at random; the recorded calls after every segment and the bytes of responses are compared with those expected; distinct by the bytes of requests"),
    "C27": dict(
        jobs=[Job("c27_custom_formats.cpp", quick=40000, thorough=800000, gen=api(27))],
        require={"values_restored": 10000, "values_named": 5000, "values_by_order": 3000, "calls_done": 10000, "calls_async": 3000, "calls_sync": 3000, "arguments_named": 3000, "arguments_by_order": 1000,
                 "skipped": 1000, "ready": 100, "not_ready": 100},
        rule="objects with random values and calls of generated procedures pass through a format and a protocol implemented by the test, whose methods verify the order, nesting, indexes, sizes and "
             "flags of every call on them against the descriptions of the interfaces and whose trees are compared with the values; read with members named, shuffled, unknown or identified by order; "
             "distinct by class and tree or procedure and arguments"),
    "C28": dict(
        jobs=[Job("c28_values.cpp", quick=40000, thorough=800000, gen=zoo(28, 3, 12)), Job("c28_configurations.cpp", quick=20000, thorough=400000, gen=api(28, 2, 8))],
        require={"written_rope": 10000, "written_big_endian": 10000, "written_own_buffer": 5000, "written_limited": 10000, "written_streaming": 10000, "read_rope": 10000, "own_members": 5000, "truncated": 5000,
                 "responses_compared": 10000, "servers_http": 1000, "servers_json": 1000, "servers_form": 1000, "servers_binary": 1000, "descriptions": 100,
                 "clients_json": 1000, "clients_form": 1000, "clients_binary": 1000, "clients_big_endian": 1000},
        rule="objects of generated classes are written and read through strings, buffers and formats of numbers implemented by the test in place of the default ones and compared with what the default ones give; "
             "the same streams of requests are given to servers and the same calls are made through clients of default and other types and all bytes, executions and results are compared; buffers of constant size "
             "are expected to truncate the body and stay correctly framed; distinct by contents or requests"),
    "C29": dict(
        jobs=[Job("c29_allocation.cpp", quick=200000, thorough=4000000), Job("c29_allocation.cpp", san="O0", quick=200000, thorough=4000000, name="c29_allocation_O0")],
        require={"watched_holder": 10000, "watched_call_json": 10000, "watched_call_binary": 10000, "watched_call_form": 10000, "watched_reading_json": 10000, "watched_reading_foreign": 10000,
                 "watched_writing_json": 10000, "watched_writing_binary": 10000, "watched_writing_form": 10000, "responses_that_fit": 10000, "responses_that_barely_fit": 500, "watched_known_size": 1000},
        technique="counting of all requests for memory during the watched operations of randomised workloads, under sanitizers and unoptimised",
        rule="every request for memory is counted during writing and reading of values of constant size, calls through clients and servers with strings and buffers of constant size, responses that fit the buffers of "
             "default types, large responses of known size and handling of closures up to three words, and must not occur; the results of the same operations are verified; distinct by contents, sizes or closures"),
    "C30": dict(
        jobs=[Job("c30_threads.cpp", san="tsan", quick=4000, thorough=80000, gen=api(30))],
        require={"calls_local": 10000, "calls_json": 8000, "calls_binary": 8000, "calls_forms": 3000, "descriptions": 3000, "objects": 3000, "thread_switches": 20000},
        technique="race detector over processes where threads start to use the library at once, with a check of each thread's results",
        rule="every case is a new process where several threads, released at once, create trees of the same classes, call their procedures, write and read objects, describe trees and call servers of their own or sessions of a "
             "shared server through clients of their own; races are detected and what each thread executed and got is compared with what it asked for; distinct by the choices, what was done and the switches between threads"),
    "C15": dict(
        jobs=[Job("c15_json_rpc.cpp", quick=120000, thorough=2400000, gen=api(15))],
        require={"results": 10000, "notifications": 1000, "error-32603": 1000, "error-32602": 500, "error-32601": 500, "error-32600": 1000, "incomplete": 500},
        rule="requests with random spelling and order of members, calling generated procedures, throwing ones, unknown ones, with wrong arguments or invalid in various ways, as calls or notifications, are sent "
             "in HTTP requests; the recorded calls and the responses read by independent parsers are compared with those demanded; distinct by the text of requests"),
    "C16": dict(
        jobs=[Job("c16_json_rpc_batch.cpp", quick=30000, thorough=600000, gen=api(16))],
        require={"entries": 50000, "executions": 10000, "answers": 10000, "only_notifications": 500, "unreadable": 5000, "incomplete": 500, "empty": 500},
        rule="arrays of up to 60 (thorough 300) requests of all kinds, valid, failing, invalid, with unreadable strings and notifications, in random order and spelling, also empty and truncated ones; the recorded calls and the array of "
             "responses are matched with those demanded; distinct by the text of batches"),
    "C12": dict(
        jobs=[Job("c12_client_matching.cpp", quick=6000, thorough=240000, gen=api(12, 3, 10)),
              Job("c12_many_calls.cpp", san="O2", quick=8, thorough=64, gen=api(112, 1, 1))],
        require={"max_calls_between": 65000, "long_calls_binary_memory": 60000, "long_calls_binary_network": 60000, "long_calls_json_memory": 60000, "long_calls_json_network": 60000, "calls_binary": 2000, "calls_json": 2000, "responses_http": 2000, "polled_ready": 1000, "polled_not_ready": 1000, "taken_waiting": 1000, "taken_available": 1000, "dropped": 20},
        rule="a client over a real loopback connection has several requests outstanding; the other side, made without the library, sends the responses in random (binary protocol) or the only possible (HTTP) "
             "order cut at random, while the client polls for and takes responses in random order, some of them while they are still coming; distinct by the requests"),
    "C31": dict(
        jobs=[Job("c12_client_matching.cpp", name="c31_client_matching", defs="-DHTTPS", libs="-lssl -lcrypto", quick=3000, thorough=100000, gen=api(31, 3, 10)),
              Job("c14_broken_connections.cpp", name="c31_broken_connections", defs="-DHTTPS", libs="-lssl -lcrypto", quick=6000, thorough=100000),
              Job("c31_https.cpp", libs="-lssl -lcrypto", quick=4000, thorough=60000)],
        require={"records_cut": 1000, "calls_binary": 2000, "calls_json": 2000, "responses_http": 2000, "polled_ready": 1000, "polled_not_ready": 1000, "taken_waiting": 1000, "taken_available": 1000,
                 "values": 3000, "failures": 8000, "cut_records": 100, "ended_closed": 500, "ended_reset": 500, "exchanges_http": 3000, "exchanges_rpc": 1000, "refused_damaged": 300, "bad_closing": 50, "bad_garbage": 50,
                 "bad_plain": 50, "bad_alert": 50, "bad_truncated": 50, "bad_changed": 50, "bad_old": 50, "version_TLSv1.2": 200, "version_TLSv1.3": 500},
        rule="clients of HTTP, JSON-RPC and the binary protocol over the HTTPS client and a real loopback connection talk to a server made of OpenSSL without the library, which sends responses in random order, records of random "
             "sizes cut anywhere, with tickets and key updates between them, while the client polls and takes; connections are closed, reset, cut in a record or damaged at any byte, handshakes fail in various ways; the raw bytes "
             "are searched for secrets and parsed as TLS records; distinct by the requests, responses and damage"),
    "C11": dict(
        jobs=[Job("c11_tcp_server.cpp", quick=12000, thorough=200000), Job("c11_threads.cpp", san="tsan", quick=600, thorough=12000)],
        require={"responses": 20000, "released": 2000, "few_descriptors": 200, "memory_rounds": 200, "stopped": 1000, "half_closed": 1000, "reset": 1000, "vanished": 1000,
                 "statistics_read": 1000, "stopped_early": 100, "stalled_reader": 1},
        rule="several well behaved clients over the loopback network, which know every byte they must receive, are mixed with ones that are silent, send garbage, huge sizes, partial or failing requests, half-close, "
             "reset, vanish or do not read, in random order of actions, with the server running in a thread or called; then descriptors, memory and later service are examined, also with few descriptors; "
             "threads of clients, statistics and stopping under the race detector; distinct by all that was sent"),
    "C14": dict(
        jobs=[Job("c14_failures.cpp", quick=30000, thorough=1000000, gen=api(14, 3)), Job("c14_broken_connections.cpp", quick=12000, thorough=200000)],
        require={"values": 10000, "failures": 20000, "refused": 100, "ended_closed": 1000, "ended_reset": 1000, "ended_half": 1000, "ended_invalid": 300},
        rule="sequences of direct and outstanding calls of generated procedures in which some fail: the procedure throws, requests are changed to unknown names or unreadable arguments, responses are replaced by errors, other statuses, "
             "other identifiers, wrong kinds of results, incomplete, meaningless or broken ones, or the connection is closed; each call must end by an exception exactly if it was to fail, else by its own result; the same over real "
             "connections closed, reset, half-closed or spoilt at any byte; distinct by the plan of failures and the bytes sent"),
    "C17": dict(
        jobs=[Job("c17_file_confinement.cpp", quick=30000, thorough=160000)],
        require={"served": 5000, "refused": 50000, "through_http": 20000, "caching": 1000, "dynamic": 1000},
        rule="servers of a scratch folder surrounded by recognisable files are asked directly and through HTTP for paths with parent references in many spellings, absolute, repeated and backward slashes, control characters, "
             "empty and very long names, mutations of valid ones; whatever is served must be the file of the folder (or registered page) the path names; distinct by paths"),
    "C18": dict(
        jobs=[Job("c18_file_contents.cpp", quick=12000, thorough=120000), Job("c18_file_threads.cpp", san="tsan", quick=400, thorough=8000)],
        require={"files_served": 10000, "pages_served": 3000, "not_existing": 3000, "reloaded": 300, "reset": 100, "shortened_meanwhile": 100, "lengthened_meanwhile": 100,
                 "concurrent_reads": 10000, "concurrent_writes": 5000, "reads_during_writes": 100},
        rule="folders of random files and registered pages, changed in random order (also while being sent), with every response compared with the state due, its length and type; threads reading and registering pages, each "
             "response must be a version current at some moment of the request, under the race detector; distinct by names and contents"),
    "C19": dict(
        jobs=[Job("c19_description.cpp", quick=20000, thorough=400000, gen=api(19, 3, 10), flags=O0_ASAN)],
        require={"descriptions": 5000, "methods": 50000, "parameters": 100000, "type_structured": 10000, "type_optional": 2000, "type_array": 5000, "type_object": 1000, "members": 50000, "special": 5000},
        rule="trees of generated classes and run-time composed objects, with procedures of generated and special (self-referring, namespaced, similarly named, template) types, are described; the description is read by an "
             "independent parser and compared with what was generated, procedure by procedure, parameter by parameter, type by type and member by member; distinct by the description"),
    "C20": dict(
        jobs=[Job("c20_paths.cpp", quick=100000, thorough=2000000, gen=api(20, 4, 12))],
        require={"paths": 100000, "deep_paths": 1000, "altered_found": 10000, "altered_not_found": 100000, "children": 100000, "called": 20000, "separator_.": 1000, "separator_::": 1000, "separator_->": 1000},
        rule="in trees of generated classes and run-time composed objects (also ones composed by moving), with names that are prefixes of each other or parts of separators, every path is composed, looked up, altered "
             "and looked up again and compared with a list of what exists; children are examined by name and by number; distinct by tree"),
    "C21": dict(
        jobs=[Job("c21_lifetimes.cpp", quick=100000, thorough=2000000)],
        require={"calls": 100000, "alive_checks": 100000, "holder_local": 10000, "holder_allocated": 10000, "moves": 10000, "typed": 10000, "nested": 3000, "borrowed": 5000, "objects_moved": 3000, "objects_destroyed": 3000, "copy_threw": 300},
        rule="random sequences of creating, copying, moving, replacing, adding, borrowing and destroying closures of many sizes and kinds (trivial, counted, aligned, throwing when copied, using their parent) in holders, typed holders "
             "and objects; after each step the captures that exist are compared with a model, everything is called and compared, and moved memory is watched by the address sanitizer; distinct by the sequence"),
    "C22": dict(
        jobs=[Job("c22_rebinding.cpp", quick=60000, thorough=1200000, gen=api(22))],
        require={"calls_local": 10000, "calls_remote": 50000, "responders_set": 50000, "wrapped": 2000, "endpoints_ended": 3000},
        rule="random sequences of setting responders (JSON-RPC and binary clients of different servers) of procedures and objects above them, adding an object above, direct and asynchronous calls; requests sent through each "
             "responder, the server and object that executed each call and the results are compared with a model of the nearest responder; distinct by the sequence"),
    "C23": dict(
        jobs=[Job("c23_javascript.cpp", quick=8000, thorough=160000, gen=api(23))],
        require={"apis": 5000, "calls": 10000, "refused": 3000, "errors": 1000, "results": 5000},
        rule="the JavaScript client running in node is given descriptions of generated APIs; what it offers is compared with the tree, its requests are given to the real server and what is executed is compared with the arguments, "
             "results and errors come back in random order and are compared; arguments changed to wrong types at random places must be refused without a request; distinct by description, calls and changes"),
    "C32": dict(
        jobs=[Job("c32_gui.cpp", quick=16000, thorough=300000, gen=api(32))],
        require={"whole": 10000, "pages": 1000, "used_in_whole": 5000, "used_alone": 5000, "values_entered": 20000, "results_shown": 5000},
        rule="the forms generated out of descriptions of generated APIs, by the library and by the provided page, are made in a model of a browser's document that validates and converts as browsers do; random values are entered into "
             "their fields and buttons pressed, repeatedly; the requests are given to the real server and what is executed is compared with the values, what is shown with the results; distinct by calls and values"),
    "C25": dict(
        jobs=[Job("c25_reflection.cpp", name="c25_" + o, san=o, quick=n, thorough=20 * n, gen=zoo(250 + i, 12, 40, "--bases"))
              for i, (o, n) in enumerate([("O0", 12000), ("asan", 12000), ("O2", 20000), ("O3", 20000)])],
        require={"read_json": 20000, "read_binary": 20000, "single_member": 20000, "all_members": 20000, "kept_filled": 10000, "max_members": 8},
        rule="objects of generated classes (random types, initial values, undeclared neighbours, other bases), compiled at several optimisation levels, are constructed in memory with various contents; their initial values, "
             "description, what is written after changing one or all members, and after reading also their undeclared members and bases are compared with an independent enumeration; distinct by class and text"),
    "C24": dict(
        jobs=[Job("c24_history.cpp", quick=40000, thorough=800000, gen=api(24))],
        require={"probes_http": 5000, "probes_json_rpc": 3000, "probes_form": 3000, "probes_binary": 3000, "probes_same_session": 5000, "probes_other_session": 5000, "probes_interrupted": 1000, "history": 50000},
        rule="requests of random kinds including refused, failing and malformed ones are given to sessions of HTTP, JSON-RPC, form and binary servers, some are abandoned unfinished; then a probe is given to the same session, another "
             "session of the same server or in two parts with other requests between them and its response and executions are compared with those of a fresh server given it in one piece; distinct by the probes"),
}
NOT_CLAIMED = {}
