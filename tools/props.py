"""What is built and run for each property."""
import os

LEFT_OUT = ("json_request_translator", "prefix_writer", "request_message_translator", "request_stream_translator",
            "request_weaver", "response_to_json_translator", "status_error_listener", "type_helper")
ASAN = ["-O1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all", "-DVP_FUZZ"]
TSAN = ["-O1", "-fsanitize=thread"]
WORK = ["-O1", "-fsanitize-coverage=trace-pc-guard"]
# All of abseil, so that a change of /repo may use any part of it.
ABSL = ["-Wl,--as-needed"] + ["-l" + f[3:-3] for f in sorted(os.listdir("/usr/lib/x86_64-linux-gnu")) if f.startswith("libabsl_") and f.endswith(".so")]


def asan(mon, gen=(), libs=()):
    return dict(exclude=LEFT_OUT, repo_flags=ASAN, flags=ASAN, harness=["harness/main.cc", "harness/" + mon], gen=list(gen),
                link_flags=["-fsanitize=address,undefined,fuzzer-no-link"], libs=["FUZZ_RT", "-lprotobuf"] + ABSL + list(libs) + ["-lpthread"])


# The translators: all of /repo/src against the converter library of the
# installed protobuf, adapted by shim/.
SHIM_LIBS = ["-lprotobuf"]


def shim(mon, flags=ASAN, link=("-fsanitize=address,undefined,fuzzer-no-link",), rt=("FUZZ_RT",)):
    return dict(repo_flags=flags, flags=flags, harness=["harness/main.cc", "harness/" + mon], gen=["vp_msg.pb.cc"], include_first=["shim/include", "shim"],
                plain={"shim/bridge.cc": ["-O1"]}, no_shim=["shim/bridge.cc"], link_flags=list(link), libs=list(rt) + SHIM_LIBS + ABSL + ["-lpthread"])


# abseil is not instrumented: its mutex is made known to TSan (tsan_absl.cc).
TSAN_LINK = ["-fsanitize=thread"] + ["-Wl,--wrap=_ZN4absl7debian35Mutex" + f for f in ("4LockEv", "10ReaderLockEv", "7TryLockEv", "13ReaderTryLockEv", "6UnlockEv", "12ReaderUnlockEv")]

BUILDS = {
    "template": asan("mon_template.cc"),
    "route": asan("mon_route.cc"),
    "node": asan("mon_node.cc"),
    "rule": dict(asan("mon_rule.cc", gen=["google/api/http.pb.cc"]), flags=ASAN + ["-DVP_HANDLE"]),
    "hist": dict(asan("mon_conc.cc"), flags=ASAN + ["-DVP_HANDLE"]),
    "grpc": asan("mon_grpc.cc"),
    "req": shim("mon_req.cc"),
    "resp": shim("mon_resp.cc"),
    "e2e": dict(shim("mon_e2e.cc"), gen=["vp_msg.pb.cc", "google/api/http.pb.cc"]),
    "weave": shim("mon_weave.cc"),
    "type": shim("mon_type.cc"),
    "typetsan": dict(shim("mon_type.cc", flags=TSAN, link=TSAN_LINK, rt=()),
                     plain={"shim/bridge.cc": ["-O1"], "harness/tsan_absl.cc": ["-O1"]}),
    "chain": shim("mon_chain.cc"),
    "many": shim("mon_many.cc"),
    "manytsan": dict(shim("mon_many.cc", flags=TSAN, link=TSAN_LINK, rt=()),
                     plain={"shim/bridge.cc": ["-O1"], "harness/tsan_absl.cc": ["-O1"]}),
    "cost": dict(shim("mon_cost.cc", flags=WORK, link=(), rt=()),
                 plain={"shim/bridge.cc": ["-O1"], "harness/meter.cc": ["-O2", "-fno-builtin"]}),
    # no sanitizer: freed addresses are used again at once
    "reuse": dict(exclude=LEFT_OUT, repo_flags=["-O1"], flags=["-O1"], harness=["harness/main.cc", "harness/mon_conc.cc"],
                  link_flags=[], libs=["-lprotobuf"] + ABSL + ["-lpthread"]),
    "conc": dict(exclude=LEFT_OUT, repo_flags=TSAN, flags=TSAN, harness=["harness/main.cc", "harness/mon_conc.cc"],
                 plain={"harness/tsan_absl.cc": ["-O1"]}, link_flags=TSAN_LINK, libs=["-lprotobuf"] + ABSL + ["-lpthread"]),
    "work": dict(exclude=LEFT_OUT, repo_flags=WORK, flags=WORK, harness=["harness/main.cc", "harness/mon_work.cc"],
                 plain={"harness/meter.cc": ["-O2", "-fno-builtin"]}, link_flags=[], libs=["-lprotobuf"] + ABSL + ["-lpthread"]),
}


def std(build, quick, thorough, fuzz_quick=0, fuzz_thorough=0, max_len=1500):
    return [dict(build=build, mode="random", quick=quick, thorough=thorough),
            dict(build=build, mode="fuzz", quick=fuzz_quick, thorough=fuzz_thorough, max_len=max_len)]


PROPS = {
    "C01": dict(phases=std("template", 400000, 4000000, 100000, 2000000),
                required=["accepted", "rejected", "enumerated"],
                rule="Template strings: every string of up to 7 characters (thorough 8) over the 8 syntax characters behind '/', every pair of bytes in 3 contexts, random templates and token soups with mutations, long ones. Distinct non-trivial: distinct random strings judged."),
    "C02": dict(phases=std("template", 400000, 4000000, 100000, 2000000),
                required=["structures", "variables_behind_wildcard", "wildcard_variables", "plain_variables", "enumerated"],
                rule="Accepted templates, enumerated (every sequence of up to 6 tokens, thorough 7) and random. Distinct non-trivial: distinct accepted templates with a variable or a verb."),
    "C03": dict(unit=['lookups', 'enumerated_lookups'], phases=std("route", 60000, 900000, 16000, 300000),
                required=["matched", "unmatched", "ambiguous_by_template", "enumerated_lookups"],
                rule="Route tables whose templates share a small literal pool, with requests made from them; all tables of 3 templates from a list of 25 with all paths of up to 4 segments. Distinct non-trivial: distinct (alignment, number of matching routes, winner) where at least two routes match the request."),
    "C04": dict(unit=['lookups'], phases=std("route", 120000, 1500000, 24000, 400000),
                required=["matched", "captures_single", "captures_multi", "captures_wildcard"],
                rule="Tables of variable-rich templates and requests with percent escapes, empty and odd segments under all unescape options. Distinct non-trivial: distinct (template, path) that matched."),
    "C05": dict(phases=std("template", 400000, 6000000, 100000, 1000000),
                required=["decoded", "unchanged", "enumerated"],
                rule="Strings made of escapes and odd text, every '%' + 2 bytes, all strings of up to 6 characters over 7; each under 3 options x plus. Distinct non-trivial: distinct random strings containing '%'."),
    "C06": dict(unit=['lookups'], phases=std("route", 120000, 1500000, 24000, 400000),
                required=["matched", "query_bindings", "query_items"],
                rule="Random query strings against routes with random system parameter sets. Distinct non-trivial: distinct (query, route) that gave bindings."),
    "C07": dict(unit=['lookups'], phases=std("route", 60000, 900000, 16000, 300000),
                required=["verb_matched", "verb_unmatched", "colon_as_text_matched"],
                rule="Tables with and without verbs and paths with colons; expected result from verb-free twin tables. Distinct non-trivial: distinct (path with ':', winning template)."),
    "C08": dict(unit=['lookups'], phases=std("route", 60000, 900000, 16000, 300000),
                required=["duplicates", "invalid", "lookups_of_duplicates", "lookups_of_others"],
                rule="Registration sequences with repeats under other variable names and invalid templates; results compared with a table that holds every route once. Distinct non-trivial: distinct (sequence, path) where a route or a duplicate is hit."),
    "C09": dict(unit=['rules'], phases=std("rule", 40000, 700000, 16000, 200000),
                required=["rules", "rules_with_several_bindings", "rules_refused", "rules_without_pattern", "matched"],
                rule="Random sequences of HttpRules with nested additional bindings against a twin builder that registers by hand. Distinct non-trivial: distinct rule sequences with more than two patterns."),
    "C10": dict(phases=[dict(build="hist", mode="random", quick=16000, thorough=300000),
                        dict(build="reuse", mode="random", quick=40000, thorough=600000),
                        dict(build="conc", mode="random", quick=2400, thorough=40000)],
                required=["matched", "matchers_replaced", "crowds", "concurrent_lookups", "overlapping_lookups"],
                rule="Histories of up to 70000 lookups over up to 3 live matchers and crowds of up to 66000 different requests, answers compared with those of fresh matchers; 2-7 threads on shared matchers under ThreadSanitizer while others are built. Distinct non-trivial: distinct histories and thread runs."),
    "C11": dict(unit=['lookups'], phases=std("route", 30000, 500000, 8000, 150000),
                required=["matched", "unmatched", "respellings"],
                rule="Tables against a permuted copy with unrelated routes; requests against respelled ones. Distinct non-trivial: distinct (path, winning route)."),
    "C12": dict(unit=['lookups', 'templates', 'unescapes'], phases=[dict(build="work", mode="random", quick=2400, thorough=60000)],
                required=["lookups", "templates", "unescapes", "work_units"],
                rule="Adversarial tables (backtracking, '**' with long suffixes, many routes) and requests of up to some hundred kB; work counted in executed basic blocks + bytes moved + allocations, stack by painting. Distinct non-trivial: distinct (path, work) measured."),
    "C13": dict(phases=std("route", 120000, 2000000, 40000, 800000),
                required=["templates_accepted", "templates_rejected", "lookups_matched", "lookups_unmatched", "cases_balanced"],
                rule="Random call sequences with hostile strings under AddressSanitizer and UBSan, arguments destroyed after each call, allocation balance per case. Distinct non-trivial: distinct sequences."),
    "C14": dict(phases=std("grpc", 60000, 900000, 24000, 400000),
                required=["messages", "enumerated", "enumerated_headers", "backups", "skips", "payload_bytes"],
                rule="Frame sequences x chunkings x arrival schedules x consumer behaviour; small streams enumerated, every header byte value. Distinct non-trivial: distinct (stream, arrival schedule)."),
    "C15": dict(phases=std("grpc", 60000, 900000, 24000, 400000),
                required=["incomplete_polls", "positions_checked", "enumerated"],
                rule="As C14 plus truncated and malformed streams; the monitored input records every read and back-up. Distinct non-trivial: distinct (stream, arrival schedule)."),
    "C16": dict(phases=std("grpc", 60000, 900000, 24000, 400000),
                required=["error_states_observed", "clean_ends_observed", "failed_inputs", "enumerated", "enumerated_headers"],
                rule="Streams cut at every byte, every flag value, every header byte, with polls before and after; the status is compared after each poll. Distinct non-trivial: distinct (stream, arrival schedule)."),
    "C17": dict(phases=std("grpc", 60000, 600000, 16000, 400000),
                required=["reads", "empty_reads", "backups", "ignored_backups", "repeated_backups", "further_backups", "availability_queries", "ends"],
                rule="Message sequences with empty messages, arrival schedules and random reads, back-ups and queries. Distinct non-trivial: distinct operation histories."),
    "C18": dict(phases=std("resp", 40000, 600000, 10000, 200000),
                required=["unary", "array_streams", "newline_streams", "pieces", "empty_polls"],
                rule="Streams of 0-60 random messages under all print options, arrival schedules and polls; the output is compared per poll. Distinct non-trivial: distinct (stream, options, partition)."),
    "C19": dict(phases=std("resp", 60000, 900000, 16000, 300000),
                required=["errors", "bad_frame_flags", "cut_frames", "payloads_refused_by_the_library", "zero_tags", "odd_but_valid_payloads", "polls_after_error", "pieces_before_the_fault"],
                rule="Valid frames, then a faulty one (flag, cut, payload), then more; polls before and after. Distinct non-trivial: distinct (stream, options, partition)."),
    "C20": dict(phases=std("req", 60000, 900000, 16000, 300000),
                required=["requests_with_bindings", "requests_with_body_path", "messages_compared", "frame_headers_checked", "empty_inputs", "big_messages"],
                rule="Random messages with random bindings printed as JSON by the monitor; now and then messages of up to some MB. Distinct non-trivial: distinct (JSON, body path, bindings)."),
    "C21": dict(unit=['partitions_compared'], phases=std("req", 40000, 600000, 10000, 200000),
                required=["accepted_documents", "rejected_documents", "partitions_compared", "empty_polls", "messages"],
                rule="Valid and broken documents, each byte by byte, in one piece and in two random partitions with empty polls. Distinct non-trivial: distinct (document, bindings, partition into more than one chunk)."),
    "C22": dict(phases=std("req", 40000, 600000, 10000, 200000),
                required=["streams", "streams_with_bindings", "messages", "later_messages", "checks_inside_stream", "bodies_that_are_no_array"],
                rule="Arrays of random elements with known end offsets, arriving in random portions. Distinct non-trivial: distinct (stream of more than one element, arrival schedule)."),
    "C23": dict(phases=std("req", 60000, 900000, 16000, 300000),
                required=["rejected", "accepted", "truncated", "values_that_do_not_fit", "syntax_errors", "earlier_elements_delivered", "bindings_that_do_not_fit"],
                rule="Valid bodies cut at any byte, with odd values put into fields, with mutated bytes, and with bound values that do not fit. Distinct non-trivial: distinct (body, bindings)."),
    "C24": dict(unit=['requests_for_messages'], phases=std("req", 40000, 600000, 10000, 200000),
                required=["requests_for_messages", "waiting_messages_served", "messages", "empty_answers"],
                rule="Valid bodies with known element offsets; every read of the translator is recorded between requests. Distinct non-trivial: distinct (body, arrival and chunk schedule of more than one chunk)."),
    "C25": dict(phases=std("req", 80000, 1200000, 20000, 400000),
                required=["conflicts_rejected", "structured_conflicts_rejected", "well_known_types", "equal_values_accepted", "rejection_off", "body_null", "body_below_a_path"],
                rule="One field set by the body and bound, values equal, next to each other or unrelated, in all spellings. Distinct non-trivial: distinct (field, body value, bound value)."),
    "C26": dict(unit=["paths"], phases=std("type", 80000, 1200000, 20000, 400000),
                required=["resolved", "refused_no_such_field", "refused_not_a_message", "refused_unknown_type", "json_spellings", "escaped_spellings", "empty_paths"],
                rule="Random type sets (recursive, dangling, odd names) with paths walked through them in random spellings, compared with a resolver of the monitor. Distinct non-trivial: distinct (types, path of more than one field) that resolved."),
    "C27": dict(unit=["questions"], phases=[dict(build="type", mode="random", quick=1600, thorough=30000), dict(build="typetsan", mode="random", quick=1600, thorough=30000)],
                required=["overlapping_questions", "cache_uses"],
                rule="2-6 threads asking 1-2 fresh type helpers for types, enums, fields, paths and whole translations, with delays injected inside the type cache. Distinct non-trivial: distinct runs."),
    "C32": dict(unit=["questions"], phases=std("type", 60000, 900000, 16000, 300000),
                required=["types_served", "enums_served", "fields_served", "unknown_names", "map_entry_options"],
                rule="Random type sets given to all three kinds of constructors, asked for by good and bad URLs. Distinct non-trivial: distinct type sets."),
    "C28": dict(unit=["events"], phases=std("weave", 120000, 2000000, 30000, 600000),
                required=["prefix_objects", "prefix_lists", "prefix_scalars", "bound_values_written", "messages_woven_into", "messages_added", "bound_values_of_fields_set_by_the_body", "bound_values_of_empty_paths"],
                rule="Random event trees through the prefix writer (1-5 roots, any prefix) and the weaver (random types, bindings and bodies), the output recorded and compared with the input. Distinct non-trivial: distinct (events, prefix or bindings)."),
    "C29": dict(phases=std("resp", 40000, 600000, 10000, 200000),
                required=["round_trips", "unary", "array_streams", "newline_streams"],
                rule="Random messages of the monitor's types (all scalar kinds, maps, enums, well-known types, special floats) through both translators. Distinct non-trivial: distinct (messages, options)."),
    "C30": dict(phases=std("grpc", 200000, 3000000, 60000, 1000000),
                required=["messages", "adapter_reads", "cases_balanced"],
                rule="Arbitrary bytes, chunkings and call sequences on reader and adapter under AddressSanitizer and UBSan, with early destruction and allocation balance. Distinct non-trivial: distinct sequences."),
    "C34": dict(phases=std("e2e", 24000, 400000, 6000, 120000),
                required=["path_variables", "wildcard_variables", "resource_names", "query_parameters", "additional_bindings", "body_paths", "unary", "streams", "messages", "echoes"],
                rule="Random messages spelled as URL, query and JSON body for random HttpRules, looked up, resolved, translated, read by the frame reader, echoed and translated back. Distinct non-trivial: distinct requests."),
    "C33": dict(phases=std("node", 160000, 2500000, 30000, 600000),
                required=["paths_inserted", "paths_repeated", "clones", "lookups_with_choice", "lookups_not_found", "multiples_reported", "single_parameters_matched", "lookups_beside_clones"],
                rule="Histories of insertions, copies, deletions and lookups over up to 4 tries with overlapping paths. Distinct non-trivial: distinct (history, request) that found a path."),
    "C31": dict(phases=std("resp", 80000, 1500000, 30000, 600000),
                required=["request_polls", "response_polls", "requests_with_error", "requests_without_error", "responses_with_error", "responses_without_error", "messages", "pieces", "cases_balanced"],
                rule="Mutated JSON, bound values, body paths and frames with random chunks, polls and early destruction under AddressSanitizer and UBSan, with allocation balance. Distinct non-trivial: distinct sequences."),
    "C37": dict(unit=["messages"], phases=std("chain", 40000, 1000000, 10000, 250000),
                required=["reads", "backups", "queries", "empty_reads", "ends", "ended_well", "ended_with_error", "request_streams", "response_streams", "chains_to_reader", "chains_to_response", "chains_to_request", "messages"],
                rule="Valid, truncated and damaged JSON and frames in random pieces through byte streams over translators (reads, back-ups, queries) and through chains of two components. Distinct non-trivial: distinct (input, options, pieces)."),
    "C36": dict(unit=["steps"], phases=[dict(build="many", mode="random", quick=16000, thorough=300000), dict(build="manytsan", mode="random", quick=3000, thorough=60000)],
                required=["readers", "adapters", "requests", "responses", "matchers", "helpers", "templates", "switches", "threads", "overlapping_steps", "bytes_of_answers"],
                rule="Sets of 2 to 15 readers, adapters, translators, matchers and texts, a third of them near copies of another one, run alone, interleaved, in reverse order, and in 2 to 6 threads. Distinct non-trivial: distinct sets of answers."),
    "C35": dict(phases=[dict(build="cost", mode="random", quick=1200, thorough=40000)],
                required=["readers", "streams", "responses", "requests", "idle_polls", "distinct_lookups", "memory_checks", "work_units", "steps"],
                rule="Streams of hundreds to thousands of equal steps (frames, messages, elements, pieces of one message, idle polls, distinct lookups). Distinct non-trivial: distinct (workload, measured work)."),
}

_ASANNOTE = " Built with AddressSanitizer + UBSan, so a crash inside the code is a violation too."
_T = {
    "C01": ("oracle over executions: independent recognizer of the grammar; fuzzing under ASan/UBSan", "Every generated string is judged by a grammar recognizer written from the statement (it builds the parse from the last ':' and '{' backwards rather than copying the parser). Exhaustive for short strings over the syntax characters; sampled beyond."),
    "C02": ("oracle over executions: structure known from how the template was written; fuzzing", "Templates are generated as structures and printed, so the expected segments/variables are known without parsing. Exhaustive for token sequences up to 6/7."),
    "C03": ("online monitor: reference matcher compared per lookup; enumeration + coverage-guided fuzzing", "Matching and priority are recomputed per request by a brute-force matcher over all registered templates. Unspecified corners (paths without leading '/') are not judged."),
    "C04": ("online monitor: reference captures compared per lookup; coverage-guided fuzzing", "Captures are recomputed from the alignment of template and path. Judged only when the right route was returned (C03)."),
    "C05": ("oracle over executions: reference decoder; enumeration + fuzzing under sanitizers", "Every output is compared with a decoder written from the statement. Exhaustive for all 2-byte escapes and short strings."),
    "C06": ("online monitor: reference query bindings compared per lookup; fuzzing", "Expected bindings are recomputed from the raw query; judged only when the right route was returned."),
    "C07": ("online monitor: metamorphic comparison with verb-free twin matchers; fuzzing", "What the request should match after removing a verb is asked from a second matcher of routes without verbs, so plain matching mistakes do not raise this alarm."),
    "C08": ("history monitor over registration sequences; fuzzing", "A model of the route set (normalized template, method, verb) says what each Register returns and what lookups of others return."),
    "C09": ("metamorphic monitor: rule against hand-made registrations; fuzzing", "Two builders are compared; the rule expansion is written from the statement."),
    "C10": ("ThreadSanitizer + history monitor (answers against fresh matchers)", "No race on the interleavings that occurred; happens-before detection finds unordered accesses even if they did not collide. abseil/protobuf are not instrumented."),
    "C11": ("metamorphic monitor: permuted tables and respelled requests; fuzzing", "Two matchers/requests that must agree are compared; correctness of the common answer is C03's."),
    "C12": ("runtime work meter (coverage callbacks, moved bytes, allocations) and stack painting", "Measured cost of every call is compared with the formula of the statement with constants about 4 times above what the code needs; a violation needs a growth in cost, not a fluctuation of time."),
    "C13": ("AddressSanitizer, UndefinedBehaviorSanitizer, allocation balance; coverage-guided fuzzing", "Sanitizer reports are the oracle. Uninitialized reads are not covered (MemorySanitizer would need an instrumented C++ library)."),
    "C14": ("trace monitor: frame model against reader under scheduled arrivals; fuzzing, enumeration", "A model of the stream says which poll must give which payload. Payloads above some MB are runs of zero pages."),
    "C15": ("trace monitor on the input stream (position, reads, back-ups, allocations)", "The input is an instrumented stream that records each call of the reader."),
    "C16": ("trace monitor: status/finished model compared after each poll; enumeration, fuzzing", "Exact message texts are part of the property because the code documents them with values."),
    "C17": ("trace monitor: concatenation model over reads, back-ups, queries; fuzzing", "Sources are simulated message streams with scheduled arrival."),
    "C18": ("trace monitor: expected pieces and their input offsets compared per poll; fuzzing", "The JSON of one message is taken from the library directly; the translator's decoration, order, timing and end are compared with a model. Against the installed protobuf's converter, adapted by shim/."),
    "C19": ("trace monitor: faults by construction and the protobuf library's verdict, compared per poll; fuzzing", "Faults are planted at a known frame, so the pieces before it are known. What counts as an invalid payload is asked from the library alone; payloads on which it does not terminate are not judged."),
    "C26": ("oracle over executions: reference resolver over generated types; fuzzing", "Chains are compared field by field and must consist of fields of the served types."),
    "C27": ("monitor on uses of the type cache (overlap) with injected delays; ThreadSanitizer; answers against a private helper", "The library's type cache is not thread-safe, so two threads inside one cache at a time is a race whether or not it does harm. TSan covers the helper's own state; calls of absl::Mutex are made known to it."),
    "C32": ("oracle over executions: served types compared with the ones given; fuzzing", "Includes the documented renaming of proto2 option names."),
    "C34": ("oracle over executions: messages known before they are spelled as HTTP requests; fuzzing", "The request is spelled from the messages and the rule, so the expected result is known; all components run together as in a gateway."),
    "C33": ("history monitor: model of every trie compared per call; fuzzing", "The model keeps the inserted paths as a list and finds the best one by comparing all of them."),
    "C28": ("trace monitor: events received by a recording writer compared with the events sent; fuzzing", "What the writers may add (prefix objects, bound values, messages for them) is told apart by unique bound values."),
    "C29": ("round-trip monitor; fuzzing", "The message is known before; it goes through both translators and is compared field by field (NaN, -0 included). The converter library is common to both sides."),
    "C31": ("AddressSanitizer, UndefinedBehaviorSanitizer, allocation balance; coverage-guided fuzzing", "Sanitizer reports, hangs and allocation balance are the oracle. The converter library itself is not instrumented."),
    "C20": ("oracle over executions: message known before it is printed as JSON; fuzzing", "The message is generated first and printed as JSON by the monitor's own printer, so the expected message is known without parsing."),
    "C21": ("metamorphic monitor: partitions of one input compared; fuzzing", "Partitions of one input are compared with each other; correctness of the common answer is the business of C20, C22 and C23."),
    "C22": ("trace monitor: element offsets known from the generator, compared per poll; fuzzing", "The generator knows where each element ends; each poll is judged against it."),
    "C23": ("oracle over executions: faults by construction and the protobuf library's verdict; fuzzing", "Two sources of truth: faults planted by construction and the library's parser on the whole text (only where both translator settings agree)."),
    "C24": ("trace monitor on the input stream (reads between requests); fuzzing", "The input is an instrumented stream that records each read between two requests for messages."),
    "C25": ("oracle over executions: equality known from how the pair was made; fuzzing", "Pairs are made equal, neighbouring or unrelated by construction, so equality is known exactly."),
    "C37": ("trace monitor: byte stream against the messages of a twin translator, and chains against their parts; fuzzing", "Each read is compared with what a second translator of the same input gave as messages. Outputs of a chain are compared with the first part's messages (printed by the library where they become JSON)."),
    "C36": ("metamorphic monitor over schedules (alone, interleaved, reversed, in threads); AddressSanitizer and ThreadSanitizer", "Each component's answers are compared with its own answers when it ran alone. The interleavings are those that occurred; ThreadSanitizer finds unordered accesses of the repository's own code even if they did not collide. The converter library is not instrumented."),
    "C35": ("runtime work and memory meter (coverage callbacks, moved bytes, allocations), early steps of a stream compared with late ones", "The code is compared with itself: the work of the last eighth of equal steps must not exceed that of the second eighth by more than a quarter (plus one move of a growing buffer), and the memory held must not grow between the middle and the end. Time plays no part, so a busy machine cannot raise the alarm. Work inside the protobuf library counts only by the bytes it moves and allocates."),
    "C30": ("AddressSanitizer, UndefinedBehaviorSanitizer, allocation balance; fuzzing of call sequences", "Sanitizer reports are the oracle; legal call sequences with illegal arguments only where the interface defines them."),
}
for _i, (_t, _n) in _T.items():
    PROPS[_i]["technique"], PROPS[_i]["note"] = _t, _n + ("" if _i in ("C10", "C12", "C27", "C35") else _ASANNOTE)

NOT_APPLICABLE = {}
