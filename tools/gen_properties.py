#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
H = "src/include/grpc_transcoding/"
HT = ["src/http_template.cc", H + "http_template.h"]
PM = [H + "path_matcher.h", "src/path_matcher_node.cc", H + "path_matcher_node.h"]
PE = [H + "percent_encoding.h"]
MR = ["src/message_reader.cc", H + "message_reader.h"]
MS = ["src/message_stream.cc", H + "message_stream.h", H + "transcoder_input_stream.h"]

p("C01", "The template parser accepts exactly the HTTP template language",
  "Parsing a path template succeeds exactly when the whole string is '/' or is generated by Template = '/' Segments [':' LITERAL], Segment = '*' | '**' | LITERAL | '{' FieldPath ['=' Segments] '}', with non-empty literals (any bytes but '/', ':' and '}', not beginning with '*' or '{' as a segment) and identifiers (any bytes but '.', '=' and '}'), no variable inside a variable, and nothing but literal segments after a '**'. Any other string is rejected (null result); no string is accepted with an unparsed tail.",
  ["inputs"], "every byte string given as a template",
  "About 60 hand-picked templates are parsed; malformed combinations (unbalanced braces, ':' or '**' in unusual places, long or odd-byte literals) are unbounded in number.",
  HT, [("recursive descent parser", "src/http_template.cc Parser::Parse"), ("only literals after '**'", "src/http_template.cc Parser::ValidateParts")],
  ["HttpTemplate::Parse returning null or not", "PathMatcherBuilder::Register return value"])
p("C02", "A parsed template describes exactly the segments, verb and variables written",
  "For every accepted template the reported segments are the literals, '*' and '**' in written order (a bare {x} counts as one '*'), the verb is the text after the final ':', and there is one variable per {...} in written order with its dotted field path. Each variable's [start, end) range covers exactly the segments written inside its braces, positions behind a '**' being counted from the end of the path (-1 = end), and it is flagged as multi-segment wildcard exactly when it contains '**'.",
  ["inputs"], "every accepted template",
  "Tests compare structure for about 40 templates; combinations of several variables, '**' position, suffix segments and verbs are not covered.",
  HT, [("segment and variable recording", "src/http_template.cc Parser::ParseSegment/StartVariable/EndVariable"), ("end-relative ranges", "src/http_template.cc Parser::PostProcessVariables")],
  ["HttpTemplate::segments/verb/Variables"])
p("C03", "Lookup returns the most specific registered route, and only a matching one",
  "A lookup returns a route if and only if some registered template for that HTTP method (or registered for method '*') matches the request path segment by segment: literals compare byte for byte with the undecoded segment, '*' takes exactly one segment, a trailing '**' zero or more and a '**' followed by literals one or more. Among matching routes the result is the most specific one, comparing left to right per request segment literal before '*' before '**' and, for the same template, the exact method before '*', backtracking out of more specific prefixes that lead nowhere.",
  ["inputs", "configurations"], "every set of registered templates and methods, every request path and method",
  "Tests fix about 30 small route tables and probe a few paths each; precedence and backtracking bugs need particular overlapping sets of templates.",
  PM + HT, [("trie search with backtracking", "src/path_matcher_node.cc PathMatcherNode::LookupPath"), ("method fallback", "src/path_matcher_node.cc PathMatcherNode::GetResultForHttpMethod")],
  ["PathMatcher::Lookup result"])
p("C04", "Path variables capture exactly the segments they cover",
  "On a match, the bindings start with one entry per template variable, in template order, carrying the variable's field path; a variable over one segment gets that segment percent-decoded completely, any other variable (several segments, or containing '**', possibly zero segments) gets its segments joined by '/', each decoded according to the configured unescape option. '+' in a path is never turned into a space, no binding refers to a segment outside the variable's part of the path, and the body field path reported is the one registered with the returned route.",
  ["inputs", "configurations"], "every registered template, unescape option and matching request path",
  "Tests check a few dozen literal paths; the interaction of '**', suffixes, several variables, escapes and options is combinatorial.",
  PM + PE, [("binding extraction", H + "path_matcher.h ExtractBindingsFromPath")],
  ["variable_bindings output of PathMatcher::Lookup"])
p("C05", "Percent-decoding is exact for every byte and every unescape option",
  "Unescaping replaces every '%' followed by two hex digits (either case), scanned left to right once, by that byte, except that the reserved-preserving option leaves escapes of RFC 6570 reserved characters (!#$&'()*+,/:;=?@[]) as they are and the slash-preserving option leaves escapes of '/'; '+' becomes a space only when asked for. Every other byte, including incomplete or malformed escapes, NUL and bytes above 0x7f, is copied unchanged, and the is-escaped predicate is true exactly when at least one replacement applies.",
  ["inputs", "configurations"], "every byte string, unescape option and plus option",
  "Tests use a few ASCII strings; there are 22 hex digits squared, 256 raw bytes, truncations at the end of the string, and double escapes.",
  PE, [("escape scanner", H + "percent_encoding.h GetEscapedChar"), ("in-place unescaping", H + "percent_encoding.h UrlUnescapeString")],
  ["UrlUnescapeString", "IsUrlEscapedString"])
p("C06", "Query parameters become bindings in order, except system parameters",
  "After the path bindings come, in query order, one binding per '&'-separated item that has a non-empty name before its first '=': its field path is the raw name split at every '.', its value is everything behind the first '=', fully percent-decoded, with '+' turned into a space only if that option is set. Items without '=' or with an empty name, and items whose raw name is one of the route's system parameter names, produce no binding, and nothing else is dropped, merged or reordered.",
  ["inputs", "configurations"], "every query string, system parameter set and plus option",
  "Tests use about ten query strings; repeated names, empty values, extra '=' and '&', escapes next to delimiters and long queries are not enumerated.",
  [H + "path_matcher.h"] + PE, [("query splitting", H + "path_matcher.h ExtractBindingsFromQueryParameters")],
  ["variable_bindings output of PathMatcher::Lookup"])
p("C07", "Custom verbs are split off and matched exactly",
  "The text behind the last ':' of the request's last path segment is a custom verb exactly when some registered template has that verb, or the match-unregistered-verbs option is on; a verb is removed from the path before matching, and then only routes registered with the same verb match (for the request method or '*'). If it is not a verb, the text stays part of the segment and of captured values, and a route with a verb never serves a request without it.",
  ["inputs", "configurations"], "every set of routes with and without verbs, verb option and request path",
  "Eight tests with one or two verbs; several colons, verbs shared between routes and methods, and '**' with verbs interact.",
  PM, [("verb extraction", H + "path_matcher.h ExtractRequestParts"), ("verb-qualified method key", H + "path_matcher.h PathMatcherBuilder::Register")],
  ["PathMatcher::Lookup result and bindings"],
  [("custom_verbs_", "verbs of all registered templates", H + "path_matcher.h")])
p("C08", "Invalid and duplicate registrations are reported and never served",
  "Register returns false for an invalid template and leaves all other routes as they were; two registrations that match the same paths for the same method and verb (variable names do not matter) are duplicates, and requests for them get no route instead of either one. With fail-on-duplicate set every further duplicate Register call returns false, otherwise it returns true; in both cases later lookups of other routes are unaffected. The options for lookups (unescaping, '+', unregistered verbs) hold for all routes of the matcher as last set before Build, whether that was before or after a route was registered.",
  ["histories", "configurations"], "every sequence of Register calls and option changes",
  "A handful of two-registration tests; sequences mixing failures, triples, method '*' and option changes are not explored.",
  PM, [("duplicate marking", "src/path_matcher_node.cc PathMatcherNode::InsertTemplate"), ("duplicate result suppression", H + "path_matcher.h PathMatcher::Lookup")],
  ["PathMatcherBuilder::Register return value", "PathMatcher::Lookup result"])
p("C09", "Registering an HttpRule equals registering its bindings one by one",
  "Registering an HttpRule has exactly the effect of registering its own pattern with the matching HTTP method (GET, PUT, POST, DELETE, PATCH, or the custom kind) and its body path, and then each additional binding in order, all for the same method and system parameters; it returns true if and only if every one of those registrations succeeded and stops at the first that fails. A rule without a pattern registers nothing for itself.",
  ["inputs", "configurations"], "every HttpRule, including nested additional bindings and invalid templates",
  "Nine tests cover one rule per kind; partial failure and mixes of kinds, bodies and additional bindings are not covered.",
  [H + "path_matcher_utility.h"], [("rule expansion", H + "path_matcher_utility.h PathMatcherUtility::RegisterByHttpRule")],
  ["RegisterByHttpRule return value", "PathMatcher::Lookup result, bindings and body path afterwards"])
p("C10", "Lookups are pure and safe to run from many threads",
  "A built matcher gives the same answer (route, bindings, body path) to the same request no matter which or how many lookups ran before, in which order, or concurrently from other threads. Concurrent lookups on one matcher, and building or using different matchers in different threads, have no data race.",
  ["schedules", "histories"], "every interleaving of lookups from any number of threads, every history of earlier lookups",
  "All tests are single-threaded and look up a matcher a few times; hidden caches or static buffers only show under concurrency or particular histories.",
  PM + PE, [("const lookup over an immutable trie", H + "path_matcher.h PathMatcher::Lookup const")],
  ["PathMatcher::Lookup outputs per thread", "ThreadSanitizer reports"])
p("C11", "Answers do not depend on registration order or irrelevant request spelling",
  "For a set of routes without duplicates, the answers do not depend on the order of registration nor on additional routes that do not match the request. Appending '?anything' or extra trailing slashes to a request path without custom verb changes neither the route nor the path bindings, the short form of lookup agrees with the full form, and outputs that are not asked for (null) or a request without match leave the caller's other outputs alone.",
  ["inputs", "configurations", "histories"], "every route set and permutation of it, every request and its equivalent spellings",
  "Tests register in one order and never compare two matchers.",
  PM, [("path normalization", H + "path_matcher.h ExtractRequestParts"), ("order-independent trie", "src/path_matcher_node.cc PathMatcherNode::InsertTemplate")],
  ["PathMatcher::Lookup outputs of related matchers and requests"])
p("C12", "The cost of a lookup is bounded; requests cannot exhaust time or stack",
  "The work done by one lookup is at most proportional to the length of the request and of the bindings it returns, plus, for each pair of a registered template segment and a request segment that it can be aligned with, a constant and the length of that request segment; it is never exponential in either. Parsing a template and unescaping a string take work proportional to its length. The stack used by a lookup grows with the number of segments of the registered templates at most, not with the length of the request.",
  ["inputs", "configurations"], "every route set (including adversarial overlapping wildcards) and request, up to megabytes",
  "Tests use paths of a few segments; superlinear behaviour does not show at that size.",
  PM + HT + PE, [("one visit per trie node and offset", "src/path_matcher_node.cc PathMatcherNode::LookupPath")],
  ["executed basic blocks per lookup (coverage callbacks)", "completion on a small stack"])
p("C13", "URL matching is memory-safe and leak-free on hostile input",
  "Parsing templates, registering routes and HttpRules, unescaping and looking up requests never reads or writes outside live memory, never executes undefined behaviour, never aborts, and frees everything when the objects are destroyed, whatever bytes, lengths and sequences of calls are used, including inputs that are destroyed right after the call.",
  ["inputs", "histories"], "every byte string in every argument, every sequence of public calls",
  "The tests run without sanitizers on well-formed ASCII input; the three fuzz corpora hold six files.",
  HT + PM + PE + [H + "path_matcher_utility.h"], [("bounds checks before escapes are read", H + "percent_encoding.h GetEscapedChar"), ("owned copies of all inputs", H + "path_matcher.h PathMatcherBuilder::Register")],
  ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "allocated bytes before and after"])
p("C14", "gRPC frames are reassembled exactly, however the bytes arrive",
  "For every stream of well-formed uncompressed gRPC frames, the reader delivers exactly the sequence of payloads, byte for byte and in order (empty ones included), each with its own 5-byte header and its size up to 2^32-1, whatever the chunking of the input, the timing of arrival, extra polls, and the way the consumer reads (partial reads and back-ups included).",
  ["inputs", "schedules"], "every sequence of payload sizes and contents, every partition into chunks, every schedule of arrival and polling",
  "Tests partition three short messages into at most four chunks, poll after each one, and stop at 64 KB sizes.",
  MR, [("header accumulation", "src/message_reader.cc MessageReader::NextMessage"), ("big-endian length decoding", "src/message_reader.cc DelimiterToSize"), ("message limiting", "src/message_reader.cc LimitingInputStream use")],
  ["MessageReader::NextMessage/NextMessageAndGrpcFrame results"],
  [("have_current_message_size_", "header of the current frame already consumed", "src/message_reader.cc")])
p("C15", "The frame reader takes from its input only what the current frame needs",
  "The reader consumes a header only when all 5 header bytes are available and never more than those 5 until the entire payload is available; the stream it returns exposes at most the payload, so that reading it completely leaves the input exactly at the next frame. Polling with incomplete data consumes nothing further, never pulls from an input that has no bytes available, and allocates nothing proportional to the announced size.",
  ["inputs", "schedules"], "every byte stream, chunking and schedule of polls",
  "Tests look at the delivered messages only, not at the position of the underlying stream.",
  MR, [("availability checks before reads", "src/message_reader.cc MessageReader::NextMessage"), ("back-up of unread bytes", "src/message_reader.cc ReadStream")],
  ["Next/BackUp calls and position of the input stream", "allocated bytes"])
p("C16", "Framing errors and end of stream are reported exactly and stay reported",
  "The reader reports an error exactly when the input is malformed: a frame flag other than 0 (as soon as the 5 header bytes are there), or an input that ended inside a header or inside a payload; the message is the documented one with the offending values. It is finished exactly when such an error occurred or the input has ended and all frames were delivered (or the input failed to give the bytes of a header that it had announced), never earlier; after that it stays finished, keeps its status and delivers nothing more.",
  ["inputs", "schedules"], "every byte stream, truncation point, chunking and schedule of polls, including polls after the end",
  "Four error tests with one fixed input each; truncation at each byte behind any number of frames is not explored.",
  MR, [("verdicts", "src/message_reader.cc MessageReader::NextMessage"), ("finished state", "src/include/grpc_transcoding/message_reader.h MessageReader::Finished")],
  ["MessageReader::Status/Finished/NextMessage"])
p("C17", "A message stream read as a byte stream is the exact concatenation",
  "The input stream made from a message stream yields exactly the bytes of its messages, concatenated in order, whatever mix of reads, back-ups and availability queries is used: a read returns all that remains of the current message, a legal back-up makes the same bytes come again, available bytes are those of the next read. A read returns nothing (size 0) while no message is there, and false exactly if the source is finished as well; empty messages are skipped without ending the stream; backing up more than was read from the current message, or before anything was read, has no effect.",
  ["inputs", "schedules", "histories"], "every sequence of messages (empty ones included), arrival schedule and sequence of reads and back-ups",
  "Tests cover six fixed sequences; back-ups around message boundaries, availability queries in between and empty messages at different points are not explored.",
  MS, [("one message buffered at a time", "src/message_stream.cc InputStreamOverMessageStream")],
  ["Next/BackUp/BytesAvailable/Finished of MessageStream::CreateInputStream()"])
REQ = ["src/json_request_translator.cc", "src/request_message_translator.cc", "src/request_stream_translator.cc", "src/request_weaver.cc", "src/prefix_writer.cc", "src/status_error_listener.cc"]
RSP = ["src/response_to_json_translator.cc"] + MR
TH = ["src/type_helper.cc", H + "type_helper.h"]
p("C18", "Streamed responses form exactly one JSON array (or one line per message)",
  "For a stream of response frames, the concatenated output is exactly '[', the JSON of each message in order separated by ',', and ']' ('[]' for none), or with the newline option the JSON of each message followed by a newline (and at the end an empty piece); each message appears as soon as its frame is complete, exactly once, and an incomplete frame gives no output. A unary response is the JSON of its one message without any decoration. (A unary input that ends without any frame is left open.)",
  ["inputs", "schedules"], "every sequence of response messages, chunking, poll schedule and options",
  "Tests use up to three bookstore messages; array punctuation interacts with chunking, empty messages and repeated polling.",
  RSP, [("array punctuation", "src/response_to_json_translator.cc ResponseToJsonTranslator::NextMessage/TranslateMessage")],
  ["ResponseToJsonTranslator::NextMessage/Finished"])
p("C19", "Response translation errors are reported once, and permanently",
  "If a response frame is malformed (flag, cut off) or its payload is not a valid message of the response type (as the protobuf library's JSON converter decides, and a payload it does not read to its end is not valid), the translator delivers every earlier message, then stops: no output for the bad frame, a non-OK status, finished, no further output. A valid stream never produces an error, and the outcome does not depend on chunking or polling. (Payloads on which the library itself does not terminate are not covered.)",
  ["inputs", "schedules"], "every stream with faults at every position",
  "Tests check one malformed message per error kind.",
  RSP, [("status propagation", "src/response_to_json_translator.cc ResponseToJsonTranslator::NextMessage")],
  ["ResponseToJsonTranslator::NextMessage/Status/Finished"])
p("C20", "A unary JSON request becomes the proto the HTTP rule describes",
  "The JSON body is translated to the request message with the body placed at the body field path (the whole message for '*' or an empty path), every bound value placed at its own field path, repeated fields collecting body and bound values, and unknown body fields ignored; an empty input counts as '{}'. The result is one message, equal to the directly parsed one, preceded by a correct 5-byte frame header if asked for.",
  ["inputs", "configurations"], "every request message, body field path and set of bindings",
  "Tests translate about ten fixed bookstore requests.",
  REQ, [("pipeline", "src/request_message_translator.cc RequestMessageTranslator"), ("prefix", "src/prefix_writer.cc PrefixWriter"), ("weaving", "src/request_weaver.cc RequestWeaver")],
  ["JsonRequestTranslator::Output()"])
p("C21", "Request translation does not depend on how the JSON is chunked",
  "For every JSON input and every partition into chunks (inside escapes, multi-byte characters, numbers and literals) with any number of empty polls in between, the final verdict (status code, finished) is the same as for the input in one piece. For a valid input the messages delivered are the same too; for an invalid one they are a prefix of those delivered when the input comes byte by byte. (Text behind a complete unary document is left open.)",
  ["inputs", "schedules"], "every JSON text, partition and poll schedule",
  "Tests try partitions into up to four chunks of a few documents.",
  REQ, [("incremental parsing", "src/json_request_translator.cc LazyRequestTranslator::TranslateChunk")],
  ["JsonRequestTranslator::Output() under different chunkings"])
p("C22", "Streaming requests: one framed message per array element, in order",
  "For a streaming call a JSON array input yields exactly one message per element, in order, with correct frame headers, as soon as the element is complete (for numbers and literals: known to be complete by the next byte); URL bindings go into the first message only, and body path and parsing options apply to every message. The stream is finished after the closing bracket and all messages; a body that is not an array, or an empty input, is an InvalidArgument error.",
  ["inputs", "schedules", "configurations"], "every array of elements, options, bindings and chunking",
  "Tests use three elements of one type.",
  REQ, [("element detection", "src/request_stream_translator.cc RequestStreamTranslator"), ("per-message translator", "src/request_stream_translator.cc StartMessageTranslator")],
  ["JsonRequestTranslator::Output() with streaming"])
p("C23", "Malformed request bodies are rejected without a partial message",
  "If the JSON body is malformed, truncated, or has a value (or a bound value) that does not fit its field, translation ends with an InvalidArgument-class error status and finished, and no message is delivered for the faulty document or element however often it is asked for. In a stream only elements before the fault are delivered, unchanged and in order, and all of them if the input came byte by byte. A valid body never yields an error.",
  ["inputs", "fault_sequences"], "every JSON body and every position of a fault in it",
  "Tests cover about ten fixed malformed bodies.",
  REQ, [("parser and translator status check", "src/json_request_translator.cc LazyRequestTranslator::CheckParsingStatus"), ("error listener", "src/status_error_listener.cc")],
  ["JsonRequestTranslator::Output() status and messages"])
p("C24", "Request translation is lazy: it reads only what the next message needs",
  "Asking for a message reads input chunks only until one message is ready and never while a translated one is already waiting; running out of input is not an error and not the end: the next request for a message continues where the last one stopped. Once the input has ended, consecutive requests deliver every remaining message without an empty answer in between.",
  ["schedules", "inputs"], "every schedule of input arrival and requests for messages",
  "One flow-control test with one fixed document.",
  REQ, [("on-demand loop", "src/json_request_translator.cc LazyRequestTranslator::NextMessage")],
  ["Next() calls on the JSON input between NextMessage() calls"])
p("C25", "Body and URL values for one field: conflicts are rejected iff asked and unequal",
  "When the body sets a singular field that is also bound from the URL, the body's value is used and the bound one dropped; with collision rejection on, the request fails exactly when the two values differ after conversion to the body value's type (text compares as text, floating point up to rounding) or the bound value cannot be converted to it. Equal values are always accepted, for every scalar type and over its whole range; an object or list in the body (for a field that takes any value) never equals a bound text, and a null in the body does not set the field.",
  ["inputs", "configurations"], "every scalar and well-known type, pair of values and nesting depth, with the option on and off",
  "Tests compare a few small values per type.",
  ["src/request_weaver.cc", "src/request_message_translator.cc"], [("collision check", "src/request_weaver.cc RequestWeaver::CollisionCheck/isEqual")],
  ["RequestWeaver output and error listener status"])
p("C26", "Field paths resolve exactly to the chain of fields they name",
  "A field path (dotted string or list of names, each in its proto, JSON or percent-encoded spelling) resolves to the chain of fields it names, starting in the given type, each but the last being a message field; the empty path resolves to the empty chain. If a name does not exist, a non-last field is not a message or its type is unknown, the result is an InvalidArgument error and the output is left as it was.",
  ["inputs", "configurations"], "every set of types and every field path",
  "Tests resolve a few dozen fixed paths in one type set.",
  TH + PE, [("chain resolution", "src/type_helper.cc TypeHelper::ResolveFieldPath")],
  ["TypeHelper::ResolveFieldPath result"])
p("C27", "The type helper can be used from many threads",
  "Concurrent lookups of types, enums, fields and field paths through one type helper have no data race, and each returns what it returns single-threaded.",
  ["schedules"], "every interleaving of calls to the type information from any number of threads",
  "One test; no concurrency.",
  TH, [("lock around the type info cache", "src/type_helper.cc LockedTypeInfo")],
  ["ThreadSanitizer reports", "results per thread"])
p("C28", "Prefix writer and weaver forward well-formed events and lose nothing",
  "Whatever well-formed sequence of writer events comes in, the prefix writer and the weaver forward every event once, in order, with its name and value unchanged (only the root's name moves to the innermost prefix), and what they add is exactly the prefix objects and the bound values, so that the output is again well-formed. Each bound value is written exactly once, inside the message its path names, unless the body already sets that singular field (to a value other than null, object or list included); the values of one field keep the order in which they were bound, a binding with an empty field path is ignored, and no message is added that holds no bound value.",
  ["inputs", "histories"], "every well-formed event sequence, prefix and set of bindings",
  "About twenty fixed event sequences.",
  ["src/prefix_writer.cc", "src/request_weaver.cc"], [("prefix depth tracking", "src/prefix_writer.cc PrefixWriter"), ("weave tree", "src/request_weaver.cc RequestWeaver::WeaveTree")],
  ["events received by the downstream writer"])
p("C29", "A message survives the JSON round trip through both translators",
  "For every message of a given type, translating it as a response to JSON and that JSON as a request back to a proto yields an equal message, alone and as element of a stream, whatever the chunking on both sides.",
  ["inputs", "schedules"], "every message value (all scalar types, repeated, map, enum, nested), both directions",
  "No test composes the two directions.",
  REQ + RSP, [("composition", "src/json_request_translator.cc, src/response_to_json_translator.cc")],
  ["JsonRequestTranslator and ResponseToJsonTranslator outputs"])
p("C30", "Frame reading is memory-safe and leak-free on hostile bytes and call sequences",
  "The frame reader and the message stream adapter never access memory outside live objects, never execute undefined behaviour and never abort, whatever bytes, chunk sizes, sequences of polls and early destruction occur, and free everything when destroyed.",
  ["inputs", "schedules", "histories"], "every byte stream, chunking and order of public calls including destruction half-way",
  "The tests run without sanitizers; one small fuzz corpus for the frame reader.",
  MR + MS, [("bounded reads", "src/message_reader.cc ReadStream")],
  ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "allocated bytes before and after"])
p("C31", "Translators are memory-safe and leak-free on hostile input and call sequences",
  "The JSON request translator and the response translator never access memory outside live objects, never execute undefined behaviour, never abort and never hang, whatever JSON, bound values, body paths, frames, payloads, chunks, options and sequences of polls are given and whenever they are destroyed, and they free everything when destroyed. (Payloads on which the protobuf library itself does not terminate are not covered.)",
  ["inputs", "schedules", "histories"], "every request and response byte stream, configuration and order of public calls including destruction half-way",
  "The tests run without sanitizers on a few well-formed documents.",
  REQ + RSP, [("ownership of translators and messages", "src/json_request_translator.cc LazyRequestTranslator"), ("lifetime of the streams of a response", "src/response_to_json_translator.cc ResponseToJsonTranslator")],
  ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "allocated bytes before and after"])
p("C32", "The type helper serves exactly the types and enums it was given",
  "A type helper made from lists of types and enums (or from a resolver, which it then owns and passes on) finds each of them under 'type.googleapis.com/' + its name, with the content it was given, except that the options proto2.MessageOptions.map_entry and .message_set_wire_format appear under their google.protobuf names. Any other URL is not found (NotFound, null), a field is found by its proto and its JSON name and by no other, and repeated questions give the same object.",
  ["inputs", "configurations"], "every set of types and enums, every URL and field name, every constructor",
  "Tests look up the types of two service configurations.",
  TH, [("simple resolver", "src/type_helper.cc SimpleTypeResolver"), ("option renaming", "src/type_helper.cc SimpleTypeResolver::ReplaceProto2WithGoogleProtobufInOptionNames"), ("type info", "src/type_helper.cc LockedTypeInfo")],
  ["TypeHelper::Resolver()", "TypeHelper::Info()"])
p("C33", "The path trie keeps, copies and finds exactly the paths inserted",
  "A path trie node used directly: inserting a path (literals, single parameters, '*', and at most one '**' followed by literals only) for a method key returns true exactly when this path had no entry for that key; repeating it replaces the stored data, and the entry counts as multiple from the first repetition with mark_duplicates on (other repetitions never change the mark). A lookup of request parts (none containing '/') into an empty result gives the data and mark of the entry with the most specific matching path - compared part by part literal, single parameter, '*', '**' - for the method key, or else for '*' with the same custom verb; if there is none the result stays untouched. A clone answers as the original did when it was cloned, and insertions into or destruction of either do not affect the other; a built path is not affected by later use of its builder.",
  ["inputs", "histories"], "every history of insertions, clones and lookups",
  "Tests insert about 20 paths and never clone a trie, mix single parameters with wildcards, or insert after looking up.",
  ["src/path_matcher_node.cc", H + "path_matcher_node.h"], [("insertion", "src/path_matcher_node.cc PathMatcherNode::InsertTemplate"), ("copy", "src/path_matcher_node.cc PathMatcherNode::Clone"), ("search", "src/path_matcher_node.cc PathMatcherNode::LookupPath"), ("path builder", "src/path_matcher_node.cc PathMatcherNode::PathInfo::Builder")],
  ["PathMatcherNode::InsertPath return value", "PathMatcherNode::LookupPath result", "PathMatcherNode::Clone"])
p("C34", "A whole HTTP request becomes the gRPC messages it spells, and back",
  "For every message (or stream of messages) and every HttpRule: if some of its fields are spelled as path variables of the rule's template (single segments, '**' or patterns, escaped as the unescape option asks for), others as query parameters (in any spelling of the field path, between system parameters) and the rest as JSON at the rule's body field, then looking up the request finds the rule, every binding it gives resolves to its field, and translating the body with these bindings gives exactly those messages, framed so that the frame reader delivers them one by one; values of a repeated field follow those of the body in the order path, query. Translating the same frames as a response gives JSON that stands for the same messages. Other routes beside it, the chunking of the body and of the frames, and additional bindings make no difference.",
  ["inputs", "configurations", "schedules"], "every message, HttpRule, way to spell a request, route table and chunking",
  "No test runs a request through matcher, type helper, translators and reader together; each part is tested alone with fixed inputs.",
  PM + PE + TH + [H + "path_matcher_utility.h", "src/json_request_translator.cc", "src/request_message_translator.cc", "src/request_stream_translator.cc", "src/request_weaver.cc", "src/prefix_writer.cc", "src/message_reader.cc", "src/response_to_json_translator.cc"],
  [("lookup and bindings", H + "path_matcher.h PathMatcher::Lookup"), ("field paths", "src/type_helper.cc TypeHelper::ResolveFieldPath"), ("weaving bindings into the body", "src/request_weaver.cc RequestWeaver"), ("frames", "src/message_reader.cc MessageReader::NextMessageAndGrpcFrame")],
  ["PathMatcher::Lookup", "JsonRequestTranslator::Output", "MessageReader::NextMessage", "ResponseToJsonTranslator::NextMessage"])
p("C35", "The cost of a stream does not grow with its past",
  "Reading frames, adapting message streams and translating requests and responses take work proportional to the bytes, messages and calls involved, however many came before: a poll without new input takes constant work, and equal messages (or equal pieces of one message) take as much work late in a stream as early in it. While a stream is translated, the memory held is bounded by the input not yet translated, the messages waiting to be taken and the largest message, and does not grow with the number of messages already delivered. Lookups and field path resolutions leave no memory behind that grows with the number of different requests.",
  ["histories", "schedules"], "every history of a stream, however long, and every number of lookups",
  "Tests send a few messages; work that grows with the past or a few bytes kept per message show only after thousands.",
  ["src/message_reader.cc", "src/message_stream.cc", "src/json_request_translator.cc", "src/request_message_translator.cc", "src/request_stream_translator.cc", "src/request_weaver.cc", "src/prefix_writer.cc", "src/response_to_json_translator.cc", "src/type_helper.cc", H + "path_matcher.h"],
  [("reader state", "src/message_reader.cc MessageReader::NextMessage"), ("adapter", "src/message_stream.cc InputStreamOverMessageStream::Next"), ("queue of messages", "src/request_stream_translator.cc RequestStreamTranslator::NextMessage"), ("response", "src/response_to_json_translator.cc ResponseToJsonTranslator::NextMessage")],
  ["work and memory of NextMessage over a stream", "memory after PathMatcher::Lookup and ResolveFieldPath"])
p("C36", "Requests in flight at the same time do not affect each other",
  "Any number of frame readers, stream adapters, request and response translators, matchers, template parses and unescapings can be alive and in use at the same time - interleaved call by call in one thread, or each in a thread of its own - sharing type helpers and a built matcher: each gives the same messages, bindings, statuses and end as if it were alone, in whatever order they are made, used, dropped half way and destroyed, and there is no data race between them.",
  ["schedules", "histories", "inputs"], "every set of components in use at once, every interleaving of their calls and every assignment to threads",
  "Each test runs one component at a time in one thread, so state shared by accident between two of them does not show.",
  ["src/message_reader.cc", "src/message_stream.cc", "src/json_request_translator.cc", "src/request_message_translator.cc", "src/request_stream_translator.cc", "src/request_weaver.cc", "src/prefix_writer.cc", "src/response_to_json_translator.cc", "src/type_helper.cc", "src/http_template.cc", H + "path_matcher.h", H + "percent_encoding.h"],
  [("request translators", "src/json_request_translator.cc LazyRequestTranslator"), ("frame header reserve", "src/request_message_translator.cc RequestMessageTranslator::ReserveDelimiterSpace"), ("response translators", "src/response_to_json_translator.cc ResponseToJsonTranslator::NextMessage"), ("shared type info", "src/type_helper.cc LockedTypeInfo"), ("readers", "src/message_reader.cc MessageReader")],
  ["JsonRequestTranslator::Output", "ResponseToJsonTranslator::NextMessage", "MessageReader::NextMessage", "PathMatcher::Lookup"])
p("C37", "The transcoding loop and chains of components lose nothing",
  "Reading a translator's output through the byte stream made from it (the loop of transcoder.h) gives exactly the bytes of the messages that asking for messages would give, for every mix of reads, back-ups and availability queries: size 0 only while no message is complete, and false, then for good and with the same status, only when the translation has ended or failed and all that was delivered is read; no input is read while bytes of a message are left. In a chain - a request translator with frame headers feeding a frame reader or a streaming response translator, or a response translator feeding a request translator, through such a stream - every message comes out at the far end unchanged, in order and as soon as its input arrived, and the end (or, for truncated JSON, the error) follows.",
  ["inputs", "schedules", "histories"], "every input, chunking, mix of calls and timing",
  "Tests ask translators for messages directly; the byte stream over a real translator, and two components in a chain, are not tested.",
  ["src/message_stream.cc", "src/message_reader.cc", "src/json_request_translator.cc", "src/response_to_json_translator.cc", H + "transcoder.h", H + "transcoder_input_stream.h"],
  [("loop", H + "transcoder.h Transcoder"), ("byte stream", "src/message_stream.cc InputStreamOverMessageStream"), ("lazy reading", "src/json_request_translator.cc LazyRequestTranslator::TranslateChunk"), ("reading from a chain", "src/message_reader.cc MessageReader::NextMessage")],
  ["MessageStream::CreateInputStream", "JsonRequestTranslator::Output", "ResponseToJsonTranslator", "MessageReader::NextMessage"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=True) + "\n")
print(len(P))
