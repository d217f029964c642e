#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "API handlers see exactly the request the client sent",
 "For every well-formed HTTP request to an API route, the selected handler runs exactly once and sees the method, the path relative to /api, the query string (everything after the first '?'), the request line without its line end, and the body (exactly the Content-Length bytes that were sent, empty if none) as the client sent them. A request whose body ends before its declared length never reaches a handler. A URL too long to be held in full (over 511 bytes) is answered 400 instead of being processed in shortened form.",
 ["inputs"], "all methods GET/POST/PUT/DELETE, all URLs up to and just over the limit, all query strings, all bodies (any non-NUL bytes, empty to hundreds of kB), header layouts around them",
 "The unit tests never run the request reader at all: they call the router with hand-built structs and the URL splitter on four fixed URLs.",
 ["ws.c", "http_utils.c", "router.c"],
 [("request line, header and body reader", "ws.c accept_request, get_line, handle_api_request"), ("URL splitting", "http_utils.c get_path_and_query_string")],
 ["api_request fields inside a registered handler"], [("api_request", "what a handler gets", "http_utils.h")])

prop("C02", "Header metadata given to handlers is faithful",
 "For every request, handlers can look up each of the first 20 headers by name, in any letter case, and get its value without surrounding white space (names cut to 63 and values to 255 bytes, the first of equal names wins, an empty string for an absent one). The content type is the Content-Type value without its parameters. The client address is the peer's address, or the value of the X-Real-IP header (an address, up to 24 bytes) when that is present; when the peer's address cannot be had, as the client has gone, no handler runs for it.",
 ["inputs"], "header lists of any length, names and values of any length and spacing, duplicates, mixed case, with and without the special headers",
 "No test sends a header; the boundary lengths (63/64, 255/256, 20/21, 1023/1024) and spacing variants are never exercised.",
 ["ws.c", "http_utils.c"], [("header parsing", "ws.c accept_request"), ("header lookup", "http_utils.c http_get_header"), ("name/value split", "string_utils.c split_once")],
 ["api_request.headers/content_type/IP via http_get_header inside a handler"])

prop("C03", "The session token is taken from the right header, and only from there",
 "The session a handler sees is the trimmed value of the last X-Session or Authorization header (cut to 63 bytes); if neither is present it is the value of the WSSESSION cookie when that is shorter than 64 bytes; otherwise it is empty. No byte of any other header, or of another request, ever becomes part of a session. The static file responses echo that session, when not empty, in one X-Session and one Set-Cookie header, and never otherwise.",
 ["inputs", "histories"], "all combinations, orders, lengths and spacings of X-Session, Authorization, Cookie and other headers, over sequences of requests on one server",
 "No test reaches the session code.",
 ["ws.c", "http_utils.c"], [("session extraction", "ws.c accept_request"), ("echo", "http_utils.c return_headers")],
 ["api_request.session inside a handler", "static response headers"])

prop("C04", "Routing picks the first registered matching route, or answers 400",
 "For every set of registered routes (up to 128) and every API request, the handler that runs is that of the earliest registered route that matches: a constant route matches when METHOD:PATH is equal to it, a route ending in {name} matches when METHOD:PATH starts with the text before the brace and is longer. The rest of the path after a parametric route's prefix is appended to the form as name=rest (after '&' if the form is not empty). When no route matches, no handler runs and the answer is 400.",
 ["inputs", "configurations"], "all routing tables up to 128 entries (constant, parametric, overlapping, duplicated, prefix-related) and all method/path pairs near them, with and without a body",
 "The tests register one route at a time and send it exactly one matching request; precedence, near misses and bodies combined with parameters are never tried.",
 ["router.c", "router.h"], [("matching loop", "router.c router_handle_request"), ("template split", "router.c router_resolve_route"), ("parameter", "router.c router_extract_param")],
 ["which handler ran", "api_request.form", "response status"], [("routing table", "registered routes in order", "router.c")])

prop("C05", "A request filter that refuses keeps the handler from running",
 "For every routing table and request, the filter of the selected route (and no other) runs exactly once, before the handler and on the same request with the path parameter already in the form. The handler runs if and only if that filter returned true or the route has no filter. When the filter refuses, the client receives what the filter sent and nothing more.",
 ["inputs", "configurations", "histories"], "all routing tables mixing filtered and unfiltered routes, all sequences of requests, filters deciding on any request field",
 "The tests have one route with a constant filter each; a filter taken from the wrong route, or run at the wrong time, passes them.",
 ["router.c"], [("filter gate", "router.c router_handle_request")], ["order of filter and handler calls", "response bytes"])

prop("C06", "Every response helper sends a well-formed HTTP response",
 "For every call of a response helper with a supported status (200, 201, 400, 401, 403, 404, 429, 500), any message, JSON text, text stream, error or list, the bytes sent are one valid HTTP/1.1 response: one status line with that status, header lines of the form Name: value (Server always; Content-Type JSON and the CORS headers for JSON replies), an empty line, and the payload followed by CRLF. A Content-Length, where present, equals the number of body bytes. For an unsupported status nothing is sent.",
 ["inputs"], "all helpers, all statuses, payloads of any length including empty, longer than any internal buffer, and of more than 2 GB",
 "Tests check five fixed calls with short payloads against fixed strings.",
 ["http_utils.c", "json_utils.c"], [("status and header tables", "http_utils.c"), ("senders", "http_utils.c send_http_status, return_json_with_status, return_json_stream, return_headers, return_headers_with_mime")],
 ["bytes on the socket"])

prop("C07", "No client input can crash or corrupt the server",
 "Whatever bytes a client sends, split and timed in any way and with the connection closed at any point, the server commits no memory error and no undefined behaviour, does not exit, closes that connection in the end, and goes on answering other clients correctly. Any answer it gives is a well-formed HTTP response. This includes bodies for which memory does not suffice, and clients of the stand-alone program that leave while it sends.",
 ["inputs", "histories", "fault_sequences"], "all byte strings as requests: grammar-generated, mutated, truncated, overlong, multipart, with disconnects, one after another on one server process",
 "Unit tests cannot enumerate hostile byte strings and contain none.",
 ["ws.c", "http_utils.c", "string_utils.c", "router.c", "file_utils.c"], [("bounded parsing", "ws.c accept_request, get_line, multipart_parse, part_parse, save_tmp_file"), ("URL splitting", "http_utils.c get_path_and_query_string")],
 ["sanitizer reports, process liveness, follow-up request"])

prop("C08", "Static files are served byte for byte with the right type",
 "A GET for a file under the static root is answered 200 with exactly the bytes of that file, whatever its size or contents, and the content type of its extension (html, js, png, jpg, jpeg, zip, css, svg, ico, txt, csv, yaml; text/html with no extension; application/octet-stream for others). '/' and '/index.html' serve the configured index page, '/favicon.ico' the configured icon, and a path ending in '/' the index.html of that folder. A path that names no file, or one that cannot be opened, is answered with the index page, or 404 if there is none; a query string is ignored.",
 ["inputs", "configurations"], "all file trees, file contents and sizes (empty to several GB, binary), names, extensions and request paths",
 "No test serves a file.",
 ["ws.c", "http_utils.c", "file_utils.c"], [("path resolution", "ws.c handle_static_routes"), ("file sending", "http_utils.c direct_file, return_headers, return_file"), ("type map", "http_utils.c get_content_type")],
 ["response bytes"])

prop("C09", "Nothing outside the static root is ever served",
 "Whatever path a client requests, with any mixture of '..', '.', empty, encoded or overlong segments, with or without a leading slash, the response contains no content of a file outside the static root, and nothing outside the root is created, changed or removed. Files inside the root stay reachable by paths without '..' segments.",
 ["inputs"], "all request paths, over trees with secret files placed around the root",
 "No test requests a path with '..'.",
 ["ws.c"], [("refusal of parent segments", "ws.c handle_static_routes")], ["response bytes", "scratch tree before and after"])

prop("C10", "Multipart form fields reach the handler unchanged and in order",
 "For every well-formed multipart/form-data body (boundary of 1 to 70 characters, quoted or not, possibly followed by other parameters; each part's Content-Disposition giving the name first; field and file names without white space, control characters, '!' or '\"'), the form the handler sees is the list name=value joined by '&', in the order of the parts, with every value byte for byte as sent; a file part contributes name=filename&tmpfile=id instead, and a part that is not form-data with a name contributes nothing. No part influences what is read from another, whatever their sizes, order and contents.",
 ["inputs"], "all part lists: numbers, sizes, orders, empty values, values with line breaks, header-like text, binary file parts next to short fields",
 "The one multipart test parses a single isolated part (and crashes at the pinned commit); sequences of parts are never parsed.",
 ["ws.c"], [("part splitting", "ws.c multipart_parse"), ("part parsing", "ws.c part_parse")], ["api_request.form inside a handler"])

prop("C11", "Uploaded files are stored byte for byte under the announced name",
 "For every file part of a multipart upload, of any size and contents, a regular file with exactly the uploaded bytes exists in the upload folder under the tmpfile name announced in the form by the time the handler runs; that name ends in the MD5 of the contents. The client-supplied file name never influences where anything is written, and concurrent uploads never overwrite each other's contents. When a file cannot be stored in full, the answer is 500 and the handler does not run.",
 ["inputs", "schedules"], "all contents (binary, empty, large), hostile file names, several files per request, concurrent uploads, a folder that cannot be written or is full",
 "The only upload test fails at the pinned commit and checks only that a name is announced, not the stored bytes.",
 ["ws.c", "string_utils.c", "file_utils.c"], [("saving", "ws.c save_tmp_file"), ("naming", "string_utils.c md5sum"), ("writing", "file_utils.c write_file")], ["files in the upload folder, read inside the handler"])

prop("C12", "Address filtering follows the allow and deny files exactly",
 "A connection from an address is served if and only if the address is not a line of the deny file and either there is no allow file or the address is a line of it; an address that only contains, or is contained in, a listed one does not count as listed. This holds for lists of any length, and each new connection is judged by the files as they are at that moment; while a list is there but cannot be read, nobody is served whom it might refuse. A refused connection is closed without any response or handler call.",
 ["inputs", "configurations", "histories"], "all allow/deny contents (absent, empty, long, with related addresses, with or without final newline) and all sequences of file edits and connection attempts",
 "One fixed one-line allow file and two unrelated addresses are tested, never a deny file, related addresses, long lists or later edits.",
 ["ws.c", "file_utils.c"], [("decision", "ws.c allowed_address"), ("accept loop", "ws.c ws_launch")], ["allowed_address results", "served or closed connections"])

prop("C13", "Connection limits are enforced exactly and released in full",
 "With limit rules loaded, at no time are more connections being processed under a rule's path prefix than its maximum, in total or from one client address, and a connection is admitted whenever every rule matching its path still has room; a connection over a limit is answered 429 and its handler does not run. When a connection ends, for whatever reason, its place becomes available again and only its own. This holds for all interleavings of connections that arrive and end at the same time.",
 ["histories", "schedules", "configurations"], "all rule sets (overlapping prefixes), all histories of opening, holding, finishing and aborting connections from several addresses, sequentially and concurrently",
 "No test opens a connection.",
 ["ws.c"], [("admission", "ws.c connection_add, connection_validate, get_live_stats"), ("release", "ws.c connection_close, connection_del")],
 ["responses and handler runs while others are held open"], [("live connection table", "who is being served", "ws.c live_connections")])

prop("C14", "The limits file is read as documented",
 "Loading a limits file yields, in file order, one rule (path, maximum connections, maximum per address, maximum seconds) for every line that starts with '/' and has at least the path and two comma separated numbers, up to 64 rules; all other lines are ignored and leave no trace in other rules. A missing or empty file yields no rule, and no file contents make loading fail or corrupt memory.",
 ["inputs", "configurations"], "all file contents: valid rules, comments, missing fields, overlong lines, over 64 rules, arbitrary bytes",
 "The loader is never called by a test.",
 ["ws.c"], [("loader", "ws.c load_limits")], ["the rule table returned by load_limits"])

prop("C15", "Each accepted connection is handed to exactly one worker",
 "Every connection the server accepts is passed to exactly one worker, once, in order of acceptance when workers are free one at a time; up to 1024 connections wait when all workers are busy, and one beyond that is closed at once. No interleaving of accepting and finishing connections loses, duplicates or mixes up a connection, and a failing accept call does not stop the server.",
 ["schedules", "histories", "fault_sequences"], "all histories of arrivals, busy and freed workers, bursts beyond the pool (200) and the queue (1024), transient accept errors",
 "The queue is never exercised by a test.",
 ["ws.c"], [("circular queue", "ws.c ws_launch, ws_queue_get"), ("workers", "ws.c ws_connection_handler")], ["socket handler invocations", "closed sockets"], [("queue", "waiting sockets", "ws.c ws_threads_queue")])

prop("C16", "Concurrent requests never mix",
 "When any number of clients send requests at the same time, each one receives exactly the response it would have received alone: its own path, query, headers, session, body, form and file contents, never data of another client's request. Every request that is not over a limit is answered.",
 ["schedules", "inputs"], "all sets of concurrent API, static and upload requests and their interleavings, with delays injected at library calls",
 "Unit tests are single threaded.",
 ["ws.c", "http_utils.c", "router.c", "string_utils.c"], [("per-request state", "ws.c accept_request"), ("URL splitting without shared state", "http_utils.c get_path_and_query_string")], ["responses under concurrency"])

prop("C17", "Finished requests leave nothing behind",
 "After any history of requests, answered, refused, malformed or aborted by the client, once all connections have ended the server holds no more open descriptors than before, no connection still counts against a limit, and its memory in use does not grow with the number of requests served.",
 ["histories"], "all mixes and orders of request kinds, repeated many times on one server process",
 "Resource growth is a property of long histories; the tests make single calls.",
 ["ws.c", "http_utils.c", "wayuu_log.c"], [("request cleanup", "ws.c accept_request, connection_close")], ["allocated bytes, descriptors and admitted connections after a history"])

prop("C18", "The access log records every response exactly once and correctly",
 "Every response the server sends appends exactly one line to the access log, in the combined format, with the client address, the request line as sent, the status sent, the exact number of bytes sent to the client, and the request's Referer and User-Agent values. Lines of concurrent requests are never interleaved or lost, and none is when the file was renamed or removed before the request, as in log rotation.",
 ["inputs", "histories", "schedules"], "all request kinds and helpers (API JSON, JSON streams, bare statuses, static files, refusals), header values up to the limits, sequential and concurrent histories",
 "In the tests the log cannot even be opened.",
 ["wayuu_log.c", "http_utils.c"], [("log line", "wayuu_log.c log_access"), ("byte accounting", "http_utils.c response_length")], ["access log file against the bytes received"])

prop("C19", "The application log drops and keeps messages by level, whole lines only",
 "A message is written if and only if its level is at or above the configured one; each written message is one line with UTC time, thread, level, file, function, line number and the fully formatted text, of any length, in the configured file, after what is already there (on standard error while none is configured, or after it was closed). Messages logged by different threads at the same time never mix within a line, and only a fatal message ends the process, with failure status, after being written.",
 ["inputs", "schedules", "histories"], "all sequences of level changes and messages, all argument values and lengths, several threads logging at once",
 "No test checks what is logged.",
 ["log.c", "log.h"], [("logger", "log.c __logger"), ("threshold", "log.c log_set_level, log_level_is_enabled")], ["the log file"])

prop("C20", "HTTPS serves the same responses as HTTP, and only over TLS",
 "For every request, the decrypted response in HTTPS mode is byte for byte the response given in HTTP mode, for API and static routes, bodies, uploads and errors, of any size, and ends with the closing message of TLS, so that it can be told from one cut short. In HTTPS mode a client that does not complete a TLS handshake never causes a handler to run or any HTTP content to be sent in clear, and does not disturb the server.",
 ["inputs", "configurations", "fault_sequences"], "all requests under both transports; plaintext, truncated and garbage handshakes",
 "The tests replace the transport by a stub, and TLS is never started.",
 ["http_utils.c", "ws.c"], [("transport switch", "http_utils.c http_print, http_read_char"), ("TLS set-up and shutdown", "ws.c accept_request, connection_close, configure_context")], ["responses over TLS and plain sockets"])

prop("C21", "JSON builders produce valid JSON that decodes to their input",
 "For every array of strings, array of integers, list of entities and plain key with a string, integer, unsigned or boolean value, of any length, the text produced is valid JSON (a key/value fragment after being put in braces) and decodes to exactly the given values in the given order, whatever characters the strings contain. A missing or empty array gives [], and a missing string value gives an empty string.",
 ["inputs"], "all arrays and values, including quotes, backslashes, control characters, UTF-8, extreme integers, empty and very long elements",
 "Six fixed arrays of plain words and small integers are tested; the key/value builders are not tested at all.",
 ["json_utils.c", "string_utils.c"], [("builders", "json_utils.c"), ("join", "string_utils.c join")], ["returned strings"])

prop("C22", "Error and result documents are valid JSON carrying their fields",
 "An error document is a valid JSON object with exactly the code and message of the error (code UNKNOWN if it was empty), where errors built from longer texts keep the first 63 bytes of the code and 1023 of the message. A call result is a valid JSON object with RSP FAIL, OK, ERROR or WARNING for its status -1, 0, 1 or 2, info and description if and only if they are not empty, and data holding the given JSON value or an empty string.",
 ["inputs"], "all codes, messages, texts and descriptions (empty, special characters, longest, overlong), all statuses, any JSON data",
 "One error with plain short fields is tested; call results never.",
 ["http_utils.c", "json_utils.c"], [("error serializer", "http_utils.c wayuu_error_t_json_serializer, new_error_with_values"), ("result serializer", "http_utils.c return_response")], ["returned strings"])

prop("C23", "A configuration that is written reads back unchanged",
 "For every list of up to 20 items with single values or up to 20 multiple values, writing them to a file and reading that file back gives the same items in the same order with the same keys, values and multiple values (an item with multiple values is written by these, and its value reads back as them joined by commas). This holds for values containing '=' signs, inner spaces and any other characters except line breaks, commas in multiple values and surrounding white space, on lines up to 510 bytes. Writing that does not succeed in full is reported as an error.",
 ["inputs"], "all item lists within the format's limits",
 "Tests render three fixed lines and never write or read a file.",
 ["conf_parser.c"], [("writer", "conf_parser.c write_conf, conf_item_to_string, new_serializable"), ("reader", "conf_parser.c parse, conf_parse_line")], ["the file, and items given to the handler"])

prop("C24", "Configuration reading handles every file as specified",
 "Reading a configuration file hands the handler exactly the lines whose key is among the given keys, in file order: the key is the trimmed text before the first '=', the value the trimmed text after it, and for keys marked multiple also the trimmed comma separated values (non-empty tokens, at most 20). At the first line without '=' reading stops with an error after the items before it; a missing file is an error. No file contents or path cause a memory error, and no file stays open.",
 ["inputs"], "all file contents and key sets, including arbitrary bytes, empty keys and values, many values, long paths",
 "Three fixed single lines are parsed in the tests; a file never is.",
 ["conf_parser.c", "string_utils.c"], [("reader", "conf_parser.c parse, conf_parse_first_pass, conf_parse_multi"), ("key lookup", "conf_parser.c get_key_flag")], ["handler calls and return value"])

prop("C25", "String list operations split and join exactly",
 "Splitting a string by delimiter characters gives its non-empty pieces in order (at most 50, each cut to 1023 bytes); splitting once gives the trimmed text before the first separator given and, if it occurs, the trimmed text after it; joining gives the elements in order with the delimiter between them. Joining non-empty pieces that do not contain the delimiter and splitting the result gives the pieces back. None of them alters its input.",
 ["inputs"], "all strings, delimiters and lists, including piece lengths around 1023 and counts around 50",
 "Eight fixed strings are tested, none near a limit and split-once with one separator only.",
 ["string_utils.c"], [("split, split_once, join", "string_utils.c")], ["returned lists and strings"])

prop("C26", "String predicates and scanners agree with their definitions",
 "For all strings: trimming removes exactly leading and trailing white space; cutting at a separator character returns the text before its first occurrence; a prefix test is true exactly when the string begins with the prefix ignoring ASCII case, and for a list when any entry before the end marker does; the alphanumeric test is true exactly for non-empty strings of letters and digits; chopping ends the string at its first character up to and including the double quote (code 34). The scanner returns the position just after the first occurrence of the needle at or after the start and before the given length, else -1.",
 ["inputs"], "all byte strings, prefixes, lists, needles, starts and lengths, including bytes above 127",
 "A handful of fixed ASCII strings are tested, the scanner and chop never.",
 ["string_utils.c"], [("predicates and scanners", "string_utils.c trim, rtrim, startswith, startswithany, chop_string, text_find_after, string_isalnum")], ["returned values"])

prop("C27", "The MD5 helper is MD5",
 "For every byte string of every length, the helper writes the 32 lower-case hexadecimal digits of the MD5 of exactly those bytes and a terminator, and nothing beyond them.",
 ["inputs"], "all byte strings, lengths around the internal chunk size and its multiples in particular",
 "It is only reached by the test that fails at the pinned commit.",
 ["string_utils.c"], [("md5sum", "string_utils.c")], ["the output buffer and its surroundings"])

prop("C28", "File helpers agree with the file system",
 "Writing bytes to a file and reading them back gives the same bytes and length, replacing any earlier contents in full; reading with a maximum N yields the first N-1 bytes, terminated; searching in a text file is true exactly when the text occurs in it, for files of any size; the file, folder and create-folder tests are true exactly when the path is (or then is) a regular file or a folder. Reading or searching what is not a regular file (a folder, a pipe, a socket, nothing) gives empty text or false, at once. No file stays open.",
 ["inputs", "histories"], "all contents and sizes, needles, limits, sequences of writes, reads, folder creations on files, folders and missing paths",
 "Only folder creation is tested, on three fixed paths.",
 ["file_utils.c"], [("helpers", "file_utils.c")], ["results and the file system"])

prop("C29", "The stand-alone server honours its options",
 "Started with a root folder, port, bind address and plain HTTP option, the server serves exactly that root's www folder on exactly that address and port, applies that root's allow, deny and limits files, and uses that root's ssl certificate, together with those of its issuers that follow it in the file, and key when not in plain mode; API requests are answered 400. The version and help options print the version or the usage and exit with success, and an unknown option exits with failure. When it cannot serve what it was told to (the root folder does not exist, the address is none or is not this machine's, the port is taken, or outside plain mode the certificate or its key is missing or they do not match), it ends with failure and serves nothing.",
 ["configurations"], "all combinations of options, orders, root contents, addresses and ports",
 "main is left out of the test program.",
 ["main.c", "ws.c"], [("option parsing", "main.c main"), ("start", "ws.c ws_launch, configure_context")], ["process exit status and output", "responses on the chosen address"])

prop("C30", "Unsupported methods and misplaced writes are refused with 400",
 "A request whose method does not begin, in any letter case, with GET, POST, PUT or DELETE is answered 400, whatever its URL, and reaches no handler or file. A request outside /api with any method other than GET is answered 400 and receives no file content. A request under /api, in any letter case, is never answered with static content.",
 ["inputs"], "all method strings, near misses and cases, all URLs",
 "One test checks the method list for HEAD; the server's decision is never exercised.",
 ["ws.c"], [("method check and dispatch", "ws.c accept_request")], ["response status and body", "handler runs"])

prop("C31", "The response does not depend on how the request is cut into packets",
 "For every request, well-formed or not, the response is the same bytes however the request is divided into pieces and delayed between them on the connection, including cuts inside the line ends, header names, multipart boundaries and body.",
 ["schedules", "inputs"], "all requests and all segmentations of them",
 "No test sends a request over a connection.",
 ["ws.c", "http_utils.c"], [("byte-wise reading", "ws.c get_line, handle_api_request; http_utils.c http_read_char")], ["response bytes for different segmentations"])

prop("C32", "A connection over its time limit is dropped, and none before",
 "With a limits rule of path, maximum connections, maximum per address and N seconds, a connection under that path that is still alive N seconds after it was admitted is dropped within a few seconds, and its place becomes available again once a handler still running for it returns. A connection that stays within its time, or is under no rule with a time, is never dropped by the server before its response is complete.",
 ["histories", "configurations", "schedules"], "all rules with times, all paths under and beside them, clients that stop sending, stop reading or trickle, and requests that take up to just under their time",
 "No test opens a connection, and none lets time pass.",
 ["ws.c"], [("time field of a rule", "ws.c load_limits; http_utils.h path_limits.max_seconds"), ("watch thread", "ws.c connection_watch, connection_expired"), ("connection table", "http_utils.h connections.unix_time")], ["when connections end, against the rule's time"])

prop("C33", "The whole answer arrives, at whatever pace the client sends and reads",
 "Every response, over HTTP or TLS, reaches a client that reads to the end of the connection in full and unchanged, whatever the size of the response and of the client's receive buffer, however late and in however small steps the client reads, if it pauses for seconds or minutes in the middle (when no limits rule sets a time), and also if it sent a body nobody asked for, line ends or further requests together with its request.",
 ["schedules", "inputs", "environment"], "all requests and responses, all paces of reading, all buffer sizes",
 "No test opens a connection, and an answer that fits the kernel's buffers arrives whatever the server does.",
 ["ws.c", "http_utils.c"], [("end of a connection", "ws.c connection_close, accept_request"), ("sending", "http_utils.c http_print, file_download")], ["all bytes a client receives over TCP, against those that a fast client receives"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
