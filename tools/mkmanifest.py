"""Writes MANIFEST.json. The texts per property also make the table in DESIGN.md (tools/mkdesign.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PBT = "property-based testing (Hypothesis) "
# property -> (technique, oracle, what is generated, bounds and trust)
T = {
 "C01": (PBT + "against a reference request parser", "an independent parser of the sent bytes, field by field, against what the handler recorded", "up to 3 API requests in turn: URLs up to and over every internal limit, queries, headers, bodies, path parameters, announced lengths that exceed the body by a power of two; bodies of 1 to 20 MB (thorough: over 256 MB)", "bodies without NUL; Content-Length bodies only"),
 "C02": (PBT + "against a reference header parser", "a model of the header section: first 20 headers, names cut at 63, values at 255, case-insensitive lookup", "header sections with duplicates, odd white space, long names, values and lines, lookups of present, absent and near names, clients that are gone before they are looked at", "no NUL in headers"),
 "C03": (PBT + "against a reference session extractor", "the session the model takes from X-Session, Authorization or the WSSESSION cookie, against the handler's and against the echo in static responses", "those headers at every position, with near-miss names, prefixes, lengths up to and over 64 characters, line break characters", "one WSSESSION cookie at most, in one Cookie header"),
 "C04": (PBT + "against a routing model", "a model of literal and parametric matching, in order of registration", "routing tables (up to and over the limit), requests with prefixes, near misses, extra slashes, characters above 127", "functions and the running server are both driven"),
 "C05": (PBT + "with an invariant over the recorded filter and handler runs", "a refusing filter and no handler run, an accepting one and exactly one, with the same request seen by both", "tables with filters that accept, refuse or decide on session, query or form", "filters are the harness's"),
 "C06": (PBT + "with an HTTP response parser as oracle", "a strict parser of the response: status line, headers, Content-Length equal to the body, the helper's status and body", "every public helper with generated statuses, messages, documents, streams, lists, sizes; a document of about 2 GB (thorough: streams and messages of over 4 GB, also over TLS)", "headers not escaped by contract (the caller's message has no line breaks)"),
 "C07": ("coverage-guided fuzzing (libFuzzer) and property-based generation under AddressSanitizer and UBSan", "sanitizer reports, process death, a hang, or a wrong answer to a well-formed request that follows", "raw bytes, mutated requests and multipart bodies, cut and aborted anywhere, then a probe request; bodies and uploads around what a server short of memory can have; the stand-alone program over TCP and TLS with clients that leave at any point", "memory errors are those the sanitizers see"),
 "C08": (PBT + "against the file system", "the file's bytes, its type by extension, exact Content-Length", "file trees with binary, empty and large files, folders, index and icon settings, queries, odd names, files that cannot be opened; clients over TCP with small receive buffers that pause or send more than the request; a sparse file of over 2 GB (up to 8 GB in thorough runs)", "last path segment neither begins nor ends with a dot"),
 "C09": (PBT + "with marked files outside the root", "no byte string of a marked file outside the root in any response", "paths with dot segments in all spellings and positions, absolute and doubled slashes, upload names, long paths", "symbolic links inside the root are the administrator's"),
 "C10": (PBT + "against an independent multipart encoder (round trip)", "the form computed from the parts before encoding", "part lists: numbers, sizes, orders, binary files, boundary-like and header-like values, cut into packets", "names without characters the server chops; name first in Content-Disposition"),
 "C11": (PBT + "round trip through upload and the stored file", "the bytes sent, under the id the form announces, in the upload folder and nowhere else", "file parts of all sizes around the buffer limits, binary, boundary-like contents, several at once, folders that cannot be written or are full at any byte; one of some MB (2 GB in thorough runs)", "the upload folder is mapped into the scratch folder"),
 "C12": (PBT + "stateful, against a set model", "exact membership of the address in the allow and deny files at that time", "histories of edits of both files and connection attempts with addresses that contain each other, lists that cannot be opened for a while", "one address per line"),
 "C13": (PBT + "stateful and concurrent, against a model of the live set", "a model of the live connections and rules; for bursts, bounds that every interleaving satisfies", "rule sets with overlapping prefixes, histories of opens, ends and aborts, bursts of up to 8 with delays injected at library calls", "schedules are sampled, not enumerated"),
 "C14": (PBT + "against a reference parser of the file", "an independent reading of the file into rules", "valid rules, comments, missing fields, long lines, over 64 rules, arbitrary bytes", "arbitrary bytes: memory safety and rule count only"),
 "C15": (PBT + "stateful, against a queue model", "each number sent by a client is seen by exactly one worker once, in order where one worker is free; the 1025th waiting one is closed", "histories of arrivals, releases, bursts past the pool and the queue, injected accept errors", "accept is replaced by a control channel"),
 "C16": (PBT + "differential: together against alone", "the response the same request received alone", "up to 16 API, static and upload requests at once, with slow places; a crowd of 88000 requests to one server (more than 16 bits count)", "schedules are sampled"),
 "C17": (PBT + "with an invariant over memory, descriptors and files", "allocated bytes and open descriptors are the same after n and after 2n rounds of the same requests", "histories of complete, refused, aborted and malformed requests of all kinds; crowds of which some leave in the middle", "allocation counted by the sanitizer's allocator"),
 "C18": (PBT + "against the bytes the clients received", "a line per response with address, request line, status, length, referer, agent, time", "up to 12 requests in turn or at once, over HTTP and TLS; a crowd of 28000 requests, line by line; a file of over 4 GB; a JSON document of over 2 GB (thorough: streams)", "requests without NUL"),
 "C19": (PBT + "against a model of levels", "the set and order of lines written to the file, whole lines only under concurrency", "histories of level changes and messages, from up to 8 threads, long and odd messages, closing the file", "the log file is mapped into the scratch folder"),
 "C20": (PBT + "differential: TLS against plain", "the same bytes as over HTTP; no HTTP content to a plain client", "requests of all kinds, fragmented, TLS 1.2 and 1.3, broken handshakes, aborted connections; a crowd of 3000 TLS clients; a file of over 2 GB", "OpenSSL is trusted"),
 "C21": (PBT + "round trip through a JSON parser", "Python's strict JSON parser gives back the input", "strings with all ASCII and Unicode characters, ints, booleans, lists of all lengths", "valid UTF-8, keys need no escape"),
 "C22": (PBT + "round trip through a JSON parser", "the document decodes to the fields given", "codes and messages of all lengths and characters, lists, nested serializables", "valid UTF-8"),
 "C23": (PBT + "round trip through the file", "what is read is what was written", "keys and values over the documented alphabet, numbers up to 20 values; writes that fail at any byte, or cannot begin", "lines of at most 510 bytes"),
 "C24": (PBT + "against a reference parser", "calls of the handler (key, values, section) and the stop position of an independent parser", "valid, malformed and arbitrary files, required keys, handler that stops", "over-long lines: memory safety only"),
 "C25": (PBT + "against reference functions", "Python's split and join with the documented limits", "all strings over a separator-rich alphabet, lengths around the limits", "none beyond the documented limits"),
 "C26": (PBT + "against definitions", "one-line definitions in Python", "strings over small and full alphabets, including empty, equal and prefix-related", "NUL-terminated strings"),
 "C27": (PBT + "differential against another MD5", "Python's hashlib", "strings of all lengths around the chunk and block sizes, and of over 2^32 bits and 2^31 bytes", "none"),
 "C28": (PBT + "stateful, against the file system", "Python's view of the same folder", "histories of creating, reading, listing and removing in a scratch folder, odd names, sizes and types; files of over 2 GB", "run as an unprivileged user"),
 "C29": (PBT + "of the whole program over loopback TCP", "a model of options, root, rules and address", "options in all orders, roots, address rules, limits, certificates, sources, aborts; configurations that cannot start", "IPv4 loopback; fixed paths are mapped into the scratch folder"),
 "C30": (PBT + "against a decision table", "400, no handler run and no file content", "methods, near misses and letter cases times URLs", "none"),
 "C31": (PBT + "metamorphic: cut against whole", "the same response bytes however the request is cut", "requests of all kinds, cut at generated and at special places; 60 with real pauses of 1.2 and 7 s (up to 130 s in thorough runs), 60 with such of 50 and 300 s on a faster clock", "the Date-free responses of the server"),
 "C32": (PBT + "of histories on an accelerated clock", "ages measured by the client around the server's: never dropped below N, always gone by N + 4 s + slack", "rules with times, up to 12 connections that stall, trickle, hold, stop reading or finish in time; clock 10 to 4000 times as fast", "time functions are replaced at link time; a late drop is only seen beyond the slack"),
 "C33": (PBT + "differential: a slow client over TCP against a fast one", "the same response bytes", "requests of all kinds and answers of up to 3 MB over HTTP and TLS, to clients with receive buffers of 2 to 64 KB that pause, read in small steps and send up to 30 KB more than their request; 48 clients that stop for seconds in their request and in answers of 9 MB, on clocks up to 100 (thorough 1000) times as fast", "what follows a request arrives with it; pauses of 12 real seconds at most"),
}
NAMES = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
COMMON = " Exploration: no violation among the generated cases, whose number, non-trivial share and samples are in the evidence file; nothing is claimed for inputs never generated. Trusts clang, the sanitizers, the harness and the model in vlib/checks/%s.py."


def main():
    checks = []
    for n in NAMES:
        t = T[n]
        checks.append({"property": n, "quick_cmd": "python3-vt run.py %s --tier quick" % n, "thorough_cmd": "python3-vt run.py %s --tier thorough" % n,
                       "evidence_file": "evidence/%s.json" % n, "technique": t[0], "level": "exploration",
                       "level_note": "Generated: %s. Oracle: %s. Bounds: %s." % (t[2], t[1], t[3]) + COMMON % n.lower()})
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo: the harnesses link against its sources and replace library calls with the linker's --wrap. VERIF_SEED seeds every random choice."}
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    main()
