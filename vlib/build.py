"""Compiles the harnesses together with /repo's current sources."""
import glob, hashlib, os, shutil, subprocess, sys, time
REPO = os.environ.get("WV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(os.path.dirname(HERE), "harness")
WRAPS = "fopen freopen open creat mkdir rmdir stat lstat access remove unlink rename opendir chmod pthread_create".split()
PERTURB = ("strcpy strncpy strcat strncat strdup strlen strcmp strncmp strcasecmp strncasecmp strchr strrchr "
           "strstr strtok memcpy memmove memset gmtime localtime ctime close send vfprintf vsprintf vsnprintf "
           "fputs fputc fclose fflush fwrite fread fgets getline fseek ftell pthread_mutex_lock "
           "pthread_mutex_unlock pthread_cond_signal inet_ntoa recv fprintf sprintf snprintf ").split()
SERVER = "accept accept4 getpeername".split()
CLOCK = "time clock_gettime gettimeofday sleep usleep nanosleep pthread_cond_timedwait setsockopt poll select".split()
BASE = ["-g", "-O1", "-std=gnu99", "-DWAYUU_DIST", "-D_GNU_SOURCE", "-w", "-fno-omit-frame-pointer",
        "-ftrivial-auto-var-init=pattern"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all"]
LIBS = ["-lpthread", "-lssl", "-lcrypto", "-lm"]
# name -> (harness sources, sanitizers, extra flags, wraps, main.c included)
KINDS = {
    "unit": (["unit.c", "wrap.c"], SAN, [], WRAPS, False),
    "unit_p": (["unit.c", "wrap.c"], SAN, ["-DWV_PERTURB", "-fno-builtin"], WRAPS + PERTURB, False),
    "server": (["server.c", "wrap.c"], SAN, [], WRAPS + SERVER, False),
    "server_t": (["server.c", "wrap.c"], SAN, ["-DWV_CLOCK"], WRAPS + SERVER + CLOCK, False),
    "server_p": (["server.c", "wrap.c"], SAN, ["-DWV_PERTURB", "-fno-builtin"], WRAPS + PERTURB + SERVER, False),
    "fuzz": (["fuzz.c", "wrap.c"], ["-fsanitize=address,undefined,fuzzer", "-fno-sanitize=function", "-fno-sanitize-recover=all"],
             [], WRAPS + SERVER, False),
    "main": (["wrap.c"], SAN, [], WRAPS, True),
}

class BuildError(Exception):
    pass

def build(kind, outdir):
    """Returns the path of the binary. Objects are compiled in parallel."""
    srcs, san, extra, wraps, with_main = KINDS[kind]
    repo_src = [s for s in sorted(glob.glob(os.path.join(REPO, "*.c"))) if with_main or os.path.basename(s) != "main.c"]
    d = os.path.join(outdir, "obj-" + kind)
    os.makedirs(d, exist_ok=True)
    procs, objs = [], []
    for s in repo_src + [os.path.join(HARNESS, x) for x in srcs]:
        o = os.path.join(d, ("r_" if s.startswith(REPO + "/") else "h_") + os.path.basename(s) + ".o")
        objs.append(o)
        flags = list(BASE) + list(extra)
        s_san = list(san)
        if os.path.basename(s) == "wrap.c" and s.startswith(HARNESS):
            s_san = ["-fno-builtin"]   # the wrappers themselves are neither instrumented nor inlined
        elif s.startswith(HARNESS) or kind != "fuzz":
            s_san = [x.replace(",fuzzer", ",fuzzer-no-link") for x in s_san]
        else:
            s_san = [x.replace(",fuzzer", ",fuzzer-no-link") for x in s_san]
        if "-DWV_PERTURB" in extra and s.startswith(REPO + "/"):
            s_san += ["-fsanitize-coverage=trace-pc,trace-loads,trace-stores"]
        cmd = ["clang", "-c", s, "-o", o, "-I", REPO, "-I", HARNESS] + flags + s_san
        procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    err = []
    for s, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            err.append("%s:\n%s" % (s, out.decode(errors="replace")))
    if err:
        raise BuildError("\n".join(err))
    binp = os.path.join(outdir, kind)
    cmd = ["clang", "-o", binp] + objs + san + ["-Wl,--wrap=" + w for w in wraps] + LIBS
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(p.stdout.decode(errors="replace"))
    shutil.rmtree(d, ignore_errors=True)
    os.chmod(binp, 0o755)
    return binp

ASAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:"
                    "max_free_fill_size=65536:free_fill_byte=205:handle_abort=1:abort_on_error=0:detect_stack_use_after_return=0:"
                    "symbolize=1:quarantine_size_mb=16:max_allocation_size_mb=1024:thread_local_quarantine_size_kb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer",
    "TZ": "Pacific/Auckland",
    "LC_ALL": "C",
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
}

if __name__ == "__main__":
    for k in sys.argv[2:]:
        t = time.time()
        print(build(k, sys.argv[1]), round(time.time() - t, 2))
