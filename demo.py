"""C22: histories of sessions of the demo program, watched from outside."""
import concurrent.futures, hashlib, multiprocessing, os, random, resource, shutil, signal, subprocess, tempfile, threading

ALGS = ["standard", "transposition", "merge-and-split"]


def distance(alg, a, b):
    n, m = len(a), len(b)
    d = [list(range(m + 1))]
    for i in range(1, n + 1):
        row = [i]
        for j in range(1, m + 1):
            r = min(d[i - 1][j - 1] + (a[i - 1] != b[j - 1]), d[i - 1][j] + 1, row[j - 1] + 1)
            if alg == 1 and i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                r = min(r, d[i - 2][j - 2] + 1)
            if alg == 2:
                if i > 1:
                    r = min(r, d[i - 2][j - 1] + 1)
                if j > 1:
                    r = min(r, d[i - 1][j - 2] + 1)
            row.append(r)
        d.append(row)
    return d[n][m]


def answer(terms, alg, bound, q):
    out = []
    for t in terms:
        if abs(len(t) - len(q)) > bound:
            continue
        k = distance(alg, q, t)
        if k <= bound:
            out.append(b'd("' + q + b'", "' + t + b'") = ' + str(k).encode())
    return sorted(out)


ALPHABETS = [b"ab", b"abc", b"abcdefghij", bytes(range(0, 256)).replace(b"\n", b""), "aé日".encode(), b"a \t\r\x80\xff\"", b"+#CJavPhython"]


def word(rng, al, lo, hi):
    return bytes(rng.choice(al) for _ in range(rng.randint(lo, hi)))


def edited(rng, w, al):
    w = bytearray(w)
    for _ in range(rng.randint(0, 3)):
        i = rng.randint(0, len(w))
        k = rng.randint(0, 3)
        if k == 0:
            w.insert(i, rng.choice(al))
        elif k == 1 and i < len(w):
            del w[i]
        elif k == 2 and i < len(w):
            w[i] = rng.choice(al)
        elif i + 1 < len(w):
            w[i], w[i + 1] = w[i + 1], w[i]
    return bytes(w)


def clean(w):
    return w.replace(b"\n", b"_").replace(b"> ", b">_")


def make_text(rng):
    """The lines of a dictionary file, unsorted and with repetitions; their letters and their kind."""
    al = rng.choice(ALPHABETS)
    kind = rng.choices(["ordinary", "large", "long", "chain"], [82, 5, 8, 5])[0]
    if kind != "ordinary":
        if kind == "large":
            syl = [clean(word(rng, al, 1, 3)) for _ in range(60)]
            lines = [clean(b"".join(rng.choice(syl) for _ in range(rng.randint(1, 4)))) for _ in range(rng.choice([800, 3000]))]
        elif kind == "long":
            w = clean(word(rng, al, 40, rng.choice([70, 130, 270])))
            lines = [clean(edited(rng, w, al)) for _ in range(rng.randint(2, 6))] + [w[: len(w) // 2]]
        else:
            w = clean(word(rng, al[: rng.choice([1, 2])], 10, 50))
            lines = [w[:i] for i in range(len(w) + 1)]
        lines = [l for l in lines if l] + [b"x"]
        rng.shuffle(lines)
        return b"\n".join(lines) + b"\n", set(lines), al, kind
    base = [clean(word(rng, al, 1, 9)) for _ in range(rng.randint(1, 6))]
    lines = [clean(edited(rng, rng.choice(base), al)) for _ in range(rng.choice([0, 1, 3, 12, 30]))]
    lines += [rng.choice(base) for _ in range(3)]
    rng.shuffle(lines)
    body = b"\n".join(lines)
    terms = set(lines)
    if rng.random() < 0.5:
        body += b"\n"
    elif lines[-1] == b"":
        # the last line is empty and has no newline: it is no line
        terms = set(lines[:-1])
    return body, terms, al, kind


def limit_child(limit, ignore):
    def f():
        if ignore:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def chunks(out):
    """What was printed after each prompt: the result lines."""
    return [sorted(l for l in part.split(b"\n") if l.startswith(b'd("')) for part in out.split(b"query> ")[1:]]


def history(args):
    exe, seed, idx, work = args
    rng = random.Random("%d/%d" % (seed, idx))
    d = tempfile.mkdtemp(prefix="demo-", dir=work)
    counts, distinct, found, sample, trace = {}, set(), [], None, []

    def add(k, n=1):
        counts[k] = counts.get(k, 0) + n

    text_path, saved_path = os.path.join(d, "terms.txt"), os.path.join(d, "saved.pb")
    file, sets = "none", []   # the saved file: none (usable), ok (holds one of sets), doubt (one of sets or unusable)
    body, terms, al, _ = make_text(rng)
    open(text_path, "wb").write(body)
    try:
        for step in range(rng.randint(3, 6)):
            if rng.random() < 0.35:
                body, terms, al, _ = make_text(rng)
                open(text_path, "wb").write(body)
            torn = False
            if os.path.exists(saved_path) and rng.random() < 0.3:
                size = os.path.getsize(saved_path)
                if rng.random() < 0.2:
                    os.unlink(saved_path)
                    file, sets = "none", []
                elif size:
                    k = rng.choice([0, size - 1, rng.randrange(size)])
                    os.truncate(saved_path, k)
                    trace.append("file torn to %d of %d bytes" % (k, size))
                    file, sets, torn = "none", [], True
            alg = rng.choice([0, 1, 2, None])
            possible = [terms] if file == "none" else sets if file == "ok" else sets + [x for x in [terms] if x not in sets]
            pool = sorted(set().union(*possible)) or [b"x"]
            longest = max(map(len, pool))
            bound = rng.choice([None, 0, 1, 2, 3])
            if longest >= 40:
                bound = rng.choice([None, 0, 1])
            elif longest < 13 and len(pool) < 60 and rng.random() < 0.2:
                bound = rng.choice([4, 5, 7, 100, 2 ** 32, 2 ** 64 - 1] if alg != 2 else [4, 5])
            cmd = [exe, "--serialization-path", saved_path]
            opts = []
            if alg is not None:
                opts.append(["--" + ALGS[alg]])
            if bound is not None:
                opts.append(["--max-distance", str(bound)])
            opts.append(["--dictionary-path", text_path])
            rng.shuffle(opts)
            cmd += [x for o in opts for x in o]
            a, n = (1 if alg is None else alg), (2 if bound is None else bound)
            queries = []
            many = rng.random() < 0.06 and len(pool) < 60 and longest < 20
            if many:
                add("sessions_of_many_queries")
            if len(pool) > 500:
                add("sessions_with_large_dictionaries")
            if longest >= 40:
                add("sessions_with_long_words")
            for _ in range(rng.randint(60, 160) if many else rng.randint(0, 7) if len(pool) < 500 else 2):
                q = clean(edited(rng, rng.choice(pool), al)) if rng.random() < 0.85 else clean(word(rng, al, 1, 8))
                if q:
                    queries.append(q)
            # an input that ends inside a line is probed separately (eof_probe), see known_findings.txt
            kind = rng.choice(["empty", "empty", "eof", "kill", "limit"])
            stdin = b"".join(q + b"\n" for q in queries)
            if kind == "empty":
                stdin += b"\n"
                if rng.random() < 0.3:
                    stdin += b"ignored\n"
            desc = "session %d: %s, bound %s, %s, queries %r, dictionary %r" % (step, ALGS[a], n, kind, queries[:5], sorted(possible[0])[:8])
            trace.append(desc)
            limit = None
            if kind == "limit":
                limit = rng.choice([0, 1, 50, rng.randint(1, 2000), rng.randint(1, 60000)])
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d,
                                 preexec_fn=limit_child(limit, rng.random() < 0.5))
            hung = False
            if kind == "kill":
                # wait for the answers, then kill it at the prompt
                out = b""
                try:
                    p.stdin.write(stdin)
                    p.stdin.flush()
                    timer = threading.Timer(90, p.kill)
                    timer.start()
                    while out.count(b"query> ") < len(queries) + 1:
                        b = os.read(p.stdout.fileno(), 65536)
                        if not b:
                            break
                        out += b
                    hung = not timer.is_alive()
                    timer.cancel()
                    died = p.poll()
                    p.kill()
                    p.wait()
                except BrokenPipeError:
                    died = p.wait()
                p.stdin.close() if not p.stdin.closed else None
                p.stdout.close()
                rc = 0 if died is None else died
            else:
                try:
                    out, _ = p.communicate(stdin, timeout=90)
                except subprocess.TimeoutExpired:
                    hung = True
                    p.kill()
                    out, _ = p.communicate()
                rc = p.returncode

            def bad(key, what):
                found.append((key, "%s; history: %s" % (what, " | ".join(trace)[:3000])))

            if hung:
                bad("hang", "the session does not end")
                break
            if rc != 0 and not (kind == "limit" and rc == -signal.SIGXFSZ):
                bad("exit", "the session ends with status %d" % rc)
                break
            got = chunks(out)
            if len(got) != len(queries) + 1:
                bad("prompts", "%d prompts for %d queries" % (len(got), len(queries)))
                break
            fits = [s for s in possible if all(g == answer(s, a, n, q) for g, q in zip(got, queries))]
            if not fits:
                for g, q in zip(got, queries):
                    e = answer(possible[0], a, n, q)
                    if g != e:
                        bad("answers", "query %r answered %r, expected %r" % (q, g[:6], e[:6]))
                        break
                else:
                    bad("answers", "no single dictionary explains the answers")
                break
            if got[-1]:
                bad("answers", "results without a query")
                break
            add("sessions")
            add("queries", len(queries))
            add("results", sum(map(len, got)))
            add("sessions_from_text" if file == "none" else "sessions_from_saved_file" if file == "ok" else "sessions_from_doubtful_file")
            if torn:
                add("sessions_after_torn_file")
            for g, q in zip(got, queries):
                if g:
                    distinct.add(hashlib.sha1(repr((sorted(fits[0]), a, n, q)).encode()).hexdigest()[:16])
            if kind == "kill":
                add("sessions_killed")
                if file == "ok":
                    sets = fits
            elif kind == "limit":
                add("sessions_ending_on_a_full_disk")
                # the file may now be whole, torn or what it was
                file, sets = ("doubt", possible) if os.path.exists(saved_path) else ("none", [])
            else:
                if not os.path.exists(saved_path):
                    bad("not-saved", "the session ended normally and left no saved dictionary")
                    break
                file, sets = "ok", fits
        sample = " | ".join(trace)[:400]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return counts, distinct, found, sample


def eof_probe(exe, work, tail):
    """An input that ends after a query, with or without a newline: does the session end?"""
    d = tempfile.mkdtemp(prefix="eof-", dir=work)
    try:
        open(os.path.join(d, "t.txt"), "wb").write(b"ab\nabc\nb\n")
        p = subprocess.Popen([exe, "--dictionary-path", os.path.join(d, "t.txt"), "--serialization-path", os.path.join(d, "s.pb"), "--standard", "--max-distance", "1"],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d, preexec_fn=limit_child(None, False))
        p.stdin.write(b"ab" + tail)
        p.stdin.close()
        timer = threading.Timer(60, p.kill)
        timer.start()
        out = b""
        while True:
            b = os.read(p.stdout.fileno(), 65536)
            out += b
            if not b or out.count(b"query> ") > 20:
                break
        hung = not timer.is_alive()
        timer.cancel()
        if out.count(b"query> ") > 20:
            p.kill()
            p.wait()
            return [("eof-loop" + ("" if tail else "-unterminated"), "the input ends after a query and the demo prompts and answers it again and again")]
        rc = p.wait()
        p.stdout.close()
        if hung or rc != 0:
            return [("eof-exit", "the input ends after a query: status %d" % rc)]
        got = chunks(out)
        want = answer({b"ab", b"abc", b"b"}, 0, 1, b"ab")
        if not got or got[0] != want or any(g not in ([], want) for g in got[1:]):
            return [("eof-answers", "answers before the end of the input: %r" % got)]
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ck):
    exe = ck.build_demo()
    cases = 2400 if ck.TIER == "quick" else 40000
    work = tempfile.mkdtemp(prefix="demo-work-", dir=ck.BUILD)
    total = {"counts": {}, "samples": [], "jobs": {}}
    distinct, found = set(), []
    try:
        for tail in (b"\n", b""):
            total["counts"]["sessions_cut_at_end_of_input"] = total["counts"].get("sessions_cut_at_end_of_input", 0) + 1
            for key, what in eof_probe(exe, work, tail):
                found.append(ck.Found(key, what, "demo.eof_probe(exe, work, %r)" % tail))
        with concurrent.futures.ProcessPoolExecutor(ck.CORES, mp_context=multiprocessing.get_context("fork")) as ex:
            for i, (c, dd, f, s) in enumerate(ex.map(history, [(exe, ck.SEED, i, work) for i in range(cases)], chunksize=4)):
                for k, v in c.items():
                    total["counts"][k] = total["counts"].get(k, 0) + v
                distinct |= dd
                for key, what in f:
                    found.append(ck.Found(key, what, "history %d of seed %d of the demo (demo.history)" % (i, ck.SEED)))
                if s and len(total["samples"]) < 4:
                    total["samples"].append({"job": "demo", "case": s})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    total["distinct"] = len(distinct)
    total["jobs"]["demo"] = {"cases": cases, "counts": dict(total["counts"])}
    return total, found
