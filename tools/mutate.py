#!/usr/bin/env python3
"""Development tool: small mechanical changes of the sources, each run through the checks of the properties anchored
in the file until one reports a violation.   mutate.py OUT.jsonl [--file SUBSTR] [--max N per file] [--jobs J] [--seed S]
Works on copies under /tmp; the models themselves are not re-checked (they do not depend on the code)."""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, threading
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
MAP = [
    ("node/openssl/node_openssl_error", "C31"), ("node/openssl/node_openssl_hash", "C29"), ("node/node_stun/node_stun_error", "C31"), ("node/", "C35"),
    ("stun/stun_client_udp.cpp", "C02 C01 C04 C05 C03 C08 C07 C06"), ("stun/stun_client_udp.hpp", "C07 C01 C02"), ("stun/details/stun_client_udp_rto", "C06"),
    ("stun/stun_client_udp_settings.hpp", "C02 C06 C05 C03 C07"), ("stun/stun_client_udp_handle.hpp", "C30 C01"),
    ("stun/stun_message", "C11 C12 C14 C15 C18 C04 C13"), ("stun/stun_attribute.cpp", "C12 C13 C16 C11 C18"), ("stun/stun_attribute_set", "C13 C12 C10 C15 C09"), ("stun/stun_attribute", "C12 C13 C32 C09 C10"),
    ("stun/stun_header", "C13 C10"), ("stun/stun_class", "C17"), ("stun/stun_method", "C17"), ("stun/details/stun_method", "C17 C12"), ("stun/stun_server", "C09 C10"), ("stun/stun_address", "C16"),
    ("stun/details/stun_fingerprint", "C15"), ("stun/stun_error", "C31 C11"), ("stun/stun_password", "C14 C09 C30"), ("stun/stun_transaction_id", "C30 C32 C07"), ("stun/details/stun_attr", "C12 C13"), ("stun/details/stun_const", "C11 C13 C15"),
    ("rtp/rtp_packet", "C19 C18"), ("rtp/rtp_error", "C31 C19"), ("rtp/rtp_payload", "C19 C32"), ("rtp/", "C32 C19"), ("ice/candidate/ice_candidate_sdp", "C22"),
    ("ice/candidate/ice_candidate_preference", "C24"), ("ice/candidate/ice_candidate_priority", "C23 C24"), ("ice/candidate/ice_candidate_error", "C31 C23"), ("ice/candidate", "C23 C24 C22 C30"), ("ice/", "C33 C23"),
    ("net/net_fqdn", "C25"), ("net/net_port", "C26"), ("net/net_error", "C31"), ("net/ip/ip_address_hash", "C30"), ("net/ip", "C26 C30 C16"), ("net/", "C30 C32"),
    ("util/util_intrusive_list", "C27"), ("util/util_token_stream", "C28 C22 C31"), ("util/util_string_view", "C28 C22"), ("util/util_hash", "C30"), ("util/util_error_code", "C31"),
    ("util/util_binary_view", "C11 C12 C19 C13 C29"), ("util/util_endian", "C13 C12 C19"), ("util/util_reduce", "C11 C12"), ("util/util_t", "C32 C30"), ("crypto/crypto_hmac", "C29 C14"), ("crypto/crypto_hash", "C29"), ("crypto/openssl/openssl_hash", "C29"), ("crypto/openssl/openssl_error", "C31"),
    ("clock/clock_timepoint", "C20 C21 C08"), ("clock/clock_std", "C21"), ("abnf/", "C33 C23"), ("stat/", "C32 C18"), ("precis/", "C30 C32"),
]
OPS = [(r"(?<![<>=!\-+&|])<(?![<=>\w:])", ["<="]), (r"<=(?!>)", ["<"]), (r"(?<![<>\-=])>(?![>=])(?= )", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&(?! *(\w+\)|\w+,|\w+\)?\s*[{>]))(?<= &&)", ["||"]), (r"(?<= )\|\|(?= )", ["&&"]),
       (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]), (r"(?<= )%(?= )", ["/"]), (r"(?<= )\^(?= )", ["|"]), (r"(?<= )\|(?= )", ["^", "&"]), (r"(?<= )&(?= )", ["|"]), (r"<<", [">>"]), (r">>(?= )", ["<<"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])!(?=[\w(])", [""]), (r"(?<![\w.\"'])(0x[0-9A-Fa-f]+|\d+)(?:u|ul)?(?![\w\"'.])", ["+1", "-1"]), (r"\+\+", ["--"]), (r"\+=", ["-="])]


def props(rel):
    for k, v in MAP:
        if rel.startswith(k):
            return v.split()
    return []


def mutants(path, rel):
    lines = open(path).read().split("\n")
    out = []
    for n, l in enumerate(lines):
        s = l.strip()
        code = l.split("//")[0]
        if not s or s.startswith(("//", "#", "*", "template", "using", "static_assert", "namespace")) or "0x" in s and s.count("0x") > 3:
            continue
        if "m_stat." in s and rel.startswith("stun/stun_client"):
            continue  # the client's own statistics cannot be read
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                for r in reps:
                    t = m.group(0)
                    if r in ("+1", "-1"):
                        if t == "0" and r == "-1":
                            continue
                        r = f"({t}{r})" if "array" not in code else str(int(m.group(1), 0) + int(r))
                    out.append((n, l, l[:m.start()] + r + l[m.end():]))
        if s.endswith(";") and not re.match(r"(return|break|continue|const|auto|using|static|}|\w[\w:<>&, ]* \w+( = .*)?;|\w[\w:<>&, ]* \w+\{?\}?;|.*\) (const )?(noexcept )?= default|.*= default|.*= delete|friend|virtual|explicit|static)", s) and "(" in s and lines[n - 1].strip()[-1:] in ";{}:/":
            out.append((n, l, re.match(r"\s*", l).group(0) + ";"))
        if s in ("break;", "continue;"):
            out.append((n, l, l.replace(s, ";")))
    return out


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--file", default="")
    a.add_argument("--max", type=int, default=10)
    a.add_argument("--jobs", type=int, default=3)
    a.add_argument("--seed", default="1")
    a.add_argument("--lines", default="")
    o = a.parse_args()
    todo = []
    for d, f in [(d, f) for top in ("src", "node") for d, _, fs in sorted(os.walk("/repo/" + top)) for f in sorted(fs)]:
        if True:
            rel = os.path.relpath(os.path.join(d, f), "/repo")
            rel = rel[4:] if rel.startswith("src/") else rel
            if not f.endswith((".cpp", ".hpp")) or o.file not in rel or not props(rel):
                continue
            ms = mutants(os.path.join(d, f), rel)
            random.Random(o.seed + rel).shuffle(ms)
            todo += [(rel, *m) for m in ms[:o.max]]
    random.Random(o.seed).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()
    res = open(o.out, "a")

    def one(job):
        rel, n, old, new = job
        t = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        try:
            shutil.copytree("/repo/src", t + "/src")
            shutil.copytree("/repo/node", t + "/node")
            p = os.path.join(t, rel if rel.startswith("node/") else "src/" + rel)
            ls = open(p).read().split("\n")
            ls[n] = new
            open(p, "w").write("\n".join(ls))
            tu = p if p.endswith(".cpp") else None
            if tu:
                c = subprocess.run(["g++", "-std=gnu++20", "-Wall", "-Wno-unused-variable", "-fsyntax-only", "-include", ROOT + "/harness/prelude.hpp", "-I" + ROOT + "/harness/craftpp", "-I" + ROOT + "/harness/craftnapi", "-I" + t, "-I" + t + "/src", p], capture_output=True)
                if c.returncode:
                    return "invalid", ""
            killed = []
            for c in props(rel):
                r = subprocess.run([sys.executable, ROOT + "/bin/check", c], capture_output=True, text=True, errors="replace", cwd=ROOT,
                                   env={**os.environ, "VF_REPO": t, "VF_SKIPMODEL": "1", "VERIF_TIER": "quick", "VF_NPROC": "3", "VF_EMITCACHE": "/tmp/emitcache", "VF_OBJCACHE": "/tmp/objcache"})
                if r.returncode == 1:
                    return "killed", c
                if r.returncode != 0:
                    return ("invalid" if "does not compile" in r.stdout + r.stderr or "link of" in r.stdout + r.stderr else "broken:" + (r.stdout + r.stderr)[-600:]), c
            return "SURVIVED", ""
        finally:
            shutil.rmtree(t, ignore_errors=True)

    def loop():
        while True:
            with lock:
                if not todo:
                    return
                j = todo.pop()
            st, c = one(j)
            with lock:
                rec = {"file": j[0], "line": j[1] + 1, "old": j[2].strip(), "new": j[3].strip(), "st": st, "by": c}
                res.write(json.dumps(rec) + "\n")
                res.flush()
                if not st.startswith(("killed", "invalid")):
                    print(json.dumps(rec), flush=True)

    th = [threading.Thread(target=loop) for _ in range(o.jobs)]
    [x.start() for x in th]
    [x.join() for x in th]


if __name__ == "__main__":
    main()
