"""try.py HARNESS [-Dx=y ...] [symx args]: build and run one harness entry by hand, with 8 tokens."""
import sys, subprocess, time, os, json; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    vlib.ensure_base(native=False)
    defs = tuple(a for a in sys.argv[2:] if a.startswith("-D"))
    args = [a for a in sys.argv[2:] if not a.startswith("-D")]
    bc = vlib.harness_bc(sys.argv[1], defs)
except RuntimeError as e:
    print(str(e)[:300], str(e)[-2500:]); sys.exit(2)
os.makedirs("/tmp/t", exist_ok=True)
if args:
    out = "/tmp/t/out.%d.json" % os.getpid()
    open(out, "w").close()
    r, w = os.pipe(); os.write(w, b"t" * (int(os.environ.get("TOK", "8")) - 1))
    subprocess.call([vlib.ENGINE, bc, "--out", out, "--tokens", "%d,%d" % (r, w), "-v"] + args, pass_fds=(r, w))
    n = {}; S = {}; cov = set(); fns = 0
    for l in open(out):
        d = json.loads(l); t = d["type"]; n[t] = n.get(t, 0) + 1
        if t == "summary":
            for k, v in d.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool): S[k] = max(S.get(k, 0), v) if k in ("wall", "rss_mb", "max_depth", "solver_max_s", "case") else S.get(k, 0) + v
            cov |= set(d["covers"])
        elif t == "trace":
            if os.environ.get("TRACES") and n[t] <= int(os.environ["TRACES"]): print(l[:900].rstrip())
        elif n[t] <= int(os.environ.get("SHOW", "6")): print(l[:1100].rstrip())
    print(n); print({k: (round(v, 2)) for k, v in S.items() if v}); print(sorted(cov))
    os.unlink(out)
