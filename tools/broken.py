"""broken.py DIR LOG: names the schemas whose generated code did not compile, in DIR/skip and DIR/broken"""
import re, sys

d, log = sys.argv[1:]
skip = {l.split()[0] for l in open(f"{d}/skip") if l.strip()}
bad = {}
for l in open(log, errors="replace"):
    m = re.match(r"(?:\./)?(c\d+/src/(?:s(\d+)|lib)\.rs):(\d+):\d+: error(.*)", l)
    if not m:
        continue
    i = m[2]
    if i is None:
        n = re.search(r"[< ]s(\d+)::", open(f"{d}/{m[1]}").read().splitlines()[int(m[3]) - 1])
        i = n and n[1]
    if i is not None and i not in skip:
        bad.setdefault(i, m[4].strip(": ")[:300])
if not bad:
    sys.stderr.write("harness error: the generated workspace does not build\n" + "".join(open(log, errors="replace").readlines()[-60:]))
    sys.exit(1)
for f in ("skip", "broken"):
    with open(f"{d}/{f}", "a") as o:
        for i, e in sorted(bad.items(), key=lambda x: int(x[0])):
            o.write(f"{i} compile {e}\n")
