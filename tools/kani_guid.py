"""Kani: the contracts of the functions converting between the bytes and the digits of an identifier."""
import os
import re
import shutil
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SRC = "/repo/ifc_rs/src/id/ifc_uuid.rs"
HARNESSES = {"encode": "encode_base16_to_base64: 22 digits, each as buildingSMART defines it",
             "decode": "decode_base16_to_base64: 16 bytes, no panic",
             "decode_digits": "decode_base16_to_base64: the bytes whose digits they are"}


def source():
    """the file's constants and free functions; dropped: use, the type, its impl blocks, tests"""
    out, cur, prev = [], None, ""
    for l in open(SRC).read().split("\n"):
        if cur is None and re.match(r"(pub(\([\w: ]+\))? )?(const fn|unsafe fn|fn|const|static) ", l) and "#[test]" not in prev:
            cur = []
            if l.rstrip().endswith((";", "}")) and not l.rstrip().endswith("{"):
                out.append(l)
                cur = None
                continue
        if cur is not None:
            cur.append(l)
            if l in ("}", "];", "};"):
                out.append("\n".join(cur))
                cur = None
        if l.strip():
            prev = l
    return "\n".join(out) + "\n"


def kani(only=None):
    def prover(res, out_dir, left):
        res.backends.setdefault("kani/cbmc", 0)
        d = os.path.join(ROOT, ".build", "kani_" + os.path.basename(out_dir))
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        shutil.copy(os.path.join(ROOT, "kani", "guid.rs"), os.path.join(d, "src", "lib.rs"))
        open(os.path.join(d, "src", "source.rs"), "w").write(source())
        open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "guid"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n')
        want = [h for h in HARNESSES if only is None or h in only]
        cmd = ["cargo", "kani", "-Z", "function-contracts", "-j", "4", "--output-format", "terse"]
        for h in want + ["canary"]:
            cmd += ["--harness", "harness::" + h]
        cmd += ["--exact"]
        env = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
        env.pop("RUSTUP_TOOLCHAIN", None)
        env.pop("CARGO_TARGET_DIR", None)
        try:
            p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=max(30, left()))
            o = p.stdout
        except subprocess.TimeoutExpired as e:
            o = "timeout " + str(e.stdout or "")[-500:]
        open(os.path.join(out_dir, "kani.out"), "w").write(o)
        if not res.cmd:
            res.cmd = "cd %s && %s" % (d, " ".join(cmd))
        # the result blocks of the harnesses
        who, blocks = {}, {}
        for m in re.finditer(r"Thread (\d+): Checking harness harness::(\w+)", o):
            who[m.group(1)] = m.group(2)
            blocks[m.group(2)] = ""
        who, pos = {}, None
        for l in o.split("\n"):
            m = re.match(r"Thread (\d+): Checking harness harness::(\w+)", l)
            if m:
                who[m.group(1)] = m.group(2)
                continue
            m = re.match(r"Thread (\d+):\s*$", l)
            if m:
                pos = who.get(m.group(1))
            elif pos is not None:
                blocks[pos] += l + "\n"
        for blk in blocks.values():
            for m in re.finditer(r"Verification Time: ([\d.]+)s", blk):
                res.solver += float(m.group(1))
        fails = set(re.findall(r"Verification failed for - harness::(\w+)", o))
        done = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", o)
        for h in want:
            name = "IfcGloballyUniqueId/kani::%s (%s)" % (h, HARNESSES[h])
            if not done:
                why = re.search(r"error[^\n]*(\n[^\n]*)?", o)
                res.undecided.append((name, "not accepted as input by Kani: " + (why.group(0) if why else o[-300:])))
            elif h not in fails:
                res.discharged += 1
                res.backends["kani/cbmc"] += 1
            else:
                o1 = blocks.get(h, "")
                bad = "\n".join(re.findall(r"Failed Checks: [^\n]*\n[^\n]*", o1))
                if not bad or re.search(r"Failed Checks: (unwinding|recursion)", o1) or "unsupported" in bad.lower():
                    res.undecided.append((name, (bad or o1)[:400]))
                else:
                    res.failed.append((name, bad[:1500]))
        if done:
            res.functions |= {"encode_base16_to_base64", "decode_base16_to_base64", "combine_first_base64_bytes", "combine_base64_bytes", "get_base16_bytes", "get_base64_bit", "combine_base16_bytes"}
            res.canaries.append({"obligation": "kani canary: an assertion which can fail", "ok": "canary" in fails, "outcome": "rejected" if "canary" in fails else "ACCEPTED"})

    return prover
