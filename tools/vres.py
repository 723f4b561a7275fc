"""Maps Verus's messages to the obligations (functions) they belong to."""
import re


def functions(text):
    """line -> name of the enclosing function"""
    out = []
    cur, impl, unit = None, "", ""
    for l in text.split("\n"):
        m = re.match(r"// ---- unit (\w+)", l)
        if m:
            unit = m.group(1)
            impl = ""
        m = re.match(r"impl(?:<[^{]*>)? (?:(\w+) for )?(\w+)(?:<.*>)? \{", l)
        if m:
            impl = m.group(2) + "::"
        if l == "}":
            impl = impl if cur and l != "}" else ""
        m = re.match(r"\s*(?:pub )?(?:proof|spec|exec)? ?(?:closed |open )?fn (\w+)", l) or re.match(r"\s*(?:uninterp )?(?:spec|proof) fn (\w+)", l)
        if m:
            cur = (impl if l.startswith(" ") else "") + m.group(1)
        out.append((unit, cur))
    return out


def errors(text, outp):
    fn = functions(text)
    res = []
    for blk in re.split(r"(?m)^(?=error|warning|note)", outp):
        if not blk.startswith("error"):
            continue
        head = blk.split("\n", 1)[0]
        if "aborting" in head:
            continue
        locs = [int(x) for x in re.findall(r"--> [^\n]*?:(\d+):\d+", blk)]
        locs += []
        marks = [int(x) for x in re.findall(r"(?m)^\s*(\d+) [|] ", blk)]
        # the failing site: prefer the location inside a proof body
        fs = [fn[x - 1] for x in locs + marks if 0 < x <= len(fn)]
        res.append((head, fs, blk))
    return res
