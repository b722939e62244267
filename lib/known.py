"""The known-findings file: open findings are identified by their signature; fixed ones suppress nothing."""
import re


def load(path):
    out = []
    try:
        lines = open(path).read().splitlines()
    except OSError:
        return out
    for line in lines:
        m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)$", line)
        if m:
            out.append({"property": m[1], "sig": m[2], "what": m[3]})
    return out


def match(listed, prop, violation):
    sig = violation["sig"].replace(" ", "_")
    for k in listed:
        if k["property"] == prop and k["sig"] == sig:
            return k["sig"]
    return None


def open_for(listed, prop):
    return [k for k in listed if k["property"] == prop]
