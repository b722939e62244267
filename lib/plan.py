"""What is run for each property."""
import re

RULE = (
    "Each case is one monitored execution of the real crate, generated from VERIF_SEED, the process's shard and the round. "
    "Its events (calls, results, hooks, handlers, notifications) are logged and judged by the trace specification. "
    "Two cases count as one when the order of all of their events is the same (hash of the log); "
    "a case is trivial when nothing relevant happened in it."
)
ASSUMPTIONS = [
    "tokio, futures and the standard library behave as documented",
    "only executions which were generated and scheduled are judged",
]


def assumptions(prop):
    return []


def least(prop):
    return 20


REMOTE = {"C22", "C23", "C24", "C25"}
NO_LOCAL = {"C23", "C24", "C25", "C30"}


def parts(prop, tier):
    quick = tier != "thorough"
    out = []
    if prop not in NO_LOCAL:
        out.append({"kind": "loc", "shards": 8, "seconds": 22 if quick else 600, "what": "deterministic and threaded executions of the local harness"})
    if prop == "C30":
        out.append({"kind": "mac", "path": "debug/vmac", "shards": 7, "seconds": 22 if quick else 600, "what": "generated code compared with the methods it stands for and with hand-written code"})
    return out


def sanitizer_reports(text):
    out = []
    for m in re.finditer(r"(WARNING: ThreadSanitizer: [^\n(]*|ERROR: AddressSanitizer: \S+|ERROR: LeakSanitizer: [^\n]*|error: Undefined Behavior: [^\n]*|error: memory leaked[^\n]*)", text):
        sig = re.sub(r"\s+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", m[1]).strip())[:60]
        out.append({"sig": sig, "detail": text[m.start():m.start() + 1500]})
    return out[:5]


def run_part(c, prop, part, seed, m, deadline):
    if part["kind"] == "loc":
        c.build("loc", "loc")
        c.run_vloc(prop, part, seed, m, deadline)
    elif part["kind"] == "mac":
        try:
            c.build("mac", "loc")
        except c.Trouble as e:
            # The crate only uses forms which are supported: the code generated for them must compile, if kameo itself does
            if "could not compile `vmac`" not in str(e):
                raise
            c.build("mac", "loc", ["-p", "kameo"])
            m.violations.append({"props": [prop], "sig": "generated-code-does-not-compile", "family": "mac", "case": "0",
                                 "detail": str(e)[-1500:], "history": str(e).splitlines()[-200:], "cmd": "cargo build in mac/"})
            return
        c.run_vloc(prop, part, seed, m, deadline)
    else:
        raise c.Trouble(f"unknown part {part['kind']}")
