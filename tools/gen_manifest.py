#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODEL = "runtime monitoring: random request histories against the real server under a virtual clock, online reference-model oracle"
NOTE = ("Held on every execution explored, nothing more. Trusts the Go toolchain and standard library (net/http, crypto, testing/synctest clock) "
        "and the reference model in harness/world.go. ")

FUNC = ("Held on every execution explored, nothing more. Trusts the Go toolchain, its standard library and the oracle in the harness. ")

CLAIMS = {
    "C03": (MODEL, NOTE + "Clients are few per history; credentials are near misses, swaps, misplaced or doubled."),
    "C04": (MODEL, NOTE + "Attribution is observed through introspection by the issuing client."),
    "C05": (MODEL, NOTE + "Instants exactly at the expiry are not judged; concurrent redemption is decided by C14."),
    "C06": (MODEL, NOTE + "Families of up to some ten tokens and chains of several refreshes are observed."),
    "C07": (MODEL, NOTE + "Concurrent refreshes are decided by C14."),
    "C08": (MODEL, NOTE + "Scope names come from a pool of near-equal names."),
    "C09": (MODEL, NOTE + "Instants exactly at the expiry are not judged."),
    "C10": (MODEL, NOTE + "Revocation of a client's own authorization code is not specified and not judged."),
    "C11": (MODEL, NOTE + "For dead tokens of other clients a refusal and an inactive answer are both accepted."),
    "C23": (MODEL, NOTE + "Time is virtual; instants exactly at the expiry are not judged."),
    "C01": ("runtime monitoring: random, tampered and foreign token strings against an independent decoder and HMAC oracle",
            FUNC + "Forgeries are near misses of genuine tokens, not attacks on HMAC itself."),
    "C02": ("runtime monitoring: instrumented random source recording every drawn byte, injected short reads and failures, race detector",
            FUNC + "The source is exchanged behind crypto/rand.Reader. The real source is only checked for repetition."),
    "C12": (MODEL + "; plus status, header and body rules over every answer and over hostile requests on the wire", NOTE + "Judged are the rules of RFC 6749, 6750, 7009 and 7662 that the statement lists."),
    "C13": (MODEL + "; plus parsing of every redirect URL and fuzzed redirect writers", NOTE + "Redirect URIs that the parser refuses are not judged here."),
    "C14": ("runtime monitoring: race detector under concurrent load, recorded histories of each token family checked for linearizability (porcupine), lock and answer monitors",
            FUNC + "Only the schedules that occurred are judged, with delays injected at reads, writes and lock handovers."),
    "C15": ("runtime monitoring: hostile requests, failing bodies and writers, over the handler and over the wire, with panic, goroutine, read-size and latency monitors",
            FUNC + "Memory is judged by bytes read and state retained, not by the allocator."),
    "C16": ("runtime monitoring: random requests built, sent through the real HTTP wire format, parsed and compared; URL inspected for secrets", FUNC),
    "C17": ("runtime monitoring: random requests with known intent against an independent oracle of what each parser must return", FUNC
            + "Unusable authorization headers on token requests may be rejected or ignored."),
    "C18": ("runtime monitoring: every writer run with random values against a recording response writer and reparsed by an independent reader", FUNC),
    "C19": ("runtime monitoring: scripted transport counting requests, bytes and closes, random and broken answers, race detector", FUNC
            + "Answers that only name no expected field are not judged; redirects of the http.Client are not followed in the workload."),
    "C20": ("runtime monitoring: random and small exhaustive scopes, texts and JSON documents against an independent set model", FUNC),
    "C21": ("runtime monitoring: random protected requests against an independent oracle, end to end over the wire with a reference header reader", FUNC
            + "Control characters in challenges are only judged for injection."),
    "C22": ("runtime monitoring: the suite run in child processes against an independent server, conforming and with single deviations; verdict by exit status, crashes and recorded exchanges",
            FUNC + "Deviations that the suite of the pinned commit does not notice are listed in DESIGN.md and not judged."),
    "C24": ("runtime monitoring: real loopback connections with faults injected at both ends; recorded bytes, executions and answers compared with the server's state, race detector",
            FUNC + "Only the faults and schedules that occurred are judged."),
    "C25": ("runtime monitoring: every instruction of a rejection observed by single-stepping a child process, counts compared between signatures that are right in different bytes",
            FUNC + "Instructions of the Go runtime (memory, scheduling, maps) are not counted; caches and the timing of single instructions are out of reach."),
}

NOT_APPLICABLE = []

PENDING = "No check yet: it is being built."


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    na = list(NOT_APPLICABLE)
    for p in props:
        if p not in CLAIMS and p not in [n["property"] for n in na]:
            na.append({"property": p, "reason": PENDING})
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {"property": p, "quick_cmd": "./check.py %s --tier quick" % p, "thorough_cmd": "./check.py %s --tier thorough" % p,
             "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": n}
            for p, (t, n) in sorted(CLAIMS.items())
        ],
        "not_applicable": na,
        "notes": "No hooks are committed to /repo and none are needed: the harness uses the exported API and puts a proxy in front of crypto/rand.Reader. Exit codes of checks: 0 held, 1 violated, 2 undecided.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
