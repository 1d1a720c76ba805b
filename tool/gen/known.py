#!/usr/bin/env python3
"""Writes known_findings.json: the fix commits of /repo and the findings left."""
import json, os, subprocess
PROP = {
 "signed string lengths": "C02", "allocate what a string length": "C02", "plus sign": "C02", "bound the nesting depth": "C02",
 "nil pointers in lists": "C03", "do not fit their destination": "C03", "empty dictionary key": "C02", "old tail of a slice": "C03",
 "interface that holds no pointer": "C03", "conflicting fields while": "C03", "error for a nil interface": "C01", "leave out dictionary keys": "C01",
 "RawMessage that is not addressable": "C01", "MarshalBencoding on a nil": "C01", "nesting of each value anew": "C01",
 "Has is false": "C09", "zero bytes for the first": "C10", "shorter than their fields": "C11", "prefix cannot claim": "C11",
 "malformed peer entries": "C13", "empty peer list": "C13", "peer ids that are not 20": "C12", "ports that do not fit a compact": "C13",
 "blocks that lie outside": "C22", "locks in one order": "C19", "resetting a failed or complete": "C20", "count a piece as downloaded": "C23",
 "refusing a connection left": "C27",
 "close connections that are refused": "C27",
 "lock the server to forget a piece in flight": "C25",
 "download queue that has ended": "C29",
 "order pieces by their own rarity": "C31",
 "claim pieces the torrent does not have": "C24",
 "lock the bitfields": "C35",
 "state the interest before queueing": "C35",
 "sent a bad piece was not blocked": "C28",
 "take only blocks that were requested": "C28",
 "note a choke before": "C30",
 "announce every complete piece": "C35",
 "remaining blocks of an attempt": "C30",
 "does not read can hold up": "C24",
 "interest and choking in one step": "C26",
 "a cancel swallowed": "C26",
 "leave a piece that timed out": "C25",
 "a freed piece goes to the peer that waited": "C43",
 "an accept that fails": "C44",
 "loading again": "C18",
 "dial IPv6 peers": "C34",
 "never dialed again": "C34",
 "left of multi file": "C33",
 "query of announce URLs": "C33",
 "tracker that does not answer held": "C33",
 "response without peers made": "C33",
 "tiers are empty": "C32",
 "lock the tracker tiers": "C32",
 "interval that is no positive": "C33",
 "one failed announce": "C33",
 "stop once, without": "C29",
 "wrote its address unusually": "C36",
 "ports that do not exist": "C36",
 "one IPv6 peer made": "C36",
 "came back with another id": "C36",
 "stop peers that are in their handshake": "C29",
 "leave a piece that failed in any way": "C24",
 "serve a finished torrent from its target although": "C39",
 "a list of peers is not compact": "C13",
 "two connections that peers open to each other": "C38",
 "second connection replaces the first": "C28",
 "a field with a tag stands": "C01",
 "elements of an array that the list": "C03",
 "magnet: a malformed parameter": "C14",
 "close the files of an assembly": "C41",
 "temporary files a killed process": "C41",
 "what lay behind the end of a slice": "C03",
 "lead back to themselves": "C01",
 "files that are no complete piece": "C17", "flush files before": "C17", "unsafe paths or contradictory": "C21", "name temporary files": "C21",
}
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "findings.json")
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    ids = None
    try:
        import props_fix
        ids = props_fix.PROP
    except ImportError:
        ids = {}
    p = next((v for k, v in {**PROP, **ids}.items() if k in s), None)
    if p is None:
        print("no property for:", s); p = "?"
    out.append({"status": "fixed", "property": p, "line": "fixed: property=%s %s %s" % (p, h, s[5:])})
if os.path.exists(extra):
    out += json.load(open(extra))
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
json.dump(out, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
