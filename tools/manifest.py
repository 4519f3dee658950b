#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking of the real code: all schedules up to a deviation bound under a controlled scheduler with virtual time"
HIST = "bounded exhaustive exploration of the real code: all operation histories up to a depth under virtual time, each compared with a reference model"
ENUM = "explicit-state enumeration of a bounded input and configuration space on the real code, each case compared with a reference model"
CRASH = "exhaustive crash-state and fault enumeration on the real code: all file operations recorded, every crash point with every loss of unsynced data, every failing operation, all schedules of concurrent writers"
FAULT = "exhaustive fault enumeration on the real code: every sequence of misbehaviours of the alphabet up to a length at every exchange, each outcome judged"
CHECKS = {
    "P01": (HIST, "histories of queries, upstream outcomes and clock steps against a reference cache"),
    "P02": (ENUM, "all ordered pairs of query variants x backends x restart"),
    "P03": (HIST, "all operation sequences up to a depth against a reference LRU"),
    "P04": (SCHED, "concurrent clients of one cache"),
    "P05": (CRASH, "every crash point, torn or lost write and failing operation of every save, the clean-up, and two concurrent writers"),
    "P06": (HIST, "all histories with restarts against a cache that is not restarted; every truncation and damage of the file"),
    "P07": (SCHED, "concurrent callers of the de-duplicating element"),
    "P08": (SCHED, "concurrent queries over one connection, all server and dial behaviours of the alphabet"),
    "P09": (SCHED, "concurrent callers of every group type with enumerated member outcomes and reset timers"),
    "P10": (SCHED, "selection order of the group types, all member outcomes, schedules and instants"),
    "P11": (SCHED, "racing group and address probing, all member delays, outcomes and schedules"),
    "P12": (ENUM, "all routes and route lists of a bounded alphabet x all queries of the input alphabet"),
    "P13": (ENUM, "all ordered rule lists of a bounded alphabet x all names and types"),
    "P14": (ENUM, "all ordered network lists of a bounded alphabet x boundary addresses, clients and responses"),
    "P15": (SCHED, "queries against concurrent reloads; all outcomes of the source over start, reloads and restart"),
    "P16": (SCHED, "concurrent callers of the rate limiter around window boundaries"),
    "P17": (ENUM, "all chains of elements x all leaves x all queries, with and without overwriting earlier messages"),
    "P18": (ENUM, "all listener types x all query shapes x all resolution outcomes over loopback, plus malformed input"),
    "P19": (ENUM, "all transports x advertised sizes x response sizes stepping across each limit, judged on the bytes received"),
    "P20": (ENUM, "all transports x networks x proxies x forwarding headers, judged on what reaches the resolver"),
    "P21": (ENUM, "all modifiers x all responses of up to two or three answer records against a reference"),
    "P22": (ENUM, "all operations x all queries with up to three options x all clients, judged on the encoded query"),
    "P23": (ENUM, "all prefixes x all pairs of upstream outcomes against a bit-wise reference of the embedding"),
    "P24": (ENUM, "all responses put together from up to two authentic or forged sets with all small combinations of proofs, and all ways to answer up to two of the validator's lookups, over a tree of signed zones"),
    "P25": (HIST, "all names and types of a tree of signed zones x all failing lookups x query orders with keys expiring, against a reference of the zone contents"),
    "P26": (ENUM, "all dependency graphs over the element kinds run by the real program, compared with a model of the way each query takes"),
    "P27": (SCHED, "all sequences of namespace events and listener failures x schedules of supervisor and watcher, with real directory notifications"),
    "P28": (SCHED, "concurrent queries over one and two interpreters; all sequences of script outcomes; every reachable global"),
    "P29": (FAULT, "all sequences of two server behaviours before a good exchange x all client transports over loopback"),
    "P30": (FAULT, "all assignments of faults to the commands of a scripted store over short histories"),
    "P31": (ENUM, "the program is run with all combinations of transport, authority, name, local address and peer certificate, as client and as server; all histories of three kinds of servers replacing one another"),
    "P32": (ENUM, "all configurations of up to two or three records or templates x all queries in sequence against a reference"),
    "P33": (FAULT, "all queries x outcomes x settings; all sequences with restarts and the log server going away and coming back"),
    "P34": (ENUM, "all databases of nested networks x all rule lists x all edge addresses, before, during and after a refresh"),
    "P35": (FAULT, "all socket kinds and request sequences against the real server, all misbehaviours of a server against the real client, all files in the way"),
}
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
NA = {}
checks = []
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "bash tools/check.sh " + p,
                       "thorough_cmd": "VERIF_TIER=thorough bash tools/check.sh " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t,
                       "level": "fault_enumeration" if t is FAULT else "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks,
     "hooks": {"guard": "none", "enable": "none: instrumentation is generated from the working tree and applied with go build -overlay", "source_commits": []},
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "Checks build the drivers from /repo's working tree. Fixed and open findings are in known-findings.jsonl."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
