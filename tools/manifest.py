#!/usr/bin/env python3
# Generates /verif/MANIFEST.json (run by hand; the output is committed).
import json
TECH={}
def t(ids,technique,level,note):
    for i in ids.split(): TECH[i]=(technique,level,note)
SEQ="Exhaustive within the stated bounds on the real adapter (no separate model to drift): every case or history is executed through the gRPC handler or event handlers and judged by an oracle written from the property. Trusts the oracle, the stand-in identity provider/Kubernetes API, and that behaviour beyond the bounds is like behaviour inside them."
t("C01 C02 C03 C04","explicit-state exploration of policy event histories on the real adapter, state-deduplicated BFS with a reference model","model_checking",SEQ)
t("C07 C08","exhaustive enumeration of token, rule and header combinations through the real request handler","exploration",SEQ)
t("C06","exhaustive enumeration of token and header combinations through the real request handler, and explicit-state exploration of histories of presented tokens, key set changes and time","exploration",SEQ)
t("C09 C10 C12","explicit-state exploration of browser/identity-provider histories on the real adapter, plus exhaustive products of callback, cookie and refresh inputs","model_checking",SEQ)
t("C11","explicit-state exploration of browser/identity-provider histories on the real adapter, and exhaustive preemption-bounded schedule exploration of logouts beside requests and refreshes","model_checking",SEQ)
t("C14","explicit-state exploration of Kubernetes secret API outcome histories across several adapter instances, and exhaustive schedule exploration of concurrent first uses","model_checking",SEQ)
t("C15","explicit-state exploration of key set publication, failure and lookup histories, and exhaustive schedule exploration of concurrent lookups","model_checking",SEQ)
t("C16","explicit-state exploration of discovery answer histories, and exhaustive schedule exploration of concurrent first requests","model_checking",SEQ)
t("C17","exhaustive enumeration of fault combinations at every upstream call of every request kind","fault_enumeration",SEQ)
t("C18","explicit-state exploration of controller queue histories (schedules of the real controller against its queue and indexer, lookup failures) and of API-server histories under the real initializer","model_checking",SEQ)
t("C19","exhaustive enumeration of request message shapes and field combinations, judged by path-equivalence and protection oracles","exploration",SEQ)
t("C20","exhaustive enumeration of client secret configurations, Kubernetes faults and grants, judged on the token requests sent","exploration",SEQ)
t("C21","exhaustive enumeration of option values and consecutive settings","exploration",SEQ)
t("C22","exhaustive enumeration of every field path of every custom resource type, each container nil, empty or filled","exploration",SEQ)
t("C23","explicit-state exploration of put/delete histories of the real index against a map","model_checking",SEQ)
t("C05","exhaustive schedule exploration (stateless, preemption-bounded) of the real event handlers and request handler with a race detector in every schedule, judged by the object states existing during each request","model_checking",SEQ+" Thread switches happen at lock, channel, atomic, upstream and Kubernetes operations; unsynchronised accesses between them are found by the race detector.")
t("C13","explicit-state exploration of browser histories, and exhaustive schedule exploration (stateless, preemption-bounded) of concurrent visits, logins, session requests, refreshes and logouts on the real request handler with a race detector in every schedule","model_checking",SEQ+" Thread switches happen at lock, channel, atomic, upstream and Kubernetes operations; unsynchronised accesses between them are found by the race detector.")
t("C24","exhaustive schedule exploration (stateless, preemption-bounded) of pairs and triples of real requests and events of which one upstream call never answers until everything else is done or blocked","model_checking",SEQ+" Thread switches happen at lock, channel, atomic, upstream and Kubernetes operations.")
t("C25","explicit-state exploration of histories and exhaustive input products on the real request handler with a monitor over every answer, upstream request and log entry","model_checking",SEQ+" A secret is recognised in plain, URL, JSON, hex and base64 form; a transformation outside these (encryption, splitting) is not seen.")
NA={}
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m=dict(version=1,setup_cmd="./run.sh setup",checks=[],not_applicable=[])
for i in ids:
    if i in TECH:
        te,le,no=TECH[i]
        m["checks"].append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",technique=te,level=le,level_note=no))
    else:
        m["not_applicable"].append(dict(property=i,reason=NA.get(i,"check not built yet")))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]),"checks")
