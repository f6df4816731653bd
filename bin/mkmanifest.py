"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRV = ("TLA+ model RpcServer + observer RpcMonitor checked by TLC; TLC-generated schedules replayed on the real "
       "server; recorded traces judged by the observer in TLC")
NOTE_SRV = ("Exhaustive for the model at the stated constants; on the implementation every generated schedule "
            "(per-transition coverage of the model up to the sampling cap, random walks, soak, threads). Trusts tokio, "
            "the driver's event log and TLC.")
CLAIMS = {p: (SRV, "model_checking", NOTE_SRV) for p in ["R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08", "R09"]}
CLI = ("TLA+ model WsClient + observer ClientMonitor checked by TLC; TLC-generated schedules replayed on the generated "
       "TypeScript client with scripted sockets and timers; recorded traces judged by the observer in TLC")
NOTE_CLI = ("Exhaustive for the model at the stated constants; on the real client every generated schedule (per-transition "
            "coverage of the model up to the sampling cap, random walks beyond). Trusts the scripted browser environment, "
            "esbuild's type stripping and TLC.")
CLAIMS.update({p: (CLI, "model_checking", NOTE_CLI) for p in ["W01", "W02", "W03", "W04"]})
SCH = ("TLA+ specification of serde's data model and of the generated types (SchemaTypes) evaluated by TLC over declarations that "
       "SchemaGen enumerates; every declaration is compiled against the repository and its schema, type and Deserialize are run on the values "
       "TLC generated, and compared with TLC's verdicts")
NOTE_SCH = ("Exhaustive for the declaration families up to the sampling cap, random walks to larger declarations; per declaration all probe "
            "values of the specification. Trusts zod 3, TypeScript 5.9, serde_json and TLC; serde is checked against the specification on every value.")
CLAIMS.update({p: (SCH, "model_checking", NOTE_SCH) for p in ["S01", "S02", "S03", "S04"]})
CLAIMS["S05"] = ("TLA+ specification of the supported and the rejected declaration forms (Forms), enumerated by TLC with verdicts; every form is "
                 "compiled against the repository and the compiler's verdict compared", "model_checking",
                 "Exhaustive for the stated forms and bounds; forms whose status the documentation leaves open are not judged. Trusts rustc and TLC.")
API = ("TLA+ specification of whole programs and their sessions (Api), random behaviours generated by TLC: every program is compiled against the "
       "repository, ")
NOTE_API = ("Random walks of the specification with a fixed seed: programs of up to 4 namespaces, 9 types, 11 functions and 2 backends, many steps each. "
            "Trusts TLC, serde_json, zod 3, TypeScript 5.9, esbuild and node.")
CLAIMS["R10"] = (API + "requests of the behaviour arrive at its backends, and handler invocations, state, arguments and replies are compared with it",
                 "model_checking", NOTE_API)
CLAIMS["W05"] = (API + "functions of its generated client are called as in the behaviour, and what they send is compared with it", "model_checking", NOTE_API)
CLAIMS["G01"] = (API + "the declarations in the generated client and the registry queries are compared with the interface the specification derives",
                 "model_checking", NOTE_API)
CLAIMS["G03"] = (API + "generated clients call the real server over the network as in the behaviour, and handler logs and delivered values are compared with it",
                 "model_checking", NOTE_API)
CLAIMS["G02"] = ("TLA+ specifications of whole programs (Api) and of graphs of types and namespaces that refer to each other (Graph), behaviours "
                 "generated by TLC: every program is compiled against the repository, its generated client is parsed and every reference in it resolved by "
                 "the TypeScript compiler to the declaration the specification says, every schema walked at run time", "model_checking", NOTE_API)
PENDING = "check under construction"
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMS:
        t, l, n = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 bin/check.py {p} quick",
                            "thorough_cmd": f"python3 bin/check.py {p} thorough",
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": PENDING})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
