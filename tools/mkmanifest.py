#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.txt."""
import json, subprocess
S="stateful property-based testing of the real server code against a reference model, virtual time, shrinking"
tech={
"C01":S,"C02":"property-based testing: generated pipelines and byte splits against the same requests sent one by one and the reference model",
"C03":"structure-aware protocol fuzzing in process and against the server process, with victim clients as oracle",
"C04":"property-based testing: byte-exact round trips and an independent RESP decoder",
"C05":S,"C06":S,"C07":S,"C08":S,"C09":S,"C10":S,"C11":"metamorphic and model-based property testing: TTL bookkeeping of every writing command",
"C12":"property-based testing: full dump before and after every failing command","C13":S,
"C14":"property-based testing: generated globs and keys against an independent matcher, with step limits",
"C15":S,"C16":"randomised schedule search (uniform, sticky, PCT) over generated concurrent programs, linearizability oracle",
"C17":"randomised schedule search over generated concurrent programs, deadlock and progress oracle",
"C18":"generated parallel programs under the race detector with conservation oracles",
"C19":"randomised schedule search over generated concurrent programs, interval oracle for KEYS",
"C20":"fault-injecting property-based testing of connections, goroutine and socket accounting",
"C21":S,"C22":"property-based testing with chi-square-like frequency bounds",
"C23":"differential property-based testing: one history under several segment counts",
"C24":"property-based testing of generated configuration files and flags, parser and server process",
"C25":S,
"C26":"property-based testing of server life cycles: generated clients, failing starts, descriptor exhaustion and signals against the server process",
"C27":"property-based testing of the logger: generated calls from parallel goroutines, log read back record by record",
}
note={
"seq":"Sampled histories only, bounded length; the server code runs unchanged in memory with a virtual clock. Trusts the reference model, the generator's reach and testing/synctest.",
"sched":"Sampled programs of 2-4 clients and seeded schedules with a scheduling point before every statement of package memdb. Trusts the source rewriting, the scheduler's locks (same semantics as sync) and sequential consistency.",
"life":"Sampled life cycles of the real server process over loopback TCP; the operating system is the real one, so schedules are not controlled.",
"log":"Sampled calls of the real logger writing to a scratch directory; goroutine schedules are the Go runtime's.",
"race":"Sampled parallel executions; the race detector reports what these runs executed. Schedules are the Go runtime's.",
}
kind={"C16":"sched","C17":"sched","C19":"sched","C18":"race","C26":"life","C27":"log"}
E2E="C01 C03 C04 C05 C06 C07 C08 C09 C10 C12 C13 C14 C15 C20 C21 C22 C24 C25".split()
PAR="C01 C02 C03 C04 C05 C06 C07 C08 C09 C12 C13 C14 C15 C20 C21 C22 C25".split()
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[]
for p in props:
    n=note[kind.get(p,"seq")]
    if p in E2E: n+=" Part of the cases run the real server binary over loopback TCP, on the real clock."
    if p in PAR: n+=" Another part runs parallel clients on private data, under the Go runtime's schedules."
    checks.append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":tech[p],"level":"exploration","level_note":n})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: package memdb is rewritten into a build overlay by the driver at check time."},open("/verif/MANIFEST.json","w"),indent=1)
own={"ab9c4ce":"C15","49f9a58":"C15","ba67bad":"C03","14e39d1":"C03","dc4e303":"C03","079fb81":"C03","1947474":"C20","69310be":"C20","ff2f385":"C04","4058941":"C14",
"155e8d4":"C24","9de4f4f":"C24","664e8b2":"C24","d131763":"C24","c34b9a0":"C24","7e5c448":"C16","2c0311e":"C19","a5066a0":"C16","1631aed":"C10","7a75a9f":"C10","9d0d0ab":"C10","80b6796":"C19",
"7824bb6":"C03","b9ff9c1":"C05","66ae7c5":"C10","5238ffa":"C10","d2ebf99":"C05","3b30d8d":"C11","52bda96":"C05","c95cdda":"C05","f67351b":"C05","3a1e55d":"C03","ffa59d4":"C10","3512f7e":"C16","eca8dbd":"C21","0933fd8":"C21","c23176d":"C21",
"acdc3b4":"C07","2f9def9":"C12","300fdda":"C21","6978f17":"C21","8dd3af7":"C07","67dbcde":"C07","2669481":"C03","9895540":"C06","b8eaef1":"C03","b8ec61f":"C06","ab450de":"C12","d210177":"C06","a997708":"C12","241e2f4":"C13","19f3b2e":"C10","feddb64":"C08","cf2c69a":"C12","4f71dd0":"C08","86ef9bd":"C08","47ce4a9":"C03","ccaa6d5":"C12","107362a":"C19","f271034":"C27"}
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","0578c7f.."],capture_output=True,text=True).stdout.splitlines()
with open("/verif/known_findings.txt","w") as f:
    f.write("# Defects of gRedis at 0578c7f found by these checks. None is left unrepaired: a \"fixed\" line suppresses nothing.\n")
    for l in log:
        h,m=l.split(" ",1)
        assert m.startswith("fix: "),l
        f.write(f"fixed: property={own[h]} {h} {m[5:]}\n")
