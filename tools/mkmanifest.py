#!/usr/bin/env python3
import json
CLAIMED="T01 T02 T03 T04 T05 H01 H02 H03 H04 H05 H06 H07 H08 H09 H10 H11 H12 C01 C02 C03 C04 C05 L01 L02".split()
PURE={
 'N01':'Pure functions of their input: no schedule, clock, I/O, fault or interleaving takes part, so a simulator has nothing to decide; generating inputs would be another technique.',
 'N02':'Parsing and printing of URLs and cookies are pure functions of their text; no schedule, clock, I/O or fault takes part. (Where parsed values travel over the simulated network they are checked under H04, C02 and C03.)',
 'N03':'Time arithmetic and formatting are pure functions of the value given; no schedule, fault or interleaving takes part.',
}
NOTE="Seeded search over schedules{f} on the real code under a simulator that owns threads, clock, futexes, network and disk; every run is one seed, exactly repeatable. It samples: a clean batch is evidence, not proof. Trusts: the libc-level model of the operating system (sim/src/rt), preemption only at instrumented basic-block edges and libc calls, no weak-memory reordering, and the oracle in sim/src/scen."
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m=dict(version=1,setup_cmd="sim/build.sh",checks=[],not_applicable=[],
 notes="No hooks in /repo: the seam is libc (interposed symbols in the simulator's binary) and compiler instrumentation of the unmodified sources. /repo carries only 'fix:' commits. Replay a violation with: target/debug/starry-sim replay <file>. See DESIGN.md.")
for p in props:
    i=p['id']
    if i in CLAIMED:
        m['checks'].append(dict(property=i,quick_cmd=f"./run.sh check {i}",thorough_cmd=f"env VERIF_TIER=thorough ./run.sh check {i}",technique="deterministic simulation with fault injection (seeded schedule and fault search, minimised replay)",level="exploration",level_note=NOTE.format(f="" if i in("T02",) else " and faults")))
    else:
        m['not_applicable'].append(dict(property=i,reason=PURE.get(i,"Not claimed yet: its simulated scenario is still being built.")))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(m['checks']),'checks',len(m['not_applicable']),'not applicable')
