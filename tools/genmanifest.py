#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl.
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
'C18':'A pure function of curve type, parameters and argument: no I/O, time, schedule, fault or second party can influence it, so simulated executions would only be plain input sampling.',
'C19':'A pure conversion of values (no I/O, time, concurrency or fault it could depend on); deterministic simulation does not apply.',
}
TECH='deterministic simulation with fault injection: seeded search over workloads, faults and schedules'
NOTE={
'C01':'Search over generated images and benign-fault sequences against an independent decoder; preemption is not needed here. Assumes the simulated file system answers like Linux.',
'C02':'Search over damaged images and in-place changes between storage calls against an independent decoder; a run that panics, aborts or exceeds its step budget fails.',
'C03':'Search over placements of failing calls (22 error codes) at every call of an open.',
'C04':'Search over failing histories followed by fault-free opens with a step bound on progress.',
'C05':'Descriptor table of the simulated system compared after every operation.',
'C06':'Seeded scheduler with preemption at instrumented memory accesses of lcms2 and once_cell (sequentially consistent interleavings, one thread at a time).',
'C07':'Handlers are observed through the guarded hook; without the hook (build fallback) only results and user data are judged.',
'C08':'Whole simulated disk compared after every operation.',
'C09':'Crash model: directory entries are durable at creation; data written since the last successful sync may survive in any subset of sector-sized pieces, in any order.',
'C10':'Refinement against a byte-array model; error placement at every storage call.',
'C11':'User-supplied stream written in the harness on the public trait, so the default methods of the trait are the code under test.',
'C12':'Refinement against a byte-array model and lockstep with a disk stream.',
'C13':'Refinement against a position/size model and lockstep with a disk stream.',
'C14':'Clock values from 1970 to 2232; zone rules through TZ strings.',
'C15':'Calls, bytes, heap and instrumented steps are measured per open and bounded; files of up to 2^62 bytes are simulated sparsely.',
'C16':'Replacement and removal between any two storage calls of opens on up to three threads.',
'C17':'Stalled calls are healed only when no thread can run any more, so whoever needlessly waits for them is seen.',
'C20':'The simulator and the library are built a second time with the option; the runs of C01 to C17 are made there, judged by the same oracles with the other byte order.',
}
checks=[]
for p in props:
    if p['id'] in NA: continue
    checks.append(dict(property=p['id'],quick_cmd='./check.sh '+p['id'],thorough_cmd='VERIF_TIER=thorough ./check.sh '+p['id'],
      technique=TECH,level='exploration',level_note=NOTE[p['id']]))
m=dict(version=1,setup_cmd='./setup.sh',
 hooks=dict(guard='--cfg lcms2_dst (rustc)',enable='sim/rustc-wrap.sh, set as RUSTC_WRAPPER by check.sh, adds --cfg lcms2_dst when compiling the lcms2 crate',
   source_commits=['d6e48b7fcec82770e96264d837aa84bbb9d71b2b']),
 checks=checks,
 not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes='Every check: exit 0 held, 1 violation with replay file, 2 the check itself failed. Replay: ./check.sh replay <file>. Known findings: known_findings.txt.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
