#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
NA={
 'C19':'Choosing an entry is a pure function of the entry list and the input (sort by priority, string/URL matching): no threads, time, I/O or other party whose nondeterminism a simulator could control, so a simulation would be plain input generation.',
}
NOTE=('Seeded random search over schedules, timings and faults of the real library (storage, handle, download task, adapters) in one process under virtual time; a violation is confirmed by two identical replays, minimised and written as a replay file. '
      'Sampling: silence means nothing was found in the runs counted in the evidence. Trusts tokio, the simulated locks (sequentially consistent memory) and the oracle. ')
EX={}
cs=[]
for i in props:
    if i in NA: continue
    cs.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',
      evidence_file=f'evidence/{i}.json',
      technique='deterministic simulation with fault injection: seeded search over schedules and fault sequences, checked against a reference model',
      level='exploration',level_note=(NOTE+EX.get(i,'')).strip()))
m=dict(version=1,setup_cmd='./setup.sh',hooks=dict(guard='cfg stream_download_sim',enable='RUSTFLAGS="--cfg stream_download_sim" (set by /verif/sim/build.sh), plus a [patch.crates-io] of parking_lot in /verif/sim/Cargo.toml',source_commits=['57da8d2','4ae64c5','13d1bc4']),
  checks=cs,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
  notes='Replay a violation with: /verif/target/release/simcheck replay FILE. Evidence is rewritten by every run. See DESIGN.md.')
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
open(os.path.join(here,'MANIFEST.json'),'a').write('\n')
