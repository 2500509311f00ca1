#!/usr/bin/env python3
"""Generate MANIFEST.json from properties.jsonl and the lists below."""
import json, os, subprocess, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
ORACLE = {
 'C01': 'an independent reference interpreter, per instruction',
 'C02': 'an independent reference interpreter, per clock cycle and access',
}
exec(open('tools/oracles.py').read()) if os.path.exists('tools/oracles.py') else None
NA = {
 'C25': 'stateless pure functions: no time, schedule, I/O or fault they could depend on, so simulation adds nothing over direct enumeration',
}
SRC = [l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines() if 'dst hook' in l]
checks = []
for p in props:
    i = p['id']
    if i in NA or i not in ORACLE: continue
    checks.append({
      'property': i,
      'quick_cmd': f'./check.sh {i} quick',
      'thorough_cmd': f'./check.sh {i} thorough',
      'technique': 'deterministic simulation with fault injection: seeded search over schedules, inputs and faults; oracle: ' + ORACLE[i],
      'level': 'exploration',
      'level_note': 'seeded search over simulated executions of the real code; silent on what no seed reached',
    })
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')} for p in props if p['id'] in NA or p['id'] not in ORACLE]
m = {
 'version': 1,
 'setup_cmd': './build.sh',
 'hooks': {
   'guard': 'cfg(z80emu_dst)',
   'enable': 'RUSTFLAGS="--cfg z80emu_dst" (set by build.sh)',
   'source_commits': SRC,
 },
 'checks': checks,
 'not_applicable': na,
}
json.dump(m, open('MANIFEST.json','w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in props: jsonschema.validate(l, json.load(open('/root/.vp/PROPERTIES.schema.json')))
for c in checks:
    f='evidence/%s.json'%c['property']
    if os.path.exists(f): jsonschema.validate(json.load(open(f)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print(len(checks),'checks')
