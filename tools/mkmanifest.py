import json,sys
built=set(sys.argv[1:])
NA={'C20':'not claimed: the request parser of the example server does not have this property at the pinned commit (requests divided differently parse differently, reads outside segments, writes outside buffers), and changes under examples/ count as changes of test files here, so that the repair cannot be committed to /repo. The simulation exists (check.py C20 finds it within a second), the repair with which it is quiet is findings/C20-request-parser.patch; see DESIGN.md',
'C22':'not claimed: the example editor does not have this property at the pinned commit (read errors taken for the end, unreported failed writes, endless loops, writes outside of line buffers), and changes under examples/ count as changes of test files here, so that the repair cannot be committed to /repo. The simulation exists (check.py C22 finds it within a second), the repair with which it is quiet is findings/C22-notepad.patch; see DESIGN.md',
'C30':'type soundness is a pure function of the source text: no schedule, clock, fault or I/O in it, so there is nothing for a simulator to decide',
'C31':'evaluation of a single undisturbed program is a pure function of its source; the simulator uses a reference interpreter as an oracle for C01-C08, but does not dress input generation as simulation',
'C32':'lexing a literal is a pure function of its spelling; nothing nondeterministic or faulty takes part',
'C33':'disassembly is a pure function of the compiled program; no schedule, fault or interleaving takes part',
'C34':'the text and position of an error are a pure function of the source; no schedule, fault or interleaving takes part',
'C35':'the generated serializer text is a pure function of the type definition and value; no schedule, fault or interleaving takes part'}
LEVEL={}
tech=json.load(open('/verif/techniques.json'))
checks=[];na=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)['id']
    if p in NA: na.append({'property':p,'reason':NA[p]})
    elif p in built:
        t=tech[p]
        checks.append({'property':p,'quick_cmd':f'python3 check.py {p} quick','thorough_cmd':f'python3 check.py {p} thorough',
          'evidence_file':f'evidence/{p}.json','technique':t['technique'],'level':'exploration','level_note':t['note']})
    else: na.append({'property':p,'reason':'check not built yet (deterministic simulation is planned, see DESIGN.md)'})
m={'version':1,'setup_cmd':'python3 check.py --setup','checks':checks,'not_applicable':na,
 'notes':'Every check rebuilds the simulator from /repo\'s working tree (build/ is keyed by content) and needs no hooks in /repo: allocator, foreign functions, stdio streams and single-cycle execution are seams the code already has; preemption points come from compiler edge instrumentation of /repo\'s sources.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
