import json,sys
d=json.load(open('/verif/work/mir.json'));T=d['types'];I={i['id']:i for i in d['insts']}
def show(i):
    b=i['body']; print(i['id'],i['name'],i['file'],i['line']); 
    if not b: print('nobody'); return
    print('locals',[(k,T[t].get('s') or T[t]) for k,t in enumerate(b['locals'])],b['names'])
    for k,bb in enumerate(b['blocks']):
        print(k,bb['l']); 
        for s in bb['s']: print('   ',s)
        t=bb['t']
        if t[0]=='call' and t[1][0]=='k': print('   CALL',T[t[1][1]['t']].get('name'),T[t[1][1]['t']].get('inst'),t[2:])
        else: print('   ',t)
for i in d['insts']:
    if sys.argv[1]==str(i['id']) or (not sys.argv[1].isdigit() and sys.argv[1] in i['name']): show(i)
