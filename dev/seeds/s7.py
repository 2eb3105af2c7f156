P='crashmail/node4dpat.c'; L='tools/crashlist.c'; C='cmnllib/cmnllib.c'; N='shared/node4d.c'
SEEDS=[
dict(id='b27-question-mark-at-the-end', property='A25', edits=[P,"   if(buf[c]!=0)\n      return(1);","   if(buf[c]!=0 && pat[c-1]!='?')\n      return(1);"],
needs='a route whose pattern ends in a question mark and netmail to a net with one digit more', breaks='a question mark at the end of a part matches any number of digits, so mail for net 999 takes the route of the nets 90 to 99',
demo='''
e = Env(routes='ROUTE "99:9?/*.*" 99:99/88.0 99:99/1\\nROUTE "*:*/*.*" 99:99/99.0 99:99/1')
e.packet([e.pktmsg('99:99/999', '99:95/7', 'to net 95'), e.pktmsg('99:99/999', '99:955/7', 'to net 955')], orig='99:99/999')
e.toss()
k = sorted(x[-12:] for x in e.files('spool') if x.endswith('ut'))
check(k == ['00630058.out', '00630063.out'], f'{k} {e.out}')
'''),
dict(id='b28-wildcard-point-of-destination', property='A25', edits=[P,"sendto->Point = iswildcard(temproute->Point) ? dest->Point : atoi(temproute->Point);","sendto->Point = iswildcard(temproute->Point) ? (iswildcard(temproute->Node) ? 0 : dest->Point) : atoi(temproute->Point);"],
needs='a route to "*:*/*.*" and netmail to a point', breaks='mail that is routed directly to a point goes to its boss node',
demo='''
e = Env(routes='ROUTE "*:*/*.*" "*:*/*.*" 99:99/1')
e.packet([e.pktmsg('99:99/999', '99:99/88.5', 'to a point')], orig='99:99/999')
e.toss()
k = sorted(x for x in e.files('spool') if x.endswith('ut'))
check(len(k) == 1 and '.pnt/' in k[0] and k[0].endswith('00000005.out'), f'{k} {e.out}')
'''),
dict(id='b29-hub-of-another-net', property='A26', edits=[L,"			idx.net=atoi(&buf[5]);\n			idx.hub=0;\n","			idx.net=atoi(&buf[5]);\n"],
needs='a nodelist with a hub in one net and a following net without hubs', breaks='nodes of the second net are entered in the index with the hub of the first net',
demo='''
e = Env()
os.makedirs(e.path('nl'))
e.write('nl/cmnodelist.prefs', b'NODELIST 2\\n')
e.write('nl/NODELIST.123', b';A head\\r\\nZone,2,Europe,x,x,-,300\\r\\nHost,200,One,x,x,-,300\\r\\nHub,10,Hub,x,x,-,300\\r\\n,11,Eleven,x,x,-,300\\r\\nHost,201,Two,x,x,-,300\\r\\n,12,Twelve,x,x,-,300\\r\\n')
e.run('nl', prog='crashlist')
for a, hub, name in (('2:200/11', 10, 'Eleven'), ('2:201/12', 0, 'Twelve')):
    e.run(a, 'nl', prog='crashgetnode')
    check(f'Hub {hub}\\n' in e.out and f'Name: {name}' in e.out, e.out)
'''),
dict(id='b30-point-found-for-its-node', property='A26', edits=[C,"if(cmnlidx->point != idx.point) found=FALSE;","if(cmnlidx->point && cmnlidx->point != idx.point) found=FALSE;"],
needs='a pointlist that is indexed before the nodelist, or points listed under a node that has no line of its own', breaks='a lookup of a node finds the first of its points',
demo='''
e = Env()
os.makedirs(e.path('nl'))
e.write('nl/cmnodelist.prefs', b'POINTS 2\\nNODELIST 2\\n')
e.write('nl/NODELIST.123', b';A head\\r\\nZone,2,Europe,x,x,-,300\\r\\nHost,200,One,x,x,-,300\\r\\n,11,Eleven,x,x,-,300\\r\\n')
e.write('nl/POINTS.123', b';A head\\r\\nHost,200,One,x,x,-,300\\r\\nPoint,5,Five,x,x,-,300\\r\\nPvt,12,Twelve,x,x,-,300\\r\\nPoint,6,Six,x,x,-,300\\r\\n')
e.run('nl', prog='crashlist')
for a, name in (('2:200/11', 'Eleven'), ('2:200/12.6', 'Six'), ('2:200/12', 'Twelve'), ('2:200/0.5', 'Five')):
    e.run(a, 'nl', prog='crashgetnode', ok=False)
    check(f'Name: {name}' in e.out, e.out)
e.run('2:200/12.7', 'nl', prog='crashgetnode', ok=False)
check('not found' in e.out, e.out)
e.write('nl/POINTS.123', b';A head\\r\\nHost,200,One,x,x,-,300\\r\\n,10,Ten,x,x,-,300\\r\\nPoint,5,Five,x,x,-,300\\r\\n')
e.write('nl/NODELIST.123', b'Boss\\r\\nZone,2,Europe,x,x,-,300\\r\\nHost,200,One,x,x,-,300\\r\\nPoint,9,Nine,x,x,-,300\\r\\n')
e.write('nl/cmnodelist.prefs', b'NETS 2\\nNODELIST 2\\n')
e.write('nl/NETS.123', b'Point,3,Three,x,x,-,300\\r\\n')
e.run('nl', prog='crashlist')
e.run('2:0/0', 'nl', prog='crashgetnode', ok=False)
check('not found' in e.out, e.out)
'''),
]
