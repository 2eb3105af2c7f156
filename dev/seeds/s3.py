H='crashmail/handle.c'; T='crashmail/toss.c'; P='crashmail/pkt.c'; D='crashmail/dupe.c'; S='crashmail/scan.c'; A='crashmail/areafix.c'; C='crashmail/config.c'; O='crashmail/outbound.c'; M='crashmail/mb_msg.c'; MM='crashmail/memmessage.c'; CM='crashmail/crashmail.c'
SEEDS=[
dict(id='b18-packet-names-shared', property='A15', edits=[P,'      lastt=t; \n','      if(serial == 0) lastt=t-(lastt == 0); \n'],
needs='two packets finished and a third one begun in the first second of a run', breaks='packet numbers are used again, finished packets are overwritten',
demo='''
e = Env(top='MAXPKTSIZE 1\\nMAXBUNDLESIZE 1', dupemode='IGNORE')
N = 8
e.packet([e.pktmsg('99:99/99', '99:99/1', 'msg %d ' % k + 'y' * 1500, area='TESTAREA') for k in range(N)])
e.toss()
o = e.outmail().get((99, 999), [])
check(len(o) == N, '%d of %d messages reached the link' % (len(o), N))
'''),
dict(id='b19-bounce-without-route', property='A20', edits=[H,'''   if(!tmproute)
   {
      Print4D(&n4d,buf);
''','''   if(!tmproute && n4d.Point)
   {
      Print4D(&n4d,buf);
'''],
needs='netmail for a node that is bounced, from a node there is no route to', breaks='crashmail crashes',
demo='''
e = Env(routes='ROUTE "99:99/*.*" "99:99/99.0" 99:99/1', mid='FILTER TYPE=NETMAIL\\nBOUNCEMSG "no"')
e.packet([e.pktmsg('98:98/98', '99:99/77', 'hello')])
e.toss()
check('CrashMail end' in e.out, e.out)
'''),
dict(id='b20-next-of-removed-area', property='A20', edits=[A,'      temparea=area->Next;\n','',A,'      area=temparea;','      area=area->Next;',A,'\tstruct Area *area,*temparea;\n\n   area=(struct Area *)config.AreaList.First;\n\n   while','\tstruct Area *area;\n\n   area=(struct Area *)config.AreaList.First;\n\n   while'],
needs='an area is removed by command or by an AreaFix request', breaks='the area list is followed through memory that was released',
demo='''
e = Env(areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT 99:99/99.0 99:99/999.0\\nGROUP A\\nAREA "OTHER" 99:99/1.0 MSG "areas/other"\\nEXPORT 99:99/99.0 99:99/999.0\\nGROUP A\\n')
e.run('remove', 'TESTAREA', env={'MALLOC_PERTURB_': '165'})
t = e.read('crashmail.prefs').decode('latin-1')
check('"TESTAREA"' not in t and '"OTHER"' in t, 'the area was not removed: ' + e.out)
'''),
]
