M='tools/crashmaint.c'
SEEDS=[
dict(id='b23-keepnum-counts-deleted', property='A22', edits=[M,'   active=BaseHeader_S.ActiveMsgs;','   active=(total > BaseHeader_S.ActiveMsgs ? total : BaseHeader_S.ActiveMsgs);'],
needs='maintenance of a JAM area by number twice without packing in between', breaks='messages that are marked as deleted count as messages, so messages that should be kept are deleted',
demo='''
e = Env(areas='AREA "TESTAREA" 99:99/1.0 JAM "areas/testarea/jam"\\nEXPORT 99:99/99.0\\nKEEPNUM 4\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', f'hello {k}', area='TESTAREA', msgid=f'99:99/99 {k:08x}') for k in range(1, 9)])
e.toss()
for k in range(3):
    e.run('MAINT', 'SETTINGS', 'crashmail.prefs', prog='crashmaint')
    h = e.read('areas/testarea/jam.jhr')
    check(int.from_bytes(h[12:16], 'little') == 4, f'run {k + 1}: {int.from_bytes(h[12:16], "little")} messages left: {e.out}')
'''),
dict(id='b24-pack-drops-unreadable', property='A22', edits=[M,'				if(res == JAM_NO_MESSAGE)','				if(res == JAM_NO_MESSAGE || res == JAM_IO_ERROR)'],
needs='packing a JAM area in which the header of a message is damaged', breaks='the message is dropped from the area instead of the area being left alone',
demo='''
e = Env(areas='AREA "TESTAREA" 99:99/1.0 JAM "areas/testarea/jam"\\nEXPORT 99:99/99.0\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', f'hello {k}', area='TESTAREA', msgid=f'99:99/99 {k:08x}') for k in range(1, 6)])
e.toss()
h = bytearray(e.read('areas/testarea/jam.jhr'))
del h[h.rindex(b'JAM\\0') + 20:]
e.write('areas/testarea/jam.jhr', bytes(h))
t = e.read('areas/testarea/jam.jdt')
e.run('PACK', 'SETTINGS', 'crashmail.prefs', prog='crashmaint')
check(e.read('areas/testarea/jam.jdt') == t, 'a message was lost: ' + e.out)
check(e.read('areas/testarea/jam.jhr') == bytes(h), 'the headers changed: ' + e.out)
'''),
]
