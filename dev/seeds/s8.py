C='crashmail/config.c'
SEEDS=[
dict(id='b31-read-only-mark-sticks', property='A27', edits=[C,"         while(jbstrcpy(buf2,cfgbuf,100,&jbcpos))\n         {\n            flags=0;\n\n            if(buf2[0]=='!')","         flags=0;\n\n         while(jbstrcpy(buf2,cfgbuf,100,&jbcpos))\n         {\n            if(buf2[0]=='!')"],
needs='an EXPORT line with a marked node before an unmarked one', breaks='the mark of one node holds for all the nodes after it on the line, so that mail they write is refused as if they were read-only',
demo='''
e = Env(areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT !99:99/999.0 99:99/99.0 99:99/88.0\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'x', area='TESTAREA')])
e.toss()
o = e.outmail()
check(len(o.get((99, 88), [])) == 1 and len(o.get((99, 999), [])) == 1, f'{o} {e.out}')
'''),
dict(id='b32-point-taken-over', property='A27', edits=[C,"				Copy4D(&tpl4d,&tmp4d);\n				tpl4d.Point=0;\n				\n            for(tmpnode","				Copy4D(&tpl4d,&tmp4d);\n				\n            for(tmpnode"],
needs='an EXPORT line that names a point and after it a node by its node number alone', breaks='the node is taken for a point of the same number, and the configuration is refused or mail goes to the point',
demo='''
e = Env(nodes='NODE 99:99/99 "" ""\\nNODE 99:99/88.5 "" ""\\nNODE 99:99/77 "" ""\\nNODE 99:99/77.5 "" ""\\n',
        areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT 99:99/99 88.5 77\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'x', area='TESTAREA')])
e.toss()
k = sorted(x[-25:] for x in e.files('spool') if x.endswith('lo'))
check(len(k) == 2 and '0063004d.flo' in str(k) and '0063004d.pnt' not in str(k), f'{k} {e.out}')
'''),
dict(id='b33-path-of-another-message', property='A28', edits=['crashmail/memmessage.c',"   mm->Flags=0;\n\n   jbFreeList(&mm->TextChunks);\n   jbFreeList(&mm->SeenBy);\n   jbFreeList(&mm->Path);\n","   mm->Flags=0;\n\n   jbFreeList(&mm->TextChunks);\n\n   if(mm->SeenBy.First)\n   {\n      jbFreeList(&mm->SeenBy);\n      jbFreeList(&mm->Path);\n   }\n"],
needs='netmail or echomail that cannot be tossed with a path line but no seen-by lines, followed by other echomail in the same packet', breaks='the second message is forwarded with the path of the first one',
demo='''
e = Env()
e.packet([e.pktmsg('99:99/99', '99:99/1', 'one', area='NOSUCHAREA', path=['98/765']), e.pktmsg('99:99/99', '99:99/1', 'two', area='TESTAREA', seenby=['99/50'], path=['99/99'])])
e.toss()
b = b''.join(e.read(x) for x in e.files('spool'))
check(b'two' in b, e.out)
check(b'98/765' not in b, 'the path of the first message was sent with the second')
'''),
dict(id='b34-reply-of-another-message', property='A28', edits=['crashmail/memmessage.c',"   mm->MSGID[0]=0;\n   mm->REPLY[0]=0;\n","   if(mm->MSGID[0]) mm->MSGID[0]=mm->REPLY[0]=0;\n"],
needs='a message with a reply line but no message id, followed by one without a reply line, for a JAM area', breaks='the second message is stored as an answer to the message the first one answers',
demo='''
e = Env(areas='AREA "TESTAREA" 99:99/1.0 JAM "areas/jam"\\nEXPORT 99:99/99.0 99:99/999.0\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', '\\x01REPLY: 99:99/5 11112222\\rone', area='TESTAREA'), e.pktmsg('99:99/99', '99:99/1', 'two', area='TESTAREA')])
e.toss()
b = e.read('areas/jam.jhr')
k = [struct.unpack_from('<I', b, x + 20)[0] for x in range(1024, len(b)) if b[x:x + 4] == b'JAM\\0']
check(len(k) == 2 and k[0] != k[1] and k[1] == 0xffffffff, f'reply checksums {k} {e.out}')
'''),
]
