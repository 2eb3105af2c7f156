H='crashmail/handle.c'; P='crashmail/pkt.c'; J='crashmail/mb_jam.c'; M='crashmail/mb_msg.c'; K='crashmail/memmessage.c'; S='crashmail/misc.c'; W='tools/crashwrite.c'
SEEDS=[
dict(id='b21-intl-loses-point', property='A21', edits=[K,'            mm->DestNode.Zone = node.Zone;\n            mm->DestNode.Net  = node.Net;\n            mm->DestNode.Node = node.Node;','            Copy4D(&mm->DestNode,&node);'],
needs='netmail to a point in which TOPT stands before INTL', breaks='mail for a point is taken for mail to its boss node',
demo='''
e = Env(routes='ROUTE "*:*/*.*" 99:99/999.0 99:99/1')
m = e.pktmsg('99:99/99', '99:99/1.7', 'hello').replace(b'\\x01TOPT 7\\r', b'').replace(b'\\x01INTL', b'\\x01TOPT 7\\r\\x01INTL')
e.packet([m])
e.toss()
check(not e.msgs('areas/netmail'), 'mail for a point was imported: ' + e.out)
check(len(e.outmail().get((99, 999), [])) == 1, 'mail for a point was not routed: ' + e.out)
'''),
dict(id='b22-auxnet-of-any-point', property='A21', edits=[P,'if(getuword(PktHeader,PKTHEADER_ORIGPOINT)!=0 && getuword(PktHeader,PKTHEADER_ORIGNET)==0xffff)','if(getuword(PktHeader,PKTHEADER_ORIGPOINT)!=0)'],
needs='a packet from a point that gives its net in the usual place', breaks='the packet is taken for one from another net, its mail is treated as coming from an unknown system',
demo='''
e = Env(nodes='NODE 99:99/99.5 "" ""\\nDEFAULTGROUP A\\nNODE 99:99/999 "" ""\\nDEFAULTGROUP A\\n', areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT 99:99/99.5 99:99/999.0\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99.5', '99:99/1', 'hello', area='TESTAREA')], orig='99:99/99.5')
e.toss()
check(len(e.msgs('areas/testarea')) == 1 and not e.msgs('areas/bad'), e.out)
'''),
]
