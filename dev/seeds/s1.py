H='crashmail/handle.c'; T='crashmail/toss.c'; P='crashmail/pkt.c'; D='crashmail/dupe.c'; S='crashmail/scan.c'
SEEDS=[
dict(id='b01-bundle-later-packet', property='A01', edits=[T,'''         if(!ReadPkt(buf,pktfe,TRUE,HandleMessage))
         {
            jbFreeList(&FEList);
            return(FALSE);
         }
''','''         if(!ReadPkt(buf,pktfe,TRUE,HandleMessage))
         {
            bool first=(pktfe == (struct osFileEntry *)FEList.First);

            jbFreeList(&FEList);
            return(!first);
         }
'''], needs='a bundle in which a packet other than the first cannot be processed', breaks='the bundle is deleted from the inbound although one of its packets could not be processed',
demo='''
import tarfile
e = Env(top='PACKER "TAR" "false %a %f" "tar xf %a" "aaaa"',
        areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT 99:99/99.0\\nGROUP A\\n'
              'AREA "BROKEN" 99:99/1.0 MSG "areas/notadir/x"\\nEXPORT 99:99/99.0\\nGROUP A\\n')
e.write('areas/notadir', 'this is a file')
os.mkdir(e.path('b'))
e.packet([e.pktmsg('99:99/99', '99:99/1', 'one', area='TESTAREA')], name='aaaa0001.pkt', d='b')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'two', area='BROKEN')], name='aaaa0002.pkt', d='b')
tf = tarfile.open(e.path('spool/inbound/00630063.mo0'), 'w', format=tarfile.USTAR_FORMAT)
for n in ('aaaa0001.pkt', 'aaaa0002.pkt'):
    tf.add(e.path('b', n), arcname=n)
tf.close()
e.toss()
check(e.msgs('areas/testarea'), 'the first packet was not tossed: ' + e.out)
check(e.exists('spool/inbound/00630063.mo0'), 'bundle with an unprocessed packet was deleted')
'''),
dict(id='b02-password-prefix', property='A05', edits=[P,'''stricmp(buf,tmpcnode->PacketPW)!=0 && !no_security)''','''strnicmp(buf,tmpcnode->PacketPW,strlen(buf))!=0 && !no_security)'''],
needs='a packet whose password is a proper prefix of the configured one (for example empty)', breaks='packets with an incomplete password are accepted',
demo='''
e = Env(nodes='NODE 99:99/99 "" "SECRET"\\nDEFAULTGROUP A\\nNODE 99:99/999 "" ""\\n')
for pw in (b'', b'SEC', b'SECRETX', b'WRONG'):
    n = e.packet([e.pktmsg('99:99/99', '99:99/1', 'x', area='TESTAREA')], pw=pw)
    e.toss()
    check(not e.msgs('areas/testarea'), 'packet with password %r accepted' % pw)
    check(any(x.endswith('.bad') for x in e.ls('spool/inbound')), 'packet with password %r not kept as .bad' % pw)
n = e.packet([e.pktmsg('99:99/99', '99:99/1', 'x', area='TESTAREA')], pw=b'secret')
e.toss()
check(e.msgs('areas/testarea'), 'packet with the right password refused: ' + e.out)
'''),
dict(id='b03-points-behind-seenby', property='A07', edits=[H,'''            if(temptnode->ConfigNode->Node.Point==0)
               if(FindNodes2D(''','''               if(FindNodes2D('''],
needs='a message whose seen-by already lists the boss node of a linked point, with CHECKSEENBY', breaks='points get no copy when their boss node is in seen-by',
demo='''
e = Env(top='CHECKSEENBY', nodes='NODE 99:99/99 "" ""\\nNODE 99:99/50.7 "" ""\\nNODE 99:99/999 "" ""\\n',
        areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT 99:99/99.0 99:99/50.7 99:99/999.0\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'x', area='TESTAREA', seenby=['99/50 99'])])
e.toss()
o = e.outmail()
check((99, 999) in o, 'ordinary link got no copy: ' + e.out)
check(any(k[1] in (50, 7) for k in o), 'point behind 99:99/50 got no copy: %r' % list(o))
'''),
dict(id='b04-readonly-feed', property='A06', edits=[H,'''      if(temptnode->Flags & TOSSNODE_READONLY)
      {''','''      if((temptnode->Flags & (TOSSNODE_READONLY|TOSSNODE_WRITEONLY)) == (TOSSNODE_READONLY|TOSSNODE_WRITEONLY))
      {'''], needs='echomail from a link that is read-only (but not also write-only)', breaks='read-only links can post',
demo='''
e = Env(areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT !99:99/99.0 99:99/999.0\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'x', area='TESTAREA')])
e.toss()
check(not e.msgs('areas/testarea') and not e.outmail(), 'message of a read-only link was accepted')
check(e.msgs('areas/bad'), 'message of a read-only link is not in the bad area')
'''),
]
