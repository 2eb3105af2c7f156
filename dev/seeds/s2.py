H='crashmail/handle.c'; T='crashmail/toss.c'; P='crashmail/pkt.c'; D='crashmail/dupe.c'; S='crashmail/scan.c'; A='crashmail/areafix.c'; C='crashmail/config.c'; O='crashmail/outbound.c'; M='crashmail/mb_msg.c'; MM='crashmail/memmessage.c'; CM='crashmail/crashmail.c'
SEEDS=[
dict(id='b05-dupe-oldest-lost', property='A08', edits=[D,"""   if(dupeentrynum > dupeentrymax)
      dupeentrymax=dupeentrynum;

   if(dupeentrynum == config.cfg_DupeSize)
      dupeentrynum=0;
""","""   if(dupeentrynum == config.cfg_DupeSize)
      dupeentrynum=0;

   if(dupeentrynum > dupeentrymax)
      dupeentrymax=dupeentrynum;
"""],
needs='a dupe history that has reached its configured size', breaks='the entry in the last place of the history is never looked at and not written, its duplicate is tossed again',
demo='''
e = Env(top='DUPEFILE "dupes" 3')
def msg(k):
    return e.pktmsg('99:99/99', '99:99/1', 'text %d' % k, area='TESTAREA', msgid='99:99/99 0000000%d' % k)
for k in (1, 2, 3):
    e.packet([msg(k)])
    e.toss()
n = len(e.msgs('areas/testarea'))
check(n == 3, 'three messages expected, got %d: %s' % (n, e.out))
for k in (1, 2, 3):
    e.packet([msg(k)])
    e.toss()
    check(len(e.msgs('areas/testarea')) == 3, 'duplicate of message %d was imported' % k)
'''),
dict(id='b06-receipt-asks-audit', property='A10', edits=[H,'tmpmm->Attr=FLAG_PVT | FLAG_IRRR;','tmpmm->Attr=FLAG_PVT | FLAG_IRRR | (mm->Attr & FLAG_AUDIT);'],
needs='netmail for this system that asks for a receipt and for an audit at the same time', breaks='the receipt itself asks for audits',
demo='''
e = Env(top='ANSWERRECEIPT\\nANSWERAUDIT', routes='ROUTE "*:*/*" "99:99/99" 99:99/1')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'hello', attr=0x1001 | 0x4000)])
e.toss()
o = [m for v in e.outmail().values() for m in v]
check(o, 'no receipt was sent: ' + e.out)
for m in o:
    check(not m['attr'] & 0x5000, 'a generated message asks for a receipt or audit: %04x' % m['attr'])
'''),
dict(id='b07-wildcard-mandatory', property='A12', edits=[A,'if((area->Flags & AREA_MANDATORY) && !(temptnode->Flags & TOSSNODE_FEED))','if((area->Flags & AREA_MANDATORY) && !(temptnode->Flags & TOSSNODE_FEED) && !iswild)'],
needs='an AreaFix request that removes areas by a pattern which also matches a mandatory area', breaks='nodes can leave mandatory areas',
demo='''
e = Env(routes='ROUTE "*:*/*" "99:99/99" 99:99/1', areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT 99:99/99.0 99:99/999.0\\nMANDATORY\\nGROUP A\\n'
  'AREA "TESTFREE" 99:99/1.0 MSG "areas/other"\\nEXPORT 99:99/99.0 99:99/999.0\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', '-TEST*', to='areafix', subj='TESTPASS')])
e.toss()
t = e.read('crashmail.prefs').decode('latin-1')
i = t.index('"TESTAREA"'); j = t.index('"TESTFREE"')
a, b = (t[i:j], t[j:]) if i < j else (t[i:], t[j:i])
check('99:99/99' in a.split('\\n', 1)[1] and '/99.0' in a or '99:99/99 ' in a, 'the node was removed from a mandatory area: ' + a)
check('99:99/999' in b and '99:99/99.0' not in b and '99:99/99 ' not in b, 'the node is still linked to the other area: ' + b)
'''),
dict(id='b08-stale-seenby-mark', property='A07', edits=[H,'''   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
      temptnode->ConfigNode->IsInSeenBy=FALSE;

   if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
   {
''','''   if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
   {
      for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
         temptnode->ConfigNode->IsInSeenBy=FALSE;

'''], needs='in one run, a message of an ordinary area that lists a link in its seen-by, then a message of an IGNORESEENBY area with the same link', breaks='the link does not get the second message',
demo='''
e = Env(top='CHECKSEENBY', areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT 99:99/99.0 99:99/999.0\\nGROUP A\\n'
  'AREA "OTHER" 99:99/1.0 MSG "areas/other"\\nEXPORT 99:99/99.0 99:99/999.0\\nIGNORESEENBY\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'first', area='TESTAREA', seenby=['99/999']), e.pktmsg('99:99/99', '99:99/1', 'second', area='OTHER', seenby=['99/99'])])
e.toss()
o = e.outmail().get((99, 999), [])
check(not any('first' in m['text'] for m in o), 'copy for a system already in seen-by')
check(any('second' in m['text'] for m in o), 'the link got no copy of the second message: ' + e.out)
'''),
dict(id='b09-killsent-echomail', property='A16', edits=[M,'if((config.cfg_Flags & CFG_ALLOWKILLSENT) && (oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))','if((config.cfg_Flags & CFG_ALLOWKILLSENT) && (oldattr & FLAG_KILLSENT))'],
needs='a local echomail message with the KILLSENT attribute and ALLOWKILLSENT configured', breaks='echomail is deleted from the message base after export',
demo='''
e = Env(top='ALLOWKILLSENT')
def msg(attr, dest=(99, 99)):
    return b'me'.ljust(36,b'\\0')+b'all'.ljust(36,b'\\0')+b'subj'.ljust(72,b'\\0')+b'01 Jan 24  12:00:00\\0'+struct.pack('<13H',0,dest[1],1,0,99,dest[0],0,0,0,0,0,attr,0)+b'text\\r\\0'
e.write('areas/testarea/2.msg', msg(0x180))
e.run('scan')
check(e.outmail(), 'the message was not exported: ' + e.out)
check(e.exists('areas/testarea/2.msg'), 'echomail was deleted after export')
check(struct.unpack('<H', e.read('areas/testarea/2.msg')[186:188])[0] & 8, 'message not marked as sent')
'''),
dict(id='b10-eof-in-first-line', property='A04', edits=[P,'''      while(!messageend)
      {
         ReadCR(buf,200,fh);

         if(shortread)''','''      while(!messageend && !shortread)
      {
         ReadCR(buf,200,fh);

         if(shortread && buf[0])'''],
needs='a packet that ends inside the text of a message, right behind a line end', breaks='the truncated message is processed and the packet deleted or continued as if it was complete',
demo='''
e = Env()
m = e.pktmsg('99:99/99', '99:99/1', 'one\\rtwo', area='TESTAREA')
cut = m.index(b'two')
n = e.packet([m[:cut]], end=b'')
e.toss()
check(not e.msgs('areas/testarea'), 'a truncated message was tossed')
check(any(x.endswith('.bad') for x in e.ls('spool/inbound')), 'the truncated packet is not kept as .bad: %r' % e.ls('spool/inbound'))
'''),
dict(id='b11-remnode-own-address', property='A24', edits=[H,'''   /* Remove nodes specified in config from seen-by and path */

   for(tmpremnode=(struct RemNode *)temparea->Aka->RemList.First;tmpremnode;tmpremnode=tmpremnode->Next)
      mmRemNodes2DListPat(&mm->SeenBy,&tmpremnode->NodePat);

''','',H,'''   /* Add own node to path */

   if(temparea->Aka->Node.Point == 0 || (config.cfg_Flags & CFG_PATH3D))
   {
      if(!AddNodePath(&mm->Path,&temparea->Aka->Node))
         return(FALSE);
   }

   /* Dupecheck */
''','''   /* Remove nodes specified in config from seen-by */

   for(tmpremnode=(struct RemNode *)temparea->Aka->RemList.First;tmpremnode;tmpremnode=tmpremnode->Next)
      mmRemNodes2DListPat(&mm->SeenBy,&tmpremnode->NodePat);

   /* Add own node to path */

   if(temparea->Aka->Node.Point == 0 || (config.cfg_Flags & CFG_PATH3D))
   {
      if(!AddNodePath(&mm->Path,&temparea->Aka->Node))
         return(FALSE);
   }

   /* Dupecheck */
'''], needs='an own address with REMOVE for a pattern that matches the own address as well', breaks='copies leave without the own system in SEEN-BY',
demo='''
e = Env(aka='99:99/1\\nREMNODE 99/*')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'x', area='TESTAREA', seenby=['99/50 51'])])
e.toss()
o = e.outmail().get((99, 999), [])
check(o, 'no copy was sent: ' + e.out)
sb = [l for l in o[0]['text'].split('\\r') if l.startswith('SEEN-BY:')]
check(any('99/1' in l.split() for l in sb), 'own system is missing in SEEN-BY: %r' % sb)
'''),
dict(id='b12-crash-type-of-received', property='A09', edits=[H,'''      if(mm->Flags & MMFLAG_TOSSED)
			mm->Attr&=~(FLAG_CRASH|FLAG_HOLD);

      mm->Type = PKTS_NORMAL;

      if(mm->Attr & FLAG_CRASH) mm->Type=PKTS_CRASH;
      if(mm->Attr & FLAG_HOLD)  mm->Type=PKTS_HOLD;
''','''      mm->Type = PKTS_NORMAL;

      if(mm->Attr & FLAG_CRASH) mm->Type=PKTS_CRASH;
      if(mm->Attr & FLAG_HOLD)  mm->Type=PKTS_HOLD;

      if(mm->Flags & MMFLAG_TOSSED)
			mm->Attr&=~(FLAG_CRASH|FLAG_HOLD);
'''], needs='received netmail in transit that has the crash or hold attribute', breaks='received mail is sent crash or on hold although these attributes are only for local mail',
demo='''
e = Env(routes='ROUTE "*:*/*" "99:99/99" 99:99/1')
e.packet([e.pktmsg('99:99/999', '99:99/88', 'hello', attr=0x0003)], orig='99:99/999')
e.toss()
f = [x for x in e.files('spool') if not x.startswith('spool/inbound')]
check(any((99, 99) == k for k in e.outmail()), 'the message was not routed to 99:99/99: %r %s' % (f, e.out))
check(not any(x.endswith(('.cut', '.clo', '.hut', '.hlo')) for x in f), 'received mail was sent with a special flavour: %r' % f)
'''),
dict(id='b13-flow-entry-similar', property='A15', edits=[O,'      if(stricmp(buf,filename)==0)\n      {\n         osClose(fh);','      if(strnicmp(buf,filename,strlen(filename)-1)==0)\n      {\n         osClose(fh);'],
needs='a flow file that already lists another bundle of the node whose name differs in the last character only', breaks='the new bundle is not entered in the flow file and never sent',
demo='''
e = Env(top='PACKER "TAR" "tar cf %a %f" "tar xf %a" "aaaa"', nodes='NODE 99:99/99 "" ""\\nDEFAULTGROUP A\\nNODE 99:99/999 "TAR" ""\\nDEFAULTGROUP A\\n')
def flow():
    return b''.join(e.read(f) for f in e.files('spool') if f.endswith('lo'))
e.packet([e.pktmsg('99:99/99', '99:99/1', 'one', area='TESTAREA')])
e.toss()
b1 = set(x for x in e.ls('spool/packets') if x[-3:-1] in ('mo','tu','we','th','fr','sa','su'))
check(len(b1) == 1, 'one bundle expected: %r %s' % (e.files('spool'), e.out))
e.write('spool/packets/' + list(b1)[0], b'')   # the mailer sent and truncated the bundle, the flow file was left
e.packet([e.pktmsg('99:99/99', '99:99/1', 'two', area='TESTAREA')])
e.toss()
b2 = set(x for x in e.ls('spool/packets') if x[-3:-1] in ('mo','tu','we','th','fr','sa','su') and os.path.getsize(e.path('spool/packets', x)))
check(len(b2) == 1, 'one full bundle expected: %r' % e.files('spool'))
check(list(b2)[0].encode() in flow(), 'bundle %r is not listed in the flow file: %r' % (b2, flow()))
'''),
dict(id='b14-empty-by-first-chunk', property='A14', edits=[H,"for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk && !istext;chunk=chunk->Next)\n            for(c=0;c<chunk->Length && !istext;)","for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk && chunk == (struct TextChunk *)mm->TextChunks.First && !istext;chunk=chunk->Next)\n            for(c=0;c<chunk->Length && !istext;)"],
needs='netmail for this system that starts with more than 10000 bytes of kludge lines', breaks='netmail with text is thrown away as empty',
demo='''
e = Env(top='')
k = ''.join('\\x01VIA 99:99/%d some system far away %s\\r' % (i, 'x' * 60) for i in range(300))
e.packet([e.pktmsg('99:99/99', '99:99/1', k + 'real text')])
e.toss()
check(e.msgs('areas/netmail'), 'the message was not imported: ' + e.out)
'''),
dict(id='b15-areafix-point-is-boss', property='A11', edits=[A,'''   for(cnode=(struct ConfigNode *)config.CNodeList.First;cnode;cnode=cnode->Next)
      if(Compare4D(&cnode->Node,&mm->OrigNode)==0) break;

   if(!cnode)
   {
      Print4D(&mm->OrigNode,buf);
      LogWrite(2,AREAFIX,"AreaFix: Unknown node %s",buf);''','''   for(cnode=(struct ConfigNode *)config.CNodeList.First;cnode;cnode=cnode->Next)
      if(Compare4D(&cnode->Node,&mm->OrigNode)==0) break;

   if(!cnode && mm->OrigNode.Point != 0)
   {
      struct Node4D boss;

      Copy4D(&boss,&mm->OrigNode);
      boss.Point=0;

      for(cnode=(struct ConfigNode *)config.CNodeList.First;cnode;cnode=cnode->Next)
         if(Compare4D(&cnode->Node,&boss)==0) break;
   }

   if(!cnode)
   {
      Print4D(&mm->OrigNode,buf);
      LogWrite(2,AREAFIX,"AreaFix: Unknown node %s",buf);'''],
needs='an AreaFix request from an unconfigured point of a configured node that knows the password of the node', breaks='points change the links of their boss node',
demo='''
e = Env(routes='ROUTE "*:*/*.*" "99:99/99" 99:99/1')
before = e.read('crashmail.prefs')
e.packet([e.pktmsg('99:99/99.5', '99:99/1', '-TESTAREA', to='areafix', subj='TESTPASS')])
e.toss()
check(e.read('crashmail.prefs') == before, 'a point changed the configuration of its boss node')
'''),
dict(id='b16-link-marks-lost', property='A13', edits=[C,'''         if(tmptnode->Flags & TOSSNODE_FEED)
            cfgPrintf(osfh,"%%");
''','''         else if((tmptnode->Flags & TOSSNODE_FEED) && tmparea->Messagebase)
            cfgPrintf(osfh,"%%");
'''], needs='an AreaFix change of a pass-through area that has a feed', breaks='the feed mark of pass-through areas is lost when the configuration is written',
demo='''
e = Env(routes='ROUTE "*:*/*" "99:99/99" 99:99/1', areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT 99:99/999.0\\nGROUP A\\n'
  'AREA "PASS" 99:99/1.0\\nEXPORT %99:99/88 99:99/999.0\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'PASS', to='areafix', subj='TESTPASS')])
e.toss()
t = e.read('crashmail.prefs').decode('latin-1')
a = t[t.index('"PASS"'):]
check('99:99/99.0' in a or '99:99/99\\n' in a or '99:99/99 ' in a, 'the node was not linked: ' + a + e.out)
check('%99:99/88' in a, 'the feed mark is gone: ' + a)
'''),
dict(id='b17-pause-run-fails', property='A19', edits=[CM,'''   if(ioerror || nomem)
      success=FALSE;

   if(success)
   {
      if(ArchiveOutbound())
         ProcessSafeDelete();
      else
         success=FALSE;
   }
''','''   if(ioerror || nomem)
      success=FALSE;

   if(!ArchiveOutbound())
      success=FALSE;

   if(success)
      ProcessSafeDelete();
'''], needs='a toss that fails (for example because a message base cannot be written) after copies for links were written', breaks='copies of a failed toss are filed; the packet is tossed again later and the links get everything twice',
demo='''
e = Env(areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT 99:99/99.0 99:99/999.0\\nGROUP A\\n'
  'AREA "BROKEN" 99:99/1.0 MSG "areas/notadir/x"\\nEXPORT 99:99/99.0 99:99/999.0\\nGROUP A\\n')
e.write('areas/notadir', 'this is a file')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'one', area='TESTAREA', msgid='99:99/99 1'), e.pktmsg('99:99/99', '99:99/1', 'two', area='BROKEN')])
e.toss()
check(e.ls('spool/inbound'), 'the packet is gone')
check(not e.files('spool/outbound') and not e.files('spool/packets'), 'mail of a failed run was filed: %r' % e.files('spool'))
'''),
]
