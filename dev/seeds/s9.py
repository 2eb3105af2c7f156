A='crashmail/areafix.c'
SEEDS=[
dict(id='b35-feed-mark-sticks', property='A29', edits=[A,"                                    wasfeed=FALSE;\n\n                                    if(temptnode->Flags & TOSSNODE_FEED)\n                                       wasfeed=TRUE;\n","                                    if(temptnode->Flags & TOSSNODE_FEED)\n                                       wasfeed=TRUE;\n",
 A,"   globalrescan=FALSE;\n","   globalrescan=FALSE;\n   wasfeed=FALSE;\n"],
needs='one AreaFix message in which a system leaves an area it feeds and after that one it only reads, with REMOVEWHENFEED configured', breaks='the second area is removed for everybody as if its feed had gone',
demo='''
e = Env(top='REMOVEWHENFEED', routes='ROUTE "*:*/*" "99:99/99" 99:99/1', areas='AREA "FEDAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT %99:99/99.0 99:99/999.0\\nGROUP A\\n'
  'AREA "READAREA" 99:99/1.0 MSG "areas/other"\\nEXPORT 99:99/99.0 99:99/999.0\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', '-FEDAREA\\r-READAREA', to='areafix', subj='TESTPASS')])
e.toss()
t = e.read('crashmail.prefs').decode('latin-1')
check('"FEDAREA"' not in t, 'the area is still there: ' + t)
check('"READAREA"' in t, 'an area was removed because a reader left it: ' + t + e.out)
'''),
dict(id='b36-feed-keeps-sending', property='A29', edits=[A,"                                             if(area->TossNodes.First)\n                                             {\n                                                LogWrite(3","                                             if(area->TossNodes.First && !iswild)\n                                             {\n                                                LogWrite(3"],
needs='a pattern request by which the last reader leaves a passthru area that has a feed, with AREAFIXREMOVE configured', breaks='the area is removed but the feed is not told, so its mail goes on coming for an area that no longer exists',
demo='''
e = Env(top='AREAFIXREMOVE', routes='ROUTE "*:*/*" "99:99/99" 99:99/1',
  nodes='NODE 99:99/99 "" ""\\nDEFAULTGROUP A\\nAREAFIXINFO "TESTPASS" "A" "" ""\\nNODE 99:99/999 "" ""\\nREMOTEAF "areafix" "FEEDPASS"\\nDEFAULTGROUP A\\n',
  areas='AREA "PASSAREA" 99:99/1.0\\nEXPORT %99:99/999.0 99:99/99.0\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', '-PASS*', to='areafix', subj='TESTPASS')])
e.toss()
t = e.read('crashmail.prefs').decode('latin-1')
check('"PASSAREA"' not in t, 'the area is still there: ' + t)
b = b''.join(e.read(x) for x in e.files('spool'))
check(b'FEEDPASS' in b and b'-PASSAREA' in b, 'the feed was not told: ' + e.out)
'''),
]
