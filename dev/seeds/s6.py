P='crashmail/pkt.c'; O='crashmail/outbound.c'; M='crashmail/misc.c'
SEEDS=[
dict(id='b25-packet-shared-between-akas', property='A23', edits=[P,'Compare4D(mynode,&pkt->Orig)==0','mynode->Zone == pkt->Orig.Zone && mynode->Net == pkt->Orig.Net'],
needs='two areas with different addresses of the system in the same net, exported to the same node in one run', breaks='a message goes out in a packet whose header names another address of the system',
demo='''
e = Env(mid='AKA 99:99/2\\nDOMAIN "testdomain"\\n',
        areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\\nEXPORT 99:99/99.0 99:99/999.0\\nGROUP A\\n'
              'AREA "OTHER" 99:99/2.0 MSG "areas/other"\\nEXPORT 99:99/99.0 99:99/999.0\\nGROUP A\\n')
e.packet([e.pktmsg('99:99/99', '99:99/1', 'one', area='TESTAREA', msgid='99:99/99 00000001'), e.pktmsg('99:99/99', '99:99/1', 'two', area='OTHER', msgid='99:99/99 00000002')])
e.toss()
got = {}
for f in e.files('spool'):
    data = e.read(f)
    if len(data) > 58 and data[18:20] == b'\\x02\\0' and not f.startswith('spool/inbound'):
        p = 0
        while p + 58 <= len(data):
            of = struct.unpack('<H', data[p:p+2])[0]
            for m in parse(data[p:]):
                got.setdefault(of, []).append(m['text'].split('\\r')[0])
            break
check(got == {1: ['AREA:TESTAREA'], 2: ['AREA:OTHER']}, f'origin node of the packet -> areas: {got}')
'''),
dict(id='b26-hold-mail-changed', property='A23', edits=[M,'if(pri == PKTS_HOLD     && change->ChangeHold   == TRUE) ispattern=TRUE;','if(pri == PKTS_HOLD     && (change->ChangeHold == TRUE || change->ChangeNormal == TRUE)) ispattern=TRUE;'],
needs='a CHANGE line for normal mail and a netmail written here with the hold flag to a node it names', breaks='the netmail is sent as crash mail although the configuration changes only normal mail',
demo='''
e = Env(routes='ROUTE "*:*/*.*" "*:*/*.*" 99:99/1\\nCHANGE "NORMAL" "99:*" CRASH\\n')
def msg(attr, dest):
    def s(x, n): return x.encode().ljust(n, b'\\0')
    return (s('Test Sysop', 36) + s('All', 36) + s('local', 72) + s('01 Jan 24  12:00:00', 20)
            + struct.pack('<13H', 0, dest, 1, 0, 99, 99, 99, 99, 0, 0, 0, attr, 0) + b'Hello world\\r\\0')
e.write('areas/netmail/1.msg', msg(0, 0))
e.write('areas/netmail/2.msg', msg(0x300, 99))
e.write('areas/netmail/3.msg', msg(0x100, 88))
e.run('scan')
f = [x for x in e.files('spool') if x.endswith('ut')]
k = sorted(x[-12:] for x in f)
check(len(k) == 2 and any(x.endswith('63.hut') for x in k) and any(x.endswith('58.cut') for x in k), f'{k} {e.out}')
'''),
]
