"""Drives the built programs of the tree in the current directory inside a scratch directory."""
import os, sys, struct, subprocess, tempfile, shutil, glob, atexit, datetime

TOP = os.getcwd()
BIN = os.path.join(TOP, 'bin')


def addr(s):
    z, r = s.split(':')
    n, f = r.split('/')
    f, _, p = f.partition('.')
    return int(z), int(n), int(f), int(p or 0)


class Env:
    BASE = '''SYSOP "Test Sysop"
LOGFILE "crashmail.log"
LOGLEVEL 6
DUPEFILE "dupes" 200
DUPEMODE {dupemode}
DEFAULTZONE 1
INBOUND "{D}/spool/inbound"
OUTBOUND "spool/outbound"
TEMPDIR "spool/temp"
CREATEPKTDIR "spool/temp"
PACKETDIR "spool/packets"
STATSFILE "crashmail.stats"
GROUPNAME A "TestGroup"
AREAFIXNAME "areafix"
{top}
AKA {aka}
DOMAIN "testdomain"
{nodes}
{routes}
{mid}
NETMAIL "NETMAIL" 99:99/1 MSG "areas/netmail"
{netextra}
AREA "BAD" 99:99/1 MSG "areas/bad"
{areas}
'''

    def __init__(s, **kw):
        s.d = tempfile.mkdtemp(prefix='cmdemo')
        atexit.register(shutil.rmtree, s.d, True)
        for x in ('spool/inbound', 'spool/outbound', 'spool/temp', 'spool/packets', 'areas/netmail', 'areas/testarea', 'areas/bad', 'areas/other'):
            os.makedirs(os.path.join(s.d, x))
        s.n = 0
        s.config(**kw)

    def config(s, **kw):
        v = dict(dupemode='BAD', top='', aka='99:99/1', mid='', netextra='',
                 nodes='NODE 99:99/99 "" ""\nDEFAULTGROUP A\nAREAFIXINFO "TESTPASS" "A" "" ""\n'
                       'NODE 99:99/88 "" ""\nDEFAULTGROUP A\nAREAFIXINFO "TESTPASS" "A" "" ""\n'
                       'NODE 99:99/999 "" ""\nDEFAULTGROUP A\n',
                 routes='ROUTE "*:*/*" NODE 99:99/1',
                 areas='AREA "TESTAREA" 99:99/1.0 MSG "areas/testarea"\nEXPORT 99:99/99.0 99:99/999.0\nGROUP A\n')
        v.update(kw, D=s.d)
        s.write('crashmail.prefs', s.BASE.format(**v))

    def path(s, *p):
        return os.path.join(s.d, *p)

    def write(s, name, data):
        with open(s.path(name), 'wb') as fh:
            fh.write(data if isinstance(data, bytes) else data.encode('latin-1'))

    def read(s, name):
        with open(s.path(name), 'rb') as fh:
            return fh.read()

    def exists(s, name):
        return os.path.exists(s.path(name))

    def ls(s, d):
        return sorted(os.listdir(s.path(d)))

    def files(s, d='.'):
        out = []
        for r, _, fs in os.walk(s.path(d)):
            out += [os.path.relpath(os.path.join(r, f), s.d) for f in fs]
        return sorted(out)

    # ---- packets
    @staticmethod
    def pkthdr(orig, dest, pw=b''):
        oz, on, of, op = addr(orig)
        dz, dn, df, dp = addr(dest)
        h = struct.pack('<12H', of, df, 2024, 0, 1, 0, 0, 0, 0, 2, on, dn)
        h += bytes([0xfe, 0]) + pw.ljust(8, b'\0')[:8] + struct.pack('<4H', oz, dz, 0, 0x0100)
        h += bytes([0, 0]) + struct.pack('<5H', 1, oz, dz, op, dp) + b'\0' * 4
        assert len(h) == 58, len(h)
        return h

    @staticmethod
    def pktmsg(orig, dest, text, to='Test Sysop', frm='Test User', subj='subject', attr=0, area=None, msgid=None, seenby=None, path=None, origin=True,
               date='01 Jan 24  12:00:00'):
        oz, on, of, op = addr(orig)
        dz, dn, df, dp = addr(dest)
        m = struct.pack('<7H', 2, of, df, on, dn, attr, 0)
        for x in (date, to, frm, subj):
            m += x.encode('latin-1') + b'\0'
        b = ''
        if area:
            b += f'AREA:{area}\r'
        else:
            b += f'\x01INTL {dz}:{dn}/{df} {oz}:{on}/{of}\r'
            if op:
                b += f'\x01FMPT {op}\r'
            if dp:
                b += f'\x01TOPT {dp}\r'
        if msgid:
            b += f'\x01MSGID: {msgid}\r'
        b += text + '\r'
        if area and origin:
            b += f' * Origin: demo ({oz}:{on}/{of}.{op})\r'
        for x in seenby or ():
            b += f'SEEN-BY: {x}\r'
        for x in path or ():
            b += f'\x01PATH: {x}\r'
        return m + b.encode('latin-1') + b'\0'

    def packet(s, msgs, orig='99:99/99', dest='99:99/1', pw=b'', name=None, end=b'\0\0', d='spool/inbound'):
        s.n += 1
        name = name or f'{0x1000 + s.n:08x}.pkt'
        s.write(os.path.join(d, name), s.pkthdr(orig, dest, pw) + b''.join(msgs) + end)
        return name

    # ---- running
    def run(s, *args, prog='crashmail', inp=b'', env=None, timeout=60, ok=True):
        a = [os.path.join(BIN, prog)]
        if prog == 'crashmail':
            a += ['settings', 'crashmail.prefs']
        e = dict(os.environ, **(env or {}))
        r = subprocess.run(a + list(args), cwd=s.d, input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        s.out = r.stdout.decode('latin-1')
        s.rc = r.returncode
        if r.returncode < 0:
            fail(f'{prog} {" ".join(args)} died with signal {-r.returncode}')
        return s.out

    def toss(s, *a, **k):
        return s.run('toss', *a, **k)

    # ---- looking at results
    def msgs(s, d):
        return [x for x in s.ls(d) if x.endswith('.msg') and x != '1.msg']

    def netpkts(s, n=''):
        return [x for x in s.files('spool') if x.endswith('.out') or x.endswith('.cut') or x.endswith('.dut') or x.endswith('.hut')]

    def outmail(s):
        """destination node -> list of (header dict, text) of everything waiting in outbound and packet dir"""
        res = {}
        for f in s.files('spool'):
            if f.startswith('spool/inbound') or f.endswith('.bad'):
                continue
            data = s.read(f)
            if len(data) < 58 or data[18:20] != b'\x02\0':
                continue
            of, df = struct.unpack('<2H', data[:4])
            dn = struct.unpack('<H', data[22:24])[0]
            for m in parse(data):
                res.setdefault((dn, df), []).append(m)
        return res


def parse(data):
    out = []
    p = 58
    while p + 2 <= len(data):
        if data[p:p+2] == b'\0\0':
            break
        if data[p:p+2] != b'\x02\0' or p + 14 > len(data):
            out.append(('garbage', p))
            break
        h = struct.unpack('<7H', data[p:p+14])
        p += 14
        f = []
        for _ in range(5):
            e = data.find(b'\0', p)
            if e < 0:
                out.append(('truncated', p))
                return out
            f.append(data[p:e].decode('latin-1'))
            p = e + 1
        out.append({'onode': h[1], 'dnode': h[2], 'onet': h[3], 'dnet': h[4], 'attr': h[5], 'date': f[0], 'to': f[1], 'from': f[2], 'subj': f[3], 'text': f[4]})
    return out


def fail(msg):
    print('DEMO FAILED:', msg)
    sys.exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)


def cc(src, exe, *objs, flags=()):
    """compile a small program against the sources of the tree"""
    r = subprocess.run(['gcc', '-w', '-g', '-DPLATFORM_LINUX', '-I', TOP + '/src', '-o', exe, src] + list(flags) + list(objs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode()[-2000:])
        sys.exit(2)
