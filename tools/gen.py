"""Seeded generators of recordings.  They only produce bytes (and, for embedded
statistics and player lists, the abstract data the bytes were made from); what the
functions have to return for them is decided by TLC against spec/."""
import glob, json, os, random, struct

REAL = sorted(glob.glob('/repo/tests/files/*.mvd'))


def b(s):
    return s if isinstance(s, bytes) else s.encode('latin-1')


def hi(s):
    return bytes(c + 128 for c in b(s))


def le16(n):
    return struct.pack('<H', n & 0xffff)


def le32(n):
    return struct.pack('<I', n & 0xffffffff)


# ---------------------------------------------------------------- messages
def prt(level, text, end=b'\0'):
    return bytes([8, level]) + b(text) + end


def frag(slot, n):
    return bytes([14, slot]) + le16(n)


def ping(slot, ms, loss=0):
    return bytes([36, slot]) + le16(ms) + bytes([53, slot, loss])


def stuff(t):
    return b'\x09' + b(t) + b'\0'


def status(t):
    return b'\x34status\0' + b(t) + b'\0'


def user(slot, info, uid=None):
    uid = slot + 65 if uid is None else uid
    return bytes([40, slot]) + le32(uid) + b(info) + b'\0'


SPAWN = stuff('cmd spawn 7 0\n')
END = b'\x02EndOfDemo\0'
ABORT = hi('Match') + b' ' + hi('stopped') + b' ' + hi('by') + b' ' + hi('majority') + b' ' + hi('vote') + b'\n'


def serverinfo(text):
    return stuff(b('fullserverinfo "') + b(text) + b('"\n'))


def frame(dt, target, body=b'', slot=0, size=None, mask=None):
    h = bytes([dt, target + 8 * slot])
    if target == 3:
        h += le32(1 << slot if mask is None else mask)
    if target in (1, 3, 4, 5, 6):
        return h + le32(len(body) if size is None else size) + body
    if target == 2:
        return h + (body + bytes(8))[:8]
    return h


def hidden(dt, body, slot=0):
    return frame(dt, 3, body, slot, mask=0)


def block(number, payload, typ=3):
    return le32(len(payload) + 2) + le16(typ) + le16(number) + payload


def blocks(text, cuts, numbers=None):
    """frames of a document split at the given offsets"""
    parts = [text[x:y] for x, y in zip([0] + cuts, cuts + [len(text)])]
    out = []
    for i, p in enumerate(parts):
        out.append(hidden(0, block(0 if i == len(parts) - 1 else i + 1, p)))
    return out


# ---------------------------------------------------------------- vocabulary
DEATH = [" sleeps with the fishes", " sucks it down", " gulped a load of slime",
         " can't exist on slime alone", " burst into flames", " turned into hot slag",
         " visits the Volcano God", " cratered", " fell to his death", " fell to her death", " blew up",
         " was spiked", " was zapped", " ate a lavaball", " died", " tried to leave", " was squished"]
OWN = [" tries to put the pin back in", " becomes bored with life", " discovers blast radius",
       " electrocutes himself", " electrocutes herself", " railcutes himself", " railcutes herself",
       " discharges into the slime", " discharges into the lava", " discharges into the water",
       " heats up the water"]
TK = [" squished a teammate", " mows down a teammate", " checks his glasses", " checks her glasses",
      " gets a frag for the other team", " loses another friend"]
ATK = [" was telefragged by his teammate", " was telefragged by her teammate", " was crushed by his teammate",
       " was crushed by her teammate", " was jumped by his teammate", " was jumped by her teammate"]
KILL = [(" stomps ", ""), (" squishes ", ""), (" rips ", " a new one"), (" was ax-murdered by ", ""),
        (" softens ", "'s fall"), (" tried to catch ", ""), (" was crushed by ", ""), (" was jumped by ", ""),
        (" chewed on ", "'s boomstick"), (" was body pierced by ", ""), (" was nailed by ", ""),
        (" was railed by ", ""), (" was telefragged by ", ""), (" accepts ", "'s discharge"),
        (" drains ", "'s batteries"), (" was lead poisoned by ", ""), (" accepts ", "'s shaft"),
        (" ate 2 loads of ", "'s buckshot"), (" was perforated by ", ""), (" was punctured by ", ""),
        (" was ventilated by ", ""), (" ate 8 loads of ", "'s buckshot"),
        (" gets a natural disaster from ", ""), (" rides ", "'s rocket"), (" was gibbed by ", "'s rocket"),
        (" was straw-cuttered by ", ""), (" eats ", "'s pineapple"), (" was gibbed by ", "'s grenade"),
        (" was brutalized by ", "'s quad rocket"), (" was smeared by ", "'s quad rocket"),
        (" was hooked by ", "")]
RED, BLUE = hi('RED'), hi('BLUE')
FLAG = {
    'captures': [b' ' + hi('captured') + b' the ' + c + b' flag!\n' for c in (RED, BLUE)],
    'defends': [b' defends the ' + c + b' flag\n' for c in (RED, BLUE)],
    'carrier_aggr': [b' defends ' + c + b"'s flag carrier against an aggressive enemy\n" for c in (RED, BLUE)],
    'carrier_defends': [b' defends ' + c + b"'s flag carrier\n" for c in (RED, BLUE)],
    'pickups': [b' ' + hi('got') + b' the ' + c + b' flag!\n' for c in (RED, BLUE)],
    'returns': [b' ' + hi('returned') + b' the ' + c + b' flag!\n' for c in (RED, BLUE)],
    'carrier_frags': [b' gets an assist for returning his flag!\n',
                      b' gets an assist for fragging the flag carrier!\n'],
}
CONT = ('captures', 'pickups', 'returns')
NAMES = [b'ann', b'Bob', hi('cee'), b'\x10dan\x11', b'eve the bot', b'x', b'[ServeMe]', b'zoe' + hi('Z'),
         b'Ann', b'ANN', b'\x12\x13\x14', b'a b c', b'died', b"o'neil's", b'flag', b'name', b'-', b'0',
         b'\xe9\xe8', b'longest name there is in quake!', b'rocket', b'bot', hi('ann'), b'ann.', b'anna']
TRICKY = [b' was', b'by ', b'\xa0', b'q ', b' w', b'team mate', b'defends', b'the flag']
# a name that contains a piece of an obituary makes obituaries ambiguous: see DESIGN
PIECES = [b(p) for p in DEATH + OWN + [' suicides'] + TK + ATK + [x for mp in KILL for x in mp if x]]
TEAMS = [b'red', b'blue', b'Red', b'', hi('red'), b'tsq', b'-s-', b'\x10tot\x11', b'BLUE', b'A', b'a', b'b',
         hi('Zed'), hi('ant')]   # hi('Z') < hi('a') as bytes, not ignoring case
ZONES = None


def zones():
    global ZONES
    if ZONES is None:
        import re
        t = open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'Tables.tla')).read()
        ZONES = re.findall(r'<<"([A-Z]+)", -?\d+>>', t)
    return ZONES


# ---------------------------------------------------------------- small helpers
def pick(r, xs):
    return xs[r.randrange(len(xs))]


def chance(r, p):
    return r.random() < p


def vary(r, s, p=0.06):
    """now and then a relative of s: what a badly keyed or over-eager reader would take for s, and odd strings"""
    if not chance(r, p):
        return s
    t = b(s)
    k = r.randrange(20)
    i = r.randrange(len(t) + 1)
    out = [lambda: t + b' ', lambda: b' ' + t, lambda: t + b'  ', lambda: t.upper(), lambda: t.lower(), lambda: t.swapcase(),
           lambda: hi(t.replace(b'\xff', b'')) if all(c < 128 for c in t) else bytes(c & 127 for c in t).replace(b'\0', b'x'),
           lambda: t + t, lambda: t[:-1], lambda: t[1:], lambda: t[:i] + b'.' + t[i:], lambda: t[:i] + b':' + t[i:],
           lambda: t[:i] + b' ' + t[i:], lambda: t + t[-4:], lambda: t[:i] + bytes([r.randrange(1, 256)]) + t[i:],
           lambda: t[::-1], lambda: t + b'_', lambda: t[:i] + b'\t' + t[i:], lambda: b'x' * r.choice([63, 64, 65, 127, 128, 200, 300]),
           lambda: t + bytes([r.randrange(128, 160)])][k]()
    out = bytes(c for c in out if c not in (0, 10, 34, 92))
    return out if isinstance(s, bytes) else out.decode('latin-1')


def name(r, tricky=0.05):
    nm = vary(r, pick(r, TRICKY) if chance(r, tricky) else pick(r, NAMES), 0.04)
    return pick(r, NAMES) if any(p in nm for p in PIECES) else nm


def text(r, n=None, zero=False):
    n = r.choice([0, 1, 1, 2, 5, 9, 20, 60]) if n is None else n
    k = r.random()
    if k < 0.02 and n:
        s = pick(r, [b'"bot": {', b'"duration": 61,', b'\\name\\zed', b'x "bot": {"skill": 1}', b'EndOfDemo'])
    elif k < 0.6:
        s = bytes(r.randrange(32, 127) for _ in range(n))
    else:
        s = bytes(r.randrange(1, 256) for _ in range(n))
    return s + (b'\n' if chance(r, 0.5) else b'')


def noise(r):
    return pick(r, [b'\x07', b'\x03\x09\x09', b'\x3c\x01\x02\x03\x04', b'\x00', b'\x05', b'\x21abc\0',
                    b'\x08', b'\x08\x02', b'\x0e', b'\x0e\x01\x02', b'\x24\x01', b'\x1b\x00\x00'])


def quiet(r):
    """noise without the byte 8"""
    return pick(r, [b'\x07', b'\x03\x09\x09', b'\x3c\x01\x02\x03\x04', b'\x00', b'\x05', b'\x21abc\0',
                    frag(3, 5), ping(2, 33), status('9 min left'), b'\x1b\x00\x00'])


READ = (1, 3, 4, 5, 6)


def fr(r, body, target=None, dt=None):
    if target is None and chance(r, 0.02):
        return hide(r, body)
    t = r.choice([1, 3, 4, 5, 6, 6, 6, 6]) if target is None else target
    d = r.choice([0, 0, 1, 2, 13, 13, 14, 77, 255]) if dt is None else dt
    m = r.choice([1, 1, 1, 128, 256, 1 << 31, 1 << 16, 2 ** 32 - 1, 0x01010101, 0xff00]) if t == 3 else None
    return frame(d, t, body, r.randrange(32), mask=m)


def hide(r, body):
    """data that nobody is to hear"""
    k = r.randrange(6)
    if k == 0:
        body = le32(r.choice([8, 8, 14, 36, 292, 270, 264])) + le16(r.choice([6, 7, 3, 0])) + body
    elif k == 1:
        body = le32(8) + le16(6) + le16(1) + bytes([r.randrange(32), 0, 10, 0])
    return hidden(r.choice([0, 0, 1, 13, 255]), body, r.choice([0, 0, 0, 1, 31]))


def filler(r):
    k = r.randrange(6)
    if k == 5:
        return hide(r, pick(r, [frag(r.randrange(8), 3), ping(r.randrange(8), 44), prt(1, 'ann died\n'), prt(3, 'psst'),
                                prt(2, b'ann' + FLAG['captures'][0]), b'']))
    if k == 0:
        return frame(r.randrange(256), 0, slot=r.randrange(32))
    if k == 1:
        return frame(r.randrange(256), 7, slot=r.randrange(32))
    if k == 2:
        return frame(r.randrange(256), 2, bytes(r.randrange(256) for _ in range(8)), r.randrange(32))
    if k == 3:
        return fr(r, b'')
    return fr(r, noise(r) * r.randrange(1, 4))


def obit(r, a, c):
    k = r.randrange(12)
    if k < 5:
        m, p = pick(r, KILL)
        return a + b(m) + c + b(p)
    if k == 5:
        return a + b(pick(r, DEATH))
    if k == 6:
        return a + b(pick(r, OWN))
    if k == 7:
        return a + b' suicides'
    if k == 8:
        return a + b(pick(r, TK))
    return a + b(pick(r, ATK))


# ---------------------------------------------------------------- rosters
def num(r, odd):
    if not odd or chance(r, 0.7):
        return str(r.randrange(0, 14))
    return pick(r, ['007', '+4', '-1', '4x', '300', '2147483647', '2147483648', '-2147483648', '-2147483649',
                    '00000000000004', ' 4', '4 ', '0', '-0', '+0', '+', '-', '1.0', '99999999999', '256', '255'])


def userinfo(r, nm, team, spec=False, bot=False, auth=None, cc=None, odd=False, order=True):
    kv = []
    if team or (odd and chance(r, 0.2)):
        kv.append(('team', team))
    if not odd or chance(r, 0.8):
        kv += [('topcolor', num(r, odd)), ('bottomcolor', num(r, odd))]
    if spec:
        kv.append(('*spectator', '1' if not odd else pick(r, ['1', '1', '2', '0', '-1', 'x', '01'])))
    if bot:
        kv.append(('*bot', '1' if not odd else pick(r, ['1', '1', '7', '0', '-1', 'yes'])))
    if auth:
        kv.append(('*auth', auth))
    if cc:
        kv.append(('*flag', cc))
    if chance(r, 0.3):
        kv.append(('*client', pick(r, ['ezQuake 7190', 'FTE', ''])))
    if chance(r, 0.2):
        kv.append(('chat', pick(r, ['1', '2', '3', 'x'])))
    if chance(r, 0.3):
        kv.append(('pmodel', '13845'))
    if odd and chance(r, 0.3):
        kv.append((pick(r, ['Name', 'nam', 'names', 'TEAM', 'rate', 'team', 'bottomcolor']), pick(r, ['x', '1', 'zz'])))
    kv.append(('name', nm))
    if order and chance(r, 0.6):
        r.shuffle(kv)
    s = b''.join(b'\\' + b(k) + b'\\' + b(v) for k, v in kv)
    if odd:
        k = r.randrange(8)
        if k == 0:
            s = s + b'\\'
        elif k == 1:
            s = s + b' '
        elif k == 2:
            s = b' ' + s
        elif k == 3:
            s = s.replace(b'\\', b'\\\\', 1)
        elif k == 4:
            s = s + b'\\n'
        elif k == 5:
            s = s[:len(s) // 2] + b'"' + s[len(s) // 2:]
        elif k == 6:
            s = s + b'\\lonely'
    return s


def roster(r, n=None, odd=False, slots=None, tricky=0.03):
    """list of (slot, name, team, userinfo)"""
    n = r.choice([0, 1, 2, 2, 3, 4, 6, 8, 8, 12]) if n is None else n
    if slots is None:
        k = r.randrange(4)
        slots = list(range(n)) if k == 0 else sorted(r.sample(range(32), min(n, 32))) if k < 3 \
            else r.sample(range(32), min(n, 32))
        if k == 3 and chance(r, 0.3):
            slots = [r.randrange(256) for _ in range(n)]
    teams = r.sample(TEAMS, r.choice([1, 2, 2, 2, 3]))
    if chance(r, 0.15):
        teams.append(vary(r, teams[0], 1))
    out = []
    for s in slots[:n]:
        nm, tm = name(r, tricky), pick(r, teams)
        if out and chance(r, 0.05):
            nm = vary(r, out[-1][1], 1)
        info = userinfo(r, nm, tm, chance(r, 0.15), chance(r, 0.15),
                        pick(r, ['bob:7', 'x', 'd\xe9']) if chance(r, 0.3) else None,
                        pick(r, ['fi', 'se', 'none']) if chance(r, 0.3) else None, odd)
        out.append((s, nm, tm, info))
    return out


def preamble(r, ros, si=None, spawn=True, split=None):
    out = b''
    body = b''
    if si is not None:
        body += serverinfo(si)
    if spawn:
        body += SPAWN
    for (s, _, _, info) in ros:
        body += user(s, info)
        if chance(r, 0.3):
            body += pick(r, [frag(s, r.randrange(-3, 9)), ping(s, r.randrange(400)), bytes([1] * r.randrange(40)),
                             b'\x35' + bytes([s, 0])])
        if chance(r, 0.1) if split is None else split:
            out += fr(r, body, pick(r, [1, 4, 5, 6]), 0)
            body = b''
    return out + fr(r, body, pick(r, [1, 4, 5, 6]), 0)


# ---------------------------------------------------------------- families
def fam_prints(r):
    d = b''
    last = None
    for _ in range(r.choice([1, 2, 3, 4, 6, 10, 20])):
        k = r.randrange(10)
        if k == 0:
            d += filler(r)
            continue
        body = b''
        if k == 1:
            body += noise(r)
        for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
            if last and chance(r, 0.25):
                body += prt(*last)
                continue
            lv = r.choice([0, 1, 2, 3, 0, 1, 2, 3, 4, 8, 128, 255])
            last = (lv, text(r, r.choice([0, 0, 1, 1, 3, 12, 40])))
            if chance(r, 0.05):
                last = (lv, b'a' * r.choice([254, 255, 256, 257, 1023, 1024, 2000]))
            body += prt(*last)
            if chance(r, 0.08):
                body += noise(r)
        if chance(r, 0.12):
            body = body[:-1] if chance(r, 0.5) else body + bytes([8])
        if chance(r, 0.05):
            body += bytes([8, 2]) + b'unterminated'
        d += fr(r, body)
    if chance(r, 0.2):
        d = d[:r.randrange(len(d) + 1)]
    return {'d': d}


def big_prints(r):
    """bodies beyond 64 KB and many frames"""
    body = prt(2, b'x' * 30000) + prt(3, b'y' * 40000) + prt(0, 'last')
    a = fr(r, body) + fr(r, prt(1, 'after'))
    many = b''.join(frame(1, 6, prt(r.randrange(4), str(i)), r.randrange(32)) for i in range(700))
    ident = b''.join(frame(1, 6, prt(2, 'same'), 0) for i in range(300)) + fr(r, prt(3, 'same'))
    run = fr(r, b''.join(prt(i % 4, 'r%d' % (i // 2)) for i in range(400)))
    huge = fr(r, prt(2, b'z' * 70000) + prt(1, 'next')) + frame(1, 6, prt(2, b'z' * 70000)) + fr(r, prt(3, b'w' * 65535) + prt(3, b'w' * 65536))
    return [{'d': a}, {'d': many}, {'d': ident}, {'d': run}, {'d': huge}, {'d': fr(r, prt(0, 'a') + prt(0, 'b')) * 33000}]


def fam_frags(r):
    ros = roster(r, tricky=0.1)
    d = b'' if chance(r, 0.08) else preamble(r, ros, spawn=not chance(r, 0.05))
    pool = [x[1] for x in ros] + [name(r, 0.2) for _ in range(2)]
    slots = [x[0] for x in ros] + [r.randrange(32)]
    for _ in range(r.choice([1, 3, 6, 12, 25])):
        k = r.randrange(14)
        o = obit(r, pick(r, pool), pick(r, pool))
        if k == 0:
            d += filler(r)
        elif k == 1:
            d += fr(r, frag(pick(r, slots), r.randrange(-5, 99)))
        elif k == 2:     # other levels, other places
            d += fr(r, prt(r.choice([0, 2, 3, 4, 255]), o + b'\n'))
        elif k == 3:
            d += fr(r, prt(pick(r, [0, 1, 2, 3]), text(r)) + prt(1, o + b'\n'))
        elif k == 4:
            d += fr(r, noise(r) + prt(1, o + b'\n'))
        elif k == 5:     # near misses
            d += fr(r, prt(1, pick(r, [o[:-1], o[1:], o + b'x', o.replace(b' ', b'  '), o.upper(), b' ' + o,
                                       o + b' ' + o, o + b'\n' + o, o + b'\r\n', o + b' \n \n', text(r)])))
        elif k == 6:
            d += fr(r, prt(1, o + b'\n', b'') if chance(r, 0.4) else prt(1, b'') + prt(1, o))
        else:
            body = prt(1, o + pick(r, [b'\n', b'\n', b'\n', b'', b' \n', b'\n\n']))
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                body += pick(r, [frag(pick(r, slots), r.randrange(-5, 99)), prt(1, obit(r, pick(r, pool), pick(r, pool))),
                                 noise(r), frag(pick(r, slots), 65535)])
            d += fr(r, body)
    if chance(r, 0.15):
        d = d[:r.randrange(len(d) + 1)]
    return {'d': d}


def all_obituaries(r):
    """every phrase, with every pair of a few names"""
    out = []
    names = [b'ann', hi('bob'), b"o'neil's", b'a b', b'died', b'rocket', b'by', b"y z's", b' was']
    texts = []
    for a in names:
        texts += [a + b(p) for p in DEATH + OWN + [' suicides'] + TK + ATK]
        for c in names[:5]:
            texts += [a + b(m) + c + b(p) for m, p in KILL]
    r.shuffle(texts)
    per = 12
    for i in range(0, len(texts), per):
        out.append({'d': b''.join(fr(r, prt(1, t + b'\n')) for t in texts[i:i + per])})
    return out


def many_frags(r):
    ros = [(0, b'ann', b'red', b'\\name\\ann\\team\\red'), (3, b'bob', b'red', b'\\name\\bob\\team\\red'),
           (7, b'cee', b'blue', b'\\name\\cee\\team\\blue')]
    d = preamble(r, ros)
    for i in range(300):
        d += frame(1, 6, prt(1, "ann rides bob's rocket\n"), 0)
    for i in range(140):
        d += frame(1, 6, prt(1, 'cee suicides\n'), 0)
    for i in range(260):
        d += frame(1, 6, prt(1, 'ann was telefragged by his teammate\n') + frag(3, -i), 0)
    # beyond 16 bits
    return [{'d': d}, {'d': frame(1, 6, prt(1, "ann rides bob's rocket\n")) * 33000
                      + frame(1, 6, prt(1, "bob suicides\n")) * 16500 + frame(1, 6, prt(1, "ann died")) * 100}]


def fam_teamkill(r):
    """anonymous team kills, with updates in every position"""
    n = r.choice([2, 3, 4, 5])
    slots = sorted(r.sample(range(12), n))
    if chance(r, 0.3):
        r.shuffle(slots)
    teams = r.sample([b'red', b'blue', b'', b'Red'], 2)
    names = r.sample(NAMES[:8], n)
    if chance(r, 0.2):
        names[-1] = names[0]
    ros = [(s, nm, pick(r, teams), None) for s, nm in zip(slots, names)]
    ros = [(s, nm, t, userinfo(r, nm, t, chance(r, 0.12), chance(r, 0.1))) for s, nm, t, _ in ros]
    d = preamble(r, ros, split=False)
    some = slots + [r.randrange(32), 8]
    for _ in range(r.choice([1, 1, 2, 3])):
        v = pick(r, names + [b'stranger'])
        d += fr(r, prt(1, v + b(pick(r, ATK)) + b'\n') + pick(r, [b'', frag(pick(r, some), r.randrange(-9, 9)),
                                                                     noise(r), noise(r) + frag(pick(r, some), 1),
                                                                     prt(1, 'x\n') + frag(pick(r, some), 1)]))
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            k = r.randrange(8)
            if k <= 3:
                d += fr(r, frag(pick(r, some), r.randrange(-9, 30)) + pick(r, [b'', frag(pick(r, some), 2), noise(r)]))
            elif k == 4:
                d += pick(r, [fr(r, b''), frame(9, 7), frame(9, 0), frame(9, 2, bytes([14, slots[0], 1, 0, 0, 0, 0, 0])),
                              hide(r, b''), hide(r, frag(pick(r, some), 3)), hide(r, prt(1, b'x'))])
            elif k == 5:
                d += fr(r, noise(r) + frag(pick(r, some), 3))
            elif k == 6:
                d += fr(r, prt(1, pick(r, names) + b(pick(r, ATK)) + b'\n'))
            else:
                d += fr(r, pick(r, [ping(slots[0], 9), b'\x0e' + bytes([slots[0]]), b'\x0e' + bytes([slots[0], 1]), prt(2, 'gg')]))
    if chance(r, 0.15):
        d = d[:r.randrange(len(d) + 1)]
    return {'d': d}


def announcement(r, who):
    k = pick(r, list(FLAG))
    t = pick(r, FLAG[k])
    if k in CONT and chance(r, 0.6):
        return prt(2, who) + prt(2, t)
    return prt(2, who + t)


def fam_flags(r):
    pool = [pick(r, NAMES[:12]) for _ in range(3)]
    pool = [p for p in pool if 8 not in p]
    d = b''
    for _ in range(r.choice([1, 2, 4, 8, 16])):
        k = r.randrange(10)
        if k == 0:
            d += pick(r, [frame(9, 7), fr(r, b''), fr(r, quiet(r))])
            continue
        body = b''
        for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
            j = r.randrange(15)
            who = pick(r, pool)
            if j < 8:
                body += announcement(r, who)
            elif j == 8:
                body += prt(pick(r, [0, 1, 3, 4, 255]), who + pick(r, FLAG[pick(r, list(FLAG))]))
            elif j == 9:
                body += prt(2, pick(r, [b'the flag is lost\n', b'Base 1\n', b'red flag!\n', who + b' has flag\n',
                                        b'Fight!\n', who + b' defends the flag\n', b'', b'Match over\n']))
            elif j == 10:
                t = pick(r, FLAG[pick(r, list(FLAG))])
                body += prt(2, pick(r, [who + t[:-1] + b'\n\n', who + t[1:], who + t.upper(), who + t + b'\n',
                                        t.lstrip(b' '), who + t[:-2] + b'\n']))
            elif j == 11:
                body += quiet(r)
            elif j == 14:     # a name, then a line that only contains an announcement
                t = pick(r, FLAG[pick(r, list(FLAG))])
                body += prt(2, who) + prt(2, pick(r, [who + t[:-1], who + t + b'!', who + t[:-1] + b' twice\n', t + t, t[:-1] + b' ', t[:-2]]))
                body += prt(2, pick(r, [b'\n', b'gg\n', t, pick(r, FLAG[pick(r, list(CONT))])]))
            elif j == 12:     # a name and continuation interrupted by other prints
                t = pick(r, FLAG[pick(r, list(CONT))])
                body += prt(2, who) + pick(r, [quiet(r), prt(1, 'x\n'), prt(3, 'chat'), prt(2, '')]) + prt(2, t)
            else:
                body += prt(2, who + b'\n') + prt(2, pick(r, FLAG[pick(r, list(CONT))]))
        if chance(r, 0.1):
            body = body[:-1]
        d += fr(r, body)
    if chance(r, 0.15):
        d = d[:r.randrange(len(d) + 1)]
    return {'d': d}


def all_flags(r):
    """every text, whole and split at the name, alone and in one frame"""
    out = []
    ms = []
    for k in FLAG:
        for t in FLAG[k]:
            for who in (b'ann', b'\x10dan\x11', b'a b c'):
                ms.append(prt(2, who + t))
                if k in CONT:
                    ms.append(prt(2, who) + prt(2, t))
    for i in range(0, len(ms), 6):
        out.append({'d': b''.join(fr(r, m) for m in ms[i:i + 6])})
        out.append({'d': fr(r, b''.join(ms[i:i + 6]))})
    out.append({'d': fr(r, b''.join(ms))})
    out.append({'d': b''.join(frame(1, 6, prt(2, b'ann' + FLAG['captures'][0]), 0) for _ in range(260))
                + fr(r, b''.join(prt(2, b'bob' + FLAG['pickups'][1]) for _ in range(257)))})
    out.append({'d': frame(1, 6, prt(2, b'ann' + FLAG['returns'][0]) * 4) * 16400 + fr(r, prt(2, b'ann' + FLAG['returns'][1]))})
    out.append({'d': fr(r, b'\x05' * 66000 + prt(2, b'ann' + FLAG['defends'][0]))})
    return out


def fam_pings(r):
    slots = [r.randrange(32) for _ in range(r.choice([1, 2, 4]))] + ([255] if chance(r, 0.1) else [])
    d = b''
    for _ in range(r.choice([0, 1, 3, 7, 8, 9, 10, 14])):
        k = r.randrange(10)
        if k == 0:
            d += filler(r)
        elif k == 1:
            d += fr(r, noise(r) + ping(pick(r, slots), 500))
        elif k == 2:
            d += fr(r, pick(r, [frag(pick(r, slots), 4), prt(2, 'x')]) + ping(pick(r, slots), 77))
        elif k == 3:
            d += fr(r, bytes([36]) + bytes(r.randrange(0, 4)) if chance(r, 0.5) else bytes([36, pick(r, slots), 5, 0, 53]))
        else:
            body = b''
            for _ in range(r.choice([1, 1, 2, 4, 8])):
                body += ping(pick(r, slots), r.choice([0, 1, 12, 13, 25, 26, 255, 256, 666, 999, 32768, 65535]),
                             r.randrange(256))
            if chance(r, 0.2):
                body += pick(r, [frag(1, 1), bytes([53, 1, 0]), noise(r)]) + ping(pick(r, slots), 400)
            if chance(r, 0.2):
                body = body[:-r.randrange(1, 7)]
            d += fr(r, body)
    if chance(r, 0.2):
        d = d[:r.randrange(len(d) + 1)]
    return {'d': d}


def many_pings(r):
    run = b''.join(ping(i % 3, 60000 + i) for i in range(900))
    return [{'d': fr(r, run) * 10}, {'d': fr(r, ping(0, 65535)) * 20},
            {'d': b''.join(fr(r, ping(i, 10 * i)) for i in range(12))},
            {'d': b''.join(fr(r, ping(i, 7 * i)) for i in range(255, -1, -1))},
            {'d': fr(r, b''.join(ping(i, 65535 - i) for i in range(256))) * 9},
            # sums near 31 bits, counts beyond 16
            {'d': frame(1, 6, ping(4, 65535) * 4000 + ping(5, 65534)) * 9},
            {'d': frame(1, 6, ping(4, 20000) * 9000 + ping(5, 65534)) * 9}]


def date_text(r, good=0.7):
    if chance(r, good):
        z = pick(r, zones()) if chance(r, 0.7) else pick(r, ['+0200', '-0330', '+05:30', '-11', '+02', '+1200',
                                                            '-1200', '+1201', '-1300', '+0060', '+0059', '-00:01'])
        y = r.choice([2024, 2023, 2000, 1999, 1970, 2038, 2100, 2106, 1969, 1900, 9999, 1])
        mo = r.randrange(1, 13)
        dd = r.choice([1, 15, 28, 29, 30, 31, r.randrange(1, 32)])
        h, mi, s = r.choice([(0, 0, 0), (23, 59, 59), (r.randrange(24), r.randrange(60), r.randrange(60))])
        if chance(r, 0.1):
            mo, dd, h, mi, s = r.choice([(0, 1, 0, 0, 0), (13, 1, 0, 0, 0), (2, 29, 1, 1, 1), (2, 30, 1, 1, 1),
                                         (4, 31, 0, 0, 0), (1, 0, 0, 0, 0), (1, 32, 0, 0, 0), (1, 1, 24, 0, 0),
                                         (1, 1, 0, 60, 0), (1, 1, 0, 0, 61), (1, 1, 0, 0, 60), (2, 31, 23, 59, 59)])
        return '%04d-%02d-%02d %02d:%02d:%02d %s' % (y, mo, dd, h, mi, s, z)
    t = '2024-04-26 16:59:34 CEST'
    return pick(r, ['', 'x', t.lower(), t[:-1] + 'X', t + ' ', ' ' + t, t.replace('-', '/'), t.replace(' ', 'T', 1),
                    t + ' +0200', t[:19], t[:-4] + 'XYZ', t[:-4] + 'GMT+2', '24-04-26 16:59:34 CEST',
                    'Fri Apr 26, 16:59:34 2024', t[:-4] + '\xe9\xe8', t[:-4] + '+02000', t[:-4] + '+2:00',
                    t[:-4] + '02:00', t[:-4] + 'CES', '2024-4-26 16:59:34 CEST', '2024-04-26  16:59:34 CEST',
                    t[:-4] + '+O200', t[:-4] + 'cest', t[:-4] + 'UTC', t + 'X', t[:-4] + '+-200', '\xc3\xa9' + t[2:]])


SETTINGS = ['*admin', 'deathmatch', 'epoch', 'fpd', 'fraglimit', '*gamedir', 'hostname', 'ktxmode', 'ktxver', 'map',
            'matchtag', 'maxclients', 'maxfps', 'maxspectators', 'mode', 'needpass', 'pm_ktjump', '*progs', '*qvm',
            'status', 'serverdemo', 'sv_antilag', 'teamplay', 'timelimit', '*version', '*z_ext']
INTS = {'deathmatch', 'epoch', 'fpd', 'fraglimit', 'maxclients', 'maxfps', 'maxspectators', 'needpass', 'pm_ktjump',
        'sv_antilag', 'teamplay', 'timelimit', '*z_ext'}


def info_text(r, odd=False, force=()):
    keys = r.sample(SETTINGS, r.randrange(0, 12)) if chance(r, 0.8) else list(SETTINGS)
    kv = []
    for k in keys:
        if k == 'mode':
            v = pick(r, ['2on2', 'hoonymode', 'duel', 'ctf', 'HOONYMODE', 'hoony'])
        elif k == 'serverdemo':
            v = pick(r, ['duel_a_vs_b[dm6].mvd', 'x', hi('red') + b'.mvd', '\x10team\x11.mvd', 'a.mvd.mvd', 'a.MVD', '.mvd', 'a.mvd.gz', 'demos/a.mvd', 'a b.mvd'])
        elif k == 'epoch':
            v = pick(r, ['1714143574', '0', '1', '-1', '2147483647', '2147483648', '-86401', '86399', 'x', '1714143574.5', '+5'])
        elif k in INTS:
            v = num(r, odd)
        else:
            v = pick(r, ['ktx', 'dm3', '9 min left', hi('Red') + b' \x10x\x11', '1.42', 'a "b', 'x' * 40, '\x05\x1c'])
            v = b(v).replace(b'"', b'')
        kv.append((k, vary(r, b(v), 0.12)))
    kv += list(force)
    if odd:
        kv.append((pick(r, ['rate', 'Map', 'maps', 'map', 'hostname', 'epoch2', hi('map')]), pick(r, ['1', 'zz'])))
        if chance(r, 0.3):
            kv.append(pick(r, [('map', ''), ('', 'x'), ('hostname', ' y '), ('maxfps', '')]))
    if chance(r, 0.12):    # a long string; special characters, the zero byte included
        kv += [(pick(r, ['gamma', 'motd', 'k_x', 'Xmode']), bytes(r.choice([c for c in range(256) if c not in (34, 92)])
                                                               for _ in range(r.choice([30, 200, 450, 700, 800, 1000]))))]
    r.shuffle(kv)
    s = b''.join(b'\\' + b(k) + b'\\' + b(v) for k, v in kv)
    if odd:
        s = pick(r, [s, s, s + b'\\', s + b'\\n', b' ' + s, s + b'\n', s + b' ', s[1:], s + b'\\x', hi('\\') + s,
                     s.replace(b'\\', b'\\\\', 1), s.replace(b'\\', hi('\\'), 1), b'\\' + s, s + b'\\n\\n'])
    return s


def fam_serverinfo(r):
    odd = chance(r, 0.5)
    t = info_text(r, odd)
    body = serverinfo(t)
    k = r.randrange(8)
    pre = b''
    if k == 0:
        pre = fr(r, bytes([1] * r.randrange(0, 1400)))
    elif k == 1:
        pre = fr(r, prt(2, 'fullserverinfo ') + prt(2, 'x fullserverinfo"'))
    elif k == 2:
        want = 1280 - len(body) + 3 - 6 - 6 + r.randrange(-4, 5)
        pre = fr(r, bytes([1] * max(0, want)), 1)
    if k == 3:
        body = body[:r.randrange(len(body) + 1)]
    elif k == 4:
        body = body + serverinfo(info_text(r, odd))
    elif k == 5:
        body = stuff(b'fullserverinfo "' + t + b'\n') + pick(r, [b'', serverinfo(info_text(r))])
    d = pre + fr(r, body, pick(r, [1, 4, 5, 6]), 0)
    if chance(r, 0.3):
        d += fr(r, prt(2, b'matchdate: ' + b(date_text(r)) + b'\n'))
    return {'d': d}


MARKS = [('date', lambda r: prt(2, b'matchdate: ' + b(date_text(r, 0.9)) + b'\n')),
         ('over', lambda r: prt(2, 'The match is over\n')),
         ('standby', lambda r: status('Standby')),
         ('left', lambda r: status(pick(r, ['9 min left', 'Countdown', 'standby', 'Standby ', 'Standb', '']))),
         ('near', lambda r: prt(2, pick(r, ['The match is ove', 'the match is over\n', 'matchdate:\n', 'matchdate : \n',
                                            'The match is\n']))),
         ('otherdate', lambda r: prt(pick(r, [1, 3]), b'matchdate: ' + b(date_text(r)) + b'\n')),
         ('chatover', lambda r: prt(3, 'ann: The match is over\n')),
         ('print', lambda r: prt(pick(r, [0, 1, 2, 3]), text(r)))]


def fam_clock(r):
    d = b''
    if chance(r, 0.6):
        d += preamble(r, roster(r, 2), info_text(r, False, force=[('mode', pick(r, ['hoonymode', 'duel', '4on4']))]
                                               if chance(r, 0.6) else ()))
    n = r.choice([1, 3, 6, 12, 30])
    for _ in range(n):
        k = r.randrange(10)
        if k < 3:
            d += filler(r)
        elif k < 8:
            body = b''
            for _ in range(r.choice([1, 1, 2, 3])):
                body += pick(r, MARKS)[1](r)
            if chance(r, 0.15):
                body = noise(r) + body
            d += fr(r, body, dt=r.randrange(256))
        else:
            d += b''.join(frame(r.randrange(256), pick(r, [0, 7, 2]), bytes(8)) for _ in range(r.randrange(1, 9)))
    if chance(r, 0.35):
        doc = stats_doc(r)
        at = d
        d = at + b''.join(blocks(doc['text'], cuts_of(r, doc['text']))) if chance(r, 0.7) else at
        if chance(r, 0.5):
            d += fr(r, pick(r, MARKS)[1](r))
    if chance(r, 0.1):
        d = d[:r.randrange(len(d) + 1)]
    return {'d': d}


def long_clock(r):
    run = b''.join(frame(255, 7) for _ in range(6000))
    pr = lambda t: frame(13, 6, prt(2, t))
    date = pr('matchdate: 2024-04-26 16:59:34 CEST\n')
    over = pr('The match is over\n')
    stby = frame(3, 6, status('Standby'))
    hours = b''.join(frame(r.randrange(200, 256), 7) for _ in range(70000))     # beyond 2^24 ms, 2^16 frames
    return [{'d': hours + over + run[:20]}, {'d': run}, {'d': run[:4000] + date + run + over + run[:600]}, {'d': date + run + stby + run[:1000]},
            {'d': over + run + date}, {'d': stby + run + over + run[:200] + stby + over + run[:20] + date + date},
            {'d': date + over}, {'d': over + date}, {'d': stby}, {'d': date}, {'d': b''},
            {'d': frame(255, 2, b'The matc')}, {'d': run[:200] + b'\x05'}, {'d': run[:200] + b'\x05\x06\x02\x00\x00\x00a'}]


# ---------------------------------------------------------------- statistics
def cps(s):
    return [ord(c) for c in s]


def jstr(r, s):
    return json.dumps(s, ensure_ascii=chance(r, 0.5))


def stats_doc(r, nplayers=None, usable=None, durations=None):
    """a statistics document in the servers' format and what it says"""
    def nm():
        return pick(r, ['ann', 'Bob', 'c\u00e9e', '\u00f2\u00e5\u00e4', 'x "q" \\', 'ann', '', 'ANN', 'zoe', '\u0010dan\u0011', 'a b',
                        ', "duration": 5,', '\u00e1\u00ee\u00ee'])
    n = r.choice([0, 1, 2, 2, 4, 8]) if nplayers is None else nplayers
    teams = r.sample(['red', 'blue', '', 'Red', '\u00f2\u00e5\u00e4', 'tsq', '\u00da\u00e5', '\u00e1\u00ee'], r.choice([1, 2, 2, 3]))
    uv = lambda s: vary(r, s, 0.1) if all(ord(c) < 256 for c in s) else s
    if chance(r, 0.2):
        teams.append(uv(teams[0]) if chance(r, 0.5) else teams[0] + ' ')
    dur = r.choice([0, 1, 600, 1200, 1199, 999999])
    ps, pj = [], []
    for _ in range(n):
        tc, bc = r.choice([4, 13, 0, 12]), r.choice([4, 13, 0, 12])
        if chance(r, 0.05):
            tc = r.choice([-1, 256, 255, 1000])
        p = {'name': uv(nm()), 'team': pick(r, teams), 'top-color': tc, 'bottom-color': bc,
             'ping': r.choice([0, 12, 13, 10, 25, 26, 9, 11, -1, 700, 65550]), 'login': pick(r, ['', '', 'ann', 'b\u00e9', ' '])}
        fr_ = r.choice([-3, 0, 5, 5, 12, 47, 300])
        st = {'frags': fr_, 'deaths': r.randrange(9), 'tk': 0, 'spawn-frags': 1, 'kills': 3, 'suicides': 0}
        if chance(r, 0.2):
            items = list(st.items()); r.shuffle(items); st = dict(items)
        if chance(r, 0.05):
            del st['frags']; fr_ = 0
        p['stats'] = st
        if chance(r, 0.05):
            del p['stats']; fr_ = 0
        bot = chance(r, 0.2)
        if bot:
            p['bot'] = {'skill': r.randrange(0, 20), 'customised': chance(r, 0.5)}
            if chance(r, 0.4):
                p['bot'] = dict(reversed(p['bot'].items()))
        if chance(r, 0.3):
            items = list(p.items()); r.shuffle(items); p = dict(items)
        if chance(r, 0.3):
            p['weapons'] = {'rl': {'acc': {'attacks': 3, 'hits': 1}}}
        ps.append([cps(p['name']), cps(p['team']), [tc, bc], fr_, p['ping'], bot, cps(p['login'])])
        pj.append(p)
    doc = {'version': 3, 'date': '2024-04-26 17:09:29 +0200', 'map': uv(pick(r, ['dm6', 'br\u00e5vado', ''])),
           'hostname': uv(pick(r, ['quake.se KTX:28501', 'h\u00f6st', '"q"', '\u0142\u20ac \U0001f600'])),
           'ip': uv(pick(r, ['46.227.68.148', '::1', '', '10.0.0.1:28501', '2001:db8::7', 'quake.se'])),
           'port': r.choice([28501, 0, 65535, 1]), 'mode': uv(pick(r, ['duel', 'team', 'ctf', 'hoonymode'])),
           'tl': r.choice([10, 20, 0]), 'dm': 3, 'tp': r.choice([0, 2]), 'duration': dur,
           'demo': uv('duel_a_vs_b[dm6].mvd'), 'teams': [t for t in teams if t], 'players': pj}
    h, mi, s = r.randrange(24), r.randrange(60), r.randrange(60)
    days = [('2024-04-26', 19839), ('1999-12-31', 10956), ('2024-02-29', 19782)][r.randrange(3)]
    off = r.choice([('+0200', 7200), ('-0330', -12600), ('+0000', 0)])
    doc['date'] = '%s %02d:%02d:%02d %s' % (days[0], h, mi, s, off[0])
    secs = days[1] * 86400 + h * 3600 + mi * 60 + s - off[1]
    keys = [k for k in doc if k != 'version']
    missing = []
    if chance(r, 0.25):
        missing = [k for k in r.sample(keys, r.randrange(1, 4)) if k != 'date']
        keys = [k for k in keys if k not in missing]
    if chance(r, 0.3):
        r.shuffle(keys)
    parts = ['"version": %d' % doc['version']]
    for k in keys:
        v = json.dumps(doc[k], ensure_ascii=chance(r, 0.5), indent=pick(r, [None, None, 1]))
        parts.append('"%s": %s' % (k, v))
    if chance(r, 0.2):
        parts.insert(r.randrange(1, len(parts) + 1), '"unknown": [1, {"x": null}]')
    sep = pick(r, [', ', ',\n', ','])
    t = '{' + sep.join(parts) + pick(r, ['}', '}\n', '}\n\n '])
    dflt = {'map': '', 'hostname': '', 'ip': '', 'port': 0, 'mode': '', 'tl': 0, 'dm': 0, 'tp': 0, 'duration': 0,
            'demo': '', 'teams': [], 'players': []}
    val = lambda k: dflt[k] if k in missing else doc[k]
    know = {'version': 3, 'date': [secs // 86400, secs % 86400], 'players': [] if 'players' in missing else ps,
            'teams': [cps(x) for x in val('teams')]}
    for k in ('map', 'hostname', 'ip', 'mode', 'demo'):
        know[k] = cps(val(k))
    for k in ('port', 'tl', 'dm', 'tp', 'duration'):
        know[k] = val(k)
    tb = t.encode('utf-8')
    use = chance(r, 0.75) if usable is None else usable
    if use:
        return {'text': tb, 'know': {'stats': know}}
    k = r.randrange(9)
    if k == 0:
        tb = tb[:r.randrange(12, max(13, tb.rstrip().rfind(b'}')))]
    elif k == 1:
        tb = tb.replace(b'"version": 3', b'"version": "3"')
    elif k == 2:
        tb = tb.rstrip() + b'}'
    elif k == 3:
        tb = b'{"version": 3, "players": 7, "duration": 61, "map": "x"}'
    elif k == 4:
        tb = b'{"version": 3, "date": "yesterday", "duration": 12.5, "map": "x"}'
    elif k == 5:
        tb = b'{"version": -1, "duration": 77, "x": 1}'
    elif k == 6:
        tb = b'{"version": 3, "duration": %s, "x": 1' % pick(r, [b'600', b'1.234', b'0.5', b'12.', b'-5', b'abc', b'1e3', b'', b'007',
                                                                 b'600.0001', b'0', b'-0', b'0.001', b'99999.999'])
    elif k == 7:
        tb = b'{"version": 3, "players": [{"name": 5}], "duration": 3, "x": 1}'
    else:
        tb = b'{"version": 3, "duration": 600 , "ip": 5, "y": "\xff\xfe"}'
    return {'text': tb, 'know': {'unusable': True}}


def cuts_of(r, t):
    lo = 12
    n = r.choice([0, 0, 1, 1, 2, 5])
    if chance(r, 0.15):     # through a word that a reader of raw bytes might look for
        at = t.find(pick(r, [b'"bot": ', b'"duration": ', b'"players": ', b'"date": ', b'"bot": null']))
        if at >= lo:
            return sorted([at + r.randrange(1, 8)] + [r.randrange(lo, len(t) + 1) for _ in range(r.randrange(2))])
    return sorted(r.randrange(lo, len(t) + 1) for _ in range(n)) if len(t) > lo else []


def fam_stats(r):
    pre = b''
    if chance(r, 0.5):
        pre += preamble(r, roster(r), info_text(r) if chance(r, 0.7) else None)
    if chance(r, 0.5):
        pre += fr(r, ping(r.randrange(8), r.randrange(300)) + ping(r.randrange(8), 13))
    if chance(r, 0.3):
        old = stats_doc(r)
        pre += b''.join(blocks(old['text'], cuts_of(r, old['text'])))
    doc = stats_doc(r)
    fs = blocks(doc['text'], cuts_of(r, doc['text']))
    if chance(r, 0.1):      # whoever the blocks are addressed to
        fs = [f[:2] + le32(r.choice([0, 1, 1 << 20, 2 ** 32 - 1])) + f[6:] for f in fs]
    know = doc['know']
    k = r.randrange(12)
    if k == 0 and len(fs) > 1:
        fs.insert(r.randrange(1, len(fs)), pick(r, [filler(r), fr(r, prt(2, 'x')), hidden(0, block(1, b'\1\2', 1)), hidden(0, b''), frame(0, 3, block(1, b'{}'))]))
        know = None
    elif k == 1:
        fs = [b''.join(fs)[:r.randrange(len(b''.join(fs)))]]
        know = None
    elif k == 2:
        typ = r.choice([0, 1, 2, 4, 259])
        fs = [hidden(0, block(0, doc['text'], typ))]
        know = None
    elif k == 3:      # the opening is not inside a block
        fs = [pick(r, [fr(r, prt(2, doc['text'])), doc['text'], fr(r, doc['text'])])]
        know = None
    elif k == 4 and len(fs) > 1:
        fs = fs[:-1]
        know = None
    d = pre + b''.join(fs)
    for _ in range(r.choice([0, 0, 1, 3])):
        d += pick(r, [fr(r, prt(2, 'gg')), filler(r), fr(r, END)])
    rec = {'d': d}
    if know is not None and d.rfind(b'{"version": ') == len(pre) + 18:
        rec['know'] = know
    return rec


def big_stats(r):
    out = []
    doc = stats_doc(r, 8, True)
    pad = b', "pad": "' + b'x' * 70000 + b'"'
    t = doc['text'].rstrip()
    t = t[:-1] + pad + b'}'
    for cuts in ([], [30000, 60000], [12, 13, 14, 65548], [66000]):
        out.append({'d': b''.join(blocks(t, cuts)), 'know': doc['know']})
    small = stats_doc(r, 2, True)
    n = len(small['text'])
    out.append({'d': b''.join(blocks(small['text'], list(range(12, n)))), 'know': small['know']})
    long = small['text'].rstrip()
    long = long[:-1] + b', "pad": "' + b'y' * (4000 - n) + b'"}'
    out.append({'d': b''.join(blocks(long, list(range(12, len(long), 3)))), 'know': small['know']})
    # 300 blocks: numbers beyond 255
    m = t[:12 + 300 * 40]
    out.append({'d': b''.join(blocks(m, list(range(12, len(m), 40))))})
    return out


def fam_roster(r):
    odd = chance(r, 0.4)
    ros = roster(r, odd=odd, tricky=0.1, n=r.choice([0, 1, 2, 3, 5, 8, 16, 26, 32, 48]) if chance(r, 0.4) else None)
    k = r.randrange(12)
    d = b''
    if k == 0:
        d = preamble(r, ros, spawn=False)
    elif k == 1:
        d = preamble(r, ros) + preamble(r, roster(r, 2))
    elif k == 2:    # info strings around the limits
        s = userinfo(r, b'ann', b'red', order=False)
        n = r.choice([255, 256, 257, 300])
        s = s + b'\\x\\' + b'y' * max(0, n - len(s) - 3)
        if chance(r, 0.5):
            s = b'\\x\\' + b'y' * max(0, n - 3 - 9) + b'\\name\\ann'
        d = preamble(r, [(r.randrange(32), b'ann', b'red', s)] + ros)
    elif k == 3:    # tiny strings
        d = preamble(r, [(r.randrange(32), b'', b'', pick(r, [b'\\name\\', b'\\name\\a', b'x\\name\\']))] + ros)
    elif k == 4:    # gaps
        body = SPAWN
        for (s, _, _, info) in ros:
            body += user(s, info) + bytes([1] * r.choice([0, 10, 300, 480, 490, 495, 500, 505, 510]))
        d = fr(r, body, 1)
    elif k == 5:    # an update of a known client later in the demo; a long recording in between
        d = preamble(r, ros) + fr(r, bytes([1] * r.choice([10, 400, 600]))) + fr(r, user(3, userinfo(r, b'late', b'red')))
    elif k == 6:
        d = preamble(r, ros, info_text(r, odd))
        d = d[:r.randrange(len(d) + 1)]
    elif k == 7:    # not preceded by the user info message
        d = fr(r, SPAWN + b'\x29\x03' + le32(5) + b'\\name\\ann\0' + b'\0\\name\\bob\0' + user(7, b'\\name\\cee'), 1)
    else:
        d = preamble(r, ros, info_text(r, odd) if chance(r, 0.5) else None)
    for _ in range(r.choice([0, 1, 4])):
        slots = [x[0] for x in ros] or [0]
        d += pick(r, [fr(r, ping(pick(r, slots), r.randrange(999)) + ping(pick(r, slots), 26)),
                      fr(r, prt(1, obit(r, name(r), name(r)) + b'\n')),
                      fr(r, prt(1, pick(r, [x[1] for x in ros] or [b'x']) + b' suicides\n')),
                      fr(r, frag(pick(r, slots), 4))])
    if chance(r, 0.15):
        doc = stats_doc(r)
        d += b''.join(blocks(doc['text'], cuts_of(r, doc['text'])))
    return {'d': d}


def tail(r, d):
    """what may be found behind the end of a demo, or lost there"""
    k = r.randrange(12)
    if k < 5:
        return d + bytes([r.choice([0, 0, 10, 13, 32, 9, 2, 255, 26, 68])]) * r.choice([1, 1, 1, 2, 3, 10])
    if k == 5:
        return d[:-r.randrange(1, 4)]
    if k == 6:
        return d + END[:r.randrange(1, len(END))]
    if k == 7:
        return d + END
    if k == 8:
        return d + b'\0\0' + END
    if k == 9:
        return d + fr(r, b'') + END
    if k == 10:
        return d + pick(r, [b'\r\n', b'\n\0', b' \0', b'\0 ', END[-3:], b'EndOfDemo'])
    return d + fr(r, END)[:r.randrange(1, 17)]


def fam_status(r):
    d = b''
    if chance(r, 0.4):
        d += preamble(r, roster(r, 2), info_text(r))
    marks = [prt(2, ABORT), prt(1, ABORT), prt(2, ABORT[:-1]), prt(2, b'Match stopped by majority vote\n'),
             prt(2, ABORT + b'x'), prt(2, b'x' + ABORT), prt(3, ABORT), prt(2, ABORT.replace(b' ', b'\xa0')),
             prt(2, 'ann paused the game\n'), prt(2, 'ann unpaused the game\n'), prt(2, 'Server is paused\n'),
             prt(3, 'ann: paused the game'), prt(2, 'paused  the game\n'), prt(2, 'ann resumed the game\n'),
             prt(2, 'server is paused\n'), prt(2, 'paused the gam'), prt(2, 'Server is pause'), prt(2, hi('paused the game')),
             prt(2, 'The match is over\n'), status('Standby'), prt(2, 'EndOfDemo'), END, b'\x02EndOfDemo']
    for _ in range(r.choice([1, 2, 4])):
        d += fr(r, pick(r, [b'', b'', noise(r)]) + pick(r, marks) + pick(r, [b'', b'', pick(r, marks)]))
    k = r.randrange(8)
    if k < 3:
        d += fr(r, END)
    elif k == 3:
        d += fr(r, END) + pick(r, [b'\0', fr(r, b''), frame(1, 7)])
    elif k == 4:
        d += fr(r, END[:-1])
    elif k == 5:
        d += fr(r, b'\x07' + END)
    if chance(r, 0.3):
        d = fr(r, bytes([1] * r.choice([800, 1000, 1100]))) + d
    if chance(r, 0.25):
        d = tail(r, d + fr(r, END))
    if chance(r, 0.1):
        d = pick(r, [END, b'\0' + END, b'', b'\0\0' + END, fr(r, END), d[:r.randrange(len(d) + 1)]])
    return {'d': d}


def fam_valid(r):
    si = pick(r, ['yes', 'yes', 'yes', 'no', 'empty', 'late', 'odd'])
    n = r.choice([0, 1, 1, 2, 2])
    t = info_text(r, force=[('map', 'dm6')])
    pre = fr(r, bytes([1] * 1280), 1) if si == 'late' else b''
    d = pre + preamble(r, roster(r, n), None if si == 'no' else b'' if si == 'empty' else t,
                       spawn=not chance(r, 0.1))
    end = pick(r, [fr(r, END)] * 5 + [b'', fr(r, END) + b'\0', fr(r, END[:-1]), fr(r, b'\7' + END), fr(r, END.replace(b'O', b'o'))])
    pads = fr(r, pick(r, [prt(2, 'ann paused the game\n'), prt(2, 'gg'), ping(0, 13), prt(2, ABORT)]))
    want = r.choice([1022, 1023, 1024, 1025, 1100, 900, 2000])
    gap = want - len(d) - len(end) - len(pads) - 6
    if gap >= 0:
        pads += frame(3, 1, bytes([1] * gap))
    d += pads + end
    return {'d': tail(r, d) if chance(r, 0.15) else d}


def fam_dates(r):
    d = b''
    if chance(r, 0.4):
        d += preamble(r, roster(r, 1), info_text(r, chance(r, 0.3)))
    for _ in range(r.choice([1, 1, 2])):
        t = b(date_text(r, 0.75))
        m = pick(r, [prt(2, b'matchdate: ' + t + b'\n')] * 6 + [prt(1, b'matchdate: ' + t + b'\n'),
                 prt(2, b'matchdate: ' + t), prt(2, b'matchdate:' + t + b'\n'), prt(2, b' matchdate: ' + t + b'\n'),
                 prt(2, b'Matchdate: ' + t + b'\n'), prt(2, b'matchdate: ' + t + b'\r\n'),
                 prt(2, b'matchdate: ' + t + b'\n', b'')])
        d += fr(r, pick(r, [b'', b'', noise(r)]) + m)
    return {'d': d}


def all_dates(r):
    """every zone at a few instants, packed one per recording"""
    out = []
    for z in zones() + ['+0200', '-0930', '+00:00', '-02', '+14', '+1400', 'XXX', 'Z', 'CES', 'UTCX', 'cest', '+12:00', '-12:01']:
        y, mo, dd = r.choice([(2024, 2, 29), (2023, 12, 31), (2024, 1, 1), (2022, 7, 9)])
        t = '%04d-%02d-%02d %02d:%02d:%02d %s' % (y, mo, dd, r.choice([0, 23, 12]), r.choice([0, 29, 59]), r.choice([0, 59, 7]), z)
        out.append({'d': frame(1, 6, prt(2, 'matchdate: ' + t + '\n'))})
    return out


def odd_dates(r):
    """one character of a good date replaced, at every place, by others of one to four bytes"""
    out = []
    for t in ('2024-04-26 16:59:34 CEST', '1999-12-31 23:59:59 +0200', '2000-02-29 00:00:00 UTC'):
        t = t.encode()
        for i in range(len(t)):
            for c in ['\u02bb', '\xe9', '\u20ac', '\U0001d11e', '\x80', '\xff', '\0'] + r.sample(' +-:.Z0159aTcC\t\r', 4):
                c = c.encode('latin-1') if c in '\x80\xff' else c.encode()
                for n in {1, min(len(c), len(t) - i)}:
                    out.append({'d': frame(1, 6, prt(2, b'matchdate: ' + t[:i] + c + t[i + n:] + b'\n'))})
    zs = zones()
    tails = [z for z in zs if z[1:] in zs]       # another zone after the first letter
    for z in tails + r.sample(zs, 12) + ['+0200', '-0930']:
        for t in ('2024-4-26 16:59:34 ', '2024-04-6 23:59:59 ', '2024-4-6 00:00:00 ', '99-12-31 12:30:07 ', '2024-04-26 16:59:34-',
                  '2024-04-26  16:59:34 ', '2024-04-26 16:59:34\t', '2024-04-26 16:59:34'):
            out.append({'d': frame(1, 6, prt(2, 'matchdate: ' + t + z + '\n'))})
    return out


def soup_message(r, names, slots):
    """one message of any kind"""
    k = r.randrange(18)
    who = pick(r, names)
    if k == 0:
        return prt(1, obit(r, who, pick(r, names)) + b'\n')
    if k == 1:
        return announcement(r, who)
    if k == 2:
        return pick(r, MARKS)[1](r)
    if k == 3:
        return frag(pick(r, slots), r.randrange(-9, 99))
    if k == 4:
        return ping(pick(r, slots), r.choice([0, 12, 13, 26, 77, 999, 65535]))
    if k == 5:
        return prt(r.choice([0, 1, 2, 3]), text(r))
    if k == 6:
        return prt(2, pick(r, [ABORT, ABORT, ABORT[:-1], b'Match stopped by majority vote\n']))
    if k == 7:
        return prt(2, pick(r, ['ann paused the game\n', 'Server is paused\n', 'ann unpaused the game\n', 'server is paused\n']))
    if k == 8:
        return serverinfo(info_text(r, chance(r, 0.2)))
    if k == 9:
        return SPAWN
    if k == 10:
        return user(pick(r, slots), userinfo(r, who, pick(r, TEAMS)))
    if k == 11:
        return END
    if k == 12:
        return noise(r)
    if k == 13:
        return prt(1, who + b(pick(r, ATK)) + b'\n')
    if k == 14:
        return prt(r.choice([0, 1, 2, 3]), pick(r, names) + pick(r, [b' ', b'']) + pick(r, names))
    if k == 15:
        return prt(2, b'matchdate: ' + b(date_text(r, 0.9)) + b'\n')
    if k == 16:
        return status(pick(r, ['Standby', '3 min left', 'Countdown']))
    return prt(2, 'The match is over\n')


def fam_soup(r):
    """messages of every kind in any order, number and combination"""
    names = [name(r) for _ in range(r.choice([1, 2, 3]))]
    slots = [r.randrange(32) for _ in range(r.choice([1, 2, 4]))]
    d = b''
    if chance(r, 0.5):
        ros = roster(r, r.choice([1, 2, 4]))
        d += preamble(r, ros, info_text(r) if chance(r, 0.6) else None)
        names += [x[1] for x in ros]
        slots += [x[0] for x in ros]
    for _ in range(r.choice([2, 4, 8, 16, 24])):
        k = r.randrange(9)
        if k == 0:
            d += filler(r)
        elif k == 1:
            d += b''.join(frame(r.randrange(256), pick(r, [0, 7, 2])) for _ in range(r.randrange(1, 9)))
        elif k == 2 and chance(r, 0.2):
            doc = stats_doc(r)
            d += b''.join(blocks(doc['text'], cuts_of(r, doc['text'])))
        elif k == 3 and chance(r, 0.3):
            d += fr(r, bytes([1] * r.choice([300, 600, 1100])))
        else:
            d += fr(r, b''.join(soup_message(r, names, slots) for _ in range(r.choice([1, 1, 1, 2, 3, 5]))))
    if chance(r, 0.4):
        d += fr(r, END)
        if chance(r, 0.2):
            d = tail(r, d)
    if chance(r, 0.1):
        d = d[:r.randrange(len(d) + 1)]
    return {'d': d}


def fam_full(r):
    """a whole match"""
    ros = roster(r, r.choice([2, 4, 5, 8]), chance(r, 0.1))
    t = info_text(r, False, force=[('map', 'dm3'), ('mode', pick(r, ['4on4', '2on2', 'hoonymode']))])
    d = preamble(r, ros, t)
    slots = [x[0] for x in ros]
    names = [x[1] for x in ros]
    names = [n for n in names if 8 not in n]
    d += fr(r, b''.join(ping(s, r.choice([12, 13, 25, 26, 38, 77])) for s in slots))
    ev = []
    for _ in range(r.choice([5, 15, 30])):
        k = r.randrange(9)
        if k < 4:
            ev.append(fr(r, prt(1, obit(r, pick(r, names), pick(r, names)) + b'\n') + (frag(pick(r, slots), r.randrange(-2, 20)) if chance(r, 0.5) else b'')))
        elif k == 4:
            ev.append(fr(r, announcement(r, pick(r, names))))
        elif k == 5:
            ev.append(fr(r, ping(pick(r, slots), r.randrange(99))))
        elif k == 6:
            ev.append(fr(r, frag(pick(r, slots), r.randrange(-2, 20))))
        elif k == 7:
            ev.append(fr(r, prt(3, text(r, 8)) + prt(3, text(r, 4))))
        else:
            ev.append(filler(r))
    ev.insert(r.randrange(len(ev) // 3 + 1), fr(r, prt(2, b'matchdate: ' + b(date_text(r, 0.95)) + b'\n')))
    if chance(r, 0.8):
        ev.append(fr(r, prt(2, 'The match is over\n')))
    if chance(r, 0.3):
        ev.append(fr(r, prt(2, ABORT)))
    if chance(r, 0.3):
        ev.insert(r.randrange(len(ev)), fr(r, prt(2, 'ann paused the game\n')))
    if chance(r, 0.7):
        ev.append(fr(r, status('Standby')))
    d += b''.join(ev)
    rec = {}
    if chance(r, 0.5):
        doc = stats_doc(r)
        d += b''.join(blocks(doc['text'], cuts_of(r, doc['text'])))
        rec['know'] = doc['know']
    d += fr(r, bytes([1] * 600))
    if chance(r, 0.85):
        d += fr(r, END)
        if chance(r, 0.1):
            d = tail(r, d)
    rec['d'] = d
    return rec


def fam_tied(r):
    """players and teams that tie in every way: frags, names, visible names, colours"""
    n = r.choice([3, 4, 5, 6, 8])
    base = pick(r, [b'ann', b'Bob'])
    names = [pick(r, [base, base.upper(), base.lower(), hi(base), base + b'.', b'zz']) for _ in range(n)]
    teams = r.sample([b'red', b'Red', b'RED', hi('red'), b'blue'], r.choice([1, 2, 3]))
    cols = [(r.randrange(14), r.randrange(14)) for _ in range(r.choice([2, 3, 4]))]
    slots = sorted(r.sample(range(32), n))
    body = SPAWN
    for s, nm in zip(slots, names):
        c = pick(r, cols)
        info = b'\\team\\' + pick(r, teams) + b'\\topcolor\\%d\\bottomcolor\\%d\\name\\' % c + nm
        body += user(s, info)
    d = fr(r, body, 1, 0) + fr(r, b''.join(ping(s, r.choice([12, 12, 13, 38])) for s in slots))
    if chance(r, 0.5):
        d += fr(r, prt(1, pick(r, names) + b' suicides\n'))
    if chance(r, 0.5):
        ps = [{'name': nm.decode('latin-1'), 'team': pick(r, teams).decode('latin-1'), 'top-color': pick(r, cols)[0],
               'bottom-color': pick(r, cols)[1], 'ping': 12, 'login': '', 'stats': {'frags': pick(r, [3, 3, 5])}}
              for nm in names]
        t = ('{"version": 3, "date": "2024-04-26 17:09:29 +0200", "players": %s}' % json.dumps(ps)).encode()
        d += b''.join(blocks(t, []))
    return {'d': d}


def player_lists(r, n):
    """explicit player lists with ties"""
    out = []
    for _ in range(n):
        k = r.choice([0, 1, 2, 3, 4, 5, 8, 16])
        teams = [list(pick(r, TEAMS)) for _ in range(r.choice([1, 2, 3]))]
        if chance(r, 0.3):
            teams.append(list(vary(r, bytes(teams[0]), 1)))
        cols = [[r.randrange(14), r.randrange(14)] for _ in range(r.choice([1, 2, 3]))]
        fr_ = [r.randrange(-5, 60) for _ in range(r.choice([1, 2, 4]))]
        pg = [r.choice([0, 1, 12, 13, 25, 26, 999, 65535, 10000000]) for _ in range(r.choice([1, 2, 4]))]
        ps = []
        for _ in range(k):
            ps.append([list(name(r, 0.1)), pick(r, teams), pick(r, cols), pick(r, fr_), pick(r, pg), chance(r, 0.2),
                       [list(b'auth')] if chance(r, 0.3) else [], [list(b'fi')] if chance(r, 0.3) else []])
        if ps and chance(r, 0.3):
            ps.append(list(pick(r, ps)))
        out.append(ps)
    return out


ODD_JSON = ['1.0', '1e2', '-0', '00', '01', '-01', '+1', '.5', '1.', '-', '2147483647', '2147483648', '-2147483648', '-2147483649',
            '4294967295', '4294967296', '99999999999', '-1', '0.5', '1E+2', '1e', '-0.0', 'null', 'true', 'false', 'True', 'nul', 'nulll',
            '""', '"x"', '"\\ud800"', '"\\udc00x"', '"\\ud83d\\ude00"', '"\\u00e9\\u0000"', '"\\x"', '"\\u12"', '"a\tb"', '"\\t\\/\\b\\f\\r"', '[]', '{}', '[1]',
            '[1,2,3,4]', '[1,2,3]', '[1,2,3,"4"]', '{"a":1}', '{"frags": 4}', '{"frags": "4"}', '[{}]', '[[]]', '"a', "'a'", 'NaN', 'Infinity', '-Infinity',
            '[1,]', '{"a":1,}', '{,}', '[,]', '{"a"}', '{1:2}', '"7"', '7', '{"skill": 7}', '{"skill": null}', '{"customised": 1}',
            '{"customised": true, "skill": 3}', '"2024-04-26 17:09:29 +0200"', '"2024-02-30 17:09:29 +0200"', '"2024-04-26"', '[' * 60 + ']' * 60,
            '[' * 140 + ']' * 140, '{"a":' * 50 + '1' + '}' * 50, '// x', '/* x */1']


def random_json(r, depth=0):
    k = r.randrange(9 if depth < 3 else 6)
    if k < 2:
        return pick(r, ODD_JSON[:22])
    if k < 6:
        return pick(r, ['null', 'true', 'false', '"x"', '""', '0', '7', '-3', '1.5', '"\\u0041\\n"', '"\u00e9"'])
    if k < 8:
        return '[' + ','.join(random_json(r, depth + 1) for _ in range(r.randrange(4))) + ']'
    return '{' + ','.join('%s: %s' % (json.dumps(pick(r, ['a', 'b', 'name', 'frags', ''])), random_json(r, depth + 1)) for _ in range(r.randrange(4))) + '}'


def full_player(r):
    i = lambda: r.choice([0, 1, 7, 25, -3])
    ints = lambda ks: {k: i() for k in ks if chance(r, 0.8)}
    weapon = lambda: {k: v for k, v in {
        'acc': ints(['attacks', 'hits']), 'kills': ints(['total', 'team', 'enemy', 'self']), 'deaths': i(),
        'pickups': ints(['dropped', 'taken', 'total-taken', 'spawn-taken', 'spawn-total-taken']),
        'damage': ints(['enemy', 'team'])}.items() if chance(r, 0.7)}
    p = {'top-color': 4, 'bottom-color': 13, 'ping': i(), 'login': '', 'name': pick(r, ['ann', 'Bob', '\u00e1\u00ee']), 'team': pick(r, ['red', 'blue']),
         'stats': ints(['frags', 'deaths', 'tk', 'spawn-frags', 'kills', 'suicides']),
         'dmg': ints(['taken', 'given', 'team', 'self', 'team-weapons', 'enemy-weapons', 'taken-to-die']),
         'xfer-rl': i(), 'xfer-lg': i(), 'spree': ints(['max', 'quad']), 'control': r.choice([0, 1.5, 20.25]),
         'speed': {'avg': r.choice([320.5, 0]), 'max': 640},
         'weapons': {w: weapon() for w in ('sg', 'ng', 'ssg', 'sng', 'gl', 'rl', 'lg', 'axe') if chance(r, 0.2)},
         'items': {k: ints(['took', 'time']) for k in ('health_15', 'health_25', 'health_100', 'ga', 'ya', 'ra', 'q') if chance(r, 0.3)},
         'ctf': r.choice([None, {'points': 3, 'caps': 1, 'runes': [1, 2, 3, 4]}, {'runes': [0, 0, 0, 0]}]),
         'bot': r.choice([None, {'skill': 7, 'customised': False}])}
    return {k: v for k, v in p.items() if chance(r, 0.6)}


def fam_json(r):
    """statistics documents with slips of every kind in their JSON"""
    import re
    if chance(r, 0.5):
        t = stats_doc(r, r.choice([0, 1, 2]), True)['text'].decode('utf-8')
    else:
        doc = {'version': 3, 'date': '2024-04-26 17:09:29 +0200', 'map': 'dm6', 'hostname': 'h', 'ip': '::1', 'port': 28501, 'mode': 'duel',
               'tl': 10, 'dm': 3, 'tp': 0, 'duration': 600, 'demo': 'x.mvd', 'teams': ['red'], 'players': [full_player(r) for _ in range(r.choice([1, 1, 2]))]}
        doc = {k: v for k, v in doc.items() if k == 'version' or chance(r, 0.7)}
        t = json.dumps(doc, ensure_ascii=chance(r, 0.5))
    toks = re.findall(r'"(?:[^"\\\\]|\\\\.)*"|[-+.0-9eE]+|[a-z]+|\s+|.', t, re.S)
    head, toks = toks[:4], toks[4:]          # {"version":_
    keys = [x for x in toks if x[0] == '"']
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        i = r.randrange(len(toks))
        values = [n for n, x in enumerate(toks) if x[0] == '"' or x[0].isdigit() or x[0] in '-tfn']
        k = r.randrange(12)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, toks[i])
        elif k == 2:
            toks.insert(i, pick(r, [',', ':', '}', ']', '{', '[', '"', ' ', '\t', '\r\n', '\x0b', '\xa0', '\x00', 'x', '\ufeff']))
        elif k in (3, 4, 5, 6) and values:
            toks[pick(r, values)] = pick(r, ODD_JSON)
        elif k == 7 and values and keys:
            toks[pick(r, values)] = pick(r, keys)
        elif k == 8:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 9:
            toks.insert(0, pick(r, ['-', '"', '0', '1']))
        elif k == 10 and values:
            toks[pick(r, values)] = random_json(r)
        else:
            toks = toks[:i] + (toks[i:] if chance(r, 0.5) else [])
        if not toks:
            toks = ['3', '}']
    tb = ''.join(head + toks).encode('utf-8')
    if chance(r, 0.04):
        i = r.randrange(12, len(tb) + 1)
        tb = tb[:i] + pick(r, [b'\xff', b'\xc3', b'\xed\xa0\x80', b'\xc0\xaf', b'\xf4\x90\x80\x80']) + tb[i:]
    return {'d': b''.join(blocks(tb, cuts_of(r, tb) if chance(r, 0.3) else []))}


FAMILIES = {'prints': fam_prints, 'frags': fam_frags, 'teamkill': fam_teamkill, 'flags': fam_flags, 'pings': fam_pings,
            'clock': fam_clock, 'stats': fam_stats, 'roster': fam_roster, 'serverinfo': fam_serverinfo,
            'status': fam_status, 'valid': fam_valid, 'dates': fam_dates, 'full': fam_full, 'soup': fam_soup, 'json': fam_json}


# ---------------------------------------------------------------- scale
def info(nm, team, more=b''):
    return b'\\name\\' + b(nm) + b'\\team\\' + b(team) + more


def far_teamkills(r):
    """team kills whose score updates follow after many frames that do not count, or that do"""
    ros = [(s, nm, tm, info(nm, tm)) for s, nm, tm in ((2, b'ann', b'red'), (5, b'bob', b'red'), (9, b'cee', b'blue'), (31, b'dan', b'red'))]
    pre = preamble(r, ros, split=False)
    kill = frame(1, 6, prt(1, b'ann' + b(pick(r, ATK)) + b'\n'))
    out = []
    for n in (0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 511, 512, 999, 1000, 1024, 4096, 9000):
        empty = pick(r, [frame(0, 6), frame(255, 7), frame(13, 0), hidden(7, frag(5, 1)), frame(13, 3), frame(100, 1)])
        some = frame(1, 6, b'\x07')
        k = r.randrange(0, 3)
        d = pre + kill + empty * n + some * k + empty * r.choice([0, n]) + frame(1, 6, frag(5, 3)) + frame(1, 6, frag(31, 1))
        out.append({'d': d})
        # many bytes in between, in one frame
        out.append({'d': pre + frame(1, 6, prt(1, b'ann' + b(pick(r, ATK)) + b'\n') + b'\x01' * n) + frame(1, 6, b'\x07' * n)
                    + frame(1, 6, frag(pick(r, [5, 9]), 3)) + frame(1, 6, frag(31, 1))})
    # many of them
    out.append({'d': pre + (kill + frame(1, 6, frag(5, 3)) + kill + frame(1, 6, frag(9, 3)) + frame(1, 6, frag(31, 3))) * 400})
    # many clients
    ros = [(i, b'p%d' % i, b'red' if i % 3 else b'blue', info(b'p%d' % i, b'red' if i % 3 else b'blue')) for i in range(120)]
    d = preamble(r, ros, split=False)
    for _ in range(60):
        d += frame(1, 6, prt(1, b'p%d' % r.randrange(120) + b(pick(r, ATK)) + b'\n') + frag(r.randrange(120), 3))
    out.append({'d': d})
    return out


def many_names(r):
    """hundreds of names; names of every length"""
    names = [b'n%d' % i for i in range(400)]
    d = b''.join(frame(1, 6, prt(1, pick(r, names) + b' rides ' + pick(r, names) + b"'s rocket\n")) for _ in range(700))
    f = b''.join(frame(1, 6, prt(2, pick(r, names) + pick(r, FLAG[pick(r, list(FLAG))]))) for _ in range(700))
    out = [{'d': d}, {'d': f}, {'d': d[:9000] + f[:9000]}]
    for n in list(range(1, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 4095, 5000, 70000]:
        w = (b'abcdefghij klmno' * (n // 16 + 1))[:n]
        w = w[:-1] + b'x'
        out.append({'d': frame(1, 6, prt(1, w + b' died\n')) + frame(1, 6, prt(1, b'q was railed by ' + w + b'\n'))
                    + frame(1, 6, prt(1, w + b' stomps q\n')) + frame(1, 6, prt(1, b'q eats ' + w + b"'s pineapple\n"))
                    + frame(1, 6, prt(1, w + b' suicides\n'))
                    + frame(1, 6, prt(2, w + FLAG['captures'][0]) + prt(2, w) + prt(2, FLAG['pickups'][0]))})
    return out


def every_byte(r):
    """every byte value in names, texts and settings"""
    out = []
    for c in range(1, 256):
        x = bytes([c])
        for w in (b'a' + x + b'b', x + b'ab', b'ab' + x):
            d = frame(1, 6, prt(1, w + b' died\n')) + frame(1, 6, prt(1, b'q rides ' + w + b"'s rocket\n"))
            if c != 8:      # known finding of C07
                d += frame(1, 6, prt(2, w + FLAG['defends'][0])) + frame(1, 6, prt(2, w) + prt(2, FLAG['returns'][1]))
            d += frame(1, 6, prt(c % 4, w) + prt(3, x))
            if c not in (10, 34, 92):
                d = preamble(r, [(3, w, w, info(w, w, b'\\*auth\\' + w)), (4, w + b'2', b'red', info(w + b'2', b'red'))],
                             b'\\hostname\\' + w + b'\\serverdemo\\' + w + b'.mvd\\mode\\' + x, split=False) + d
            out.append({'d': d})
    return out


def big_rosters(r):
    out = []
    for n in (32, 33, 64, 100, 128, 200, 255, 256, 300):
        ros = [((i * 7) % 256, b'p%d' % i, b't%d' % (i % 70), info(b'p%d' % i, b't%d' % (i % 70), b'\\*spectator\\1' if i % 5 == 4 else b'')) for i in range(n)]
        out.append({'d': preamble(r, ros, split=False) + frame(1, 6, ping(3, 7) + ping(70, 9))})
    return out


def many_marks(r):
    """thousands of marks of every kind"""
    pr = lambda t: frame(3, 6, prt(2, t))
    kinds = [pr('matchdate: 2024-04-26 16:59:34 CEST\n'), pr('The match is over\n'), frame(3, 6, status('Standby')), frame(3, 6, status('9 min left')),
             pr(ABORT), pr('ann paused the game\n'), pr('Server is paused\n'), frame(3, 6, END), frame(1, 6, SPAWN)]
    out = [{'d': k * 3000 + frame(9, 7)} for k in kinds]
    for _ in range(3):
        out.append({'d': b''.join(pick(r, kinds) for _ in range(2500))})
    docs = [stats_doc(r, 1, True) for _ in range(6)]
    d = b''.join(b''.join(blocks(x['text'], cuts_of(r, x['text']))) for x in docs * 9)
    out.append({'d': d + pr('gg\n'), 'know': docs[-1]['know']})
    return out


def wide_lists(r):
    """player lists of hundreds of players in hundreds of teams"""
    out = []
    for n, t in ((40, 40), (64, 3), (100, 2), (130, 130), (260, 9)):
        out.append([[list(b'p%d' % r.randrange(n)), list(b'T%d' % r.randrange(t)), [r.randrange(3), r.randrange(3)], r.randrange(-9, 99),
                     r.choice([0, 12, 13, 25, 999]), chance(r, 0.1), [], []] for _ in range(n)])
    return out


# ---------------------------------------------------------------- long gaps
def frame_end(d, i):
    if i + 2 > len(d):
        return None
    t = d[i + 1] % 8
    h = i + (6 if t == 3 else 2)
    if t in (1, 3, 4, 5, 6):
        if h + 4 > len(d):
            return None
        n = int.from_bytes(d[h:h + 4], 'little')
        h += 4
    else:
        n = 8 if t == 2 else 0
    return h + n if h + n <= len(d) else None


SPOTS = [b'\x08\x02' + ABORT[:-1], b'paused the game', b'Server is paused', b'The match is over', b'\x34status\0Standby\0',
         b'\x08\x02matchdate: ', b'\x09cmd spawn', b'\\name\\', b'{"version": ', b'"duration": ', END, b'fullserverinfo "',
         b'flag', b'rocket', b'teammate', b'\x24', b'\x0e', b'\x08']
GAP = 13000        # MC_Stretch: how much longer the gap is does not matter


def stretch(r, x, far=None):
    """a frame of neutral bytes between the frames of x, so long that something of
    interest lies across a multiple of a power of two, counted from either end"""
    d = x['d']
    ends = [0]
    while len(ends) < 3000:
        e = frame_end(d, ends[-1])
        if e is None:
            break
        ends.append(e)
    spots = []
    for m in SPOTS:
        at = d.find(m)
        while at >= 0 and len(spots) < 4000:
            spots.append((at, len(m), m))
            at = d.find(m, at + 1)
    if spots and chance(r, 0.85):
        m = pick(r, sorted({s[2] for s in spots}, key=SPOTS.index))
        pos, size, _ = pick(r, [s for s in spots if s[2] == m])
    else:
        pos, size = pick(r, ends), pick(r, [1, 6, 10])
    front = [e for e in ends if e <= pos]
    back = [e for e in ends if e >= pos + size]
    step = far or pick(r, [4096, 8192, 16384, 32768, 65536])
    fill = pick(r, [b'\x01', b'\xff'])
    head = bytes([0, pick(r, [1, 6, 6, 4])])
    j = r.randrange(0, size + 1)
    if back and (chance(r, 0.3) or not front):
        # from the end
        at = pick(r, back)
        want, have = j, len(d) - pos + 6
    else:
        at = pick(r, front or [0])
        want, have = -j, pos + 6
    n = (want - have) % step
    while n < GAP:
        n += step * (1 if far else r.randrange(1, 4))
    y = dict(x)
    y['d'] = d[:at] + head + le32(GAP) + fill * GAP + d[at:]
    y['gap'] = [at + 2, n]
    if 0 <= d.rfind(b'{"version": ') < at:
        y.pop('know', None)         # the gap may be inside the document
    return y


def gap_runs(x):
    """the recording as it is run: with the whole gap"""
    d, (at, n) = x['d'], x['gap']
    return [[(d[:at] + le32(n)).hex(), 1], [d[at + 4:at + 5].hex(), n], [d[at + 4 + GAP:].hex(), 1]]


def family(nm, seed, n):
    r = random.Random('%s-%s' % (nm, seed))
    return [FAMILIES[nm](r) for _ in range(n)]


def mutate(r, d, k=None):
    d = bytearray(d)
    for _ in range(r.randrange(1, 5) if k is None else k):
        if not d:
            break
        j = r.randrange(6)
        p = r.randrange(len(d))
        if j == 0:
            d[p] = r.randrange(256)
        elif j == 1:
            d[p] = r.choice([0, 8, 9, 10, 14, 34, 36, 92, 255, 2, 3])
        elif j == 2:
            del d[p:p + r.choice([1, 1, 2, 8])]
        elif j == 3:
            d[p:p] = bytes(r.randrange(256) for _ in range(r.choice([1, 1, 2, 6])))
        elif j == 4:
            q = r.randrange(len(d))
            d[p:p] = d[q:q + r.randrange(1, 60)]
        else:
            d[p] ^= 1 << r.randrange(8)
    return bytes(d)


def neighbours(r, d, other, n=5):
    """recordings that differ from d in little: what a stale or badly keyed memory of d would mistake for it"""
    out = []
    digits = [i for i, c in enumerate(d) if 48 <= c <= 57]
    letters = [i for i, c in enumerate(d) if 97 <= c <= 122]
    for _ in range(n):
        e = bytearray(d)
        k = r.randrange(6)
        if k <= 1 and digits:
            e[pick(r, digits)] = 48 + r.randrange(10)
        elif k == 2 and letters:
            i = pick(r, letters)
            e[i] = pick(r, [e[i] ^ 32, 97 + r.randrange(26)])
        elif k == 3 and e:
            e[r.randrange(len(e))] ^= 1 << r.randrange(8)
        elif k == 4:
            # one string of the other recording in place of a similar one
            mine, its = bytes(e).split(b'\0'), other.split(b'\0')
            c = [(i, t) for i, m in enumerate(mine) for t in its if len(m) > 3 and m != t and m[:4] == t[:4]]
            if c:
                i, t = pick(r, c)
                mine[i] = t
                e = bytearray(b'\0'.join(mine))
        elif e:
            # the same bytes in another order
            i, j = sorted(r.randrange(len(e)) for _ in range(2))
            m = r.randrange(1, 6)
            e[i:i + m], e[j:j + m] = e[j:j + m], e[i:i + m]
        out.append(bytes(e))
    return out


def clusters(r, per_family=4):
    """groups of similar recordings, each group in a row"""
    out = []
    for f in FAMILIES:
        for _ in range(per_family):
            x, y = FAMILIES[f](r)['d'], FAMILIES[f](r)['d']
            out += [x] + neighbours(r, x, y)
    zs = zones()
    for _ in range(12):
        y, mo, dd, h, mi, sec = r.randrange(2000, 2030), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)
        tens = sec - sec % 10
        for (s1, z) in [(sec, pick(r, zs)), (sec, pick(r, zs)), (sec, 'UTC'), (tens, 'UTC'), (tens + 5, 'UTC'), (0, 'UTC'), (0, '+0200'), (0, '-0200')]:
            t = '%04d-%02d-%02d %02d:%02d:%02d %s' % (y, mo, dd, h, mi, s1, z)
            out.append(frame(1, 6, prt(2, 'matchdate: ' + t + '\n')))
    # one announcement among different things
    for _ in range(12):
        t = info_text(r, False)
        a = preamble(r, roster(r, 3), t)
        c = preamble(r, roster(r, 3), t)
        out += [a, c, a[:len(a) // 2] + c[len(c) // 2:], a + c, c + a]
    return out
