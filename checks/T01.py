"""T01: calendar conversions, time zones and time formatting (spec/Calendar.tla, TimeLib.tla)."""
import struct
from wv import check, libcase as L
TECHNIQUE = 'TLA+ model of the Gregorian calendar as a day-by-day transition system, model-checked against its closed forms over a whole 400-year cycle (CalendarMC.tla); TLC judging recorded calls of the compiled <time.h> functions (TimeLib.tla)'
NOTE = 'closed forms checked for every day of the cycle; every day of one cycle (thorough; every month boundary quick) and random times to the limits of int years run through gmtime/mktime; normalisation over boundary and random fields up to 1e9; strftime over all conversions and all buffer sizes around the length'
DECL = r'''
static time_t tv_[1];
static struct tm *TM(int i) { return (struct tm*)S(i); }
static void z_(struct tm *p, int i) { struct tm *q; if (p != NULL) { q = TM(i); *q = *p; r(0LL); } else { r(-1LL); } r((long long)errno); }
'''
F = [('gmtime_r', 'struct tm *p; tv_[0] = (time_t)a[0]; errno = 0; p = gmtime_r(&tv_[0], TM(1)); rp((void*)p); r((long long)errno);'),
     ('gmtime', 'struct tm *p; tv_[0] = (time_t)a[0]; errno = 0; p = gmtime(&tv_[0]); z_(p, 1);'),
     ('localtime_r', 'struct tm *p; tv_[0] = (time_t)a[0]; errno = 0; p = localtime_r(&tv_[0], TM(1)); rp((void*)p); r((long long)errno);'),
     ('localtime', 'struct tm *p; tv_[0] = (time_t)a[0]; errno = 0; p = localtime(&tv_[0]); z_(p, 1);'),
     ('mktime', 'r((long long)mktime(TM(0)));'),
     ('time', 'r((long long)time(&tv_[0])); r((long long)tv_[0]); r((long long)time(NULL));'),
     ('timefail', 'r((long long)time(&tv_[0])); r((long long)tv_[0]);'),
     ('clock', 'r((long long)clock());'),
     ('difftime', 'r((long long)difftime((time_t)a[0], (time_t)a[1]));'),
     ('tz', 'tzset(); r((long long)timezone); strcpy(S(1), tzname[0]); strcpy(S(0), tzname[1]);'),
     ('asctime', 'char *p; p = asctime(TM(0)); strcpy(S(1), p); r(0LL);'),
     ('asctime_r', 'rp((void*)asctime_r(TM(0), S(1)));'),
     ('ctime', 'char *p; tv_[0] = (time_t)a[0]; p = ctime(&tv_[0]); strcpy(S(1), p); r(0LL);'),
     ('ctime_r', 'tv_[0] = (time_t)a[0]; rp((void*)ctime_r(&tv_[0], S(1)));'),
     ('strftime', 'ru((unsigned long long)strftime(S(0), N(1), S(2), TM(3)));')]
DAY = 86400; CYC = 146097 * DAY; Y2000 = 946684800
def enc(v):
    q, r = divmod(v - Y2000, CYC)
    return [L.small(v), q, r // DAY, r % DAY]
def tm(*f): return struct.pack('<9i', *f)
def conf(c, part, groups, cases):
    """cases: list of (group key, case)"""
    data, shown = [], []
    drv = L.Driver(F, '#include <time.h>\n#include <string.h>\n#include <errno.h>\n', DECL)
    for k in groups:
        mine = [x for g, x in cases if g == k]
        if not mine: continue
        tz, kw = k[0], dict(env=['TZ=' + k[0].decode('latin1')] if k[0] is not None else [], time_ns=k[1], faults=[dict(call='clock_time_get', errno=k[2])] if k[2] else [])
        obs = L.execute(c, drv, mine, hostkw=kw)
        if obs is None: return
        for case, (r, m, t) in zip(mine, obs):
            clk = k[1] // 7
            data.append(dict(f=case[0], a=[enc(x) for x in case[1]], m=list(case[2]), r=[enc(x) for x in r], n=m, t=bool(t), tz=list(tz or b''), e=61, now=enc(k[1] // 10**9), clk=enc(clk)))
            shown.append((k, case, r, t))
    L.judge(c, part, 'TimeLib', data, lambda i: shown[i], drv.source, lambda d: '%s:%s' % (d['f'], d['a'][:1] or ''))
def run(c):
    r = c.tlc('CalendarMC', 'INIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n')
    if r.distinct != 146098: raise SystemExit(2)
    c.part('calendar model', states=r.distinct)
    rng = c.rng; G0 = (None, 10**18, 0)
    G = b'\xa5'; cases = []
    def T(): # random times of every magnitude
        k = rng.randrange(5)
        if k == 0: return rng.randrange(-2**31, 2**31)
        if k == 1: return rng.randrange(-2**40, 2**40)
        if k == 2: return rng.randrange(-67768040609740800, 67768036191676800)
        if k == 3: return rng.choice([-2**31, 2**31, 2**32, 0, Y2000, -CYC, CYC, Y2000 - CYC]) + rng.randrange(-3, 4) * rng.choice([1, 1, DAY])
        return rng.randrange(-70 * 366 * DAY, 140 * 366 * DAY)
    LIM = [67768036191676799, 67768036191676800, -67768040609740800, -67768040609740801, 2**56, -2**56, 2**63 - 1, -2**63, 2**62, -2**62]
    ts = [T() for _ in range(c.n(1500, 20000))] + LIM + [0, -1, DAY - 1, DAY, -DAY, -DAY - 1]
    # every month boundary of a cycle (every day when thorough), at a random cycle
    if c.thorough: ts += [Y2000 + d * DAY + rng.choice([0, DAY - 1, rng.randrange(DAY)]) + CYC * rng.choice([0, -1, rng.randint(-1000, 1000)]) for d in range(146097)]
    else:
        import calendar, datetime
        for y in range(400):
            for mo in rng.sample(range(1, 13), 2) + [1, 3]:
                d = (datetime.date(2000 + y, mo, 1) - datetime.date(2000, 1, 1)).days
                ts += [Y2000 + (d - k) * DAY + rng.choice([0, DAY - 1, rng.randrange(DAY)]) + CYC * rng.choice([0, 0, -1, -4, 7]) for k in (0, 1)]
    for t in ts:
        cases.append((G0, (rng.choice(['gmtime_r', 'gmtime_r', 'gmtime', 'localtime_r']), [t, 1], G * 38)))
    # mktime
    def fld(): return rng.choice([0, 1, 59, 60, 61, -1, 12, 11, 13, 23, 24, 25, 31, 30, 29, 28, 32, 365, 366, -12, -13, -60, 1000, -1000, rng.randrange(-10**9, 10**9)])
    def yr(): return rng.choice([70, 0, 100, 200, 300, 400, -1900, -1899, -1500, 101, 104, 138, 139, -100, rng.randrange(-2000, 2000), rng.randrange(-2000, 2000), rng.randrange(-10**9, 10**9)])
    for _ in range(c.n(1500, 30000)):
        k = rng.randrange(4)
        if k == 0: f = (rng.randrange(60), rng.randrange(60), rng.randrange(24), rng.randint(1, 31), rng.randrange(12), yr(), 0, 0, 0)
        elif k == 1: f = (rng.randrange(60), rng.randrange(60), rng.randrange(24), rng.choice([0, 1, 28, 29, 30, 31]), rng.choice([1, 2, 0, 11, 12, -1]), rng.randrange(-300, 500), 0, 0, 0)
        else:
            f = [rng.randrange(60), rng.randrange(60), rng.randrange(24), rng.randint(1, 28), rng.randrange(12), yr(), fld(), fld(), rng.choice([0, -1])]
            for j in rng.sample(range(6), rng.randint(1, 5)): f[j] = yr() if j == 5 else fld()
        cases.append((G0, ('mktime', [2], G * 2 + tm(*f) + G)))
    for f in [(0, 0, 0, 1, 0), (59, 59, 23, 31, 11), (60, 59, 23, 31, 11), (0, 0, 0, 1, 12), (0, 0, 0, 32, 11), (-1, 0, 0, 1, 12)]:
        cases.append((G0, ('mktime', [1], G + tm(*f, 2**31 - 1, 3, 4, 0))))
    # time zones
    zs = [b'', b'UTC0', b'UTC', b'EST5EDT', b'EST+5', b'CET-1CEST', b'IST-5:30', b'NPT-5:45:00', b'XXX-12:59:59YYY', b'AAA+24', b'A1:2:3B', b'LongZoneName-0:0:7LongSummerName', b'Z' * 255 + b'-3', b'MST7MDT,M3.2.0,M11.1.0', b'GMT0BST,M3.5.0/1', b'QQ-14', b'ABC1:1', b'ABC-00:00:59']
    groups = [G0]
    for z in zs:
        k = (z, 10**18, 0); groups.append(k)
        cases.append((k, ('tz', [300], G * 700)))
        for t in [T() for _ in range(c.n(12, 200))] + [0, -1, DAY]: cases.append((k, (rng.choice(['localtime', 'localtime_r', 'localtime_r', 'gmtime_r']), [t, 0], G * 36)))
        for _ in range(c.n(12, 200)):
            f = (rng.randrange(60), rng.randrange(60), rng.randrange(24), rng.randint(1, 31), rng.randrange(12), rng.randrange(-100, 300), 0, 0, 0)
            cases.append((k, ('mktime', [0], tm(*f))))
        for _ in range(4): cases.append((k, (rng.choice(['ctime', 'ctime_r']), [rng.randrange(-10**9, 2**33), 1], G * 28)))
    for ns in [0, 1, 999999999, 10**9, 123456789987654321, 2**63 - 1, 1700000000 * 10**9 + 999999999]:
        k = (None, ns, 0); groups.append(k); cases += [(k, ('time', [], b'')), (k, ('clock', [], b''))]
    k = (None, 10**18, 29); groups.append(k); cases.append((k, ('timefail', [], b'')))
    for _ in range(40): cases.append((G0, ('difftime', [rng.randrange(-10**9, 10**9), rng.randrange(-10**9, 10**9)], b'')))
    c.sample(cases[5]); c.sample(cases[-1])
    conf(c, 'conversions', list(dict.fromkeys(groups)), cases)
    # formatting
    cases = []
    def good(): 
        y = rng.choice([70, 100, 99, 1, 0, -1900, -1891, -1801, -901, -900, 126, 8099, rng.randrange(-1900, 8100)])
        return (rng.choice([0, 9, 10, 59, 60, rng.randrange(61)]), rng.choice([0, 9, 10, 59]), rng.choice([0, 1, 11, 12, 13, 23, rng.randrange(24)]), rng.choice([1, 9, 10, 31, rng.randint(1, 31)]), rng.randrange(12), y, rng.randrange(7), rng.choice([0, 1, 6, 7, 8, 9, 98, 99, 100, 364, 365, rng.randrange(366)]), rng.choice([0, 0, 1, -1]))
    for z in (None, b'CET-1CEST', b'EST5'):
        k = (z, 10**18, 0)
        def sf(fmt, f, n): cases.append((k, ('strftime', [1 + len(fmt) + 36 + 1, n, 1, 1 + len(fmt) + 1], G + fmt + b'\0' + tm(*f) + G * n + G * rng.choice([0, 3]))))
        for cv in b'aAbBcdHIjmMpSUwWxXyYZ%':
            for _ in range(c.n(8, 60)):
                f = good(); sf(b'%' + bytes([cv]), f, 60)
        for f in [good() for _ in range(3)]:
            for n in range(0, 30): sf(b'%H:%M %Y-%m-%d!', f, n)
            for n in range(0, 12): sf(rng.choice([b'%A', b'abc', b'%Z', b'%%', b'']), f, n)
            for n in range(20, 40): sf(b'<%c|%B>', f, n)
        for _ in range(c.n(120, 2000)):
            fmt = b''.join(rng.choice([b'%' + bytes([rng.choice(b'aAbBcdHIjmMpSUwWxXyYZ%')]), bytes([rng.choice(b'xyz ,:\xc3\xa9\n')])]) for _ in range(rng.randint(0, 8)))
            sf(fmt, good(), rng.choice([0, 1, 5, 10, 20, 40, 200, rng.randint(0, 80)]))
        for f in [good() for _ in range(30)]:
            f = list(f); f[5] = rng.choice([-900, 8099, 70, 100, rng.randrange(-900, 8100)]); cases.append((k, (rng.choice(['asctime', 'asctime_r']), [1, 37], G + tm(*f) + G * 28)))
        f = list(good()); f[5] = rng.randrange(8100, 10**6); sf(b'%Y', f, 20)
    conf(c, 'formatting', list(dict.fromkeys(k for k, _ in cases)), cases)
if __name__ == '__main__': check.main('T01', run)
