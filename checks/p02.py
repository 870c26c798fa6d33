# -*- coding: utf-8 -*-
"""P02 - temporal types: text in every supported format names one value; everything else is refused."""
import datetime as D

import arrow  # noqa

from harness import gen

DATE = ['YYYY-MM-DD', 'YYYY/MM/DD', 'YYYY.MM.DD', 'DD-MM-YYYY', 'DD/MM/YYYY', 'DD.MM.YYYY']
MONTH = ['YYYY-MM', 'YYYY/MM', 'YYYY.MM', 'MM-YYYY', 'MM/YYYY', 'MM.YYYY']
TIME = ['HH:mm:ss.SSSSSS', 'HH:mm:ss.SSS', 'HH:mm:ss', 'HH:mm', 'hh:mm:ss A', 'hh:mm A']
ZTIME = ['HH:mm:ss.SSSSSS ZZ', 'HH:mm:ss.SSS ZZ', 'HH:mm:ssZZ', 'HH:mm:ss ZZ']


def fmt_date(d, f):
    return f.replace('YYYY', '%04i' % d.year).replace('MM', '%02i' % d.month).replace('DD', '%02i' % d.day)


def fmt_off(minutes):
    return '%s%02i:%02i' % ('-' if minutes < 0 else '+', abs(minutes) // 60, abs(minutes) % 60)


def fmt_time(t, f, off=0):
    out = f.replace('SSSSSS', '%06i' % t.microsecond)
    out = out.replace('SSS', '%03i' % (t.microsecond // 1000))
    out = out.replace('HH', '%02i' % t.hour).replace('hh', '%02i' % ((t.hour - 1) % 12 + 1))
    out = out.replace('mm', '%02i' % t.minute).replace('ss', '%02i' % t.second)
    return out.replace('ZZ', fmt_off(off)).replace(' A', ' AM' if t.hour < 12 else ' PM')


def cut(t, f):
    if 'SSSSSS' in f:
        return t
    if 'SSS' in f:
        return t.replace(microsecond=t.microsecond // 1000 * 1000)
    if 'ss' in f:
        return t.replace(microsecond=0)
    return t.replace(microsecond=0, second=0)


def register(run):
    from ngoschema import types
    from ngoschema.exceptions import InvalidValue
    run.rule = 'a distinct non-trivial case is one generated date-time (with its offset) rendered in every format'
    run.assumptions = ['years 1000..9999', 'offsets are whole minutes within 14 hours']
    run.require(date=280, dates=20, datetime=1440, datetimes=20, declared=70, given=1530, iso=180, midnight=3, native=180,
                readback=5, refused=2390, time=240, times=20)

    def moment(rng):
        if rng.random() < .25:
            y = rng.randint(1000, 9998)
        else:
            y = rng.randint(1900, 2100)
        m = rng.randint(1, 12)
        last = (D.date(y + m // 12, m % 12 + 1, 1) - D.timedelta(days=1)).day
        d = rng.choice([1, last, rng.randint(1, last), rng.randint(1, min(12, last))])
        h = rng.choice([0, 11, 12, 23, rng.randint(0, 23), rng.randint(0, 23)])
        us = rng.choice([0, 1, 999999, 1000, rng.randint(0, 999999)])
        return D.datetime(y, m, d, h, rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)]), us)

    def subject(c, kind):
        """the type itself, the type built from a schema, or an object property"""
        k = c.rng.randrange(3)
        cls = {'date': types.Date, 'time': types.Time, 'datetime': types.Datetime}[kind]
        if k == 0:
            return cls()
        if k == 1:
            return gen.build(gen.uid(c, kind), {'type': kind})
        A = gen.pclass({'properties': {'v': {'type': kind}}}, gen.uid(c))
        return lambda v: A(v=v).v

    @run.workload('formats', quick=60)
    def _(c):
        m = moment(c.rng)
        off = c.rng.choice([0, 60, 120, -300, 330, -570, 765, c.rng.randint(-840, 840)])
        c.sig(str(m), off)
        date, time, dt = [subject(c, k) for k in ('date', 'time', 'datetime')]
        for f in DATE:
            s = fmt_date(m, f)
            c.equal(date(s), m.date(), 'date %r', s)
            c.hit('date')
        for f in MONTH:
            s = fmt_date(m, f)
            c.equal(date(s), m.date().replace(day=1), 'date %r', s)
            c.hit('date')
        for f in TIME + ZTIME:
            s = fmt_time(m.time(), f, off)
            c.equal(time(s), cut(m.time(), f), 'time %r', s)
            c.hit('time')
        for f in DATE:
            for tf in TIME + ZTIME:
                s = fmt_date(m, f) + ' ' + fmt_time(m.time(), tf, off)
                got = dt(s)
                want = arrow.get(cut(m, tf), tzinfo=D.timezone(D.timedelta(minutes=off if 'ZZ' in tf else 0)))
                c.expect(type(got) is arrow.Arrow, 'datetime %r gave a %s', s, type(got))
                c.expect(got == want and got.utcoffset() == want.utcoffset(), 'datetime %r: observed %s, expected %s',
                         s, got, want)
                c.hit('datetime')

    @run.workload('iso', quick=150)
    def _(c):
        """the default serialization is ISO 8601 and is read back to the same value"""
        m = moment(c.rng)
        off = c.rng.choice([0, 0, 60, -300, 330, c.rng.randint(-840, 840)])
        a = arrow.get(m, tzinfo=D.timezone(D.timedelta(minutes=off)))
        c.sig(str(m), off)
        for kind, v, iso in (('date', m.date(), m.date().isoformat()), ('time', m.time(), m.time().isoformat()),
                             ('datetime', a, m.isoformat() + fmt_off(off))):
            cls = {'date': types.Date, 'time': types.Time, 'datetime': types.Datetime}[kind]
            for s in (cls.serialize(v), cls.serialize(v, deserialize=False), cls()(v, serialize=True)):
                c.equal(s, iso, 'serialization of %r', v)
            t = subject(c, kind)
            back = t(iso)
            c.equal(back, v, '%s read from its own serialization %r', kind, iso)
            if kind == 'datetime':
                c.equal(back.utcoffset(), v.utcoffset(), 'offset of %r', iso)
            c.hit('iso')
            # typed values are left alone
            c.expect(t(v) == v and type(t(v)) is type(v), '%r changed into %r', v, t(v))
            c.expect(t(None) is None, '%s of None', kind)
            c.hit('native')
        A = gen.pclass({'properties': {'d': {'type': 'date'}, 't': {'type': 'time'}, 'z': {'type': 'datetime'},
                                       'l': {'type': 'array', 'items': {'type': 'datetime'}}}}, gen.uid(c))
        o = A(d=m.date(), t=m.time(), z=a, l=[a])
        s = o.do_serialize()
        c.equal({k: s[k] for k in s}, {'d': m.date().isoformat(), 't': m.time().isoformat(), 'z': a.isoformat(),
                                       'l': [a.isoformat()]}, 'serialized object')
        o2 = A(**s)
        c.expect(o2.d == m.date() and o2.t == m.time() and o2.z == a and o2.l[0] == a, 'object read back: %s', o2)
        # midnight date-times are dates, date-less date-times are times, others are refused
        c.equal(types.Date()(D.datetime(m.year, m.month, m.day)), m.date(), 'date of a midnight')
        c.equal(types.Time()(D.datetime(1, 1, 1, m.hour, m.minute)), D.time(m.hour, m.minute), 'time of year 1')
        got = types.Datetime()(m)
        c.expect(type(got) is arrow.Arrow and got == arrow.get(m), 'datetime of %r is %r', m, got)
        aware = m.replace(tzinfo=D.timezone(D.timedelta(minutes=off)))
        got = types.Datetime()(aware)
        c.expect(type(got) is arrow.Arrow and got == arrow.get(aware) and got.utcoffset() == aware.utcoffset(),
                 'datetime of %r is %r', aware, got)
        if m.time() != D.time(0, 0):
            c.raises(lambda: types.Date()(m), 'date of %r', m, kinds=InvalidValue)
        c.raises(lambda: types.Time()(m), 'time of %r', m, kinds=InvalidValue)

    # token layouts, and the strftime layouts which say the same
    TOKENS = {'YYYY-MM-DD': '%Y-%m-%d', 'DD/MM/YYYY': '%d/%m/%Y', 'DD.MM.YYYY': '%d.%m.%Y', 'MM-YYYY': '%m-%Y',
              'ddd, DD MMM YY': '%a, %d %b %y', 'dddd, DD-MMM-YYYY': '%A, %d-%b-%Y', 'DDDD': '%j', 'MMMM YYYY': '%B %Y'}
    TTOKENS = {'HH:mm:ss': '%H:%M:%S', 'HH:mm:ss.SSSSSS': '%H:%M:%S.%f', 'HH:mm': '%H:%M', 'hh:mm A': '%I:%M %p',
               'mm ss': '%M %S', 'hh:mm:ss A': '%I:%M:%S %p'}
    NAMED = {'ATOM': ('%Y-%m-%d %H:%M:%S', ':'), 'RFC822': ('%a, %d %b %y %H:%M:%S ', ''),
             'RFC1036': ('%a, %d %b %y %H:%M:%S ', ''), 'RFC1123': ('%a, %d %b %Y %H:%M:%S ', ''),
             'RFC2822': ('%a, %d %b %Y %H:%M:%S ', ''), 'RFC3339': ('%Y-%m-%d %H:%M:%S', ':'),
             'RSS': ('%a, %d %b %Y %H:%M:%S ', ''), 'W3C': ('%Y-%m-%d %H:%M:%S', ':')}

    @run.workload('formatted', quick=60)
    def _(c):
        """with a format, declared or given, the serialization is the value written with it"""
        rng = c.rng
        m = moment(rng)
        if rng.random() < .2:
            m = m.replace(hour=0, minute=0, second=0, microsecond=0)
        off = rng.choice([0, 60, -300, 330, rng.randint(-840, 840)])
        aware = m.replace(tzinfo=D.timezone(D.timedelta(minutes=off)))
        c.sig(str(m), off)
        values = {'date': m.date(), 'time': m.time(), 'datetime': arrow.get(aware)}
        classes = {'date': types.Date, 'time': types.Time, 'datetime': types.Datetime}

        def written(f, v):
            if f in NAMED:
                p, colon = NAMED[f]
                o = off if isinstance(v, arrow.Arrow) else 0
                v = v if not isinstance(v, D.time) else D.datetime.combine(D.date.min, v)
                return v.strftime(p) + fmt_off(o).replace(':', colon)
            return v.strftime(f if '%' in f else {**TOKENS, **TTOKENS}.get(f) or TOKENS[f.split('|')[0]])

        def layouts(kind):
            fs = []
            if kind != 'time':
                fs += list(TOKENS) + list(TOKENS.values())
            if kind != 'date':
                fs += list(TTOKENS) + list(TTOKENS.values())
            return fs + (list(NAMED) if kind == 'datetime' else [])

        for kind, v in values.items():
            cls = classes[kind]
            fs = layouts(kind)
            for f in fs:
                c.equal(cls.serialize(v, format=f), written(f, v), '%s serialized with %r', v, f)
                c.hit('given')
            f, g = rng.choice(fs), rng.choice(fs)
            T = gen.build(gen.uid(c, kind), {'type': kind, 'format': f})
            c.equal(T.serialize(v), written(f, v), '%s serialized with its format %r', v, f)
            c.equal(T.serialize(v, format=g), written(g, v), '%s of format %r serialized with %r', v, f, g)
            c.equal(cls.serialize(v), v.isoformat(), '%s serialized without format', v)
            c.expect(T(v) == v and type(T(v)) is type(v), 'a format changed %s', v)
            A = gen.pclass({'properties': {'v': {'type': kind, 'format': f}, 'w': {'type': kind, 'format': g},
                                           'n': {'type': kind},
                                           'l': {'type': 'array', 'items': {'type': kind, 'format': g}}}}, gen.uid(c))
            o = A(v=v, w=v, n=v, l=[v, v])
            s = o.do_serialize()
            c.equal({k: s[k] for k in s}, {'v': written(f, v), 'w': written(g, v), 'n': v.isoformat(),
                                           'l': [written(g, v)] * 2}, 'object serialized with formats %r %r', f, g)
            c.expect(o.v == v and o.w == v and list(o.l) == [v, v], 'serialization changed the values: %s', o)
            # layouts which are also read name the same value back
            if f in DATE and kind == 'date' or f in TIME[:1] and kind == 'time':
                c.expect(A(**{'v': s['v']}).v == v, '%r not read back as %s', s['v'], v)
                c.hit('readback')
            c.hit('declared')
            c.hit(kind + 's')
        c.hit('midnight', int(m.time() == D.time(0, 0)))

    @run.workload('refused', quick=40)
    def _(c):
        m = moment(c.rng)
        rng = c.rng
        c.sig(str(m), rng.random())
        y = m.year
        bad_dates = [(y, 13, 1), (y, 0, 1), (y, 2, 30), (y, 4, 31), (y, m.month, 32), (y, m.month, 0), (y, 99, 99)]
        if not (y % 4 == 0 and (y % 100 or y % 400 == 0)):
            bad_dates.append((y, 2, 29))

        class Fake:
            pass
        date, time, dt = [subject(c, k) for k in ('date', 'time', 'datetime')]
        for b in bad_dates:
            x = Fake()
            x.year, x.month, x.day = b
            for f in DATE:
                s = fmt_date(x, f)
                c.raises(lambda: date(s), 'date %r', s, kinds=InvalidValue)
                c.raises(lambda: dt(s + ' 10:20'), 'datetime %r', s, kinds=InvalidValue)
                c.hit('refused', 2)
        for b in [(25, 0, 0), (24, 0, 0), (10, 60, 0), (10, 10, 61), (99, 99, 99), (23, 75, 0)]:
            x = Fake()
            x.hour, x.minute, x.second, x.microsecond = b + (0,)
            s = fmt_time(x, 'HH:mm:ss')
            c.raises(lambda: time(s), 'time %r', s, kinds=InvalidValue)
            s = fmt_date(m, rng.choice(DATE)) + ' ' + s
            c.raises(lambda: dt(s), 'datetime %r', s, kinds=InvalidValue)
            c.hit('refused', 2)
        for s in ['hello', '', 'x-y-z', '10', '12:', '//', gen.word(rng), gen.word(rng, 3) + '-' + gen.word(rng, 3)]:
            if s in ('now', 'today'):
                continue
            for t in (date, time, dt):
                c.raises(lambda: t(s), 'temporal type with %r', s, kinds=InvalidValue)
                c.hit('refused')
        for v in (5, 2.5, True, [], {}, b'x', object):
            for t in (types.Date(), types.Time(), types.Datetime()):
                c.raises(lambda: t(v), '%s of %r', t, v, kinds=InvalidValue)
                c.hit('refused')
        s = fmt_date(m, 'YYYY-MM-DD')
        c.raises(lambda: time(s), 'time of a date', kinds=InvalidValue)
        c.raises(lambda: date(fmt_time(m.time(), 'HH:mm:ss')), 'date of a time', kinds=InvalidValue)
