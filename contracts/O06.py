"""O06: entities written as JSON or Atom, and read back."""
import decimal
import json
import os
import struct
import urllib.parse
import uuid
from pyvc.kit import proof, bounded, Choice, Contract, Gen, Int
from contracts import D01
from pyslet import iso8601 as iso
from pyslet.odata2 import core as odata
from pyslet.odata2 import csdl, memds
from pyslet.odata2 import metadata as edmx

META = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'data', 'types.xml')


def container():
    doc = edmx.Document()
    with open(META, 'rb') as f:
        doc.read(f)
    cdef = doc.root.DataServices['T.Cont']
    memds.InMemoryEntityContainer(cdef)
    return cdef


CDEF = []


def empty():
    """the container, with no entities in it"""
    if not CDEF:
        CDEF.append(container())
    for name in ('Es', 'Ps'):
        with CDEF[0][name].open() as c:
            c.clear()
    return CDEF[0]


CHARS = ['\r', '\r\n', '  ', 'a', 'Z', '0', ' ', '"', "'", '\\', '/', '<', '&', '>', ']', '\n',
         '\t', '\xe9', '\u20ac', '\U0001f600', '%', '+', '\x7f', '\x85',
         '\u2028', ']]>', '&amp;', '</a>', '\\u0041', '--']


def gen_text(rnd):
    return ''.join(rnd.choice(CHARS) for i in range(rnd.choice(
        [0, 1, 1, 2, 3, 5, 9])))


def gen_when(rnd, zone):
    """year, month, day, hour, minute, milliseconds, zone in minutes"""
    return (rnd.choice([rnd.randint(1, 9998), 1969, 1970, 2000,
                        rnd.randint(1900, 2100)]),
            rnd.randint(1, 12), rnd.randint(1, 28), rnd.randrange(24),
            rnd.randrange(60), rnd.choice([0, 1, 999, 59999, rnd.randrange(
                60) * 1000, rnd.randrange(60000)]),
            rnd.choice([0, 60, -60, 90, -330, 719, -719, rnd.randint(
                -719, 719)]) if zone else None)


def when(w):
    y, mo, d, h, mi, ms, zone = w
    t = iso.Time(hour=h, minute=mi, second=ms / 1000.0)
    if zone is not None:
        t = t.with_zone((zone > 0) - (zone < 0), abs(zone) // 60,
                        abs(zone) % 60)
    return iso.TimePoint(date=iso.Date(century=y // 100, year=y % 100,
                                       month=mo, day=d), time=t)


GEN = {
    'Binary': lambda r: bytes(r.randrange(256) for i in range(r.choice(
        [0, 1, 2, 3, 4, 20]))),
    'Boolean': lambda r: r.random() < .5,
    'Byte': lambda r: r.choice([0, 255, r.randrange(256)]),
    'SByte': lambda r: r.choice([-128, 127, r.randint(-128, 127)]),
    'Int16': lambda r: r.choice([-32768, 32767, 0, r.randint(-999, 999)]),
    'Int32': lambda r: r.choice([-2 ** 31, 2 ** 31 - 1, 0, r.randint(
        -10 ** 6, 10 ** 6)]),
    'Int64': lambda r: r.choice([-2 ** 63, 2 ** 63 - 1, 2 ** 53 + 1, 0,
                                 r.randint(-10 ** 18, 10 ** 18)]),
    'Decimal': lambda r: decimal.Decimal(r.randint(-10 ** 12, 10 ** 12)
                                         ).scaleb(-r.randrange(7)),
    'Double': lambda r: r.choice([0.0, 1.0, -1.5, 1e300, 5e-324, 0.1 + 0.2,
                                  r.uniform(-1e6, 1e6), r.uniform(-1, 1),
                                  float('inf'), float('-inf'), 1e15, 1e16]),
    'Single': lambda r: r.choice([0.0, 1.0, -1.5, 0.25, 1024.5,
                                  float(r.randint(-9999, 9999)) / 16,
                                  struct.unpack('f', struct.pack('f', r.uniform(
                                      -10, 10)))[0]]),
    'Guid': lambda r: uuid.UUID(int=r.getrandbits(128)),
    'String': gen_text,
    'DateTime': lambda r: gen_when(r, False),
    'DateTimeOffset': lambda r: gen_when(r, True),
    'Time': lambda r: (r.randrange(24), r.randrange(60), r.choice(
        [0, 0, 1, 59, 30, 0.5, 59.999])),
}


def gen_entity(rnd):
    v = {}
    for name in sorted(GEN):
        v[name] = None if rnd.random() < .25 else GEN[name](rnd)
    v['A'] = None if rnd.random() < .3 else gen_text(rnd)
    v['When'] = None if rnd.random() < .3 else gen_when(rnd, False)
    v['B'] = None if rnd.random() < .3 else rnd.choice(
        [2 ** 62 + 1, -1, 0, 7])
    select = None
    if rnd.random() < .3:
        select = {n: None for n in rnd.sample(
            sorted(GEN) + ['C', 'ID'], rnd.randint(1, 6))}
    return dict(id=rnd.choice([0, 1, -5, 99]), values=v, select=select,
                exists=rnd.random() < .7, version=rnd.choice([1, 2]),
                linked=[gen_text(rnd)[:5] for i in range(rnd.choice(
                    [0, 0, 1, 2, 3]))], before=rnd.random() < .5, one=rnd.random() < .5, expand=rnd.random() < .5)


def iso_form(w):
    return '%04i-%02i-%02iT%02i:%02i:%06.3f' % (
        w[0], w[1], w[2], w[3], w[4], w[5] / 1000.0)


#: the values an entity may have when another is read into it
BEFORE = dict(Binary=b'x', Boolean=True, Byte=7, SByte=-7, Int16=7, Int32=7,
              Int64=7, Decimal=decimal.Decimal('7.5'), Double=7.5, Single=7.5,
              Guid=uuid.UUID(int=7), String='before',
              DateTime=(2007, 7, 7, 7, 7, 7000, None),
              DateTimeOffset=(2007, 7, 7, 7, 7, 7000, 60), Time=(7, 7, 7),
              A='before', When=(2007, 7, 7, 7, 7, 7000, None), B=7)


def python_value(name, x):
    if x is None:
        return None
    if name in ('DateTime', 'DateTimeOffset', 'When'):
        return when(x)
    if name == 'Time':
        return iso.Time(hour=x[0], minute=x[1], second=x[2])
    return x


def where(e, name):
    """the property of an entity"""
    if name == 'A':
        return e['C']['A']
    if name in ('When', 'B'):
        return e['C']['D'][name]
    return e[name]


def fill(e, values):
    for name, x in values.items():
        where(e, name).set_from_value(python_value(name, x))


def close(a, b):
    """the same date and time, whatever the rounding of the seconds"""
    if a is None or b is None:
        return a is b
    if a.get_calendar_string(ndp=3) == b.get_calendar_string(ndp=3):
        return True
    # a zone of zero has a sign
    if not a.get_zone()[1] and a.get_zone()[0] is not None and not \
            b.get_zone()[1] and b.get_zone()[0] is not None:
        return a.with_zone(0).get_calendar_string(ndp=3) == \
            b.with_zone(0).get_calendar_string(ndp=3)
    return False


def same(k, e, values, select, how):
    for name, x in values.items():
        prop = 'C' if name in ('A', 'When', 'B') else name
        got = where(e, name).value
        if select is not None and prop not in select:
            k.ensures("not selected, no value", got is None, (how, name, got))
            continue
        want = python_value(name, x)
        if name in ('DateTime', 'DateTimeOffset', 'When'):
            ok = close(got, want)
        else:
            ok = got == want and type(got) is type(want)
        k.ensures("the value read is the value written", ok,
                  (how, name, got, want))


def same_key(k, e, key, how):
    k.ensures("the key", e['ID'].value == key, (how, e['ID'].value))


@bounded('entities written and read', 'texts of up to nine parts',
         _samples=1800, v=Gen(gen_entity))
def entities(k, v):
    cdef = empty()
    values, select = v['values'], v['select']
    with cdef['Es'].open() as c, cdef['Ps'].open() as pc:
        e = c.new_entity()
        e.set_key(v['id'])
        fill(e, values)
        names = sorted(set(v['linked']))
        for name in names:
            p = pc.new_entity()
            p.set_key(name)
            p['N'].set_from_value(len(name))
            pc.insert_entity(p)
        if v['exists']:
            c.insert_entity(e)
            with e['Ps'].open() as nav, e['One'].open() as one:
                for name in names:
                    nav[name] = pc[name]
                if names and v['one']:
                    one[names[0]] = pc[names[0]]
            if select is not None or v['expand']:
                c.set_expand({'Ps': None, 'One': None} if v['expand'] else None,
                             None if select is None else dict(select))
            e = c[v['id']]
        else:
            select = None
            for name in names:
                e['Ps'].bind_entity(pc[name] if v['expand'] else name)

        def resolver(href):
            # Ps('name'), percent-encoded
            path = urllib.parse.unquote(str(href))
            name = path[path.index("Ps('") + 4:-2].replace("''", "'")
            return pc[name]
        # JSON
        text = ''.join(e.generate_entity_type_in_json(version=v['version']))
        obj = json.loads(text)
        k.ensures("where it is", obj['__metadata']['uri'] == str(
            e.get_location()))
        new = c.new_entity()
        new.exists = e.exists
        if v['before']:
            fill(new, BEFORE)
        new.set_from_json_object(obj, resolver)
        same(k, new, values, select, 'JSON')
        # a key that is not selected is not written
        if select is None or 'ID' in select:
            same_key(k, new, v['id'], 'JSON')
        links(k, e, new, names, obj, v, 'JSON')
        # Atom
        doc = odata.Document(root=odata.Entry(None, e))
        data = bytes(doc)
        doc = odata.Document()
        doc.read(data)
        new = c.new_entity()
        new.exists = e.exists
        if v['before']:
            fill(new, BEFORE)
        doc.root.get_value(new, resolver)
        same(k, new, values, select, 'Atom')
        if select is None or 'ID' in select:
            same_key(k, new, v['id'], 'Atom')
        k.ensures("where it is", str(doc.root.AtomId.get_value()) == str(
            e.get_location()))
        for name in sorted(GEN):
            k.ensures("what is selected", new.is_selected(name) == (
                select is None or name in select), (name, select))
        if not v['exists']:
            bound(k, new, names, 'Atom')
        elif v['expand'] and (select is None or 'Ps' in select):
            with new['Ps'].open() as nav:
                k.ensures("the entities linked", sorted(nav.keys()) == names,
                          (names, nav.keys()))
            if select is None:
                one = new['One'].get_entity()
                k.ensures("the entity linked", (one and one.key()) == (
                    names[0] if names and v['one'] else None))


def bound(k, new, names, how):
    k.ensures("the links", sorted(
        b.key() if isinstance(b, csdl.Entity) else b
        for b in new['Ps'].bindings) == names, (how, names))


def links(k, e, new, names, obj, v, how):
    if not v['exists']:
        bound(k, new, names, how)
    elif v['select'] is not None and 'Ps' not in v['select']:
        k.ensures("not selected", 'Ps' not in obj)
    elif v['expand']:
        rows = obj['Ps'] if v['version'] < 2 else obj['Ps']['results']
        k.ensures("the entities linked", sorted(
            r['ID'] for r in rows) == names, (rows, names))
        if v['select'] is None:
            k.ensures("the entity linked", (
                obj['One'] and obj['One']['ID']) == (
                    names[0] if names and v['one'] else None))
        k.ensures("their values", all(r['N'] == len(r['ID']) for r in rows))
    else:
        k.ensures("where they are", obj['Ps']['__deferred']['uri'] == str(
            e.get_location()) + '/Ps')


LEVEL = 'exploration'


# -- dates in JSON ------------------------------------------------------------

#: proved in D01
DATES = [D01.SET_ABS, D01.GET_ABS, D01.CHECK]

DAY = 86400000
#: the day number of 1970-01-01
BASE = 719163


@proof('reading a JSON date', n=Int(-62135596800000, 253402300799999, corners=[
    0, -1, 1, 999, -86400000, 86399999, 1341100741001]),
    off=Int(0, 1439, corners=[0, 59, 60, 90]), sign=Choice(['', '+', '-']),
    _uses=DATES)
def read_date(k, n, off, sign):
    text = "/Date(%i" % n
    if sign:
        text = text + sign + "%04i" % off
    p = odata.parse_asp_dot_net_date(text + ")/")
    t = p.time
    k.ensures("the day", p.date.get_absolute_day() == BASE + n // DAY)
    ms = n % DAY
    k.ensures("the time", t.hour == ms // 3600000 and
              t.minute == ms // 60000 % 60)
    k.ensures("the seconds", abs(t.second * 1000 - ms % 60000) < .001)
    zdir, zoffset = p.get_zone()
    k.ensures("the offset", zoffset == (off if sign else 0))
    k.ensures("its direction", zdir == {'': 0, '+': 1, '-': -1}[sign] or
              zoffset == 0 and zdir is not None)


@proof('writing a JSON date', y=D01.Y, mo=D01.M, d=D01.D, h=Int(0, 23),
       mi=Int(0, 59), ms=Int(0, 59999, corners=[0, 1, 1001, 59999]),
       off=Int(0, 1439, corners=[0, 59, 60, 90]),
       zone=Choice([None, 1, -1]), _uses=DATES)
def write_date(k, y, mo, d, h, mi, ms, off, zone):
    k.requires(D01.DVALID(k, y, mo, d))
    D01.date_facts(k, y, mo, d)
    t = iso.Time(hour=h, minute=mi, second=ms / 1000.0)
    v = csdl.DateTimeValue() if zone is None else csdl.DateTimeOffsetValue()
    v.value = iso.TimePoint(date=iso.Date(
        century=y // 100, year=y % 100, month=mo, day=d),
        time=t if zone is None else t.with_zone(zone, off // 60, off % 60))
    text = odata.simple_value_to_json_str(v)
    n = (D01.DAYNUM(k, y, mo, d) - BASE) * DAY + (h * 60 + mi) * 60000 + ms
    k.ensures("the form of a date", text[:8] == '"\\/Date(' and
              text[-4:] == ')\\/"')
    ticks = text[8:-4]
    if zone is not None:
        k.ensures("the offset", int(ticks[-4:]) == off)
        k.ensures("its direction", ticks[-5] == (
            '+' if zone > 0 else '-') or off == 0)
        ticks = ticks[:-5]
    k.ensures("milliseconds since 1970", int(ticks) == n)


def gen_iso(rnd):
    return rnd.choice([True, False]), gen_when(rnd, rnd.random() < .7)


@bounded('JSON dates written as ISO 8601 text', 'years 1 to 9998',
         _samples=1500, v=Gen(gen_iso))
def iso_text(k, v):
    offset, w = v
    zone = w[6]
    text = iso_form(w)
    if zone is not None:
        text = text + ('Z' if not zone else '%s%02i:%02i' % (
            '+' if zone > 0 else '-', abs(zone) // 60, abs(zone) % 60))
    value = csdl.DateTimeOffsetValue() if offset else csdl.DateTimeValue()
    odata.simple_value_from_json(value, text)
    got = value.value
    if offset:
        # no zone is taken to be UTC
        k.ensures("the same time and zone", close(got, when(
            w[:6] + (zone or 0,))), (text, str(got)))
    else:
        # days and milliseconds in UTC
        ms = (w[3] * 60 + w[4]) * 60000 + w[5] - (zone or 0) * 60000
        day = when(w).date.get_absolute_day() + ms // DAY
        ms = ms % DAY
        k.ensures("no zone", got.get_zone()[0] is None, (text, str(got)))
        k.ensures("the same day in UTC",
                  got.date.get_absolute_day() == day, (text, str(got)))
        k.ensures("the same time in UTC", abs(got.time.get_total_seconds() -
                  ms / 1000.0) < .0005, (text, str(got)))
