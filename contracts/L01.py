"""L01: LTI nonces and roles."""
import re
import types
from pyvc.kit import proof, bounded, Contract, Int, Choice, Gen, Str, Opt
from pyslet import imsbltiv1p0 as lti
from pyslet.imsbltiv1p0 import ToolProvider, is_subrole, split_role
from pyslet.odata2.memds import InMemoryEntityContainer
from pyslet.rfc2396 import URI
from pyslet.urn import URN


# -- roles --------------------------------------------------------------------

class Role(URN):
    """a URN of given parts (the parser is R03's concern)"""

    def __init__(self, nid, nss):
        self.octets = 'urn'
        self.nid = nid
        self.nss = nss
        self.answer = None

    def __str__(self):
        return 'urn'


def urn(nid, nss):
    return Role(nid, nss)


NSS = Str(alphabet='r:ims/lX', maxlen=14, words=[
    'role:ims/lis/', 'role:ims/lis/Learner', 'ims/lis', ':', '/', 'X',
    'role:ims/lis/Learner/Lecturer', 'r:ims/lis/X/', 'r:ims/lis//'])
PATH = 'ims/lis/'


def none_of(k, s, lo, hi, codes):
    return k.forall(lo, hi, lambda i: k.And(*[
        k.code(s, i) != c for c in codes]))


def good(k, s, c, d):
    """s is a role with its colon at c and the end of the type at d"""
    return k.And(
        c >= 0, c + 9 < d, d <= len(s), lambda: k.And(
            k.code(s, c) == 58, none_of(k, s, 0, c, [58]), *[
                k.code(s, c + 1 + i) == ord(PATH[i])
                for i in range(len(PATH))]),
        lambda: none_of(k, s, c + 9, d, [47, 58]),
        lambda: k.Or(d == len(s), lambda: k.And(
            k.code(s, d) == 47, none_of(k, s, d + 1, len(s), [47, 58]))))


def ends(s):
    """where the colon and the type of a sample end"""
    c = s.find(':')
    d = s.find('/', c + 9)
    return c, len(s) if d < 0 else d


@proof('well-formed roles', s=NSS, c=Int(0, None), d=Int(0, None),
       _feas_ms=100)
def split_good(k, s, c, d):
    if k.native:
        c, d = ends(s)
    k.requires(good(k, s, c, d))
    r = split_role(urn('lti', s))
    k.ensures("vocabulary", r[0] == s[:c], r)
    k.ensures("type", r[1] == s[c + 9:d], r)
    if d == len(s):
        k.ensures("no sub-type", r[2] is None, r)
    else:
        k.ensures("sub-type", k.And(r[2] is not None,
                                    lambda: r[2] == s[d + 1:]), r)


@proof('other names', s=NSS, _feas_ms=100)
def split_bad(k, s):
    try:
        r = split_role(urn('lti', s))
    except ValueError:
        return
    c = len(r[0])
    d = c + 9 + len(r[1])
    k.ensures("only a well-formed name is split", good(k, s, c, d), r)


@proof('other namespaces', nid=Str(alphabet='ltiTL', maxlen=4), s=NSS)
def other(k, nid, s):
    k.requires(nid != 'lti')
    try:
        split_role(urn(nid, s))
        k.fail("a name of another namespace is split")
    except ValueError:
        pass


def split_result(k, role):
    if role.answer is None:
        role.answer = (k.fresh('str', 'v'), k.fresh('str', 't'), k.fresh(
            'str', 'u') if k.split(k.fresh('bool', 'sub')) else None) \
            if k.split(k.fresh('bool', 'good')) else ()
    if role.answer == ():
        raise ValueError
    return role.answer


SPLIT_C = Contract('pyslet.imsbltiv1p0:split_role', split_result,
                   checked_by='L01 well-formed roles, other names')
ROLE = Gen(lambda rnd: ':'.join([rnd.choice(['role', 'sysrole']), '/'.join(
    ['ims', 'lis'] + [rnd.choice(['A', 'B', '']) for i in range(
        rnd.choice([1, 1, 2, 2, 3]))])]))


def answer(s):
    m = re.match('([^:]*):ims/lis/([^/:]+)(?:/([^/:]*))?\\Z', s)
    return m.groups() if m else ()


@proof('is_subrole', _uses=[SPLIT_C], a=NSS, b=NSS)
def subrole(k, a, b):
    relation(k, a, b)


@bounded('generated roles', 'two vocabularies, types and sub-types',
         a=ROLE, b=ROLE, _samples=4000)
def generated_roles(k, a, b):
    relation(k, a, b)


@bounded('parsed roles', 'every role handle in every form', _samples=3000,
         a=Gen(lambda rnd: rnd.choice(HANDLES)),
         b=Gen(lambda rnd: rnd.choice(HANDLES)))
def parsed_roles(k, a, b):
    x, y = URI.from_octets(a), URI.from_octets(b)
    p, q = (s.split(':', 2)[2] for s in (a, b))
    p, q = answer(p), answer(q)
    k.ensures("split_role", split_role(x) == p, (a, split_role(x)))
    k.ensures("is_subrole", is_subrole(x, y) is (
        p[:2] == q[:2] and q[2] is None))


#: the roles of the specification
SUB = {'Learner': 'Learner NonCreditLearner GuestLearner ExternalLearner '
       'Instructor', 'Instructor': 'PrimaryInstructor Lecturer '
       'GuestInstructor ExternalInstructor', 'ContentDeveloper':
       'ContentDeveloper Librarian ContentExpert ExternalContentExpert',
       'Member': 'Member', 'Manager': 'AreaManager CourseCoordinator '
       'Observer ExternalObserver', 'Mentor': 'Mentor Reviewer Advisor '
       'Auditor Tutor LearningFacilitator ExternalMentor ExternalReviewer '
       'ExternalAdvisor ExternalAuditor ExternalTutor '
       'ExternalLearningFacilitator', 'Administrator': 'Administrator '
       'Support Developer SystemAdministrator ExternalSystemAdministrator '
       'ExternalDeveloper ExternalSupport', 'TeachingAssistant':
       'TeachingAssistant TeachingAssistantSection '
       'TeachingAssistantSectionAssociation TeachingAssistantOffering '
       'TeachingAssistantTemplate TeachingAssistantGroup Grader'}
NAMES = {'role': [t for t in SUB] + ['%s/%s' % (t, u) for t in SUB
                                     for u in SUB[t].split()],
         'sysrole': 'SysAdmin SysSupport Creator AccountAdmin User '
         'Administrator None'.split(),
         'instrole': 'Student Faculty Member Learner Instructor Mentor Staff '
         'Alumni ProspectiveStudent Guest Other Administrator Observer '
         'None'.split()}
HANDLES = ['urn:lti:%s:ims/lis/%s' % (v, n) for v in NAMES for n in NAMES[v]]
TABLES = {'role': lti.ROLE_HANDLES, 'sysrole': lti.SYSROLE_HANDLES,
          'instrole': lti.INSTROLE_HANDLES}


@proof('role handles', v=Choice(sorted(TABLES)))
def handles(k, v):
    t = TABLES[v]
    k.ensures("the names", sorted(t) == sorted(NAMES[v]))
    for n in NAMES[v]:
        k.ensures("names the role", str(t[n]) == 'urn:lti:%s:ims/lis/%s' % (
            v, n), n)


def relation(k, a, b):
    a, b = urn('lti', a), urn('lti', b)
    if k.native:
        a.answer, b.answer = answer(a.nss), answer(b.nss)
    else:
        a.answer = b.answer = None
    try:
        r = is_subrole(a, b)
    except ValueError:
        k.ensures("one is not well-formed", k.Or(a.answer == (),
                                                 b.answer == ()))
        return
    k.ensures("both are well-formed", k.And(a.answer != (), b.answer != ()))
    k.ensures("exactly then", k.Iff(r, k.And(
        a.answer[0] == b.answer[0], a.answer[1] == b.answer[1],
        b.answer[2] is None)), r)


# -- nonces -------------------------------------------------------------------

#: the time that the module under test sees
NOW = [0]


def clock_now():
    return NOW[0]


#: in a proof it is the parameter called now
CLOCK_C = Contract('contracts.L01:clock_now', lambda k: k.get('clock')[0],
                   checked_by='the environment of the harness')
lti.time = types.SimpleNamespace(time=clock_now)


class Provider(ToolProvider):
    """a provider with a collection of nonces (the launches and consumers
    play no part)"""

    def __init__(self, nonces):
        self.nonces = nonces


def provider(nonces):
    return Provider(nonces)


WINDOW = 90 * 60


def gen_nonces(rnd):
    """presentations of a few nonces by a few consumers"""
    ops = []
    now = rnd.choice([1.0e9, 1445385600, 1445385599.75, 2 ** 31])
    for i in range(rnd.randint(2, 14)):
        now += rnd.choice([0, 0, 1, 60, 2700, 5399, 5400, 5400.5, 5401, 86400,
                           rnd.randint(0, 12000), rnd.random() * 10800])
        ops.append((now, rnd.choice(['a', 'ab', 'A']), rnd.choice(
            ['c', 'bc', 'C', '\xe9'])))
    return ops


def container():
    cdef = lti.load_metadata().root.DataServices[
        'LTISchema.LTIDatabase']
    InMemoryEntityContainer(cdef)
    return cdef


CDEF = []


@bounded('histories of nonces', 'up to 14 presentations', _samples=600,
         ops=Gen(gen_nonces))
def nonces(k, ops):
    if not CDEF:
        CDEF.append(container())
    es = CDEF[0]['Nonces']
    with es.open() as c:
        for key in list(c.keys()):
            del c[key]
    p = provider(es)
    seen = {}
    for now, client, nonce in ops:
        NOW[0] = now
        last = seen.get((client, nonce))
        r = p.validate_timestamp_and_nonce(client, 0, nonce, None)
        if last is None:
            k.ensures("never seen", r is True, (now, client, nonce))
        elif now - last <= WINDOW - 1e-3:
            k.ensures("refused within ninety minutes", r is False,
                      (last, now, client, nonce))
        elif now - last > WINDOW + 1e-3:
            k.ensures("accepted later", r is True,
                      (last, now, client, nonce))
        if r:
            seen[(client, nonce)] = now


# a collection that keeps entities in a list, and exact times

class Point(object):
    def __init__(self, t):
        self.t = t

    def with_zone(self, zdirection, zhour=None, zminute=None):
        return self

    def get_unixtime(self):
        return self.t


class Stamp(object):
    def __init__(self):
        self.value = None

    def set_from_value(self, t):
        self.value = Point(t)


class Used(object):
    def __init__(self):
        self.key = None
        self.stamp = Stamp()

    def set_key(self, key):
        self.key = key

    def __getitem__(self, name):
        if name == 'LastSeen':
            return self.stamp
        raise KeyError(name)


class Nonces(object):
    """entities are copied in and out, as stores do"""

    def __init__(self):
        self.stored = []    # key, time

    def open(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        pass

    def new_entity(self):
        return Used()

    def __getitem__(self, key):
        for k, t in self.stored:
            if k == key:
                e = Used()
                e.set_key(key)
                e.stamp.set_from_value(t)
                return e
        raise KeyError(key)

    def insert_entity(self, e):
        for k, t in self.stored:
            if k == e.key:
                raise ValueError("duplicate")
        self.stored.append((e.key, e.stamp.value.t))

    def update_entity(self, e, merge=True):
        self.stored = [(k, e.stamp.value.t if k == e.key else t)
                       for k, t in self.stored]


WHO = Choice([('a', 'c'), ('a', 'bc'), ('ab', 'c'), ('b', 'c')])
TIMES = Int(0, None, corners=[0, 5399, 5400, 5401, 10800, 10801, 1445385600])


@proof('three presentations', _uses=[CLOCK_C], p=WHO, q=WHO, r=WHO,
       t=TIMES, u=Int(0, None, corners=[0, 1, 5399, 5400, 5401]),
       v=Int(0, None, corners=[0, 1, 5399, 5400, 5401]))
def three(k, p, q, r, t, u, v):
    k.requires(t + u + v < 2 ** 40)
    tool = provider(Nonces())
    seen = {}
    clock = [0]
    k.put('clock', clock)
    now = t
    for who, wait in ((p, 0), (q, u), (r, v)):
        now = now + wait
        clock[0] = now
        if k.native:
            NOW[0] = now
        ok = tool.validate_timestamp_and_nonce(who[0], 0, who[1], None)
        if who in seen:
            k.ensures("refused exactly within ninety minutes", k.Iff(
                ok, seen[who] + WINDOW < now))
        else:
            k.ensures("never seen", ok)
        if ok:
            seen[who] = now
