"""C27  The check for a newer model library."""

import datetime
from unittest import mock

from checks.c26 import PARENT, TAG, Hub, Library, named, world
from engine.harness import assume_note, harness

assume_note('the network is the stand-in for GitHub of C26',
            'the clock is a stand-in for datetime.now with a symbolic present')


class Moment:
    def __init__(self, clock, t):
        self.clock, self.t = clock, t

    def isoformat(self, *_a, **_k):
        self.clock.stamps.append(self)
        return f'moment {len(self.clock.stamps) - 1}'

    def __sub__(self, o):
        return Span(self.t - o.t) if isinstance(o, Moment) else Moment(
            self.clock, self.t - o.total_seconds())

    def __add__(self, o):
        return Moment(self.clock, self.t + o.total_seconds())

    def __lt__(self, o):
        return bool(self.t < o.t)

    def __gt__(self, o):
        return bool(self.t > o.t)

    def __le__(self, o):
        return bool(self.t <= o.t)

    def __ge__(self, o):
        return bool(self.t >= o.t)


class Span:
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s

    def __lt__(self, o):
        return bool(self.s < o.total_seconds())

    def __gt__(self, o):
        return bool(self.s > o.total_seconds())

    def __le__(self, o):
        return bool(self.s <= o.total_seconds())

    def __ge__(self, o):
        return bool(self.s >= o.total_seconds())


class Clock:
    """The part of datetime that is used, with a symbolic present."""

    def __init__(self):
        self.time, self.stamps = 0, []
        self.datetime, self.timedelta = self, datetime.timedelta
        self.timezone = datetime.timezone

    def now(self, *_a, **_k):
        return Moment(self, self.time)

    def fromisoformat(self, text):
        if not text.startswith('moment '):
            raise ValueError(text)
        return self.stamps[int(text.split()[1])]


NEWER = {('A', 'B'), ('A', 'C'), ('B', 'C')}


@harness('an installed release or commit, two (three) checks for a newer version at any '
         'times within 3 days, with a new release, an update or a failing network '
         'between them',
         params=[{'installed': c, 'how': h, 'n_checks': 2} for c in 'ABC'
                 for h in ('version', 'commit')]
         + [{'installed': 'A', 'how': 'version', 'n_checks': 3}],
         thorough=[{'installed': c, 'how': h, 'n_checks': 3} for c in 'BC'
                   for h in ('version', 'commit')],
         must_reach=('asked again', 'not asked again'), time_limit=400,
         max_paths=30000)
def version_check(ctx, installed, how, n_checks):
    from pelicun.tools import dlml

    hub = Hub(ctx, ['fragility.csv'], latest='B',
              listed=dict.fromkeys(PARENT, ['fragility.csv']))
    clock = Clock()
    with world(hub) as d, mock.patch.object(dlml, 'datetime', clock):
        lib = Library(ctx, hub, d)
        hub.latest = ctx.choice('latest', 'ABC')
        lib.attempt('install', how, installed)
        answer, asked_at = None, None
        for i in range(n_checks):
            event = ctx.choice(f'event {i}', ['none', 'offline'] if i == 0 else
                               ['none', 'release', 'update', 'offline'])
            if event == 'release':
                hub.latest = ctx.choice(f'release {i}', 'ABC')
            elif event == 'update':
                hub.calm()
                installed = ctx.choice(f'update {i}', 'ABC')
                if (lib.last, how) != (installed, 'version'):
                    answer = None
                how = 'version'
                lib.attempt(f'update {i}', how, installed)
            if event == 'offline':
                hub.schedule(f'offline {i}', 0, crash=False)
            n = len(hub.asked)
            got = dlml.check_dlml_version()
            asked = len(hub.asked) > n
            if answer is not None and not asked:
                ctx.check(clock.time - asked_at < 86400, 'asked once a day')
                ctx.check(all(got[k] == answer[k] for k in got),
                          'the answer of the day is repeated')
                ctx.reach('not asked again')
            elif answer is not None:
                ctx.check(clock.time - asked_at >= 86400, 'asked at most once a day')
                ctx.reach('asked again')
            else:
                ctx.check(asked, 'asked after an update')
            if asked:
                name = named(how, installed)
                ctx.check(got['current_version'] == name, 'installed version')
                if event == 'offline':
                    ctx.check(got['error'] is not None
                              and got['update_available'] is False, 'offline')
                else:
                    want = how == 'commit' or (installed, hub.latest) in NEWER
                    ctx.check(got['latest_version'] == TAG[hub.latest]
                              and got['error'] is None, 'latest version')
                    ctx.check(got['update_available'] is want,
                              'update available if and only if newer')
                answer, asked_at = dict(got), clock.time
            hub.calm()
            dt = ctx.int(f'seconds after check {i}', 0, 200000)
            clock.time = clock.time + dt
