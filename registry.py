"""Which scenarios decide which property."""


def run(pkg, test, variant='plain', shards=1, timeout=300, timeout_thorough=3600, **kw):
    d = dict(pkg=pkg, test=test, variant=variant, shards=shards, timeout=timeout, timeout_thorough=timeout_thorough)
    d.update(kw)
    return d


MODEL = 'runtime monitoring against a reference model'
LIN = 'runtime monitoring of concurrent histories (linearizability)'
HIST = 'runtime monitoring of recorded request histories in virtual time against a specification, schedule perturbation'

BIN = {'VERIF_BIN_LOCKER': 'cmd/locker', 'VERIF_BIN_LIMITER': 'cmd/limiter', 'VERIF_BIN_WILLOW': 'cmd/willow'}
RACE_BIN = {k: 'race:' + v for k, v in BIN.items()}


def raced(pkg, test, **kw):
    return run(pkg, test, 'sched-race', **kw)


CHECKS = {
    'D01': dict(level='exploration', technique=MODEL, runs=[run('ds', 'TestD01_Model', shards=6)]),
    'D02': dict(level='exploration', technique=LIN + ', schedule perturbation, deadlock watchdog',
                runs=[run('ds', 'TestD02_Linear', 'sched', shards=5), run('ds', 'TestD02_Owned', 'sched', shards=2), run('ds', 'TestD02_Scan', 'sched', shards=3)]),
    'D03': dict(level='exploration', technique=MODEL, runs=[run('ds', 'TestD03_Model', shards=6)]),
    'D04': dict(level='exploration', technique=LIN + ', schedule perturbation, deadlock watchdog',
                runs=[run('ds', 'TestD04_Linear', 'sched', shards=7)]),
    'D05': dict(level='exploration', technique=MODEL + '; ' + LIN,
                runs=[run('ds', 'TestD05_Model', shards=3), run('ds', 'TestD05_Linear', 'sched', shards=5)]),
    'Q01': dict(level='exploration', technique=MODEL, runs=[run('ds', 'TestQ01_Query', shards=7)]),
    'Q02': dict(level='exploration', technique=MODEL, runs=[run('ds', 'TestQ02_Match', shards=7)]),
    'V01': dict(level='exploration', technique='runtime monitoring of algebraic laws and round trips',
                runs=[run('ds', 'TestV01_Order', shards=2), run('ds', 'TestV01_RoundTrip', shards=4), run('ds', 'TestV01_Decode', shards=2)]),
    'H01': dict(level='exploration', technique='runtime monitoring of a lifecycle specification in virtual time, schedule perturbation',
                runs=[run('hb', 'TestH01_Lifecycle', 'sched', shards=8)]),
    'L01': dict(level='exploration', technique=HIST, runs=[run('lk', 'TestLocker', 'sched', shards=6), run('lk', 'TestLockerDuel', 'sched', shards=4)]),
    'L02': dict(level='exploration', technique=HIST, runs=[run('lk', 'TestLocker', 'sched', shards=6), run('lk', 'TestLockerDuel', 'sched', shards=4)]),
    'L03': dict(level='exploration', technique=HIST + ', deadlock watchdog', runs=[run('lk', 'TestLocker', 'sched', shards=6), run('lk', 'TestLockerDuel', 'sched', shards=4)]),
    'L04': dict(level='exploration', technique=HIST, runs=[run('lk', 'TestLocker', 'sched', shards=6), run('lk', 'TestLockerDuel', 'sched', shards=4)]),
    'L05': dict(level='exploration', technique=HIST, runs=[run('lk', 'TestLocker', 'sched', shards=8)]),
    'R01': dict(level='exploration', technique=HIST, runs=[run('lm', 'TestLimiterConcurrent', 'sched', shards=6), run('lm', 'TestLimiterCounter', 'sched', shards=2), run('lm', 'TestLimiterDuel', 'sched', shards=4)]),
    'R02': dict(level='exploration', technique=MODEL, runs=[run('lm', 'TestLimiterModel', shards=6), run('lm', 'TestLimiterConcurrent', 'sched', shards=2)]),
    'R03': dict(level='exploration', technique=LIN, runs=[run('lm', 'TestLimiterCounter', 'sched', shards=4), run('lm', 'TestLimiterConcurrent', 'sched', shards=2), run('lm', 'TestLimiterModel', shards=2)]),
    'R04': dict(level='exploration', technique=LIN + ', deadlock watchdog', runs=[run('lm', 'TestLimiterAdmin', 'sched', shards=5), run('lm', 'TestLimiterModel', shards=3)]),
    'R05': dict(level='exploration', technique='runtime monitoring under injected faults of the Locker, in virtual time', runs=[run('lm', 'TestLimiterConcurrent', 'sched', shards=8), run('lm', 'TestLimiterDuel', 'sched', shards=4)]),
    'W01': dict(level='exploration', technique=HIST + '; ' + MODEL, runs=[run('wl', 'TestWillowModel', shards=3), run('wl', 'TestWillowConcurrent', 'sched', shards=5), run('wl', 'TestWillowRace', 'sched', shards=4), run('wl', 'TestWillowDuel', 'sched', shards=8)]),
    'W02': dict(level='exploration', technique=MODEL + '; ' + HIST, runs=[run('wl', 'TestWillowModel', shards=4), run('wl', 'TestWillowConcurrent', 'sched', shards=4), run('wl', 'TestWillowRace', 'sched', shards=4), run('wl', 'TestWillowDuel', 'sched', shards=4)]),
    'W03': dict(level='exploration', technique=MODEL + '; ' + HIST, runs=[run('wl', 'TestWillowModel', shards=5), run('wl', 'TestWillowConcurrent', 'sched', shards=3)]),
    'W04': dict(level='exploration', technique=MODEL + '; ' + HIST, runs=[run('wl', 'TestWillowModel', shards=4), run('wl', 'TestWillowConcurrent', 'sched', shards=4), run('wl', 'TestWillowRace', 'sched', shards=4), run('wl', 'TestWillowDuel', 'sched', shards=4)]),
    'W05': dict(level='exploration', technique=MODEL + '; ' + HIST, runs=[run('wl', 'TestWillowModel', shards=4), run('wl', 'TestWillowConcurrent', 'sched', shards=3), run('wl', 'TestWillowRace', 'sched', shards=3), run('wl', 'TestWillowDuel', 'sched', shards=10)]),
    'W06': dict(level='exploration', technique=MODEL + '; ' + HIST, runs=[run('wl', 'TestWillowModel', shards=4), run('wl', 'TestWillowConcurrent', 'sched', shards=3), run('wl', 'TestWillowRace', 'sched', shards=3), run('wl', 'TestWillowDuel', 'sched', shards=10)]),
    'W07': dict(level='exploration', technique=MODEL + '; ' + HIST + ', deadlock watchdog', runs=[run('wl', 'TestWillowModel', shards=3), run('wl', 'TestWillowConcurrent', 'sched', shards=5), run('wl', 'TestWillowRace', 'sched', shards=4), run('wl', 'TestWillowDuel', 'sched', shards=8)]),
    'W08': dict(level='exploration', technique=MODEL + '; ' + HIST, runs=[run('wl', 'TestWillowModel', shards=4), run('wl', 'TestWillowConcurrent', 'sched', shards=4)]),
    'W09': dict(level='exploration', technique=LIN + '; ' + MODEL, runs=[run('wl', 'TestWillowAdmin', 'sched', shards=5), run('wl', 'TestWillowModel', shards=3)]),
    'V02': dict(level='exploration', technique='runtime monitoring of two equal worlds, one of them under hostile requests (differential), and of real processes under malformed bytes',
                runs=[run('mx', 'TestHostile', shards=7), run('bin', 'TestRawHTTP', shards=1, binaries=BIN)]),
    'S02': dict(level='exploration', technique='runtime monitoring of interrupted services in virtual time, deadlock watchdog, schedule perturbation',
                runs=[run('lk', 'TestLockerShutdown', 'sched', shards=3), run('wl', 'TestWillowShutdown', 'sched', shards=3), run('lm', 'TestLimiterShutdown', 'sched', shards=2),
                      run('bin', 'TestInterrupt', shards=4, binaries=BIN), run('bin', 'TestInterruptStart', shards=2, binaries=BIN)]),
    'S01': dict(level='exploration', technique='race detector on instrumented builds under perturbed schedules',
                runs=[raced('bin', 'TestEndToEnd', shards=1, binaries=RACE_BIN)] +
                     [raced(p, t) for p, t in (('wl', 'TestWillowShutdown'), ('lk', 'TestLocker'), ('kc', 'TestLockClient'), ('kc', 'TestCalls'), ('wl', 'TestWillowConcurrent'), ('wl', 'TestWillowAdmin'),
                                               ('lm', 'TestLimiterConcurrent'), ('lm', 'TestLimiterCounter'), ('lm', 'TestLimiterAdmin'), ('kc', 'TestItems'), ('lm', 'TestLimiterShutdown'),
                                               ('lk', 'TestLockerShutdown'), ('lk', 'TestLockerDuel'), ('lm', 'TestLimiterDuel'), ('kc', 'TestLockDuel'), ('ds', 'TestD04_Linear'), ('ds', 'TestD02_Linear'), ('ds', 'TestD05_Linear'), ('ds', 'TestD02_Owned'), ('ds', 'TestD02_Scan'), ('hb', 'TestH01_Lifecycle'))]),
    'E01': dict(level='exploration', technique='runtime monitoring of real processes and clients: conservation and exclusion over recorded events',
                runs=[run('bin', 'TestEndToEnd', shards=7, binaries=BIN)]),
    'E02': dict(level='exploration', technique='runtime monitoring of real processes under crashes and restarts: conservation and limits over recorded events',
                runs=[run('bin', 'TestRestart', shards=6, binaries=BIN)]),
    'C01': dict(level='exploration', technique='runtime monitoring of parsed settings against a reference table, and of real processes started with them',
                runs=[run('cf', 'TestSettings', shards=2), run('bin', 'TestSettingsProcess', shards=3, binaries=BIN)]),
    'T01': dict(level='exploration', technique='runtime monitoring of the requests between services and of their logs, schedule perturbation',
                runs=[run('tr', 'TestTrace', 'sched', shards=5), run('bin', 'TestTraceLogs', shards=1, binaries=BIN)]),
    'A01': dict(level='exploration', technique='runtime monitoring of the served documentation, under hostile paths, against the files it consists of',
                runs=[run('dc', 'TestDocs', shards=2)]),
    'K01': dict(level='exploration', technique='runtime monitoring of client histories under injected network faults, in virtual time, against a trace specification',
                runs=[run('kc', 'TestLockClient', 'sched', shards=4), run('kc', 'TestLockDuel', 'sched', shards=4)]),
    'K02': dict(level='exploration', technique='runtime monitoring of client calls and histories under injected network faults, in virtual time, against a trace specification',
                runs=[run('kc', 'TestCalls', 'sched', shards=4), run('kc', 'TestItems', 'sched', shards=4)]),
    'S03': dict(level='exploration', technique='runtime monitoring of real connections against a specification of the TLS settings',
                runs=[run('bin', 'TestServerTLS', shards=3, binaries=BIN), run('bin', 'TestLinkTLS', shards=3, binaries=BIN),
                      run('bin', 'TestChainTLS', shards=1, binaries=BIN), run('bin', 'TestClientTLS', shards=1, binaries=BIN)]),
}

NOTE = ('Shows the property on the executions explored (seeded random workloads and perturbed schedules of the real code); '
        'it does not prove it for all. Trusts the reference model, the recorded call/return order and the Go runtime.')
NOT_APPLICABLE = {}
