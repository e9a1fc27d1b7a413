"""What each check runs: engine, number of runs and time cap per tier, and what
counts as a non-trivial run."""
COMPONENTS = {
    'c': {'real': ['src/oprf.c', 'src/toprf.c', 'src/dkg.c', 'src/utils.c', 'src/tp-dkg.c', 'src/mpmult.c', 'src/noise_xk (channel code)', 'libsodium arithmetic, hashing, signatures'],
          'simulated': ['network between participants', 'scheduling of participants', 'wall clock (time, gettimeofday, clock_gettime)', 'random source (libsodium randombytes)', 'memory locking (sodium_mlock/munlock)', 'contents and ownership of heap memory'],
          'stub': []},
    'py': {'real': ['python/pyoprf (wrappers and multiplexer)', 'liboprf.so and channel library built from the working tree', 'libsodium'],
           'simulated': ['sockets, select and TLS wrapping used by the multiplexer', 'processes/servers behind the sockets', 'wall clock', 'random source'],
           'stub': []},
}
_D = 'A run is one plan drawn from the seed (participants, parameters, latencies, fragmentation, faults) and executed once. Two runs count as different if the order of participant actions with their result codes differs. '


def _c(q, t, rule, **k):
    d = {'engine': 'c', 'quick': q, 'thorough': t, 'rule': _D + rule}
    d.update(k)
    return d


NT = 'Non-trivial: at least one planned fault took effect.'
CHECKS = {
    'K01': _c((6000, 75), (60000, 400), 'Non-trivial: at least one honest peer ended with a share.'),
    'K02': _c((4000, 75), (60000, 400), 'Non-trivial: every run (skewed clocks, delays, partitions that heal, fragments).'),
    'K03': _c((9000, 75), (80000, 400), NT),
    'K04': _c((18000, 75), (80000, 400), 'Non-trivial: every run; accepted, refused and boundary calls are counted separately.'),
    'K05': _c((6000, 75), (60000, 400), NT),
    'K06': _c((9000, 75), (80000, 400), NT),
    'K07': _c((9000, 75), (80000, 400), NT),
    'K08': _c((9000, 75), (80000, 400), NT),
    'K09': _c((9000, 75), (80000, 400), NT),
    'K10': _c((2250, 75), (20000, 400), 'Non-trivial: at least two sessions ran interleaved.'),
    'K11': _c((2500, 75), (30000, 400), 'Non-trivial: every run; each is executed twice with different leftover memory and scanned for secrets.'),
    'K12': _c((2500, 75), (30000, 400), 'Non-trivial: a lock request made by the library failed.'),
    'K13': _c((2250, 75), (20000, 400), 'Non-trivial: every run; values of all sessions of a run and of its re-seeded twin are compared.'),
    'K14': _c((6000, 75), (60000, 400), 'Non-trivial: every run; each is disturbed in the manner of one of the other checks and all participants are released at the end.'),
    'T01': _c((6000, 75), (40000, 400), NT),
    'T02': _c((18000, 75), (40000, 400), 'Non-trivial: a planned fault took effect or an incomplete set of answers was combined.'),
    'T03': _c((4500, 75), (40000, 400), 'Non-trivial: a planned fault took effect or answers of different requests or sub-sessions were mixed.'),
    'T04': _c((20000, 75), (60000, 400), 'Non-trivial: at least one element was replaced.'),
    'T05': _c((2000, 75), (12000, 400), 'Non-trivial: a multiplication completed with a fault, repeatedly, or with more holders than needed.'),
    'T06': _c((6000, 75), (40000, 400), NT),
    'T07': _c((4500, 75), (40000, 400), 'Non-trivial: a crash, restart, network fault or key update took effect.'),
    'T08': _c((5000, 75), (60000, 400), 'Non-trivial: at least one operation was preempted inside the library by another.'),
    'T09': _c((15000, 75), (60000, 400), 'Non-trivial: a lock request made by the library failed.'),
    'T10': _c((3000, 75), (40000, 400), 'Non-trivial: a share was stolen, or a crash, network fault or key renewal took effect.'),
    'N01': _c((12000, 75), (80000, 400), NT),
    'N02': _c((16000, 75), (100000, 400), NT),
    'N03': _c((16000, 75), (100000, 400), NT),
    'N04': _c((16000, 75), (100000, 400), 'Non-trivial: a demanded level was not available, so that a payload had to be kept back or withheld.'),
    'N05': _c((12000, 75), (80000, 400), 'Non-trivial: every run; one-time values of all setups and of a twin run with other randomness are compared.'),
    'N06': _c((8000, 75), (80000, 400), 'Non-trivial: every run; each is disturbed in the manner of one of the other checks and everything is closed at the end.'),
    'M01': _c((12000, 75), (60000, 400), NT, engine='py'),
    'M02': _c((12000, 75), (60000, 400), NT, engine='py'),
    'M03': _c((2500, 75), (25000, 400), 'Non-trivial: a planned fault took effect or at least two sessions ran interleaved.', engine='py'),
    'M04': _c((10000, 75), (60000, 400), NT, engine='py'),
    'M05': _c((4000, 75), (50000, 400), NT, engine='py'),
    'M06': _c((8000, 75), (60000, 400), NT, engine='py'),
}

NOT_APPLICABLE = {
    'A01': 'Pure function of its inputs: no schedule, fault, clock or second party is involved. Test vectors and a reference implementation decide it.',
    'A02': 'Concerns physical time and memory access patterns, which a simulated clock and scheduler cannot observe.',
    'A03': 'Pure algebra on index sets without schedule, fault or time; proof or plain comparison with a reference decides it. The protocols that use the weights are covered by T01, T02, T05 and T06.',
}
