"""Per property: which specification is explored and which driver replays it."""

FEATURES = {'vu256': 'u256', 'vfield': 'field', 'vcurve': 'curve', 'vmerkle': 'merkle',
            'vstark': 'stark', 'vutil': 'util', 'vdecode': 'codec'}


def simulate(run, binary, specs, opts=(), release=4):
    """specs: list of dicts for Run.quint. All traces go to a driver built with
    overflow checks and debug assertions, and every `release`-th one also to the
    optimised driver without them (thorough: all of them)."""
    b = run.build(FEATURES[binary], binary, 'checked')
    o = run.build(FEATURES[binary], binary, 'release') if release else None
    futs = []
    for s in specs:
        futs += run.quint(**s)
        run.models.append({'module': s['module'], 'init': s.get('init', 'init'), 'step': s.get('step', 'step'),
                           'steps_per_trace': s['steps'], 'processes': s.get('procs', 8),
                           'samples': s.get('samples', 1), 'invariant': s.get('inv')})
    files = run.gather(futs)
    run.log('behaviours generated:', len(files))
    run.replay(b.result(), files, opts)
    if o:
        run.replay(o.result(), files[::run.scale(release, 1)], opts)


def c17(run):
    simulate(run, 'vu256', [dict(module='U256Ring', steps=run.scale(1500, 20000), inv='laws')])


def c18(run):
    simulate(run, 'vu256', [dict(module='U256Div', steps=run.scale(4000, 60000), inv='laws')])


def c19(run):
    simulate(run, 'vu256', [dict(module='U256Gcd', steps=run.scale(4000, 60000), inv='laws')])


def decode(run, quick, thorough):
    simulate(run, 'vdecode', [dict(module='Decode', steps=run.scale(quick, thorough), inv='laws')], release=run.scale(0, 1))


def c20(run):
    simulate(run, 'vu256', [dict(module='U256Text', steps=run.scale(1500, 15000), inv='laws')])
    decode(run, 200, 2000)


def c21(run):
    simulate(run, 'vfield', [dict(module='FieldOps', steps=run.scale(5000, 60000), inv='laws')])
    decode(run, 200, 2000)


def c22(run):
    simulate(run, 'vfield', [dict(module='FieldFun', steps=run.scale(1500, 12000), inv='laws'),
                             dict(module='Series', steps=run.scale(2500, 20000), inv='laws')])


def c23(run):
    simulate(run, 'vfield', [dict(module='Fft', steps=run.scale(250, 2500), inv='laws'),
                             dict(module='Fft', steps=run.scale(6, 24), procs=1, init='long(15)',
                                  step='upTo(%d)' % run.scale(21, 23), inv='laws', tag='long'),
                             dict(module='Perm', steps=run.scale(300, 3000), inv='laws')])


def c24(run):
    simulate(run, 'vcurve', [dict(module='Curve', steps=run.scale(1500, 12000), inv='laws')])


def c25(run):
    simulate(run, 'vcurve', [dict(module='Ecdsa', steps=run.scale(200, 2500), inv='laws')])



def counted(run, module, total, stride=1, procs=8, init='at', var='counter', inv='laws', tag='all'):
    """A numbered, exhaustive enumeration, split into `procs` contiguous parts."""
    per = -(-total // (stride * procs))
    return [dict(module=module, steps=per - 1, procs=1, init='%s(%d)' % (init, k * per * stride),
                 step='%s(%s + %d)' % (init, var, stride), inv=inv, tag='%s%d' % (tag, k)) for k in range(procs)]


MERKLE = dict(module='Merkle', init='begin', step='sampled', inv='laws')
MERKLE_CASES = 278 * 24 * 6


def c14(run):
    n = run.scale(1, 6)
    simulate(run, 'vmerkle', [dict(MERKLE, steps=run.scale(400, 6000))] +
             counted(run, 'Merkle', n * MERKLE_CASES, stride=run.scale(131, 132), procs=run.scale(1, 8)))


def c15(run):
    simulate(run, 'vmerkle', [dict(MERKLE, steps=run.scale(1200, 15000))] +
             counted(run, 'Merkle', run.scale(1, 8) * MERKLE_CASES))


def c16(run):
    simulate(run, 'vmerkle', [dict(module='Hashing', steps=run.scale(25, 300), inv='laws')])


def c26(run):
    ln = run.scale(3, 4)
    total, per = 16 ** ln, -(-16 ** ln // 8)
    simulate(run, 'vutil', [dict(module='BoundedVec', steps=run.scale(2500, 30000), inv='laws')] +
             [dict(module='BoundedVec', steps=per * (ln + 1) - 1, procs=1, init='fresh(%d)' % (k * per),
                   step='onward(%d)' % ln, inv='laws', tag='all%d' % k) for k in range(8)])


def c27(run):
    race = run.tlc('AllocRace', run.scale('AllocRace', 'AllocRaceThorough'))
    simulate(run, 'vutil', [dict(module='Alloc', steps=run.scale(2500, 30000), inv='laws')],
             opts=['rounds=%d' % run.scale(300, 4000)])
    run.gather(race)


def air(run, quick, thorough, **kw):
    return dict(dict(module='AirGen', steps=run.scale(quick, thorough), inv='laws'), **kw)


def dress(run, quick, thorough):
    return dict(module='AirDress', steps=run.scale(quick, thorough), inv='laws')


def large(run, quick, thorough):
    return air(run, quick, thorough, init='large(5, 8)', step='large(%d, %d)' % run.scale((5, 10), (5, 13)), tag='large')


def many(run, quick, thorough):
    return air(run, quick, thorough, init='many(60, 80)', step='many(5, 150)', tag='many')


def long_dress(run, quick, thorough):
    return dict(module='AirDress', steps=run.scale(quick, thorough), inv='laws', init='wide(6, 10)', step='wide(8, 12)', tag='wide')


def huge(run, lg, procs=1):
    return air(run, 0, 1, procs=run.scale(procs, 4), init='huge(%d)' % lg, step='huge(%d)' % (lg + 1), tag='huge')


def spelled(run, quick, thorough):
    """The protocol bit by bit, in the specification itself."""
    return dict(module='Stark', steps=run.scale(quick, thorough), procs=run.scale(8, 48), inv='laws')


def c01(run):
    simulate(run, 'vstark', [air(run, 40, 600), air(run, 12, 200, init='middle', step='middle', tag='middle'),
                             dress(run, 10, 150), long_dress(run, 1, 20), large(run, 3, 40), many(run, 1, 20),
                             huge(run, 16, 2)])


def c02(run):
    simulate(run, 'vstark', [dict(module='Attack', steps=run.scale(10, 150), inv='laws'), air(run, 40, 500),
                             dict(module='Attack', steps=run.scale(1, 15), init='crowd', step='crowd', inv='laws', tag='crowd')])


def c03(run):
    simulate(run, 'vstark', [spelled(run, 14, 60), dict(module='Tamper', steps=run.scale(12, 150), inv='laws')])


def c04(run):
    # built with overflow checks and assertions: both are panics a user would see
    run.build('stark', 'vstark', 'checked')
    decode(run, 150, 3000)
    simulate(run, 'vmerkle', [dict(MERKLE, steps=run.scale(500, 8000))] +
             counted(run, 'Merkle', run.scale(1, 6) * MERKLE_CASES, stride=run.scale(17, 3)), release=run.scale(0, 4))
    simulate(run, 'vstark', [dict(module='Tamper', steps=run.scale(8, 150), inv='laws')], release=run.scale(0, 4))


def c05(run):
    simulate(run, 'vstark', [dict(module='Attack', steps=run.scale(10, 120), inv='laws'), air(run, 20, 300),
                             large(run, 2, 20), many(run, 0, 10)])


def c06(run):
    race = run.tlc('PowSearch', run.scale('PowSearch', 'PowSearchThorough'))
    simulate(run, 'vstark', [dict(module='PowGen', steps=run.scale(40, 600), inv='laws',
                                  step=run.scale('step', 'deep')),
                             dict(module='PowRace', steps=run.scale(24, 300), step=run.scale('step', 'deep'), inv='laws'),
                             dict(module='Attack', steps=run.scale(6, 80), inv='laws')], release=2)
    run.gather(race)


def c07(run):
    simulate(run, 'vstark', [spelled(run, 9, 12), air(run, 40, 600), air(run, 12, 200, init='middle', step='middle', tag='middle'),
                             dress(run, 10, 150), large(run, 3, 40), many(run, 1, 20), huge(run, 15)])


def c08(run):
    simulate(run, 'vstark', [dict(module='ExprGen', steps=run.scale(800, 10000), inv='laws'), air(run, 20, 300),
                             dress(run, 25, 300), long_dress(run, 3, 40), large(run, 1, 10)])


def c09(run):
    simulate(run, 'vstark', [air(run, 50, 600), air(run, 10, 200, init='middle', step='middle', tag='middle')])


def c10(run):
    simulate(run, 'vstark', [dict(module='Component', steps=run.scale(18, 200), step=run.scale('step', 'deep'), inv='laws')])


def c11(run):
    simulate(run, 'vstark', [dict(module='Poly', steps=run.scale(400, 6000), inv='laws')])


def c12(run):
    simulate(run, 'vstark', [dict(module='Export', steps=run.scale(50, 800), inv='laws'), air(run, 30, 400)])


def c13(run):
    simulate(run, 'vstark', [dict(module='Limits', steps=run.scale(24, 400), inv='laws'),
                             dict(module='Limits', steps=run.scale(3, 100), init='wide(20)', step='more', inv='laws', tag='wide')])


CHECKS = {n.upper(): f for n, f in list(globals().items()) if n[0] == 'c' and n[1:].isdigit()}
