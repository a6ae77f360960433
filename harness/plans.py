"""What each check runs: specification runs and generators with their bounds, per tier."""


def gen(module, cfg, **kw):
    return dict(gen=module, name='%s %s' % (module, cfg.get('Prop', '')), cfg='INIT Init\nNEXT Next\nINVARIANT Out\nCHECK_DEADLOCK FALSE\nCONSTANTS\n' +
                '\n'.join('%s = %s' % (k, ('"%s"' % v) if isinstance(v, str) else v) for k, v in cfg.items()) + '\n', **kw)


def law(module):
    return dict(spec=module, cfg='INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n')


def q(tier, quick, thorough):
    return thorough if tier == 'thorough' else quick


PLANS = {}


def plan(prop, level, runs):
    PLANS[prop] = dict(level=level, runs=runs)


plan('C01', 'model_checking', lambda tier, seed: [
    law('BardellSelf'), gen('GenKernels', dict(Seed=seed, Prop='C01', Count=q(tier, 40, 400)))])
plan('C02', 'model_checking', lambda tier, seed: [
    law('BardellSelf'), gen('GenKernels', dict(Seed=seed, Prop='C02', Count=q(tier, 6, 40)))])
plan('C03', 'model_checking', lambda tier, seed: [
    law('RatSelf'), gen('GenKernels', dict(Seed=seed, Prop='C03', Count=63))])

TECHNIQUE = ('TLA+ specification with exact rational arithmetic checked by TLC; TLC-generated behaviours replayed in the '
             'real code and the recorded results validated as behaviours of the specification')
NOTE = ('Every generated behaviour is validated exactly (rational arithmetic, rounding tolerance derived from the sum of '
        'absolute terms); bounded by the generated configurations, which are sampled deterministically from VERIF_SEED. '
        'Trusts TLC, the rational-arithmetic override (cross-checked against its TLA+ definition) and the replay driver.')
NOTES = {'C21': 'The behaviours generated from the specification for all other properties are replayed in an address-sanitizer '
                'build of the extensions (made from the current tree); each recorded memory report is an observation that the '
                'specification MemTrace forbids.  Detects accesses that leave an array by less than the sanitizer red zones or hit '
                'released memory, on the generated configurations; trusts the sanitizer.  New memory is filled with huge values, so that results that depend on '
                'it show (confirmed against a plain build).'}



def selfcheck(module, **consts):
    """Laws of the specification itself, checked as an invariant."""
    return dict(spec=module, cfg='INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n' +
                '\n'.join('%s = %s' % kv for kv in consts.items()) + '\n')


def shells(prop, tier, seed):
    return gen('GenShell', dict(Seed=seed, Prop=prop, Count=q(tier, 288 if prop == 'C13' else 240, 2400), Lo=q(tier, 3, 1), Hi=q(tier, 6, 9)))


def asms(prop, tier, seed, n=90):
    return gen('GenAsm', dict(Seed=seed, Prop=prop, Count=q(tier, n, 10 * n), Lo=q(tier, 3, 2), Hi=q(tier, 7 if prop in ('C09', 'C14') else 4, 7)))


def laws(tier, seed):
    return selfcheck('ShellSelf', Seed=seed, Count=q(tier, 24, 200))


for _p in ('C06', 'C07', 'C08', 'C10', 'C12', 'C13'):
    plan(_p, 'model_checking', lambda tier, seed, _p=_p: [laws(tier, seed), shells(_p, tier, seed)])
plan('C09', 'model_checking', lambda tier, seed: [laws(tier, seed), shells('C09', tier, seed), asms('C09', tier, seed, 54)])
for _p in ('C04', 'C05', 'C11'):
    plan(_p, 'model_checking', lambda tier, seed, _p=_p: [shells(_p, tier, seed), asms(_p, tier, seed, 90)])
for _p in ('C14', 'C15'):
    plan(_p, 'model_checking', lambda tier, seed, _p=_p: [selfcheck('ConnSelf', Seed=seed, Count=q(tier, 18, 90)), asms(_p, tier, seed)])


def bays(prop, tier, seed, n, steps=0):
    return gen('GenBay', dict(Seed=seed, Prop=prop, Count=q(tier, n, 10 * n), Lo=q(tier, 3, 2), Hi=q(tier, 4, 6), Steps=steps))


plan('C18', 'model_checking', lambda tier, seed: [selfcheck('BaySelf', Seed=seed, Count=q(tier, 12, 80)), bays('C18', tier, seed, 150)])
for _p, _n in (('C04', 60), ('C10', 60), ('C12', 80)):
    plan(_p, 'model_checking', lambda tier, seed, _p=_p, _n=_n, _f=PLANS[_p]['runs']: _f(tier, seed) + [bays(_p, tier, seed, _n)])


for _p, _n in (('C06', 27), ('C07', 27), ('C08', 27), ('C10', 45)):
    plan(_p, 'model_checking', lambda tier, seed, _p=_p, _n=_n, _f=PLANS[_p]['runs']: _f(tier, seed) + [asms(_p, tier, seed, _n)])


def hist(prop, mode, tier, seed, count, depth, keep=1):
    return gen('GenHist', dict(Seed=seed, Prop=prop, Mode=mode, Count=count, Depth=depth, Keep_=keep))


plan('C16', 'model_checking', lambda tier, seed: [hist('C16', 'walk', tier, seed, q(tier, 40, 240), q(tier, 14, 30))])
plan('C17', 'model_checking', lambda tier, seed: [hist('C17', 'pairs', tier, seed, q(tier, 1, 8), 0, q(tier, 2, 1)),
                                                  hist('C17', 'trips', tier, seed, q(tier, 2, 6), 0, q(tier, 8, 2)),
                                                  hist('C17', 'walk', tier, seed, q(tier, 40, 300), q(tier, 24, 60))])
plan('C20', 'model_checking', lambda tier, seed: [hist('C20', 'walk', tier, seed, q(tier, 90, 900), q(tier, 20, 40))])


def builds(prop, tier, seed, n):
    return gen('GenBuild', dict(Seed=seed, Prop=prop, Count=q(tier, n, 8 * n), Hi=q(tier, 4, 5)), limit=300)


plan('C19', 'model_checking', lambda tier, seed: [builds('C19', tier, seed, 72)])
plan('C20', 'model_checking', lambda tier, seed, _f=PLANS['C20']['runs']: _f(tier, seed) + [builds('C20', tier, seed, 12)])

plan('C17', 'model_checking', lambda tier, seed, _f=PLANS['C17']['runs']: _f(tier, seed) + [bays('C17', tier, seed, 40, q(tier, 12, 24))])
plan('C20', 'model_checking', lambda tier, seed, _f=PLANS['C20']['runs']: _f(tier, seed) + [bays('C20', tier, seed, 60, q(tier, 14, 30))])
plan('C20', 'model_checking', lambda tier, seed, _f=PLANS['C20']['runs']: _f(tier, seed) + [gen('GenKernels', dict(Seed=seed, Prop='C20', Count=1))])


# Memory: behaviours of every generator, with few and many terms, on a build that reports accesses outside allocations.
def memory(tier, seed):
    n = q(tier, 1, 6)
    def big(module, prop, count, hi, **kw):
        return gen(module, dict(Seed=seed, Prop=prop, Count=count * n, Lo=1, Hi=hi, **kw))
    return [dict(many=[big('GenShell', p, 40, 12) for p in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13')] +
                      [big('GenAsm', p, 20, 7) for p in ('C04', 'C05', 'C09', 'C11', 'C14', 'C15')] +
                      [big('GenBay', p, 24, 7, Steps=8) for p in ('C04', 'C10', 'C12', 'C18', 'C20')] +
                      [hist('C20', 'walk', tier, seed, 24 * n, 20), builds('C19', tier, seed, 12)],
                 gen='all generators', validator='MemTrace', limit=300)]


plan('C21', 'model_checking', memory)
PLANS['C21']['sanitize'] = True
PLANS['C21']['technique'] = ('TLA+ specification checked by TLC; TLC-generated behaviours replayed in an address-sanitizer build of the '
                            'real code and the recorded memory reports validated against the specification')

# Contour plots.
def plots(prop, tier, seed, n):
    return gen('GenPlot', dict(Seed=seed, Prop=prop, Count=q(tier, n, 8 * n), Lo=q(tier, 3, 2), Hi=q(tier, 4, 5), Steps=0))


plan('C22', 'model_checking', lambda tier, seed: [plots('C22', tier, seed, 75)])
