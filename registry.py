CHECKS = {}
def cxx(name, src, **k):
    d = dict(name=name, sources=[src])
    d.update(k)
    return d
RULE = ('cases are drawn from seeded generators of the harness (deterministic in VERIF_SEED, bounded by case count); '
        'a situation is distinct and non-trivial when the monitor hashed a new (group, instance, observed outcome) triple')
def reg(pid, parts, rule, level='exploration', assumptions=()):
    CHECKS[pid] = dict(parts=parts, rule=rule, level=level, assumptions=list(assumptions))
reg('C01', [cxx('c01', 'c01_values.cc')], RULE)
reg('C02', [cxx('c02', 'c02_maximum.cc')], RULE)
reg('C03', [cxx('c03', 'c03_incremental.cc')], RULE)
reg('C04', [cxx('c04', 'c04_modifiers.cc')], RULE)
reg('C05', [cxx('c05', 'c05_controllers.cc')], RULE)
reg('C06', [cxx('c06', 'c06_parallel.cc', env={'OMP_WAIT_POLICY': 'passive', 'GOMP_SPINCOUNT': '0'}), cxx('c06', '', variant='tsan', sources=['c06_parallel.cc', 'omp_shim.cc'], max_shards=4)], RULE)
reg('C07', [cxx('c07', 'c07_roundtrip.cc')], RULE)
reg('C08', [cxx('c08', 'c08_loaders.cc')], RULE)
reg('C09', [cxx('c09', 'c09_f2.cc')], RULE)
reg('C10', [cxx('c10', 'c10_maps.cc')], RULE)
reg('C11', [cxx('c11', 'c11_neighborhoods.cc')], RULE)
reg('C12', [cxx('c12', 'c12_representations.cc')], RULE)
reg('C13', [cxx('c13', 'c13_adapters.cc', scope='all')], RULE)
reg('C14', [cxx('c14', 'c14_walsh.cc')], RULE)
reg('C15', [cxx('c15', 'c15_solutions.cc', scope='all')], RULE)
reg('C16', [cxx('c16', 'c16_guarantees.cc')], RULE)
reg('C17', [cxx('c17', 'c17_populations.cc')], RULE)
reg('C18', [cxx('c18', 'c18_models.cc')], RULE)
reg('C20', [cxx('c20', 'c20_multiobjective.cc')], RULE)
reg('C19', [cxx('c19', 'c19_reproducible.cc', variant='plain', scope='all')], RULE)
reg('C21', [cxx('c21', 'c21_factories.cc', scope='all'), dict(name='cli', module='cli')], RULE)
reg('C22', [dict(name='py', module='bindings')], RULE)
reg('C23', [cxx('c23', 'c23_utilities.cc')], RULE)
MC = dict(c01='c01_values', c03='c03_incremental', c04='c04_modifiers', c05='c05_controllers', c07='c07_roundtrip', c08='c08_loaders', c09='c09_f2', c10='c10_maps', c11='c11_neighborhoods', c12='c12_representations', c14='c14_walsh', c16='c16_guarantees', c17='c17_populations', c18='c18_models', c20='c20_multiobjective', c23='c23_utilities')
MCS = dict(c10=.025, c12=.018, c18=.025, c20=.018)
QUICK = ('c01', 'c08', 'c10', 'c12', 'c14', 'c18', 'c20')
reg('C24', [cxx('c24', 'c24_runs.cc', scope='all'), cxx('c24', 'c24_runs.cc', scope='all', variant='memcheck', scale=.4)]
    + [cxx(k, v + '.cc', variant='memcheck', scale=MCS.get(k, .05), crashes_only=True, thorough_only=k not in QUICK) for k, v in MC.items()], RULE)
