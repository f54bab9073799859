'''Which module decides which property, and how much is explored'''
COMPONENTS = {
    'real': ['xii (all of the package reached by the operations)', 'dolfin 2019.1', 'FFC/dijitso JIT', 'PETSc/petsc4py',
             'cbc.block', 'numpy/scipy'],
    'stub': ['iteration order of set() inside xii (seeded)', 'garbage collector (runs only when the plan says so)',
             'user callbacks (radius functions, solver operators) come from the plan']}

CHECKS = {
    'C20': {'module': 'callers', 'seeds': {'quick': 40, 'thorough': 3000}, 'level': 'exploration'},
    'C09': {'module': 'orders', 'seeds': {'quick': 28, 'thorough': 3000}, 'level': 'exploration', 'cross': True},
    'C06': {'module': 'isolate', 'seeds': {'quick': 56, 'thorough': 3000}, 'level': 'exploration'},
    'C07': {'module': 'faults', 'seeds': {'quick': 32, 'thorough': 3000}, 'level': 'exploration'},
    'C08': {'module': 'purity', 'seeds': {'quick': 48, 'thorough': 3000}, 'level': 'exploration'},
    'C05': {'module': 'fresh', 'seeds': {'quick': 48, 'thorough': 3000}, 'level': 'exploration'},
    'C03': {'module': 'transfer', 'seeds': {'quick': 48, 'thorough': 3000}, 'level': 'exploration'},
    'C04': {'module': 'tonumber', 'seeds': {'quick': 72, 'thorough': 3000}, 'level': 'exploration'},
    'C02': {'module': 'average', 'seeds': {'quick': 56, 'thorough': 3000}, 'level': 'exploration'},
    'C01': {'module': 'trace', 'seeds': {'quick': 48, 'thorough': 3000}, 'level': 'exploration'},
    'C10': {'module': 'convert', 'seeds': {'quick': 400, 'thorough': 20000}, 'level': 'exploration'},
    'C11': {'module': 'bcs', 'seeds': {'quick': 300, 'thorough': 20000}, 'level': 'exploration'},
    'C12': {'module': 'regroup', 'seeds': {'quick': 300, 'thorough': 20000}, 'level': 'exploration'},
    'C13': {'module': 'functions', 'seeds': {'quick': 300, 'thorough': 20000}, 'level': 'exploration'},
    'C14': {'module': 'embedded', 'seeds': {'quick': 300, 'thorough': 20000}, 'level': 'exploration'},
    'C15': {'module': 'related', 'seeds': {'quick': 300, 'thorough': 20000}, 'level': 'exploration'},
    'C21': {'module': 'normals', 'seeds': {'quick': 140, 'thorough': 20000}, 'level': 'exploration'},
    'C22': {'module': 'extension', 'seeds': {'quick': 100, 'thorough': 20000}, 'level': 'exploration'},
    'C16': {'module': 'jacobian', 'seeds': {'quick': 48, 'thorough': 3000}, 'level': 'exploration'},
    'C17': {'module': 'krylov', 'seeds': {'quick': 300, 'thorough': 20000}, 'level': 'exploration'},
    'C18': {'module': 'nullspace', 'seeds': {'quick': 200, 'thorough': 20000}, 'level': 'exploration'},
    'C19': {'module': 'blockforms', 'seeds': {'quick': 48, 'thorough': 3000}, 'level': 'exploration'},
}
