"""C27 configuration"""
import itertools

from ..harness import harness, product

MODULES = ['Properties', '_ParseProp', 'common', 'Ellipsoid', 'Hyperplane']
BOUNDS = ('histories of up to 3 operations (every setter, restoring the defaults, exchanging the whole configuration, parsing, changing a '
          'returned copy) with symbolic tolerances; parsing every pair and listed longer orders of properties, each given or taken '
          'from the configuration, with symbolic tolerances of either sign')

GET = {'version': 'get_version', 'is_verbose': 'get_is_verbose', 'abs_tol': 'get_abs_tol', 'rel_tol': 'get_rel_tol',
       'reg_tol': 'get_reg_tol', 'n_time_grid_points': 'get_n_time_grid_points', 'ode_solver_name': 'get_ode_solver_name',
       'is_ode_norm_control': 'get_is_ode_norm_control', 'is_enabled_ode_solver_options': 'get_is_enabled_ode_solver_options',
       'n_plot_2d_points': 'get_n_plot_2d_points', 'n_plot_3d_points': 'get_n_plot_3d_points'}
SET = ['is_verbose', 'abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points']
NAMES = sorted(GET)


def same(env, label, x, y):
    if isinstance(x, (str, bool)) or isinstance(y, (str, bool)):
        return env.check(label, type(x) is type(y) and x == y)
    return env.eq(label, x, y)


def agrees(env, P, ref, label):
    """every way of reading gives the reference values"""
    d = P.get_prop_dict()
    m = P.get_conf_repo_mgr()
    env.check(label + ': names', sorted(d) == NAMES and sorted(m) == NAMES)
    for k in NAMES:
        same(env, label + ': getter', getattr(P, GET[k])(), ref[k])
        same(env, label + ': dictionary', d[k], ref[k])
        same(env, label + ': configuration', m[k], ref[k])


def value(env, name, i):
    if name == 'is_verbose':
        return i % 2 == 0
    if name.startswith('n_'):
        return 3 + 17 * i + NAMES.index(name)
    return env.real('%s%d' % (name, i), env.frac(1, 10 ** 6), 2, 0.1 + 0.2 * i)


def objects(env, P, ref):
    """new objects take the current values"""
    E, H = env.code.Ellipsoid, env.code.Hyperplane
    e = E(env.np.array([0., 0.]), env.np.array([[1., 0.], [0., 2.]]))
    h = H(env.np.array([1., 2.]), 3.)
    for v, k in ((E.get_abs_tol([e]), 'abs_tol'), (E.get_rel_tol([e]), 'rel_tol'), (E.get_n_plot_2d_points([e]), 'n_plot_2d_points'),
                 (E.get_n_plot_3d_points([e]), 'n_plot_3d_points'), (H.get_abs_tol([h]), 'abs_tol'), (H.get_rel_tol([h]), 'rel_tol')):
        env.eq('new object', env.flat(v)[0], ref[k])
    return e, h


OPS = SET + ['init', 'swap', 'parse', 'copy']


@harness('C27', product(ops=[list(c) for c in itertools.permutations(OPS, 2)] +
                        [['abs_tol', 'init', 'rel_tol'], ['abs_tol', 'abs_tol', 'rel_tol'], ['swap', 'abs_tol', 'init'],
                         ['n_plot_2d_points', 'n_plot_3d_points', 'n_plot_2d_points'], ['rel_tol', 'parse', 'abs_tol'],
                         ['swap', 'rel_tol', 'swap'], ['is_verbose', 'swap', 'is_verbose']]),
         thorough=product(ops=[list(c) for c in itertools.product(OPS, repeat=3)]))
def history(env, ops):
    P = env.code.Properties
    P.init()
    first = P.get_conf_repo_mgr()
    try:
        base = dict(P.get_prop_dict())
        ref = dict(base)
        agrees(env, P, ref, 'defaults')
        olds = []
        for i, op in enumerate(ops):
            if op == 'init':
                P.init()
                ref = dict(base)
            elif op == 'swap':
                before, was = P.get_conf_repo_mgr(), dict(ref)
                ref = dict(ref, abs_tol=value(env, 'abs_tol', i), n_plot_2d_points=7 + i)
                new = dict(ref)
                P.set_conf_repo_mgr(new)
                env.check('configuration in use', P.get_conf_repo_mgr() is new)
                env.check('previous configuration kept', all(before[k] is was[k] for k in was))
            elif op == 'parse':
                args = {'abs_tol': value(env, 'abs_tol', i), 'other': 5, 'rel_tol': value(env, 'rel_tol', i)}
                keep = dict(args)
                P.parse_prop(args, ['rel_tol', 'n_plot_3d_points'])
                env.check('arguments kept', sorted(args) == sorted(keep) and all(args[k] is keep[k] for k in keep))
            elif op == 'copy':
                d = P.get_prop_dict()
                for k in list(d):
                    d[k] = None
                d['extra'] = 1
            else:
                v = value(env, op, i)
                getattr(P, 'set_' + op)(v)
                ref[op] = v
            agrees(env, P, ref, 'after ' + op)
            olds.append((dict(ref), objects(env, P, ref)))
        for r, (e, h) in olds:
            env.eq('objects keep their values', env.flat(env.code.Ellipsoid.get_abs_tol([e]))[0], r['abs_tol'])
            env.eq('objects keep their values', env.flat(env.code.Hyperplane.get_rel_tol([h]))[0], r['rel_tol'])
        P.check_settings()
    finally:
        P.set_conf_repo_mgr(first)
        P.init()


KINDS = {'str': ['version'], 'bool': ['is_verbose', 'is_ode_norm_control', 'is_enabled_ode_solver_options'],
         'tol': ['abs_tol', 'rel_tol', 'reg_tol'], 'solver': ['ode_solver_name'],
         'int': ['n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points']}
KIND = {n: k for k, ns in KINDS.items() for n in ns}
GOOD = {'str': ['3.0', ''], 'bool': [True, False], 'solver': ['ode23', 'ode45', 'ode113'], 'int': [5, 300, 12.0]}
BAD = {'str': [3.0, None, True], 'bool': [1, 'on', None, 0.0], 'tol': ['1', None, 2, True], 'solver': ['ode15', '', 45, None, 'ode4'],
       'int': [2.5, '5', None, 1e-3]}


def check_list(env, P, ref, given, names, other=None):
    """names parsed in the order asked"""
    args = dict(given)
    if other:
        args.update(other)
    keep = dict(args)
    r, x = env.attempt(P.parse_prop, args, names) if names is not None else env.attempt(P.parse_prop, args)
    env.check('arguments kept', list(args) == list(keep) and all(args[k] is keep[k] for k in keep))
    if not env.check('returns', x is None) or not env.check('two results', len(r) == 2 and isinstance(r[0], list) and isinstance(r[1], dict)):
        return
    vals, rest = r
    order = names if names is not None else r[2] if len(r) > 2 else None
    if order is not None and env.check('one value for each', len(vals) == len(order)):
        for n, v in zip(order, vals):
            same(env, 'value', v, given.get(n, ref[n]))
    asked = names if names is not None else NAMES
    env.check('remaining arguments', sorted(rest) == sorted(k for k in keep if k not in asked) and all(rest[k] is keep[k] for k in rest))


PAIRS = [list(c) for c in itertools.permutations(NAMES, 2)]
LONG = [['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points'], ['n_plot_3d_points', 'abs_tol', 'n_plot_2d_points', 'rel_tol'],
        ['rel_tol', 'version', 'abs_tol'], ['reg_tol', 'abs_tol', 'rel_tol', 'is_verbose'], list(reversed(NAMES)), NAMES, []] + \
    [[n] for n in NAMES]


def good(env, n, i):
    k = KIND[n]
    return env.real('g%d' % i, env.frac(1, 10 ** 6), 3, 0.3 + 0.2 * i) if k == 'tol' else GOOD[k][i % len(GOOD[k])]


@harness('C27', product(names=PAIRS, give=[1]) + product(names=LONG, give=[0, 1, 2, 3]),
         thorough=product(names=PAIRS + LONG, give=[0, 1, 2, 3]))
def parse(env, names, give):
    """values given or in force, in the order asked; give: 0 none, 1 first, 2 all, 3 all and unknown ones, in another order"""
    P = env.code.Properties
    P.init()
    try:
        P.set_abs_tol(env.real('abs', env.frac(1, 10 ** 6), 3, 0.7))
        P.set_rel_tol(env.real('rel', env.frac(1, 10 ** 6), 3, 0.9))
        P.set_n_plot_2d_points(31)
        ref = dict(P.get_prop_dict())
        given = {n: good(env, n, i) for i, n in enumerate(names[:1] if give == 1 else names) if give}
        if give == 3:
            given = {n: given[n] for n in reversed(names)}
        other = {'some_other': 4., 'abs_tol_': 1., 'prop': None} if give == 3 else {'reg_tol': 0.25} if 'reg_tol' not in names else None
        check_list(env, P, ref, given, names, other)
        agrees(env, P, ref, 'after parsing')
    finally:
        P.init()


@harness('C27', product(give=[0, 1, 2]))
def parse_all(env, give):
    """without a list of names every property is parsed"""
    P = env.code.Properties
    P.init()
    try:
        ref = dict(P.get_prop_dict())
        args = {} if give == 0 else {'abs_tol': good(env, 'abs_tol', 1), 'unknown': 3}
        if give == 2:
            args.update({n: good(env, n, i) for i, n in enumerate(NAMES)})
        r, x = env.attempt(P.parse_prop, args)
        if env.check('returns', x is None):
            env.check('one value for each', len(r[0]) == len(NAMES))
            env.check('remaining arguments', sorted(r[1]) == [k for k in sorted(args) if k not in NAMES])
            r2 = P.parse_prop(args, ['version', 'is_verbose', 'abs_tol', 'rel_tol', 'reg_tol', 'ode_solver_name', 'is_ode_norm_control',
                                     'is_enabled_ode_solver_options', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points'])
            for u, v in zip(r[0], r2[0]):
                same(env, 'order of the properties', u, v)
        agrees(env, P, ref, 'after parsing')
    finally:
        P.init()


@harness('C27', product(name=NAMES, i=range(5), how=['given', 'config'], pos=[0, 1]))
def wrong_kind(env, name, i, how, pos):
    P = env.code.Properties
    bad = BAD[KIND[name]]
    if i >= len(bad) or (how == 'config' and pos):
        return
    P.init()
    first = P.get_conf_repo_mgr()
    try:
        if how == 'config':
            P.set_conf_repo_mgr(dict(first, **{name: bad[i]}))
            args = {'x': 1}
        else:
            args = {name: bad[i], 'x': 1}
        ref, keep = dict(P.get_prop_dict()), dict(args)
        names = [name, 'version'] if pos == 0 else ['rel_tol', name]
        if name in names[1 - pos:2 - pos]:
            names = [name]
        env.must_raise('value of a wrong kind', P.parse_prop, args, names, _tag='wrongInput')
        env.check('arguments kept', list(args) == list(keep) and all(args[k] is keep[k] for k in keep))
        m = P.get_prop_dict()
        env.check('configuration kept', all(m[k] is ref[k] for k in ref))
        # not asked for, not judged
        other = ['ode_solver_name'] if name != 'ode_solver_name' else ['rel_tol']
        env.check('others are not judged', env.raises(P.parse_prop, args, other) is None)
    finally:
        P.set_conf_repo_mgr(first)
        P.init()


@harness('C27', product(name=['abs_tol', 'rel_tol', 'reg_tol'], how=['given', 'config']))
def sign(env, name, how):
    """a tolerance is accepted exactly when it is positive"""
    P = env.code.Properties
    P.init()
    first = P.get_conf_repo_mgr()
    try:
        t = env.real('t', -1, 1, 0.5)
        args = {'x': 1}
        if how == 'given':
            args[name] = t
        else:
            P.set_conf_repo_mgr(dict(first, **{name: t}))
        ref = dict(P.get_prop_dict())
        r, x = env.attempt(P.parse_prop, args, ['version', name])
        env.check('accepted iff positive', env.iff(x is None, t > 0))
        if x is None:
            env.eq('value', r[0][1], t)
        else:
            env.check('error kind', 'wrongInput' in str(x))
        m = P.get_prop_dict()
        env.check('configuration kept', all(m[k] is ref[k] for k in ref))
    finally:
        P.set_conf_repo_mgr(first)
        P.init()


@harness('C27', product(names=[['abs'], ['abs_tol', 'x'], ['x', 'abs_tol'], ['ABS_TOL'], ['abs_tol ', 'rel_tol'], ['rel_tol', 'n_plot_points']]))
def unknown(env, names):
    P = env.code.Properties
    args = {'abs_tol': 0.5, 'x': 3.}
    env.must_raise('unknown property', P.parse_prop, args, names, _tag='wrongInput')
    env.check('arguments kept', args == {'abs_tol': 0.5, 'x': 3.})
