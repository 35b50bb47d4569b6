import native, corpus

LIBF = ['crates/diman_lib/src/' + f for f in ('magnitude.rs', 'ratio.rs', 'dimension_exponent.rs', 'runtime_unit_storage.rs')]
CHECKS = {}


def allof(n):
    """every bounded stand-in runs, whatever happens to the others"""
    def f(check, reasons):
        for g in n:
            try:
                g(check, reasons)
            except Exception as e:
                check.notes.append('bounded stand-in failed to run: ' + repr(e)[:2000])
    return f


def reg(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


@reg('C01')
def _():
    import props_lib
    return {'run': props_lib.c01, 'native': native.lib_suite('C01', 'all 2047 biased exponents x 2 signs x 85 mantissas (thorough: 461), neighbours, source literals', LIBF), 'always_native': True}


@reg('C02')
def _():
    import props_lib
    return {'run': props_lib.c02, 'native': native.lib_suite('C02', 'all pairs of special values and source literals, 6e4 random pairs (thorough 2e6); exponents -40..40 and extremes', LIBF), 'always_native': True}


@reg('C03')
def _():
    import props_lib
    return {'run': props_lib.c03, 'native': native.lib_suite('C03', 'all pairs of rationals with |num|,|denom| <= 8, 200 random 28-bit ones, Ratio::new up to 62 bits', LIBF), 'always_native': True}


BOUND = {
    'C05': 'every operator x storage x reference form on 22 special values squared plus random ones (f32, f64, four vector types and a recording storage type)',
    'C07': 'all operator forms attaching/reading units over special and random values, units with integral, tiny and huge magnitudes',
    'C09': 'every float method over special and random values',
    'C10': 'every vector method over special and random components',
    'C21': 'special and random values through every foreign interface (MPI datatypes, HDF5 types in the rational configuration)',
}


def _gen(pid, fn):
    @reg(pid)
    def _():
        import props_gen
        def go(ck):
            getattr(props_gen, fn)(ck)
            props_gen.headers(ck)
        e = {'run': go}
        n = []
        if pid in BOUND:
            n.append(native.si_suite(pid, BOUND[pid]))
        if pid in corpus.CORPUS:
            n.append(corpus.suite(pid))
        e.update(native=allof(n), always_native=True)
        return e


for _p in ('C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C21'):
    _gen(_p, _p.lower())

US_BOUND = {
    'C11': 'generated unit systems with random expressions over names, products, quotients, parentheses and powers',
    'C12': 'generated systems with chains, diamonds and cycles, in several definition orders',
    'C13': 'generated systems with each kind of fault injected and with none',
    'C14': 'generated systems with correct, wrong, undefined and misnamed annotations',
    'C15': 'generated systems with prefixes, metric_prefixes, skips, aliases and symbols',
    'C20': 'generated systems: every generated alias and constant against the evaluated definition',
}


def _us(pid):
    @reg(pid)
    def _():
        import props_us, props_res, props_exp, props_code
        mod = props_res if pid in ('C12', 'C13', 'C14') else props_exp if pid == 'C15' else props_code if pid == 'C20' else props_us
        n = [native.us_suite(pid, US_BOUND[pid])]
        if pid in corpus.FAULTS:
            n.append(corpus.fault_suite(pid))
        if pid in ('C11', 'C12', 'C15', 'C20'):
            n.append(native.sys_suite(pid, 'every generated unit, constant and dimension'))
        return {'run': getattr(mod, pid.lower()), 'native': allof(n), 'always_native': True}


for _p in US_BOUND:
    _us(_p)


@reg('C16')
def _():
    import props_tv
    return {'run': props_tv.c16, 'native': native.si_suite('C16', 'every tabulated unit, dimension and constant of the SI system (1167 units, 77 dimensions)', cfgs=('rational', 'integer')), 'always_native': True}


@reg('C17')
def _():
    import props_text
    return {'run': props_text.c17, 'native': native.si_suite('C17', 'generated texts over all 517 symbols and 77 dimensions, listed malformed texts, round trips of special and random values', cfgs=('rational', 'integer')), 'always_native': True}


@reg('C18')
def _():
    import props_text
    a, b = native.sys_suite('C18', 'debug text of every named dimension'), native.si_suite('C18', '77 dimensions and 12 dimensions with large or fractional exponents, special and random values', cfgs=('rational', 'integer'))
    return {'run': props_text.c18, 'native': allof([a, b]), 'always_native': True}


@reg('C19')
def _():
    import props_rt
    return {'run': props_rt.c19, 'native': native.lib_suite('C19', 'random unit lists of up to 80 entries, symbols from a list of 20, dimensions of two exponents', LIBF), 'always_native': True}


@reg('C04')
def _():
    import props_rt
    return {'run': props_rt.c04, 'native': allof([native.sys_suite('C04', 'systems of 1 to 12 base dimensions, 1500 exponent vectors each'), corpus.roots_suite]), 'always_native': True}
