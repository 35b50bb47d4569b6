"""writes native/si_h/src/table.rs from the independent SI oracle (mirvc/si_table.py)"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mirvc'))
import si_table as T


def vec(d):
    return '[' + ', '.join(str(d.get(f, 0)) for f in T.FIELDS) + ']'


def num(v):
    return repr(float(v))


o = ['// generated by tools/gen_table.py', 'pub const SYMS: &[(&str, [i64; 7], f64)] = &[']
for s, (d, v, n) in sorted(T.symbols().items()):
    o.append(f'    ("{s}", {vec(d)}, {num(v)}),')
o.append('];')
o.append('#[macro_export]\nmacro_rules! all_dims {\n    ($m:ident) => {')
for n, t in T.DIMENSIONS.items():
    o.append(f'        $m!({n}, {vec(T.dims(t))});')
o.append('    };\n}')
o.append('#[macro_export]\nmacro_rules! all_units {\n    ($m:ident) => {')
for n, (d, v, s) in T.all_units().items():
    o.append(f'        $m!({n}, {vec(d)}, {num(v)});')
o.append('    };\n}')
open(os.path.join(V, 'native', 'si_h', 'src', 'table.rs'), 'w').write('\n'.join(o) + '\n')
