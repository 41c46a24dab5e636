"""Which goals and which replay driver decide each property."""
import importlib
def lazy(mod, fn):
    def f(P): return getattr(importlib.import_module(mod), fn)(P)
    return f

DRIVERS = {
    'split': dict(src='d_split.cxx'),
    'format': dict(src='d_format.cxx', srcs=['Format.cxx', 'UtilsBase.cxx']),
    'barrier': dict(src='d_barrier.cxx', srcs=['Barrier.cxx', 'Format.cxx', 'UtilsBase.cxx'], srcflags=['-O1', '-fsanitize=thread'], drvflags=['-O1'], linkflags=[], extra=['sched.cxx'], xflags=['-O2']),
    'mailbox': dict(src='d_mailbox.cxx', srcs=['Format.cxx', 'UtilsBase.cxx']),
    'mailbox_mt': dict(src='d_mailbox_mt.cxx', srcs=['Format.cxx', 'UtilsBase.cxx'], srcflags=['-O1', '-fsanitize=thread'], drvflags=['-O1', '-fsanitize=thread'], linkflags=[], extra=['sched.cxx'], xflags=['-O2']),
    'options': dict(src='d_options.cxx', srcs=['Options.cxx', 'Split.cxx', 'Format.cxx', 'UtilsBase.cxx']),
    'props': dict(src='d_props.cxx', srcs=['PropertyTree.cxx', 'PropertyTreeYAML.cxx', 'Split.cxx', 'Format.cxx', 'UtilsBase.cxx'], libs=['-lyaml-cpp'], props=True),
}
COMMON_ASSUMPTIONS = [
    'std:: containers, strings and streams behave as the models in vc/stl.py (each model used is listed in trusted_base)',
    'no container or string grows beyond 2^31-2 elements; memory allocation does not fail',
    'the "C" locale (isdigit, isspace, toupper ... on ASCII)',
    'signed overflow, out-of-range access, use of invalid iterators and division by zero are obligations, not assumptions',
    'unsigned machine arithmetic wraps modulo 2^n exactly as in C++ (x86-64 widths)',
]
OPT_A = [
    'the objects held by the name tables are the ones registerOpt put there (never null); test functions return',
    'reading a number does not depend on the letter case of the text (bool options)',
]
PROP_A = [
    'dictionaries hold nodes, never null pointers; the node a lookup starts from exists',
    'the parents of a node form a finite chain (getPathName ends)',
]
DUMP_A = [
    'children are nodes, never null pointers, and downwards every path of the tree ends',
    'the stream accepts what is written to it and has no field width pending',
]
YAML_A = [
    'yaml-cpp behaves as modelled in vc/p_props.py: LoadFile, the kind of a node, the text of a scalar, iteration in document order',
    'a newly allocated node is different from every existing node, and its address depends on nothing but the set of existing nodes',
    'documents are maps with scalar keys, scalars, and sequences of scalars or maps; the top level is a map',
]
PROPS = {
    'S01': dict(goals=lazy('p_split', 'goals_S01'), driver='split', level='proof'),
    'S02': dict(goals=lazy('p_split', 'goals_S02'), driver='split', level='proof'),
    **{p: dict(goals=lazy('p_format', 'goals_' + p), driver='format', level='proof') for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08')},
    'C07': dict(goals=lazy('p_format', 'goals_C07'), driver='format', level='other', secs=40,
                explanation='addF, log1k and fractionate are under contract: the field layout (sign character, separator, fraction digits, e, exponent sign, padding), the exponent being a multiple of 3, the zero case and the sign-only difference of negations are discharged obligations; the size of the integer part and the accuracy bound depend on IEEE rounding of repeated division and are decided by the bounded driver only'),
    **{p: dict(goals=lazy('p_barrier', 'goals_' + p), driver='barrier', level='proof') for p in ('B01', 'B02', 'B03')},
    'M01': dict(goals=lazy('p_mailbox', 'goals_M01'), driver=['mailbox', 'mailbox_mt'], level='proof'),
    'M02': dict(goals=lazy('p_mailbox', 'goals_M02'), driver='mailbox', level='proof'),
    'M03': dict(goals=lazy('p_mailbox', 'goals_M03'), driver='mailbox', level='proof'),
    'M04': dict(goals=lazy('p_mailbox', 'goals_M04'), driver='mailbox_mt', level='proof'),
    **{p: dict(goals=lazy('p_options', 'goals_' + p), driver='options', level='proof', assumptions=OPT_A) for p in ('O01', 'O02', 'O03', 'O04', 'O05', 'O06')},
    **{p: dict(goals=lazy('p_props', 'goals_' + p), driver='props', level='proof', assumptions=PROP_A) for p in ('P01', 'P02')},
    'P03': dict(goals=lazy('p_props', 'goals_P03'), driver='props', level='proof', assumptions=YAML_A),
    'P04': dict(goals=lazy('p_props', 'goals_P04'), driver='props', level='proof', assumptions=DUMP_A),
}
NOT_APPLICABLE = {}
