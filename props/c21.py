"""C21 the command line"""
import argparse
import contextlib
import datetime
import io
import os
import shutil
import tempfile
import numpy as np
from vc.api import *
from props import common as C

ID = 'C21'
LEVEL = 'proof'
PROPERTY = dict(
    title='A command is carried out as its command line is written, or refused',
    statement='Each command reads exactly the variables (or aliases), existing files (each once, in the order given, those of a '
              'wildcard or directory sorted) and product of each of its datagroups, and is carried out with exactly the limits, '
              'grid, dimensions, collocator, kernel, options, units and attributes written; what is malformed or unknown is '
              'refused, and never ignored. A date means the same whenever the command is run: as the start of a range it is the '
              'earliest and as its end the latest time within the year, month, day, hour, minute or second given, in every '
              'documented form; a single value is both the start and the end; a period is the sum of its parts. Limits or '
              'grids of x which decrease or span more than 360 are refused. The results for all datagroups are in the output. The '
              'output is never one of the input files, and an existing file is replaced only if that is asked for, by option, '
              'environment or answer.',
    over=['inputs'],
    text='any command line in the documented syntax, any files, any time of running the command',
    why='Tests parse a handful of lines; a date which depends on the day the command is run, or a limit which is dropped, gives '
        'plausible output for other points than those asked for.',
    files=['cis/parse.py', 'cis/parse_datetime.py', 'cis/cis_main.py', 'cis/data_io/data_reader.py', 'cis/time_util.py', 'cis/utils.py'],
    mechanism=[('parsing', 'cis/parse.py'), ('dates and periods', 'cis/parse_datetime.py'), ('commands', 'cis/cis_main.py'),
               ('files and variables', 'cis/data_io/data_reader.py')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); the text of command lines bounded'
NOTE = ('Proved for any numbers in limits, grids, dates and periods of the documented forms, with any answers of the user and of the '
        'file system; what the commands pass on for up to three datagroups, variables or files. The splitting of text (escapes, '
        'brackets, options, wildcards) and argparse are bounded.')
ASSUMPTIONS = ['int and float of the text of a number are its value', 'the last day of a month (checked exhaustively in C04)',
               'datetime.timedelta is the sum of its parts', 'file names and options contain no unescaped separators']
BOUNDED_FUNCTIONS = ['cis.parse:parse_args', 'cis.parse:parse_colon_and_comma_separated_arguments', 'cis.parse:split_outside_brackets',
                     'cis.parse:extract_method_and_args', 'cis.parse:_set_aliases_for_datagroups', 'cis.parse:_create_attributes_dictionary',
                     'cis.parse:_validate_output_file', 'cis.parse:expand_file_list', 'cis.data_io.data_reader:expand_filelist',
                     'cis.parse:multi_split', 'cis.parse:check_product', 'cis.parse:get_basic_datagroups', 'cis.parse:get_eval_datagroups',
                     'cis.parse:get_aggregate_datagroups', 'cis.parse:get_col_samplegroup', 'cis.parse:get_plot_datagroups',
                     'cis.parse:check_boolean', 'cis.parse:convert_to_list_of_floats', 'cis.utils:parse_key_val_list',
                     'cis.data_io.data_reader:DataReader._expand_wildcards']
PA = 'cis.parse'
PD = 'cis.parse_datetime'
MA = 'cis.cis_main'
DR = 'cis.data_io.data_reader'
TU = 'cis.time_util'


def pick(E, name, k):
    for j in range(k - 1):
        if E.choose('%s %d' % (name, j)):
            return j
    return k - 1


class Refused(Exception):
    pass


class Parser(object):
    _vc_symbolic = True

    def error(self, msg):
        raise Refused(msg)

    def exit(self, status=0, message=''):
        raise SystemExit(status)


def numbers(E, *mods):
    """int and float of the text of a number, by contract: its value. Some texts stand for any number"""
    table = {}

    def as_int(x=0, *a):
        if isinstance(x, str):
            use('int, float of the text of a number are its value')
            if x.strip() in table:
                v = table[x.strip()]
                if v.is_int:
                    return v
                raise ValueError('invalid literal for int(): %r' % x)
            return int(x, *a)
        return shadow.b_int(x, *a)

    def as_float(x=0.0):
        if isinstance(x, str):
            use('int, float of the text of a number are its value')
            if x.strip() in table:
                return table[x.strip()].tofloat()
            return float(x)
        return shadow.b_float(x)
    import builtins
    for mod in mods:
        m = M(mod)
        for nm, f in (('int', as_int), ('float', as_float)):
            if nm not in m.__dict__:
                setattr(m, nm, getattr(builtins, nm))
            patch(m, nm, f)
    return table


def number(table, text, name):
    """a text which stands for any number (with a point: any real)"""
    table[text] = lift(Real(name) if '.' in text else Int(name))
    return table[text]


def eq(x, y):
    """the same number, or both None"""
    if x is None or y is None:
        return z3.BoolVal(x is None and y is None)
    return zbool(same(x, y))


@unit(UNITS, 'get_subset_limits [numbers]', [PA + ':get_subset_limits', PA + ':split_outside_brackets', PA + ':parse_float',
                                             PD + ':parse_as_number_or_datetime'], max_paths=4000)
def u_limits(E):
    table = numbers(E, PA, PD)
    names = [['x', 'y'], ['X', 'z'], ['y', 'depth'], ['longitude', 'x'], ['level number']][pick(E, 'names', 5)]
    want, texts = {}, []
    refused = z3.BoolVal(False)
    for j, nm in enumerate(names):
        form = pick(E, 'form of %s' % nm, 4)
        point = '.5' if E.choose('reals for %s' % nm) else ''
        a, b = '%d%s' % (11 + 10 * j, point), '%d%s' % (12 + 10 * j, point)
        va = number(table, a, 'start of ' + nm) if form != 3 else None
        vb = number(table, b, 'end of ' + nm) if form in (0, 3) else None
        texts.append('%s=[%s]' % (nm, ['%s,%s' % (a, b), a, a + ',None', 'None,' + b][form]))
        want[nm] = [va, va if form == 1 else vb]
        lo, hi = want[nm]
        if nm.lower() == 'x' and lo is not None and hi is not None:
            refused = z3.Or(refused, lo.real() > hi.real(), hi.real() - lo.real() > 360)
    E.cover()
    r, e = raises(M(PA).get_subset_limits, ','.join(texts), Parser())
    if isinstance(e, Refused):
        E.prove('refused only if x decreases or spans more than 360', refused)
        return
    if e is not None:
        raise e
    E.prove('refused if x decreases or spans more than 360', z3.Not(refused))
    E.prove('the coordinates named', z3.BoolVal(sorted(r) == sorted(names)))
    for nm in names:
        E.prove('two limits', z3.BoolVal(len(r[nm]) == 2))
        E.prove('the start as written', eq(r[nm][0], want[nm][0]))
        E.prove('the end as written', eq(r[nm][1], want[nm][1]))


@unit(UNITS, 'get_aggregate_grid [numbers]', [PA + ':get_aggregate_grid', PA + ':split_outside_brackets',
                                              PD + ':parse_as_number_or_datetime', PD + ':parse_as_number_or_datetime_delta'], max_paths=4000)
def u_grid(E):
    table = numbers(E, PA, PD)
    names = [['x', 'y'], ['X'], ['depth', 'x'], ['t', 'z']][pick(E, 'names', 4)]
    want, texts = {}, []
    refused = z3.BoolVal(False)
    for j, nm in enumerate(names):
        if E.choose('collapse ' + nm):
            want[nm] = None
            texts.append(nm)
            continue
        point = '.5' if E.choose('reals for %s' % nm) else ''
        tx = ['%d%s' % (11 + 10 * j + k, point) for k in range(3)]
        v = [number(table, t, w + ' of ' + nm) for t, w in zip(tx, ('start', 'end', 'step'))]
        texts.append('%s=[%s]' % (nm, ','.join(tx)))
        want[nm] = v
        if nm.lower() == 'x':
            refused = z3.Or(refused, v[0].real() > v[1].real(), v[1].real() - v[0].real() > 360)
    E.cover()
    r, e = raises(M(PA).get_aggregate_grid, ','.join(texts), Parser())
    if isinstance(e, Refused):
        E.prove('refused only if x decreases or spans more than 360', refused)
        return
    if e is not None:
        raise e
    E.prove('refused if x decreases or spans more than 360', z3.Not(refused))
    E.prove('the coordinates named', z3.BoolVal(sorted(r) == sorted(names)))
    for nm in names:
        if want[nm] is None:
            E.prove('collapsed completely', z3.BoolVal(r[nm] is None))
            continue
        for got, w, what in zip((r[nm].start, r[nm].stop, r[nm].step), want[nm], ('start', 'end', 'step')):
            E.prove('the %s as written' % what, eq(got, w))


class Date(object):
    """datetime by its components"""
    _vc_symbolic = True

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        self.c = [lift(x) for x in (year, month, day, hour, minute, second)]
        self.rest = microsecond, tzinfo


class Period(object):
    _vc_symbolic = True

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.seconds = (lift(days) * 86400 + lift(seconds) + lift(minutes) * 60 + lift(hours) * 3600 + lift(weeks) * 604800)
        self.exact = microseconds == 0 and milliseconds == 0


def calendar(E):
    last = z3.Function('last day of month', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def find_last_day_of_month(y, m):
        use('find_last_day_of_month (C04)')
        return Num(last(iterm(y), iterm(m)))
    patch(M(TU), 'find_last_day_of_month', find_last_day_of_month)
    override('datetime', datetime=Date, timedelta=Period)

    def refuse(*a, **k):
        raise ValueError('Unknown string format')
    import types
    du = types.ModuleType('parser')
    du.parse = lambda *a, **k: Date(Int('what dateutil'), Int('makes'), Int('of it'))
    override('dateutil', parser=du)
    override('dateutil.parser', parse=du.parse, parser=du)
    return last


FORMS = ['2011', '2011-21', '2011-21-31', '2011-21-31%s41', '2011-21-31%s41:51', '2011-21-31%s41:51:61']


def a_date(E, table, name, k, number_too=False):
    """a date in one of the documented forms, with any components: its text, earliest and latest time"""
    n = pick(E, 'components of ' + name, 6) + 1
    sep = 'T: '[pick(E, 'separator of ' + name, 3)] if n > 3 else ''
    text = FORMS[n - 1] % sep if n > 3 else FORMS[n - 1]
    for j in range(n):
        old = '%d1' % (j + 1) if j else '2011'
        new = '%d%d' % (j + 1, k) if j else '201%d' % k
        text = text.replace(old, new, 1)
        table[new] = lift(Int('%s %s' % (['year', 'month', 'day', 'hour', 'minute', 'second'][j], name)))
    c = [table['%d%d' % (j + 1, k) if j else '201%d' % k] for j in range(n)]
    return text, c


def earliest(c):
    return c + [lift(x) for x in (0, 1, 1, 0, 0, 0)][len(c):]


def latest(c, last):
    r = list(c)
    for j in range(len(c), 6):
        r.append(lift(12) if j == 1 else Num(last(iterm(r[0]), iterm(r[1]))) if j == 2 else lift([0, 0, 0, 23, 59, 59][j]))
    return r


def is_date(E, what, got, want):
    E.prove(what + ': a date', z3.BoolVal(isinstance(got, Date)))
    if isinstance(got, Date):
        E.prove(what, z3.And(z3.BoolVal(got.rest == (0, None)), *[zbool(same(x, y)) for x, y in zip(got.c, want)]))


DATE_FNS = [PD + ':parse_datetime', PD + ':_parse_datetime', PD + ':_parse_partial_datetime', TU + ':PartialDateTime.__init__',
            TU + ':PartialDateTime.min', TU + ':PartialDateTime.max']


@unit(UNITS, 'get_subset_limits [dates]', [PA + ':get_subset_limits', PD + ':parse_partial_datetime', PD + ':parse_as_number_or_datetime'] + DATE_FNS,
      max_paths=20000)
def u_dates(E):
    table = numbers(E, PA, PD)
    last = calendar(E)
    nm = ['t', 'time', 'T', 'launch_time'][pick(E, 'coordinate', 4)]
    form = pick(E, 'form', 4)
    a, ca = a_date(E, table, 'of the start', 1)
    b, cb = a_date(E, table, 'of the end', 2) if form == 0 else (None, None)
    text = '%s=[%s]' % (nm, ['%s,%s' % (a, b), a, a + ',None', 'None,' + a][form])
    E.cover()
    r = M(PA).get_subset_limits(text, Parser())[nm]
    whole = form == 1
    if hasattr(r, 'min') and whole:
        is_date(E, 'the start', r.min(), earliest(ca))
        is_date(E, 'the end', r.max(), latest(ca, last))
        return
    E.prove('two limits', z3.BoolVal(len(r) == 2))
    if form in (0, 1, 2):
        if nm == 'launch_time' and len(ca) == 1:
            E.prove('a number', eq(r[0], ca[0]))
        else:
            is_date(E, 'the start', r[0], earliest(ca))
    else:
        E.prove('no start', z3.BoolVal(r[0] is None))
    ce = [cb, ca, None, ca][form]
    if ce is None:
        E.prove('no end', z3.BoolVal(r[1] is None))
    elif nm == 'launch_time' and len(ce) == 1:
        E.prove('a number', eq(r[1], ce[0]))
    else:
        is_date(E, 'the end', r[1], latest(ce, last))


@unit(UNITS, 'get_aggregate_grid [dates]', [PA + ':get_aggregate_grid', PD + ':parse_as_number_or_datetime_delta',
                                            PD + ':_parse_datetime_delta'] + DATE_FNS, max_paths=20000)
def u_date_grid(E):
    table = numbers(E, PA, PD)
    last = calendar(E)
    table['71'] = days = lift(Int('days of the step'))
    if 'timedelta' in M(PA).__dict__:
        patch(M(PA), 'timedelta', Period)
    a, ca = a_date(E, table, 'of the start', 1)
    b, cb = a_date(E, table, 'of the end', 2)
    E.cover()
    r = M(PA).get_aggregate_grid('t=[%s,%s,P71D]' % (a, b), Parser())
    E.prove('the coordinate', z3.BoolVal(list(r) == ['t']))
    is_date(E, 'the start', r['t'].start, earliest(ca))
    is_date(E, 'the end', r['t'].stop, latest(cb, last))
    E.prove('the step', z3.BoolVal(isinstance(r['t'].step, Period)))
    E.prove('the length of the step', zbool(same(r['t'].step.seconds, days * 86400)))


@unit(UNITS, 'periods', [PD + ':_parse_datetime_delta', PD + ':parse_as_number_or_datetime_delta'], max_paths=4000)
def u_period(E):
    table = numbers(E, PD)
    override('datetime', timedelta=Period, datetime=Date)
    total, date, time = lift(0), [], []
    for j, (L, part, s) in enumerate([('Y', date, 365 * 86400), ('M', date, 30 * 86400), ('D', date, 86400), ('H', time, 3600),
                                      ('M', time, 60), ('S', time, 1)]):
        if E.choose('a number of %s %s' % (L, 'of the time' if part is time else '')):
            tx = '%d1' % (j + 1)
            table[tx] = v = lift(Int('number %d' % j))
            part.append(tx + (L.lower() if E.choose('lower case') and j < 2 else L))
            total = total + v * s
    if not date and not time:
        return
    if E.choose('another order'):
        date.reverse()
        time.reverse()
    text = 'P' + ''.join(date) + ('T' + ''.join(time) if time else '')
    E.cover()
    r = M(PD).parse_as_number_or_datetime_delta(text)
    E.prove('a period', z3.BoolVal(isinstance(r, Period) and r.exact))
    E.prove('the sum of its parts', zbool(same(r.seconds, total)))


class Args(object):
    _vc_symbolic = True

    def __init__(self, **k):
        self.__dict__.update(k)


class System(object):
    """os: any answers"""
    _vc_symbolic = True

    def __init__(self, **k):
        self.__dict__.update(k)


ANSWERS = ['y', 'n', '', 'Y', 'yes', 'yn']


@unit(UNITS, 'existing output files', [PA + ':_file_already_exists_and_no_overwrite'])
def u_overwrite(E):
    exists, force = E.choose('the file exists'), E.choose('forced')
    env = [None, '', 'true', 'false', 'TRUE', 'False', '1'][pick(E, 'environment', 7)]
    path = System(isfile=lambda f: exists and f == 'out.nc', exists=lambda f: exists and f == 'out.nc')
    patch(M(PA), 'os', System(path=path, environ={} if env is None else {'CIS_FORCE_OVERWRITE': env}))
    asked = []

    def answer(*a):
        asked.append(ANSWERS[pick(E, 'answer', len(ANSWERS))])
        return asked[-1]
    override('six.moves', input=answer)

    def inv(E_, L, k):
        return [('asked until the answer is understood', z3.BoolVal(L.overwrite is None or not asked or L.overwrite == asked[-1]))]

    def havoc(E_, cur, k):
        asked[:] = []
        if E.choose('nothing answered yet'):
            return None
        return answer()
    E.loops[(PA, '_file_already_exists_and_no_overwrite', 0)] = LoopSpec(inv, havoc=dict(overwrite=havoc))
    E.cover()
    r = M(PA)._file_already_exists_and_no_overwrite(Args(output='out.nc', force_overwrite=force))
    if not exists:
        stop = False
    elif force:
        stop = False
    elif env:
        stop = env.lower() == 'false'
    else:
        stop = asked[-1] != 'y'
        E.prove('the answer is understood', z3.BoolVal(asked[-1] in ('y', 'n', '')))
    E.prove('an existing file is replaced only if asked for', z3.BoolVal(bool(r) == stop))


@unit(UNITS, 'the output is not an input', [PA + ':_output_file_matches_an_input_file'], max_paths=4000)
def u_same(E):
    exists = E.choose('the output exists')
    groups = [['f%d%d' % (g, k) for k in range(pick(E, 'files of group %d' % g, 3))] for g in range(pick(E, 'groups', 2) + 1)]
    args = dict(output='out.nc', datagroups=[dict(filenames=list(g), variables=['v']) for g in groups])
    files = [f for g in groups for f in g]
    if E.choose('collocation'):
        args['samplefiles'] = ['s%d' % k for k in range(pick(E, 'sample files', 2) + 1)]
        files += args['samplefiles']
    same_ = {f: exists and E.choose('%s is the output' % f) for f in files}
    patch(M(PA), 'os', System(path=System(exists=lambda f: exists if f == 'out.nc' else True,
                                          isfile=lambda f: exists if f == 'out.nc' else True,
                                          samefile=lambda a, b: same_[b if a == 'out.nc' else a]), stat=lambda f: f))
    E.cover()
    r = M(PA)._output_file_matches_an_input_file(Args(**args))
    E.prove('found exactly if it is one of the inputs', z3.BoolVal(bool(r) == any(same_.values())))
    E.prove('the files of the datagroups are kept', z3.BoolVal([d['filenames'] for d in args['datagroups']] == groups))


class Thing(object):
    """data of which only what is done with it matters"""
    _vc_symbolic = True

    def __init__(self, log, name, gridded=False, items=None):
        self.log, self.name, self.gridded = log, name, gridded
        self.items = [name] if items is None else items

    def _vc_isinstance(self, t):
        from cis.data_io.gridded_data import GriddedDataList
        from cis.data_io.ungridded_data import UngriddedDataList
        names = [getattr(x, '__name__', '') for x in (t if isinstance(t, tuple) else (t,))]
        return ('GriddedDataList' if self.gridded else 'UngriddedDataList') in names or 'list' in names

    def __getitem__(self, i):
        return Thing(self.log, '%s[%d]' % (self.name, i))

    def __iter__(self):
        return iter(self.items)

    def extend(self, other):
        self.items = self.items + list(other)

    def append(self, other):
        self.items = self.items + [other]

    def subset(self, **k):
        self.log.append(('subset', self.name, k))
        return None if self.nothing else Thing(self.log, 'subset of ' + self.name)

    def aggregate(self, how='', **k):
        self.log.append(('aggregate', self.name, how, k))
        return Thing(self.log, 'aggregate of ' + self.name)

    def collapsed(self, dims, how=''):
        self.log.append(('collapse', self.name, how, list(dims)))
        return Thing(self.log, 'collapse of ' + self.name)

    def collocated_onto(self, sample, how='', kernel=None, **k):
        self.log.append(('collocate', self.name, getattr(sample, 'name', sample), how, kernel, k))
        return Thing(self.log, 'collocated ' + self.name)

    def save_data(self, path):
        self.log.append(('save', tuple(self.items), path))


def reader(log, gridded=False, nothing=False):
    class Reader(object):
        _vc_symbolic = True

        def read_single_datagroup(self, g):
            t = Thing(log, g['name'], gridded)
            t.nothing = nothing
            return t

        def read_datagroups(self, gs):
            return [Thing(log, g['name'], gridded) for g in gs]

        def read_data_list(self, files, variable, product=None, aliases=None):
            log.append(('read', files, variable, product))
            return Thing(log, 'the sample')

        def read_coordinates(self, files, product=None):
            log.append(('read coordinates', files, product))
            return Thing(log, 'the points')
    patch(M(MA), 'DataReader', Reader)


def done(E, log, want):
    E.prove('what is done: %s' % [x[0] for x in want], z3.BoolVal(log == want))


@unit(UNITS, 'subset command', [MA + ':subset_cmd'])
def u_subset(E):
    log = []
    nothing = E.choose('no points left')
    reader(log, nothing=nothing)
    lim = dict(x=[1, 2], t=['from', 'to'])
    E.cover()
    r, e = raises(M(MA).subset_cmd, Args(datagroups=[dict(name='a')], limits=dict(lim), output='out.nc'))
    if nothing:
        E.prove('nothing is written without points', z3.BoolVal(type(e).__name__ == 'NoDataInSubsetError' and
                                                                 log == [('subset', 'a', lim)]))
        return
    if e is not None:
        raise e
    done(E, log, [('subset', 'a', lim), ('save', ('subset of a',), 'out.nc')])


@unit(UNITS, 'aggregate and collapse commands', [MA + ':aggregate_cmd', MA + ':collapse_cmd'])
def u_agg(E):
    log = []
    gridded = E.choose('gridded')
    reader(log, gridded)
    how = [None, 'mean', 'stddev'][pick(E, 'kernel', 3)]
    g = dict(name='a', **({} if how is None else dict(kernel=how)))
    collapse = E.choose('collapse')
    if collapse and not gridded:
        return
    E.cover()
    m = M(MA)
    if collapse:
        m.collapse_cmd(Args(datagroups=[g], dimensions=['x', 't'], output='out.nc'))
        done(E, log, [('collapse', 'a', how or '', ['x', 't']), ('save', ('collapse of a',), 'out.nc')])
        return
    limits = E.choose('a grid')
    grid = dict(x=slice(0, 10, 1), t=None) if limits else dict(x=None, t=None)
    r, e = raises(m.aggregate_cmd, Args(datagroups=[g], grid=dict(grid), output='out.nc'))
    if gridded and limits:
        E.prove('grids are refused for gridded data', z3.BoolVal(type(e).__name__ == 'InvalidCommandLineOptionError' and not log))
        return
    if e is not None:
        raise e
    if gridded:
        done(E, log, [('collapse', 'a', how or '', ['x', 't']), ('save', ('collapse of a',), 'out.nc')])
    else:
        done(E, log, [('aggregate', 'a', how or '', grid), ('save', ('aggregate of a',), 'out.nc')])


@unit(UNITS, 'collocate command', [MA + ':col_cmd'], max_paths=3000)
def u_col(E):
    log = []
    reader(log)
    n = pick(E, 'datagroups', 3) + 1
    names = ['d%d' % k for k in range(n)]
    variable = 'v' if E.choose('a variable of the sample') else None
    product = 'P' if E.choose('a product of the sample') else None
    sg = dict(filenames=['s1', 's2'])
    opts = {}
    if E.choose('a collocator'):
        if E.choose('options'):
            opts = dict(h_sep='10km')
        if E.choose('missing data'):
            opts['missing_data_for_missing_sample'] = ['true', 'False'][pick(E, 'missing data', 2)]
        sg['collocator'] = ('box', dict(opts))
    kern = pick(E, 'kernel', 3)
    if kern:
        sg['kernel'] = ('mean', {} if kern == 1 else dict(stddev_name='s'))

    def kernel(**k):
        return ('mean', sorted(k.items()))
    cf = M('cis.collocation.col_framework')
    patch(cf, 'get_kernel', lambda nm: kernel if nm == 'mean' else None)
    E.cover()
    M(MA).col_cmd(Args(datagroups=[dict(name=x) for x in names], samplegroup=sg, samplefiles=['s1', 's2'], samplevariable=variable,
                       sampleproduct=product, output='out.nc'))
    missing = opts.pop('missing_data_for_missing_sample', None)
    missing = variable is not None if missing is None else missing == 'true'
    first = ('read', ['s1', 's2'], 'v', product) if variable else ('read coordinates', ['s1', 's2'], product)
    k = None if not kern else ('mean', [] if kern == 1 else [('stddev_name', 's')])
    kw = dict(opts, missing_data_for_missing_sample=missing)
    sample = 'the sample[0]' if variable else 'the points'
    want = [first] + [('collocate', x, sample, 'box' if 'collocator' in sg else '', k, kw) for x in names]
    E.prove('everything of every datagroup is collocated as asked for', z3.BoolVal([x for x in log if x[0] != 'save'] == want))
    saves = [x for x in log if x[0] == 'save']
    E.prove('all of it is saved, once', z3.BoolVal(saves == [('save', tuple('collocated ' + x for x in names), 'out.nc')]))


@unit(UNITS, 'eval command', [MA + ':evaluate_cmd'])
def u_eval(E):
    log = []
    reader(log)

    class Calculator(object):
        _vc_symbolic = True

        def evaluate(self, data, expr, output_var=None, units=None, attributes=None):
            log.append(('evaluate', [x.name for x in data], expr, output_var, units, attributes))
            return Thing(log, 'the value')
    patch(M('cis.evaluate'), 'Calculator', Calculator)
    var = 'w' if E.choose('a name') else None
    att = dict(a='b') if E.choose('attributes') else None
    E.cover()
    M(MA).evaluate_cmd(Args(datagroups=[dict(name='a'), dict(name='b')], expr='a + b', output_var=var, units='m', attributes=att,
                            output='out.nc'))
    done(E, log, [('evaluate', ['a', 'b'], 'a + b', var, 'm', att), ('save', ('the value',), 'out.nc')])


@unit(UNITS, 'reading of datagroups', [DR + ':DataReader.read_data_list', DR + ':DataReader.read_single_datagroup',
                                       DR + ':DataReader.read_datagroups', DR + ':DataReader.read_coordinates'], max_paths=3000)
def u_read(E):
    log = []
    m = M(DR)

    class Var(object):
        _vc_symbolic = True

        def __init__(self, v, gridded):
            self.v, self.is_gridded, self.filenames, self.alias = v, gridded, None, None
    gridded = {}

    def get(files, v, product):
        log.append((list(files), v, product))
        return Var(v, gridded[v])

    class AList(object):
        _vc_symbolic = True
        kind = None

        def __init__(self):
            self.items = []

        def append(self, x):
            if x.is_gridded != (self.kind == 'gridded'):
                raise TypeError('not allowed')
            self.items.append(x)

        def __iter__(self):
            return iter(self.items)
    patch(m, 'GriddedDataList', type('GriddedDataList', (AList,), dict(kind='gridded')))
    patch(m, 'UngriddedDataList', type('UngriddedDataList', (AList,), dict(kind='ungridded')))
    dr = m.DataReader(get, lambda f, p: ('coordinates', f, p), lambda *a: [])
    groups = []
    for g in range(pick(E, 'groups', 2) + 1):
        k = pick(E, 'variables of group %d' % g, 3) + 1
        vs = ['v%d%d' % (g, j) for j in range(k)]
        isg = E.choose('group %d is gridded' % g)
        gridded.update((v, isg) for v in vs)
        d = dict(filenames=['f%d' % g, 'h'], variables=vs if k > 1 or E.choose('a list') else vs[0])
        if E.choose('product %d' % g):
            d['product'] = 'P%d' % g
        if E.choose('aliases %d' % g):
            d['aliases'] = ['a' + v for v in vs]
        groups.append((d, vs))
    E.cover()
    r = dr.read_datagroups([d for d, _ in groups])
    E.prove('every variable of every group once, in order', z3.BoolVal([x.v for x in r] == [v for _, vs in groups for v in vs]))
    E.prove('from the files of its group, with its product', z3.BoolVal(
        log == [(d['filenames'], v, d.get('product')) for d, vs in groups for v in vs]))
    E.prove('under its own alias', z3.BoolVal([x.alias for x in r] == [('a' + v) if 'aliases' in d else None for d, vs in groups for v in vs]))
    E.prove('the files are recorded', z3.BoolVal([x.filenames for x in r] == [d['filenames'] for d, vs in groups for v in vs]))
    c = dr.read_coordinates('one file', 'P')
    E.prove('coordinates of the files', z3.BoolVal(c == ('coordinates', ['one file'], 'P')))


# ---- whole command lines (bounded) ---------------------------------------------------------------------------------------
RULE = 'the case is malformed or dates, several groups or files are involved'
FILES = ['e:1:2.nc', 'b1.nc', 'a1.nc', 'a2.nc', 'c:1.nc', 'd/x2.nc', 'd/x1.nc', 'e.nc']
WAYS = [('a1.nc', ['a1.nc']), ('b1.nc,a1.nc', ['b1.nc', 'a1.nc']), ('a*.nc', ['a1.nc', 'a2.nc']), ('b1.nc,a?.nc', ['b1.nc', 'a1.nc', 'a2.nc']),
        ('d', ['d/x1.nc', 'd/x2.nc']), ('a2.nc,a*.nc,a2.nc', ['a2.nc', 'a1.nc']), ('a[12].nc', ['a1.nc', 'a2.nc']), ('c\\:1.nc', ['c:1.nc']),
        ('d,c\\:1.nc', ['d/x1.nc', 'd/x2.nc', 'c:1.nc']),
        ('c\\:1.nc,e\\:1\\:2.nc,a1.nc', ['c:1.nc', 'e:1:2.nc', 'a1.nc'])]
BADWAYS = ['nothing.nc', 'n*.nc', '', 'a1.nc,nothing.nc']
KINDS = ['subset', 'aggregate', 'collapse', 'col', 'eval', 'stats', 'plot', 'malformed', 'output', 'subset', 'aggregate', 'col']


def a_number(rng):
    return rng.choice([str(rng.randint(-170, 170)), '%.2f' % rng.uniform(-170, 170), '%de-1' % rng.randint(1, 90), '0', '-0.5', '1e2'])


def date_parts(rng):
    n = rng.randint(1, 6)
    y, m = rng.choice([2010, 2008, 2000, 1900, 1996, 2013]), rng.randint(1, 12)
    last = (datetime.date(y + m // 12, m % 12 + 1, 1) - datetime.timedelta(days=1)).day
    return [y, m, rng.choice([1, last, rng.randint(1, last)]), rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]),
            rng.choice([0, 59, rng.randint(0, 59)])][:n], rng.choice('T: '), rng.random() < .8


def date_text(d):
    c, sep, pad = d
    t = '%04d' % c[0] + ''.join('-%02d' % x if pad else '-%d' % x for x in c[1:3])
    if len(c) > 3:
        t += sep + ':'.join('%02d' % x if pad or len(c) == 4 else '%d' % x for x in c[3:])
    return t


def date_range(d):
    c = d[0]
    lo = datetime.datetime(*(c + [0, 1, 1, 0, 0, 0][len(c):]))
    if len(c) == 1:
        nxt = datetime.datetime(c[0] + 1, 1, 1)
    elif len(c) == 2:
        nxt = datetime.datetime(c[0] + c[1] // 12, c[1] % 12 + 1, 1)
    else:
        nxt = lo + [datetime.timedelta(days=1), datetime.timedelta(hours=1), datetime.timedelta(minutes=1), datetime.timedelta(seconds=1)][len(c) - 3]
    return lo, nxt - datetime.timedelta(seconds=1)


def group(rng, one=False):
    k = 1 if one else rng.randint(1, 3)
    return dict(vars=rng.sample(['rain', 'v_2', 'Cloud Top', 'w\\:x', 'AOT-550', 'z', 'q\\:r\\:s'], k), way=rng.randrange(len(WAYS)),
                product=rng.choice([None, None, 'cis', 'NetCDF_Gridded', 'Aeronet']), keyword=rng.random() < .6)


def limits(rng):
    r = []
    for nm in rng.sample(['x', 'y', 'z', 'X', 't', 'time', 'latitude', 'air_pressure', 'launch'], rng.randint(1, 3)):
        form = rng.choice(['pair', 'pair', 'pair', 'single', 'open start', 'open end'])
        dates = nm in ('t', 'time') or nm == 'launch' and rng.random() < .5
        v = [date_parts(rng), date_parts(rng)] if dates else [a_number(rng), a_number(rng)]
        r.append([nm, form, dates, v])
    return r


def grid(rng):
    r = []
    for nm in rng.sample(['x', 'y', 'z', 't', 'latitude', 'air_pressure'], rng.randint(1, 3)):
        if rng.random() < .25:
            r.append([nm, None, False])
        elif nm == 't':
            parts = rng.sample('YMDhms', rng.randint(1, 4))
            r.append([nm, [date_parts(rng), date_parts(rng), [[p, rng.randint(0, 40)] for p in parts]], True])
        else:
            r.append([nm, [a_number(rng), a_number(rng), str(rng.choice([1, 10, .5, 2.5]))], False])
    return r


def cases(rng, tier, scale):
    k = 0
    while True:
        kind = KINDS[k % len(KINDS)]
        k += 1
        c = dict(kind=kind, g=[group(rng, kind == 'plot') for _ in range(1 if kind in ('subset', 'aggregate', 'collapse') else rng.randint(1, 3))],
                 out=rng.choice(['out', 'out.nc', 'o.x', 'new:1'] if kind == 'eval' else ['out', 'out.nc', 'o.x', 'd/out']), alias=rng.random() < .3)
        if kind == 'subset':
            c['limits'] = limits(rng)
        if kind in ('aggregate', 'collapse'):
            c['grid'] = grid(rng)
            c['kernel'] = rng.choice([None, 'mean', 'stddev', 'max', 'moments'])
        if kind == 'collapse':
            c['dims'] = rng.sample(['x', 'y', 't', 'model_level'], rng.randint(1, 3))
            c['commas'] = rng.random() < .5
        if kind == 'col':
            c['way'] = rng.randrange(len(WAYS))
            c['variable'] = rng.choice([None, 'rain', 'sample_var'])
            c['product'] = rng.choice([None, 'cis', 'Aeronet'])
            c['collocator'] = rng.choice(['box', 'bin', 'nn', 'lin', 'auto'])
            c['options'] = rng.sample([['h_sep', '10km'], ['a_sep', '100m'], ['t_sep', 'P1D'], ['fill_value', '-999'], ['verbose', None],
                                       ['missing_data_for_missing_sample', 'False'], ['missing_data_for_missing_sample', 'true']], rng.randint(0, 3))
            c['kernel'] = rng.choice([None, 'mean', 'moments', 'nn_horizontal'])
            c['koptions'] = rng.random() < .3
            c['order'] = rng.random()
        if kind == 'eval':
            c['attributes'] = rng.choice([None, [['a', 'b']], [['note', 'my text'], ['source', 'x/y:z']]])
        if kind == 'malformed':
            c['what'] = rng.randrange(len(MALFORMED))
            c['cmd'] = rng.choice(['subset', 'eval', 'stats', 'aggregate', 'col'])
        if kind == 'output':
            c['cmd'] = rng.choice(['subset', 'eval', 'aggregate', 'col'])
            c['existing'] = rng.choice([None, 'same', 'same link', 'other', 'other', 'other'])
            c['force'] = rng.random() < .4
            c['env'] = rng.choice([None, None, '', 'true', 'false', 'False', 'TRUE'])
            c['answers'] = rng.choice([['y'], ['n'], [''], ['yes', 'y'], ['what', 'n'], ['Y', 'no', '']])
        yield c


MALFORMED = [
    ('subset', 'x=[1,2'), ('subset', 'x'), ('subset', 'x=1,2'), ('subset', 'x=[1,2,3]'), ('subset', 'y=[north,south]'), ('subset', 'x=[90,-90]'),
    ('subset', 'x=[-200,161]'), ('subset', ''), ('subset', 'y=[1,2],z=[3'), ('subset', 't=[2010-13,2011]'), ('subset', 't=[2010-02-30]'),
    ('subset', 'latitude=[a,b]'), ('subset', 'y=[1,2]3'), ('aggregate', 'x=[0,360,30'), ('aggregate', 'x=[0,360]'), ('aggregate', 'x=[0]'),
    ('aggregate', 'x=[90,-90,10]'), ('aggregate', 'x=[0,361,10]'), ('aggregate', 't=[2010,2011,P1W]'), ('aggregate', 't=[2010,2011,PT1.5H]'),
    ('aggregate', 't=[2010,2011,P]'), ('aggregate', 't=[2010,2011,1D]'), ('aggregate', 'y=[0,10,5]x'), ('aggregate', 'y=[a,b,c]'), ('aggregate', ''),
    ('aggregate', 't=[2010,2011,P1]'), ('aggregate', 't=[2010,2010-13,P1D]'), ('aggregate', 'y=[0,10,5,6]'), ('group', 'rain'),
    ('group', ':a1.nc'), ('group', 'rain:'), ('group', 'rain:nothing.nc'), ('group', 'rain:n*.nc'), ('group', 'rain:a1.nc:cis:more'),
    ('group', 'rain:a1.nc:prodct=cis'), ('group', 'rain:a1.nc,nothing.nc'), ('aggregate group', 'rain:a1.nc:kernel=average'),
    ('aggregate group', 'rain:a1.nc:kernel=mean,product=Nonsense'), ('aggregate group', 'rain:a1.nc:kernel=mean,size=2'),
    ('aggregate group', 'rain:a1.nc:kernel=mean,product=cis,size=2'), ('alias', 'rain=a=b'), ('alias', 'rain='), ('alias', '=r'), ('alias', 'rain,rain'),
    ('alias', 'rain=a,snow=a'), ('attributes', 'a'), ('attributes', 'a='), ('attributes', '=b'), ('attributes', 'a=b,c'), ('attributes', 'a=b=c'),
    ('sample', 'nothing.nc'), ('sample', 'a1.nc:colocator=box'), ('sample', 'a1.nc:collocator=box,product=Nonsense'),
    ('sample', 'a1.nc:variable=v,kern=mean'), ('out', 'a:b:c')]


class Stop(Exception):
    pass


@contextlib.contextmanager
def workspace():
    """a directory with the files, in which the data is read and written by recording stand-ins"""
    from cis import cis_main
    from cis.data_io.data_reader import DataReader
    from cis.data_io.ungridded_data import UngriddedData, UngriddedDataList, Metadata
    from cis.data_io.Coord import Coord, CoordList
    from cis.data_io import common_data
    old, env = os.getcwd(), os.environ.pop('CIS_FORCE_OVERWRITE', None)
    tmp = tempfile.mkdtemp()
    log = []

    def data(files, v, product):
        log.append(['read', list(files), v, product])
        cs = CoordList([Coord(np.array([1., 2.]), Metadata(standard_name=n, units='degrees'), a) for n, a in (('latitude', 'Y'), ('longitude', 'X'))])
        return UngriddedData(np.array([1., 2.]), Metadata(name=v, long_name=v, units='m'), cs)

    def points(files, product):
        log.append(['read coordinates', list(files), product])
        return 'points'

    class Result(object):
        def __init__(self, items):
            self.items = list(items)

        def __iter__(self):
            return iter(self.items)

        def extend(self, o):
            self.items.extend(o)

        def append(self, o):
            self.items.append(o)

        def save_data(self, path):
            log.append(['save', list(self.items), path])

    def names(d):
        return [getattr(x, 'alias', x.var_name) for x in d]

    def op(name):
        def f(self, *a, **k):
            a = [x if not hasattr(x, 'var_name') else 'data ' + x.var_name for x in a]
            log.append([name, [x.var_name for x in self], list(a), k])
            return Result([name + ' of ' + x.var_name for x in self])
        return f
    saved = {}
    for nm in ('subset', 'aggregate', 'collapsed', 'collocated_onto'):
        saved[nm] = UngriddedDataList.__dict__.get(nm)
        setattr(UngriddedDataList, nm, op(nm))
    reader = lambda: DataReader(data, points, lambda f, p: ['rain', 'snow'])
    keep, cis_main.DataReader = cis_main.DataReader, reader
    from cis import evaluate
    keep2 = evaluate.Calculator

    class Calc(object):
        def evaluate(self, ds, expr, output_var=None, units=None, attributes=None):
            log.append(['evaluate', [[d.var_name, d.alias] for d in ds], expr, output_var, units, attributes])
            return Result(['value'])
    evaluate.Calculator = Calc
    try:
        os.chdir(tmp)
        os.mkdir('d')
        for f in FILES:
            open(f, 'w').close()
        yield log
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)
        evaluate.Calculator = keep2
        cis_main.DataReader = keep
        for nm, f in saved.items():
            if f is None:
                delattr(UngriddedDataList, nm)
            else:
                setattr(UngriddedDataList, nm, f)
        os.environ.pop('CIS_FORCE_OVERWRITE', None)
        if env is not None:
            os.environ['CIS_FORCE_OVERWRITE'] = env


def run(argv, answers=()):
    """what the command does: None if it is done, or how it ended"""
    import six.moves
    from cis.cis_main import parse_and_run_arguments
    left = list(answers)

    def answer(*a):
        if not left:
            raise Stop('asked too often')
        return left.pop(0)
    old = six.moves.input
    six.moves.input = answer
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            parse_and_run_arguments(argv)
    except SystemExit as e:
        return 'exit %s' % (e.code or 0)
    except Stop:
        raise
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)
    finally:
        six.moves.input = old
    return None


def group_text(g, aliases=None, kernel=None, single=True):
    vs = ['%s=%s' % (v, a) for v, a in zip(g['vars'], aliases)] if aliases else g['vars']
    t = ','.join(vs) + ':' + WAYS[g['way']][0]
    opts = []
    if g['product']:
        opts.append('product=' + g['product'] if g['keyword'] or not single else g['product'])
    if kernel:
        opts.insert(0 if g['keyword'] else len(opts), 'kernel=' + kernel)
    return t + (':' + ','.join(opts) if opts else '')


def unescape(v):
    return v.replace('\\:', ':')


def reads(gs):
    return [['read', WAYS[g['way']][1], unescape(v), g['product']] for g in gs for v in g['vars']]


def names_of(gs):
    return [unescape(v) for g in gs for v in g['vars']]


def out_of(c):
    o = c['out'].split(':')[-1]
    return o if os.path.splitext(o)[1] else o + '.nc'


def value(t):
    x = float(t)
    return x


def check(c):
    if c['kind'] == 'malformed':
        return malformed_check(c)
    if c['kind'] == 'output':
        return output_check(c)
    if c['kind'] == 'plot':
        return plot_check(c)
    if c['kind'] == 'stats':
        return stats_check(c)
    with workspace() as log:
        refused = False
        kind, gs = c['kind'], c['g']
        if kind == 'subset':
            want, text = {}, []
            for nm, form, dates, v in c['limits']:
                a, b = [date_text(x) if dates else x for x in v]
                text.append('%s=[%s]' % (nm, dict(pair=a + ',' + b, single=a).get(form) or ('None,' + b if form == 'open start' else a + ',None')))
                if dates:
                    bare = nm == 'launch'
                    lo = float(a) if bare and len(v[0][0]) == 1 else date_range(v[0])[0]
                    e = v[0] if form == 'single' else v[1]
                    hi = float(e[0][0]) if bare and len(e[0]) == 1 else date_range(e)[1]
                else:
                    lo, hi = value(a), value(a if form == 'single' else b)
                want[nm] = [None if form == 'open start' else lo, None if form == 'open end' else hi]
                if nm.lower() == 'x' and None not in want[nm] and not 0 <= want[nm][1] - want[nm][0] <= 360:
                    refused = True
            argv = ['subset', group_text(gs[0]), ','.join(text), '-o', c['out']]
            ops = [['subset', names_of(gs), [], want], ['save', ['subset of ' + v for v in names_of(gs)], out_of(c)]]
        elif kind == 'aggregate':
            want, text = {}, []
            for nm, v, dates in c['grid']:
                if v is None:
                    text.append(nm)
                    want[nm] = None
                elif dates:
                    p = dict((q, n) for q, n in v[2])
                    t = 'P' + ''.join('%d%s' % (n, q) for q, n in v[2] if q in 'YMD')
                    if any(q in 'hms' for q, n in v[2]):
                        t += 'T' + ''.join('%d%s' % (n, q.upper()) for q, n in v[2] if q in 'hms')
                    text.append('%s=[%s,%s,%s]' % (nm, date_text(v[0]), date_text(v[1]), t))
                    sec = sum(n * dict(Y=365 * 86400, M=30 * 86400, D=86400, h=3600, m=60, s=1)[q] for q, n in v[2])
                    want[nm] = [date_range(v[0])[0], date_range(v[1])[1], datetime.timedelta(seconds=sec)]
                else:
                    text.append('%s=[%s]' % (nm, ','.join(v)))
                    want[nm] = [value(x) for x in v]
                    if nm == 'x' and not 0 <= want[nm][1] - want[nm][0] <= 360:
                        refused = True
            argv = ['aggregate', group_text(gs[0], kernel=c['kernel'], single=False), ','.join(text), '-o', c['out']]
            ops = [['aggregate', names_of(gs), [], dict(want, how=c['kernel'] or '')], ['save', ['aggregate of ' + v for v in names_of(gs)], out_of(c)]]
        elif kind == 'collapse':
            argv = ['collapse', group_text(gs[0], kernel=c['kernel'], single=False)] + ([','.join(c['dims'])] if c['commas'] else c['dims']) + ['-o', c['out']]
            ops = [['collapsed', names_of(gs), [list(c['dims'])], dict(how=c['kernel'] or '')],
                   ['save', ['collapsed of ' + v for v in names_of(gs)], out_of(c)]]
        elif kind == 'col':
            given = {}
            for o, v in c['options']:
                if o in given:
                    return None
                given[o] = v
            col = c['collocator'] + ('[' + ','.join(o if v is None else '%s=%s' % (o, v) for o, v in c['options']) + ']' if given else '')
            opts = ['collocator=' + col]
            if c['variable']:
                opts.append('variable=' + c['variable'])
            if c['kernel']:
                opts.append('kernel=' + c['kernel'] + ('[stddev_name=s,mean_name=m]' if c['kernel'] == 'moments' and c['koptions'] else ''))
            if c['product']:
                opts.append('product=' + c['product'])
            j = int(c['order'] * len(opts))
            opts = opts[j:] + opts[:j]
            argv = ['col'] + [group_text(g) for g in gs] + [WAYS[c['way']][0] + ':' + ','.join(opts), '-o', c['out']]
            m = given.pop('missing_data_for_missing_sample', None)
            miss = c['variable'] is not None if m is None else m.lower() == 'true'
            kw = dict((k, True if v is None else v) for k, v in given.items())
            kw.update(how=c['collocator'], missing_data_for_missing_sample=miss)
            smp = ['read', WAYS[c['way']][1], c['variable'], c['product']] if c['variable'] else ['read coordinates', WAYS[c['way']][1], c['product']]
            ops = None
        else:
            al = [['al%d%d' % (i, j) for j in range(len(g['vars']))] if c['alias'] else None for i, g in enumerate(gs)]
            flat = [a or unescape(v) for g, aa in zip(gs, al) for v, a in zip(g['vars'], aa or [None] * 9)]
            refused = len(set(flat)) != len(flat)
            att = None if c['attributes'] is None else ','.join('%s=%s' % tuple(x) for x in c['attributes'])
            argv = ['eval'] + [group_text(g, a) for g, a in zip(gs, al)] + ['a + b', 'kg m-2', '-o', c['out']] + (['-a', att] if att else [])
            ops = [['evaluate', [list(x) for x in zip(names_of(gs), flat)], 'a + b', c['out'].split(':')[0] if ':' in c['out'] else None, 'kg m-2',
                    None if att is None else dict(c['attributes'])], ['save', ['value'], out_of(c)]]
        r = run(argv)
        if refused:
            return None if r not in (None, 'exit 0') and not any(x[0] == 'save' for x in log) else ('%s is not refused' % argv, kind + ' refused')
        if r is not None:
            return '%s: %s' % (argv, r), kind
        if kind == 'col':
            got = [x for x in log if x[0] not in ('save', 'collocated_onto')]
            if got != [smp] + reads(gs):
                return '%s: reads %s' % (argv, got), kind
            ops_ = [x for x in log if x[0] == 'collocated_onto']
            if len(ops_) != len(gs):
                return '%s: %d collocations' % (argv, len(ops_)), kind
            for (_, vs, a, k), g in zip(ops_, gs):
                kern = k.pop('kernel', None)
                if vs != names_of([g]) or k != kw or a != ['data ' + c['variable'] if c['variable'] else 'points']:
                    return '%s: collocates %s onto %s with %s' % (argv, vs, a, k), kind
                if (type(kern).__name__ if kern is not None else None) != c['kernel']:
                    return '%s: kernel %s' % (argv, kern), kind
                if c['kernel'] == 'moments' and c['koptions'] and (kern.stddev_name, kern.mean_name) != ('s', 'm'):
                    return '%s: options of the kernel' % argv, kind
            w = ['collocated_onto of ' + v for v in names_of(gs)]
            if [x for x in log if x[0] == 'save'] != [['save', w, out_of(c)]]:
                return '%s: saves %s' % (argv, [x for x in log if x[0] == 'save']), kind + ' output'
            return None
        if log[:len(names_of(gs))] != reads(gs):
            return '%s: reads %s' % (argv, log[:len(names_of(gs))]), kind
        return compare(argv, log[len(names_of(gs)):], ops, kind)


def plain(x):
    from cis.time_util import PartialDateTime
    if isinstance(x, PartialDateTime):
        return [x.min(), x.max()]
    if isinstance(x, slice):
        return [plain(x.start), plain(x.stop), plain(x.step)]
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return float(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x


def compare(argv, got, want, kind):
    if plain(got) != plain(want):
        return '%s: does %s instead of %s' % (argv, plain(got), plain(want)), kind


def malformed_check(c):
    what, text = MALFORMED[c['what']]
    with workspace() as log:
        g = group_text(dict(c['g'][0], vars=['rain'], way=0))
        cmd = c['cmd']
        if what == 'subset':
            argv = ['subset', g, text, '-o', 'out']
        elif what == 'aggregate':
            argv = ['aggregate', g, text, '-o', 'out']
        elif what == 'aggregate group':
            argv = [['aggregate', text, 't'], ['collapse', text, 't', 'x']][c['alias']] + ['-o', 'out']
        elif what in ('alias', 'attributes'):
            argv = ['eval', (text if what == 'alias' else 'rain') + ':a1.nc', 'rain', 'm', '-o', 'out'] + (['-a', text] if what == 'attributes' else [])
        elif what == 'sample':
            argv = ['col', g, text, '-o', 'out']
        else:
            d = text if what == 'group' else g
            argv = dict(subset=['subset', d, 'y=[1,2]'], aggregate=['aggregate', d, 'y=[1,2,1]'], col=['col', d, 'a1.nc:collocator=box'],
                        stats=['stats', d, 'v:a1.nc'], eval=['eval', d, 'rain', 'm'])[cmd] + ['-o', text if what == 'out' else 'out']
        r = run(argv)
        if r in (None, 'exit 0') or any(x[0] == 'save' for x in log):
            return '%s is not refused: %s' % (argv, log), 'malformed ' + text
        if any(x[0] != 'read' for x in log) and what != 'sample':
            return '%s is carried out in part: %s' % (argv, log), 'malformed ' + text


def output_check(c):
    with workspace() as log:
        g = dict(c['g'][0], way=0, vars=['rain'])
        if c['cmd'] == 'aggregate' and not g['keyword']:
            g['product'] = None
        argv = dict(subset=['subset', group_text(g), 'y=[1,2]'], aggregate=['aggregate', group_text(g), 'y=[1,2,1]'],
                    col=['col', group_text(dict(g, way=7)), 'a1.nc:collocator=box'], eval=['eval', group_text(g), 'rain', 'm'])[c['cmd']]
        out = 'other.nc'
        if c['existing'] == 'other':
            open(out, 'w').close()
        elif c['existing'] == 'same':
            out = 'd/../a1.nc' if c['alias'] else 'a1.nc'
        elif c['existing'] == 'same link':
            out = 'link.nc'
            os.symlink('a1.nc', out)
        argv += ['-o', out[:-3] if c['g'][0]['keyword'] else out] + (['--force-overwrite'] if c['force'] else [])
        if c['env'] is not None:
            os.environ['CIS_FORCE_OVERWRITE'] = c['env']
        try:
            r = run(argv, c['answers'])
        except Stop:
            return '%s with %s: asks too often' % (argv, c['answers']), 'overwrite'
        saved = [x[2] for x in log if x[0] == 'save']
        if c['existing'] is None:
            allow = True
        elif c['force']:
            allow = True
        elif c['env']:
            allow = c['env'].lower() != 'false'
        else:
            allow = c['answers'][-1] == 'y'
        if c['existing'] in ('same', 'same link'):
            if saved or r is None or allow and r == 'exit 0':
                return '%s: the output is an input (%s)' % (argv, r), 'same file'
            return None
        if allow and (r is not None or saved != [out]):
            return '%s: %s, saved %s' % (argv, r, saved), 'overwrite'
        if not allow and (saved or log):
            return '%s: an existing file is replaced (%s, %s)' % (argv, c['env'], c['answers']), 'overwrite'


def plot_check(c):
    from cis.parse import parse_args
    with workspace() as log:
        gs = c['g']
        opts, want = [], []
        for i, g in enumerate(gs):
            o = [['color=Red', 'color', 'red'], ['label=my label', 'label', 'my label'], ['vmin=%s' % i, 'vmin', float(i)], ['type=line', 'type', 'line'],
                 ['alpha=.5', 'alpha', .5], ['contnlevels=7', 'contnlevels', 7], ['contlevels=[1,2.5]', 'contlevels', [1., 2.5]],
                 ['colourbar=false', 'colourbar', False], ['cmap=jet', 'cmap', 'jet'], ['vmax=1e3', 'vmax', 1000.]]
            k = (len(g['vars'][0]) + i) % 7
            o = o[k:k + 1 + i]
            if c['alias']:
                o = o[::-1]
            if g['product']:
                o.insert(i % 2, ['product=' + g['product'], 'product', g['product']])
            opts.append(','.join(x[0] for x in o))
            want.append(dict([x[1:] for x in o], variables=unescape(g['vars'][0]), filenames=WAYS[g['way']][1]))
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                a = parse_args(['plot'] + ['%s:%s:%s' % (g['vars'][0], WAYS[g['way']][0], o) for g, o in zip(gs, opts)])
            except SystemExit as e:
                return 'plot %s is refused' % opts, 'plot'
        got = [dict((k, v) for k, v in d.items() if v is not None) for d in a.datagroups]
        if got != want:
            return 'plot %s: %s instead of %s' % (opts, got, want), 'plot'


def stats_check(c):
    from cis.parse import parse_args
    with workspace() as log:
        gs = c['g']
        n = sum(len(g['vars']) for g in gs)
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                a = parse_args(['stats'] + [group_text(g) for g in gs])
            except SystemExit:
                return None if n != 2 else ('stats of two variables is refused', 'stats')
        if n != 2:
            return 'stats of %d variables' % n, 'stats'
        got = [[d['variables'], d['filenames'], d.get('product')] for d in a.datagroups]
        want = [[[unescape(v) for v in g['vars']], WAYS[g['way']][1], g['product']] for g in gs]
        if got != want:
            return 'stats: %s instead of %s' % (got, want), 'stats'


def nontrivial(c):
    return c['kind'] in ('malformed', 'output') or len(c['g']) > 1 or bool(c.get('limits')) or bool(c.get('grid')) or c['g'][0]['way'] > 0
