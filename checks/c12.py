"""Load options: a load with options is loading everything, then selecting."""
import csv
import gzip
import io
import os
import zipfile

import numpy as np

from vlib import gen, model
from vlib.model import Table, NAN, isNumber, isNan, same
from vlib.runner import where
from checks.common import call, must, freeze, frozenDiff, okForSparse

PROPERTY = 'C12'
RULE = ('generated csv texts (separators, comments, blank lines, line ends, '
        'quoting, missing tokens, feature classes, plain or compressed), mtx '
        'files and raw sources, loaded under random combinations of names, '
        'headers, kept points and features, missing value treatment, '
        'conversion, separator, orientation and return type by path, file '
        'object or raw data, in sequences within one process; non-trivial: '
        'distinct (source kind, names settings, keep settings, missing '
        'setting, conversion, orientation)')
QUICK = {'cases': 24000, 'seconds': 90}
THOROUGH = {'cases': 90000, 'seconds': 800}
MIN = {'loads': 9000, 'kept_points': 2500, 'kept_features': 2500,
       'reordered': 1200, 'names_from_source': 2000, 'refused': 800,
       'raw_sources': 1000, 'mtx_sources': 400, 'replaced_missing': 500,
       'converted': 400, 'rows_as_features': 300, 'file_objects': 1500,
       'compressed': 200, 'automatic_header': 200, 'csv_state_intact': 5000,
       'types_checked': 5000, 'types_of_all_features': 120,
       'ambiguous_types_refused': 40, 'dropped_non_numeric': 150, 'restored_point_guess': 30}

WORDS = ['red', 'blue', 'x y', 'Zed', 'é', "it's", 'pear', 'low', 'a;b',
         'a,b', 'say "x"', 'tab\there', 'p|q', 'two words', '#no', '-', 'T']
CLEAN = ['red', 'blue', 'Zed', 'pear', 'low', 'kiwi', 'mid']
MISSWORDS = ['NA', 'nan', 'None', 'NULL']
DEFAULT = [NAN, None, '', 'None', 'nan', 'NULL', 'NA']


class Source:
    """A generated table, how it is written and what it holds."""


def inList(v, lst):
    if isNan(v):
        return any(isNan(x) for x in lst)
    return any(same(v, x, 0) and isinstance(v, str) == isinstance(x, str)
               for x in lst if not isNan(x))


def makeSource(rng, raw=False, numeric=False):
    s = Source()
    s.clean = rng.random() < .55
    nf, np_ = rng.randint(1, 5), rng.randint(1, 7)
    if rng.random() < .15:
        np_ = rng.randint(8, 14)
    pool = ['int', 'float', 'intf'] if numeric else \
        ['int', 'int', 'float', 'intf', 'bool', 'text', 'text', 'empty']
    s.classes = [rng.choice(pool) for _ in range(nf)]
    if 'empty' in s.classes and (s.classes[-1] == 'empty'
                                 or rng.random() < .5):
        s.classes = ['int' if c == 'empty' else c for c in s.classes]
    # missing values: nothing special, the default tokens, or own markers
    s.missing = rng.choice(['default', 'default', 'default', 'none', 'empty',
                            'own', 'ownonly', 'emptyonly'])
    s.pMiss = rng.choice([0, 0, .15, .35])
    rows = []
    for _ in range(np_):
        row = []
        for c in s.classes:
            if c == 'empty':
                row.append('')
            elif rng.random() < s.pMiss and not (nf == 1):
                if s.missing.startswith('own') and rng.random() < .6:
                    row.append('?' if c == 'text' else
                               ('' if c == 'bool' else -999))
                elif c == 'text' and rng.random() < .5:
                    row.append(rng.choice(MISSWORDS))
                else:
                    row.append('')
            elif c == 'int':
                row.append(rng.randint(-20, 40))
            elif c == 'float':
                row.append(rng.choice([.5, -1.25, 3.75, 1e3, 2e-5, 12.0]))
            elif c == 'intf':
                row.append(rng.choice([1, 2, 3, 4, .5]))
            elif c == 'bool':
                row.append(rng.choice([True, False]))
            else:
                row.append(rng.choice(CLEAN if s.clean else WORDS))
        rows.append(row)
    s.rows = rows
    s.np, s.nf = np_, nf
    return s


def treatment(rng, s):
    """(arguments, function value, class -> loaded value)."""
    kw = {}
    if s.missing == 'default':
        lst = DEFAULT
        if rng.random() < .2:
            kw['treatAsMissing'] = list(DEFAULT)
    elif s.missing == 'none':
        lst = []
        kw['treatAsMissing'] = None
    elif s.missing == 'empty':
        lst = []
        kw['treatAsMissing'] = []
    elif s.missing == 'own':
        lst = DEFAULT + ['?', -999]
        kw['treatAsMissing'] = lst
    elif s.missing == 'ownonly':
        lst = ['?', -999]
        kw['treatAsMissing'] = lst
    else:
        lst = ['']
        kw['treatAsMissing'] = ['']
    fill = NAN
    if lst and rng.random() < .35:
        fill = rng.choice([0, -1, 7.5])
        kw['replaceMissingWith'] = fill
        s.filled = True

    def treat(v, cls):
        if v == '' and isinstance(v, str) and cls not in ('text', 'empty'):
            # an empty cell of a number feature has no other value
            return fill if ('' in lst or inList(NAN, lst)) else NAN
        if inList(v, lst):
            return fill
        return v
    return kw, treat, lst


def names(rng, n, prefix, clean=True):
    base = [f'{prefix}{i}' for i in range(n)]
    if not clean and rng.random() < .3:
        base = [b + rng.choice([' x', 'é', "'s", '_1']) for b in base]
    rng.shuffle(base)
    return base


def keepList(rng, n, axisNames, onlyIndex):
    k = rng.randint(1, n)
    ids = rng.sample(range(n), k)
    keep = []
    for i in ids:
        if not onlyIndex and axisNames[i] is not None and rng.random() < .5:
            keep.append(axisNames[i])
        else:
            keep.append(i)
    return ids, keep


def axisSetting(rng, n, prefix, embeddedOk, auto, clean, gaps=False):
    """How the names of one axis are given and what is kept of it.

    Returns (embedded names or None, argument or omitted, keep ids, keep
    argument, names of the result)."""
    how = rng.choice(['none', 'none', 'list', 'dict', 'kept']
                     + (['embedded'] * 4 if embeddedOk else []))
    full = names(rng, n, prefix, clean)
    if n > 1 and not auto and how in ('embedded', 'list')[not gaps:] \
            and rng.random() < .2:
        # some have no name
        for j in rng.sample(range(n), rng.randint(1, n - 1)):
            full[j] = None
    limit = rng.random() < .5
    embedded = None
    arg = 'omit'
    if how == 'embedded':
        embedded = full
        arg = 'omit' if auto else True
        known = full
        if not limit:
            return embedded, arg, None, None, full, how
        ids, keep = keepList(rng, n, full, False)
        return embedded, arg, ids, keep, [full[i] for i in ids], how
    if how == 'none':
        arg = False
        if not limit or n == 1:
            return None, arg, None, None, [None] * n, how
        ids, keep = keepList(rng, n, [None] * n, True)
        if len(ids) == n:
            ids, keep = ids[:-1], keep[:-1]
        return None, arg, ids, keep, [None] * len(ids), how
    if how in ('list', 'dict') or n == 1:
        arg = full if how != 'dict' else {nm: i for i, nm in enumerate(full)}
        if not limit or n == 1:
            return None, arg, None, None, full, how
        ids, keep = keepList(rng, n, full, False)
        if len(ids) == n:
            ids, keep = ids[:-1], keep[:-1]
        return None, arg, ids, keep, [full[i] for i in ids], how
    # names of only the kept ones
    ids, keep = keepList(rng, n, full, True)
    if len(ids) == n:
        ids, keep = ids[:-1], keep[:-1]
    arg = names(rng, len(ids), prefix + 'k', clean)
    if rng.random() < .3:
        return (None, {nm: i for i, nm in enumerate(arg)}, ids, keep, arg,
                how)
    return None, arg, ids, keep, list(arg), how


def cell(v, sep, rng, quoteAll):
    if v is None:
        t = ''
    elif isinstance(v, str):
        t = v
    elif isinstance(v, bool):
        t = str(v)
    else:
        t = repr(v)
    if quoteAll or any(c in t for c in (sep, '"', '\n')) \
            or t.startswith('#'):
        t = '"' + t.replace('"', '""') + '"'
    return t


def writeCSV(rng, s, pn, fn, corner, sep):
    """The text of the file; also says if nothing needed quoting."""
    quoteAll = rng.random() < .1 and not s.clean
    lines = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        lines.append(rng.choice(['', '# comment', '#', '#a,b;c']))
    if fn is not None:
        head = ([corner] if pn is not None else []) + list(fn)
        lines.append(sep.join(cell(h, sep, rng, quoteAll) for h in head))
    for i, r in enumerate(s.rows):
        row = ([pn[i]] if pn is not None else []) + list(r)
        line = sep.join(cell(v, sep, rng, quoteAll) for v in row)
        if len(row) == 1 and line == '':
            line = '""'
        lines.append(line)
        if rng.random() < .04:
            lines.append('')
    eol = '\r\n' if rng.random() < .2 else '\n'
    text = eol.join(lines)
    if rng.random() < .7:
        text += eol
    return text


def conversion(rng, ctx, kw, t, fids, s, resultNames, keptAll, total=None):
    """Maybe ask for a conversion; the types expected go to ctx.types."""
    ctx.types = ctx.badKeys = None
    total = s.nf if total is None else total
    if rng.random() < .72:
        return 'none'
    cand = {}
    for pos, j in enumerate(fids):
        vals = [r[pos] for r in t.rows]
        if not vals or any(isNan(v) or isinstance(v, (str, bool))
                           for v in vals):
            continue
        if all(float(v).is_integer() for v in vals):
            cand[pos] = rng.choice([float, int])
        else:
            cand[pos] = float
    if not cand:
        return 'none'
    how = rng.choice(['dict', 'list', 'fulllist', 'single'])
    if how == 'single':
        if len(cand) != len(fids):
            return 'none'
        kw['convertToType'] = float
        cand = dict.fromkeys(cand, float)
    elif how == 'dict':
        if any(resultNames[p] is None for p in cand):
            if not keptAll:
                # of all features or of those in keepFeatures: is refused
                ctx.badKeys = True
            kw['convertToType'] = dict(cand)
        else:
            kw['convertToType'] = {resultNames[p]: ty
                                   for p, ty in cand.items()}
    elif how == 'list':
        if not keptAll and len(fids) == total:
            # ambiguous: of all features or of those in keepFeatures
            return 'none'
        kw['convertToType'] = [cand.get(p) for p in range(len(fids))]
    else:
        # one for each feature of the source
        if 'ignoreNonNumericalFeatures' in kw:
            return 'none'
        types = [rng.choice([int, float, str, None]) for _ in range(total)]
        for pos, j in enumerate(fids):
            types[j] = cand.get(pos)
        kw['convertToType'] = types
        if len(set(types)) == 1 and len(fids) < total:
            how = 'single'
        if not keptAll:
            ctx.event('types_of_all_features')
    ctx.types = cand
    ctx.event('converted')
    return how


def expectations(t, s):
    return t


def compare(ctx, key, label, obj, t):
    d = model.diff(obj, t)
    if d:
        ctx.violation(key, f'{label}: {d}', table=t)
    p = model.invariants(obj)
    if p:
        ctx.violation(key + ':structure', f'{label}: {p}', table=t)


def typesOk(ctx, key, label, obj):
    """The values of the converted features have the types asked for."""
    if not getattr(ctx, 'types', None) or obj.getTypeString() == 'Sparse':
        return
    for pos, ty in ctx.types.items():
        allowed = ((int, np.integer) if ty is int else
                   (float, np.floating))
        for i in range(len(obj.points)):
            v = obj[i, pos]
            ctx.event('types_checked')
            if not isinstance(v, allowed) or isinstance(v, bool):
                ctx.violation(key + ':converted-type', f'{label}: the value '
                              f'{v!r} of feature {pos} is a '
                              f'{type(v).__name__}, not {ty.__name__}')
                return


def badKeys(ctx, key, label, st, obj):
    if not getattr(ctx, 'badKeys', None):
        return False
    ctx.event('ambiguous_types_refused')
    ctx.check(st == 'exc' and 'InvalidArgument' in type(obj).__name__,
              key + ':ambiguous-types', lambda: f'{label}: types by index '
              'with kept features were not refused')
    return True


def returnTypes(t):
    kinds = {('b' if type(v) is bool else 's' if isinstance(v, str) else 'n')
             for r in t.rows for v in r}
    types = [None, None, 'List', 'Matrix', 'DataFrame']
    if kinds <= {'n'}:
        types.append('Sparse')
    return types


def csvCase(ctx):
    rng, nimble = ctx.rng, ctx.nimble
    s = makeSource(rng)
    s.filled = False
    turned = rng.random() < .12
    sep = rng.choice([',', ',', ',', ';', '\t', '|', ' '])
    if sep == ' ' and not s.clean:
        sep = ','
    # automatic detection of the header is judged only where it is clear
    auto = (s.clean and s.classes[0] in ('int', 'float', 'intf')
            and s.pMiss == 0 and rng.random() < .5)
    fEmb, fArg, fids, keepF, fNames, fHow = axisSetting(
        rng, s.nf, 'f', True, auto, s.clean, True)
    pAuto = auto and fEmb is not None and fArg == 'omit'
    pEmb, pArg, pids, keepP, pNames, pHow = axisSetting(
        rng, s.np, 'p', True, pAuto, s.clean, True)
    if fArg == 'omit' and s.np < 1:
        return
    corner = ''
    guess = False
    if pEmb is not None and pArg == 'omit':
        # the first cell announces the names of points
        corner = rng.choice(['pointNames', 'pointNames', ''])
        guess = corner == ''
    elif pEmb is not None and fArg == 'omit':
        corner = 'pointNames'
    elif pEmb is not None:
        corner = rng.choice(['pointNames', 'id', ''])
    if pEmb is None and fArg == 'omit' and pArg == 'omit':
        pArg = False
    text = writeCSV(rng, s, pEmb, fEmb, corner, sep)

    kw, treat, lst = treatment(rng, s)
    if turned and guess:
        turned = False
    if pArg != 'omit':
        kw['pointNames'] = pArg
    if fArg != 'omit':
        kw['featureNames'] = fArg
    if keepP is not None:
        kw['keepPoints'] = keepP
    if keepF is not None:
        kw['keepFeatures'] = keepF
    pi = list(range(s.np)) if pids is None else pids
    fi = list(range(s.nf)) if fids is None else fids
    # what is loaded of the source, then selected
    rows = [[treat(s.rows[i][j], s.classes[j]) for j in fi] for i in pi]
    t = Table(rows, pNames, fNames, len(fi))

    # a text feature of which only missing values are kept, without them
    # being missing values: nothing tells whether it is a number feature
    for pos, j in enumerate(fi):
        if s.classes[j] == 'text' and all(
                s.rows[i][j] in ('', 'nan') for i in pi):
            return
        if s.classes[j] == 'empty' and lst and '' not in lst:
            return
        if s.classes[j] != 'text' and all(s.rows[i][j] == ''
                                          for i in pi) and '' not in lst:
            return
    if fids is None and s.nf > 1 and all(s.rows[i][-1] == '' for i in pi) \
            and fNames[-1] is None:
        # separators at the end of each line hold no feature
        return
    conv = 'none'
    ctx.types = ctx.badKeys = None
    if rng.random() < .12 and not turned:
        # only features with text or nothing in the kept points are left out
        if fHow != 'kept':
            good = [p for p, j in enumerate(fi)
                    if s.classes[j] in ('int', 'float', 'intf', 'bool')
                    and not all(s.rows[i][j] == '' for i in pi)]
            emptyOk = [p for p, j in enumerate(fi)
                       if s.classes[j] not in ('text',)
                       and all(s.rows[i][j] == '' for i in pi)]
            if not emptyOk and good:
                kw['ignoreNonNumericalFeatures'] = True
                if len(good) < len(fi):
                    ctx.event('dropped_non_numeric')
                t = t.take(None, good)
                fi = [fi[p] for p in good]
    if not turned:
        conv = conversion(rng, ctx, kw, t, fi, s, t.fn, keepF is None)
    if sep != ',' or rng.random() < .3 or not s.clean \
            or s.nf + (pEmb is not None) == 1:
        kw['inputSeparator'] = sep
    if s.clean and sep in ',;\t' and rng.random() < .4 \
            and (s.nf + (pEmb is not None)) > 1:
        first = next(ln for ln in text.splitlines()
                     if ln and not ln.startswith('#'))
        if all(c.isalnum() or c in '.-' + sep for c in first) \
                and not first.startswith(sep) and sep in first \
                and '-' not in first and '.' not in first \
                and sep + sep not in first and not first.endswith(sep):
            kw.pop('inputSeparator', None)
    typ = rng.choice(returnTypes(t))
    if typ:
        kw['returnType'] = typ
    if turned:
        kw['rowsArePoints'] = False
        swap = [('pointNames', 'featureNames'), ('keepPoints',
                                                 'keepFeatures')]
        for a, b in swap:
            va, vb = kw.pop(a, None), kw.pop(b, None)
            if va is not None:
                kw[b] = va
            if vb is not None:
                kw[a] = vb
        t = t.T()
        ctx.event('rows_as_features')
        conv = conversion(rng, ctx, kw, t, pi, s, t.fn, keepP is None, s.np)
    load(ctx, text, kw, t, (fHow, pHow), keepP, keepF, s, guess, turned)


def load(ctx, text, kw, t, how, keepP, keepF, s, guess, turned):
    rng, nimble = ctx.rng, ctx.nimble
    route = rng.choice(['path', 'path', 'text', 'binary', 'stringio',
                        'offset', 'gz', 'zip'])
    data = text.encode('utf-8')
    saved = freeze({k: v for k, v in kw.items() if k != 'convertToType'})
    path = os.path.abspath(f'load{rng.randrange(4)}.csv')
    closing = None
    position = None
    if route == 'gz':
        with gzip.open(path + '.gz', 'wb') as f:
            f.write(data)
        src = path + '.gz'
        ctx.event('compressed')
    elif route == 'zip':
        with zipfile.ZipFile(path + '.zip', 'w') as z:
            z.writestr('inner.csv', data)
        src = path + '.zip'
        ctx.event('compressed')
    elif route == 'stringio':
        src = io.StringIO(text)
        ctx.event('file_objects')
    elif route == 'offset':
        junk = b'JUNK,JUNK\n1,2,3,4,5,6,7,8,9\n'
        with open(path, 'wb') as f:
            f.write(junk + data)
        src = closing = open(path, 'rb')
        src.seek(len(junk))
        ctx.event('file_objects')
    else:
        with open(path, 'wb') as f:
            f.write(data)
        src = path
        if route == 'text':
            src = closing = open(path, 'r', encoding='utf-8', newline='')
            ctx.event('file_objects')
        elif route == 'binary':
            src = closing = open(path, 'rb')
            ctx.event('file_objects')
    if closing is not None:
        position = src.tell()
    ctx.event('loads')
    ctx.state(how, keepP is not None, keepF is not None, s.missing, route,
              turned, kw.get('returnType'), 'convertToType' in kw,
              'replaceMissingWith' in kw)
    label = f'data({route}: {text!r}, {show(kw)})'
    try:
        st, obj = call(ctx, lambda: nimble.data(src, useLog=False, **kw))
        if closing is not None and st == 'ok':
            ctx.check(src.tell() == position, 'file-position',
                      lambda: f'{label} moved the file position from '
                      f'{position} to {src.tell()}')
    finally:
        if closing is not None:
            closing.close()
    tags = [('turned:' if turned else ''), ('guess:' if guess else '')]
    key = 'csv:' + ''.join(tags) + s.missing
    if badKeys(ctx, key, label, st, obj):
        return
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(obj).__name__}',
                      f'{label} raised {type(obj).__name__}: {obj} (in '
                      f'{where(obj)})', table=t)
        return
    compare(ctx, key, label, obj, t)
    typesOk(ctx, key, label, obj)
    if 'returnType' in kw and 'convertToType' not in kw:
        ctx.check(obj.getTypeString() == kw['returnType'], 'returnType',
                  lambda: f'{label} is a {obj.getTypeString()}')
    for ev, on in [('kept_points', keepP is not None),
                   ('kept_features', keepF is not None),
                   ('names_from_source', 'embedded' in how),
                   ('automatic_header', 'featureNames' not in kw
                    and not turned),
                   ('replaced_missing', 'replaceMissingWith' in kw)]:
        if on:
            ctx.event(ev)
    for keep in (keepP, keepF):
        if keep is not None and len(keep) > 1:
            ctx.event('reordered')
    after = freeze({k: v for k, v in kw.items() if k != 'convertToType'})
    d = frozenDiff(saved, after)
    ctx.check(d is None, 'arguments-changed', lambda: f'{label}: arguments '
              f'{d}')
    stateOk(ctx, label)


def stateOk(ctx, label):
    e, tab = csv.excel, csv.excel_tab
    good = (e.delimiter == ',' and e.quotechar == '"' and e.doublequote
            and not e.skipinitialspace and tab.delimiter == '\t'
            and csv.get_dialect('excel').delimiter == ',')
    seen = (e.delimiter, tab.delimiter)
    # leave the process usable for the next case
    csv.excel.delimiter = ','
    csv.excel_tab.delimiter = '\t'
    ctx.check(good, 'csv-state', lambda: f'{label} changed the dialects of '
              f'the csv module for everyone: delimiters {seen}')
    ctx.event('csv_state_intact')


def show(kw):
    return {k: (getattr(v, '__name__', v)) for k, v in kw.items()}


def refusedCase(ctx):
    """Options which identify nothing, or one thing twice, are refused."""
    rng, nimble = ctx.rng, ctx.nimble
    s = makeSource(rng)
    if s.np < 2 or s.nf < 2:
        return
    fn, pn = names(rng, s.nf, 'f'), names(rng, s.np, 'p')
    text = writeCSV(rng, s, pn, fn, 'pointNames', ',')
    rawRows = [['pointNames'] + fn] + [[pn[i]] + [
        v for v in r] for i, r in enumerate(s.rows)]
    axis = rng.choice(['Points', 'Features'])
    nm, n = (pn, s.np) if axis == 'Points' else (fn, s.nf)
    i, j = rng.sample(range(n), 2)
    keep, what = rng.choice([
        ([i, i], 'twice'), ([nm[i], nm[i]], 'name twice'),
        ([i, nm[i]], 'index and name'), ([nm[i], j, i], 'index and name'),
        ([n], 'out of range'), ([i, n], 'out of range'), ([n + 3], 'range'),
        ([-1], 'negative'), (['nobody'], 'unknown'),
        ([nm[i], 'nobody'], 'unknown')])
    withNames = rng.random() < .6
    kw = {'inputSeparator': ','}
    if withNames:
        kw.update(pointNames=True, featureNames=True)
    else:
        text = writeCSV(rng, s, None, None, '', ',')
        rawRows = s.rows
        kw.update(pointNames=False, featureNames=False)
        if what == 'index and name':
            return
        if 'name' in what:
            what = 'unknown'
    kw['keep' + axis] = keep
    if rng.random() < .3:
        kw['returnType'] = rng.choice(['List', 'Matrix', 'DataFrame'])
    raw = rng.random() < .35
    ctx.event('refused')
    ctx.state('refused', axis, what, withNames, raw)
    label = f'data({"raw " + repr(rawRows) if raw else repr(text)}, {kw})'
    if raw:
        kw.pop('inputSeparator')
        st, obj = call(ctx, lambda: nimble.data(
            [list(r) for r in rawRows], useLog=False, **kw))
    else:
        path = os.path.abspath('refused.csv')
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        st, obj = call(ctx, lambda: nimble.data(path, useLog=False, **kw))
        stateOk(ctx, label)
    if st == 'ok':
        ctx.violation(f'refused:accepted:{axis}:{what}',
                      f'{label} accepted {keep} ({what}) and gave '
                      f'{model.rawRows(obj)}')
        return
    import nimble.exceptions as ne
    # the identifiers of an axis are refused by IndexError and KeyError
    good = isinstance(obj, ne.NimbleException) or (
        type(obj) in (IndexError, KeyError)
        and where(obj).endswith(('_getIndex', 'getIndex', '_getIndexByName')))
    ctx.check(good, f'refused:type:{axis}:{what}', lambda: f'{label}: '
              f'{what} was refused by {type(obj).__name__}: {obj} (in '
              f'{where(obj)})')


def rawCase(ctx):
    """The same options over data already in python."""
    rng, nimble = ctx.rng, ctx.nimble
    kind = rng.choice(['list', 'list', 'tuple', 'numpy', 'pandas', 'scipy',
                       'nimble', 'dict', 'mtx', 'mtx'])
    numeric = kind in ('numpy', 'scipy', 'mtx')
    s = makeSource(rng, numeric=numeric)
    s.filled = False
    if numeric:
        s.pMiss = 0
        s.rows = [[(v if v != '' else 5) for v in r] for r in s.rows]
        if kind in ('scipy', 'mtx'):
            s.rows = [[(v if rng.random() < .6 else 0) for v in r]
                      for r in s.rows]
    emb = kind in ('list', 'tuple')
    fEmb, fArg, fids, keepF, fNames, fHow = axisSetting(
        rng, s.nf, 'f', emb, False, s.clean)
    pEmb, pArg, pids, keepP, pNames, pHow = axisSetting(
        rng, s.np, 'p', emb, False, s.clean)
    if kind == 'dict':
        # keys are the names of points
        pEmb, pArg, pHow = None, 'omit', 'dictkeys'
        pNames, pids, keepP = names(rng, s.np, 'p'), None, None
    turned = rng.random() < .15 and kind not in ('dict', 'nimble', 'mtx')
    kw, treat, lst = treatment(rng, s)
    pi = list(range(s.np)) if pids is None else pids
    fi = list(range(s.nf)) if fids is None else fids

    def rawTreat(v):
        return rng2(v)

    def rng2(v):
        if inList(v, lst):
            return kw.get('replaceMissingWith', NAN)
        return v
    t = Table([[rng2(s.rows[i][j]) for j in fi] for i in pi], pNames, fNames,
              len(fi))
    grid = [list(r) for r in s.rows]
    if pEmb is not None:
        grid = [[pEmb[i]] + r for i, r in enumerate(grid)]
    if fEmb is not None:
        grid = [(['corner'] if pEmb is not None else []) + list(fEmb)] + grid
    for a, v in (('pointNames', pArg), ('featureNames', fArg)):
        if v != 'omit':
            kw[a] = v
    if keepP is not None:
        kw['keepPoints'] = keepP
    if keepF is not None:
        kw['keepFeatures'] = keepF
    conv = 'none'
    ctx.types = ctx.badKeys = None
    if not turned:
        conv = conversion(rng, ctx, kw, t, fi, s, t.fn, keepF is None)
    if turned:
        kw['rowsArePoints'] = False
        for a, b in [('pointNames', 'featureNames'),
                     ('keepPoints', 'keepFeatures')]:
            va, vb = kw.pop(a, None), kw.pop(b, None)
            if va is not None:
                kw[b] = va
            if vb is not None:
                kw[a] = vb
        t = t.T()
        ctx.event('rows_as_features')
        conv = conversion(rng, ctx, kw, t, pi, s, t.fn, keepP is None, s.np)
    types = returnTypes(t)
    if any(type(v) is bool or isinstance(v, str)
           for r in s.rows for v in r) and 'Sparse' in types:
        types.remove('Sparse')
    typ = rng.choice(types)
    if typ:
        kw['returnType'] = typ
    if kind == 'list':
        src = grid
    elif kind == 'tuple':
        src = tuple(tuple(r) for r in grid)
    elif kind == 'numpy':
        src = np.array(grid)
    elif kind == 'scipy':
        import scipy.sparse as sp
        src = rng.choice([sp.coo_matrix, sp.csr_matrix, sp.csc_matrix])(
            np.array(grid, dtype=float))
    elif kind == 'pandas':
        import pandas as pd
        src = pd.DataFrame(grid)
        if 'pointNames' not in kw or 'featureNames' not in kw:
            return
    elif kind == 'nimble':
        flat = [v for r in grid for v in r]
        mixedBool = {type(v) is bool for v in flat} == {True, False}
        types = ['List', 'Matrix', 'DataFrame']
        if all(isNumber(v) for v in flat) and not mixedBool:
            types.append('Sparse')
        src = nimble.data(grid, pointNames=False, featureNames=False,
                          treatAsMissing=None, returnType=rng.choice(types),
                          useLog=False)
        if rng.random() < .3:
            src = src.view()
        ctx.event('from_nimble_objects')
    elif kind == 'dict':
        src = {n: r for n, r in zip(pNames, grid)}
    else:
        src = os.path.abspath(f'load{rng.randrange(4)}.mtx')
        writeMTX(rng, src, grid)
        ctx.event('mtx_sources')
    if kind != 'mtx':
        ctx.event('raw_sources')
    before = freeze(src)
    label = f'data({kind} {grid!r}, {show(kw)})'
    ctx.event('loads')
    ctx.state(kind, fHow, pHow, keepP is not None, keepF is not None,
              s.missing, turned, kw.get('returnType'), conv)
    st, obj = call(ctx, lambda: nimble.data(src, useLog=False, **kw))
    key = f'raw:{kind}:' + ('turned:' if turned else '') + s.missing
    if badKeys(ctx, key, label, st, obj):
        return
    if st == 'exc':
        ctx.violation(f'{key}:raises-{type(obj).__name__}',
                      f'{label} raised {type(obj).__name__}: {obj} (in '
                      f'{where(obj)})', table=t)
        return
    compare(ctx, key, label, obj, t)
    typesOk(ctx, key, label, obj)
    d = frozenDiff(before, freeze(src))
    ctx.check(d is None, f'{key}:source-changed', lambda: f'{label}: the '
              f'source {d}')
    for ev, on in [('kept_points', keepP is not None),
                   ('kept_features', keepF is not None),
                   ('names_from_source', 'embedded' in (fHow, pHow)),
                   ('replaced_missing', 'replaceMissingWith' in kw)]:
        if on:
            ctx.event(ev)
    for keep in (keepP, keepF):
        if keep is not None and len(keep) > 1:
            ctx.event('reordered')


def writeMTX(rng, path, grid):
    p, f = len(grid), len(grid[0])
    lines = []
    if rng.random() < .5:
        lines.append('%%MatrixMarket matrix array real general')
        for _ in range(rng.choice([0, 1])):
            lines.append('% comment')
        lines.append(f'{p} {f}')
        for j in range(f):
            for i in range(p):
                lines.append(repr(float(grid[i][j])))
    else:
        lines.append('%%MatrixMarket matrix coordinate real general')
        ent = [(i, j, grid[i][j]) for i in range(p) for j in range(f)
               if grid[i][j] != 0 or rng.random() < .1]
        rng.shuffle(ent)
        lines.append(f'{p} {f} {len(ent)}')
        lines += [f'{i + 1} {j + 1} {float(v)!r}' for i, j, v in ent]
    with open(path, 'w', encoding='utf-8') as f_:
        f_.write('\n'.join(lines) + '\n')


def guessCase(ctx):
    """An empty first header cell announces names of points unless those are
    not unique, in which case the column is data."""
    rng, nimble = ctx.rng, ctx.nimble
    s = makeSource(rng)
    s.pMiss = 0
    if s.np < 2 or any(c in ('empty',) for c in s.classes) \
            or s.classes[0] not in ('int', 'float', 'intf'):
        return
    s.rows = [[(3 if c in ('int', 'float', 'intf') else True
                if c == 'bool' else 'red') if v == '' or v == -999 or
               v in MISSWORDS or v == '?' else v
               for v, c in zip(r, s.classes)] for r in s.rows]
    s.missing = 'default'
    fn = names(rng, s.nf, 'f')
    numbers = rng.random() < .4
    first = [rng.randint(1, 4) if numbers else rng.choice('abcd')
             for _ in range(s.np)]
    ctx.event('loads')
    text = writeCSV(rng, s, first, fn, '', ',')
    unique = len(set(first)) == len(first)
    kw = {'inputSeparator': ','}
    fi = None
    if rng.random() < .3:
        fi = rng.sample(range(s.nf), rng.randint(1, s.nf))
        kw['keepFeatures'] = [fn[j] for j in fi]
    pi = list(range(s.np))
    if rng.random() < .3:
        pi = rng.sample(range(s.np), rng.randint(1, s.np))
        kw['keepPoints'] = pi
    if rng.random() < .5:
        kw['featureNames'] = True
    use = list(range(s.nf)) if fi is None else fi
    rows = [[s.rows[i][j] for j in use] for i in pi]
    uniqueKept = unique
    if not unique:
        if fi is None:
            rows = [[first[i]] + r for i, r in zip(pi, rows)]
        t = Table(rows, None, ([None] if fi is None else [])
                  + [fn[j] for j in use])
        ctx.event('restored_point_guess')
    else:
        t = Table(rows, [str(first[i]) for i in pi], [fn[j] for j in use])
    if rng.random() < .5:
        kw['returnType'] = rng.choice(['List', 'DataFrame', 'Matrix'])
    path = os.path.abspath('guess.csv')
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    label = f'data({text!r}, {kw})'
    ctx.state('guess', unique, numbers, fi is None, len(pi) == s.np)
    obj = must(ctx, f'guess:{"unique" if unique else "dups"}', label,
               lambda: nimble.data(path, useLog=False, **kw))
    compare(ctx, f'guess:{"unique" if unique else "dups"}', label, obj, t)
    stateOk(ctx, label)


def repeatCase(ctx):
    """The same text by every route gives equal objects, whatever was loaded
    before and between."""
    rng, nimble = ctx.rng, ctx.nimble
    first = None
    s = makeSource(rng)
    fn = names(rng, s.nf, 'f') if rng.random() < .7 else None
    pn = names(rng, s.np, 'p') if rng.random() < .5 else None
    sep = rng.choice([',', ';', '\t', '|'])
    text = writeCSV(rng, s, pn, fn, 'pointNames', sep)
    kw = {}
    if rng.random() < .6:
        kw['inputSeparator'] = sep
    if rng.random() < .5:
        kw['pointNames'] = pn is not None
        kw['featureNames'] = fn is not None
    results = []
    typ = rng.choice(['List', 'DataFrame', 'Matrix'])
    path = os.path.abspath('repeat.csv')
    for n in range(3):
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        route = rng.choice(['path', 'text', 'binary', 'rel'])
        ctx.event('loads')
        if route == 'path':
            st, o = call(ctx, lambda: nimble.data(path, returnType=typ,
                                                  useLog=False, **kw))
        elif route == 'rel':
            st, o = call(ctx, lambda: nimble.data(
                'repeat.csv', returnType=typ, useLog=False, **kw))
        else:
            with (open(path, 'r', encoding='utf-8') if route == 'text' else
                  open(path, 'rb')) as f:
                st, o = call(ctx, lambda: nimble.data(
                    f, returnType=typ, useLog=False, **kw))
        pic = (st, type(o).__name__) if st == 'exc' else \
            (model.rawRows(o), model.names(o.points),
             model.names(o.features))
        results.append((route, freeze(pic)))
        ctx.check(results[0][1] == results[-1][1], 'repeat:different',
                  lambda: f'{text!r} loaded with {kw} by {results[0][0]} '
                  f'and again by {route} differ: {results[0][1]} and '
                  f'{results[-1][1]}')
        # something else, with other settings, in between
        other = makeSource(rng)
        osep = rng.choice([',', ';', '\t', '|', ':'])
        otext = writeCSV(rng, other, None, names(rng, other.nf, 'g'), '',
                         osep)
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(otext)
        ctx.event('loads')
        call(ctx, lambda: nimble.data(path, inputSeparator=osep,
                                      featureNames=True, useLog=False))
    ctx.state('repeat', sep, typ, tuple(kw))
    stateOk(ctx, f'loading {text!r} and others')


KINDS = [('csv', 10, csvCase), ('raw', 5, rawCase),
         ('refused', 1.5, refusedCase), ('guess', 1.5, guessCase),
         ('repeat', 1, repeatCase)]
