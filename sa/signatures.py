"""What the parameters of library functions are called, in which order they come, and what they default to, so that it
does not matter how an argument is passed.  (Generated once from the installed libraries with inspect.signature.)"""
from . import terms as tm
from .terms import TRUE, FALSE, NONE

# name: ([parameter or (parameter, default), ...], {keyword-only parameter: default})
FUNCTIONS = {
    'numpy.linspace': (['start', 'stop', ('num', 50), ('endpoint', True), ('retstep', False), ('dtype', None), ('axis', 0)], {}),
    'numpy.interp': (['x', 'xp', 'fp', ('left', None), ('right', None), ('period', None)], {}),
    'repeat': (['a', 'repeats', ('axis', None)], {}),
    'tile': (['A', 'reps'], {}),
    'stack': (['arrays', ('axis', 0), ('out', None)], {'dtype': None, 'casting': 'same_kind'}),
    'arange': (['start', 'stop', 'step'], {}),
    'norm': (['x', ('ord', None), ('axis', None), ('keepdims', False)], {}),
    'cross': (['a', 'b', ('axisa', -1), ('axisb', -1), ('axisc', -1), ('axis', None)], {}),
    'dot': (['a', 'b'], {}),
    'numpy.zeros': (['shape', 'dtype'], {}),
    'numpy.ones': (['shape', ('dtype', None), ('order', 'C')], {'like': None}),
    'numpy.ones_like': (['a', ('dtype', None), ('order', 'K'), ('subok', True), ('shape', None)], {}),
    'numpy.full': (['shape', 'fill_value', ('dtype', None), ('order', 'C')], {'like': None}),
    'numpy.unique': (['ar', ('return_index', False), ('return_inverse', False), ('return_counts', False), ('axis', None)], {'equal_nan': True}),
    'numpy.sort': (['a', ('axis', -1), ('kind', None), ('order', None)], {}),
    'array': (['object', ('dtype', None)], {}),
    'numpy.vstack': (['tup'], {'dtype': None, 'casting': 'same_kind'}),
    'numpy.column_stack': (['tup'], {}),
    'numpy.outer': (['a', 'b', ('out', None)], {}),
    'numpy.ravel': (['a', ('order', 'C')], {}),
    'numpy.argsort': (['a', ('axis', -1), ('kind', None), ('order', None)], {}),
    'numpy.round': (['a', ('decimals', 0), ('out', None)], {}),
    'numpy.clip': (['a', 'a_min', 'a_max', ('out', None)], {}),
    'isclose': (['a', 'b', ('rtol', 1e-05), ('atol', 1e-08), ('equal_nan', False)], {}),
    'numpy.allclose': (['a', 'b', ('rtol', 1e-05), ('atol', 1e-08), ('equal_nan', False)], {}),
    'pandas.concat': (['objs'], {'axis': 0, 'join': 'outer', 'ignore_index': False, 'keys': None, 'levels': None, 'names': None, 'verify_integrity': False, 'sort': False, 'copy': None}),
    'pandas.DataFrame': ([('data', None), ('index', None), ('columns', None), ('dtype', None), ('copy', None)], {}),
    'pandas.Series': ([('data', None), ('index', None), ('dtype', None), ('name', None), ('copy', None), ('fastpath', False)], {}),
    'pandas.to_numeric': (['arg', ('errors', 'raise'), ('downcast', None), 'dtype_backend'], {}),
    'pandas.read_csv': (['filepath_or_buffer'], {'delimiter': None, 'header': 'infer', 'index_col': None, 'usecols': None, 'dtype': None, 'engine': None, 'converters': None, 'true_values': None, 'false_values': None, 'skipinitialspace': False, 'skiprows': None, 'skipfooter': 0, 'nrows': None, 'na_values': None, 'keep_default_na': True, 'na_filter': True, 'verbose': False, 'skip_blank_lines': True, 'parse_dates': None, 'keep_date_col': False, 'date_format': None, 'dayfirst': False, 'cache_dates': True, 'iterator': False, 'chunksize': None, 'compression': 'infer', 'thousands': None, 'decimal': '.', 'lineterminator': None, 'quotechar': '"', 'quoting': 0, 'doublequote': True, 'escapechar': None, 'comment': None, 'encoding': None, 'encoding_errors': 'strict', 'dialect': None, 'on_bad_lines': 'error', 'delim_whitespace': False, 'low_memory': True, 'memory_map': False, 'float_precision': None, 'storage_options': None}),
    'isna': (['obj'], {}),
    'pandas.merge': (['left', 'right', ('how', 'inner'), ('on', None), ('left_on', None), ('right_on', None), ('left_index', False), ('right_index', False), ('sort', False), 'suffixes', ('copy', None), ('indicator', False), ('validate', None)], {}),
    'networkx.draw': (['G', ('pos', None), ('ax', None)], {}),
    'get_node_attributes': (['G', 'name'], {}),
    'get_edge_attributes': (['G', 'name'], {}),
    'networkx.set_node_attributes': (['G', 'values', ('name', None)], {}),
    'networkx.set_edge_attributes': (['G', 'values', ('name', None)], {}),
    'networkx.dfs_edges': (['G', ('source', None), ('depth_limit', None)], {}),
    'networkx.bfs_edges': (['G', 'source', ('reverse', False), ('depth_limit', None), ('sort_neighbors', None)], {}),
    'networkx.dfs_preorder_nodes': (['G', ('source', None), ('depth_limit', None)], {}),
    'networkx.shortest_path': (['G', ('source', None), ('target', None), ('weight', None), ('method', 'dijkstra')], {}),
    'networkx.has_path': (['G', 'source', 'target'], {}),
    'networkx.connected_components': (['G'], {}),
    'networkx.node_connected_component': (['G', 'n'], {}),
    'networkx.Graph': ([('incoming_graph_data', None)], {}),
    're.sub': (['pattern', 'repl', 'string', ('count', 0), ('flags', 0)], {}),
    're.match': (['pattern', 'string', ('flags', 0)], {}),
    're.search': (['pattern', 'string', ('flags', 0)], {}),
    're.findall': (['pattern', 'string', ('flags', 0)], {}),
    're.fullmatch': (['pattern', 'string', ('flags', 0)], {}),
    're.compile': (['pattern', ('flags', 0)], {}),
    're.split': (['pattern', 'string', ('maxsplit', 0), ('flags', 0)], {}),
    're.finditer': (['pattern', 'string', ('flags', 0)], {}),
    're.subn': (['pattern', 'repl', 'string', ('count', 0), ('flags', 0)], {}),
    'pickle.load': (['file'], {'fix_imports': True, 'encoding': 'ASCII', 'errors': 'strict'}),
    'pickle.dump': (['obj', 'file', ('protocol', None)], {'fix_imports': True, 'buffer_callback': None}),
    'pickle.dumps': (['obj', ('protocol', None)], {'fix_imports': True, 'buffer_callback': None}),
    'pickle.loads': ([None], {'fix_imports': True, 'encoding': 'ASCII', 'errors': 'strict'}),
    'json.dump': (['obj', 'fp'], {'skipkeys': False, 'ensure_ascii': True, 'check_circular': True, 'allow_nan': True, 'cls': None, 'indent': None, 'separators': None, 'default': None, 'sort_keys': False}),
    'json.dumps': (['obj'], {'skipkeys': False, 'ensure_ascii': True, 'check_circular': True, 'allow_nan': True, 'cls': None, 'indent': None, 'separators': None, 'default': None, 'sort_keys': False}),
    'matplotlib.collections.LineCollection': (['segments'], {'zorder': 2}),
    'matplotlib.collections.PatchCollection': (['patches'], {'match_original': False}),
    'matplotlib.patches.Rectangle': (['xy', 'width', 'height'], {'angle': 0.0, 'rotation_point': 'xy'}),
    'matplotlib.patches.FancyArrowPatch': ([('posA', None), ('posB', None)], {'path': None, 'arrowstyle': 'simple', 'connectionstyle': 'arc3', 'patchA': None, 'patchB': None, 'shrinkA': 2, 'shrinkB': 2, 'mutation_scale': 1, 'mutation_aspect': 1}),
    'matplotlib.colors.to_rgb': (['c'], {}),
    'matplotlib.pyplot.get_cmap': ([('name', None), ('lut', None)], {}),
    'matplotlib.pyplot.subplots': ([('nrows', 1), ('ncols', 1)], {'sharex': False, 'sharey': False, 'squeeze': True, 'width_ratios': None, 'height_ratios': None, 'subplot_kw': None, 'gridspec_kw': None}),
    'matplotlib.pyplot.ylim': ([], {}),
    'matplotlib.pyplot.xlabel': (['xlabel', ('fontdict', None), ('labelpad', None)], {'loc': None}),
    'matplotlib.pyplot.ylabel': (['ylabel', ('fontdict', None), ('labelpad', None)], {'loc': None}),
    'colorsys.rgb_to_hls': (['r', 'g', 'b'], {}),
    'colorsys.hls_to_rgb': (['h', 'l', 's'], {}),
    'warnings.filterwarnings': (['action', ('message', ''), 'category', ('module', ''), ('lineno', 0), ('append', False)], {}),
    'open': (['file', ('mode', 'r'), ('buffering', -1), ('encoding', None), ('errors', None), ('newline', None), ('closefd', True), ('opener', None)], {}),
    'enumerate': (['iterable', ('start', 0)], {}),
    'sum': ([None, ('start', 0)], {}),
    'round': (['number', ('ndigits', None)], {}),
    'pint.Context': ([('name', None), 'aliases', ('defaults', None)], {}),
    'pathlib.Path': ([], {}),
}

# the same for methods; one entry for each type that has a method of that name
METHODS = {
    'fillna': [([('value', None)], {'method': None, 'axis': None, 'inplace': False, 'limit': None}), ([('value', None), ('method', None), 'axis', ('inplace', False), ('limit', None), 'downcast'], {})],
    'astype': [(['dtype', ('copy', None), ('errors', 'raise')], {})],
    'drop': [([('labels', None)], {'axis': 0, 'index': None, 'columns': None, 'level': None, 'inplace': False, 'errors': 'raise'})],
    'dropna': [([], {'axis': 0, 'subset': None, 'inplace': False, 'ignore_index': False}), ([], {'axis': 0, 'inplace': False, 'how': None, 'ignore_index': False})],
    'explode': [(['column', ('ignore_index', False)], {}), ([('ignore_index', False)], {})],
    'reset_index': [([('level', None)], {'drop': False, 'inplace': False, 'col_level': 0, 'col_fill': '', 'names': None}), ([('level', None)], {'drop': False, 'inplace': False, 'allow_duplicates': False})],
    'extract': [(['pat', ('flags', 0), ('expand', True)], {})],
    'findall': [(['pat', ('flags', 0)], {})],
    'rename': [([('mapper', None)], {'index': None, 'columns': None, 'axis': None, 'copy': None, 'inplace': False, 'level': None, 'errors': 'ignore'}), ([('index', None)], {'axis': None, 'copy': None, 'inplace': False, 'level': None, 'errors': 'ignore'}), (['target'], {})],
    'apply': [(['func', ('axis', 0), ('raw', False), ('result_type', None), 'args', ('by_row', 'compat')], {}), (['func', 'convert_dtype', 'args'], {'by_row': 'compat'}), (['func'], {})],
    'applymap': [(['func', ('na_action', None)], {})],
    'map': [(['func', ('na_action', None)], {}), (['arg', ('na_action', None)], {})],
    'to_csv': [([('path_or_buf', None), ('sep', ','), ('na_rep', ''), ('float_format', None), ('columns', None), ('header', True), ('index', True), ('index_label', None), ('mode', 'w'), ('encoding', None), ('compression', 'infer'), ('quoting', None), ('quotechar', '"'), ('lineterminator', None), ('chunksize', None), ('date_format', None), ('doublequote', True), ('escapechar', None), ('decimal', '.'), ('errors', 'strict'), ('storage_options', None)], {})],
    'replace': [([('to_replace', None), 'value'], {'inplace': False, 'limit': None, 'regex': False}), (['pat', 'repl', ('n', -1), ('case', None), ('flags', 0), ('regex', False)], {}), ([None, None, (None, -1)], {}), (['target'], {})],
    'startswith': [(['pat', ('na', None)], {})],
    'endswith': [(['pat', ('na', None)], {})],
    'sort_values': [(['by'], {'axis': 0, 'ascending': True, 'inplace': False, 'kind': 'quicksort', 'na_position': 'last', 'ignore_index': False, 'key': None}), ([], {'axis': 0, 'ascending': True, 'inplace': False, 'kind': 'quicksort', 'na_position': 'last', 'ignore_index': False, 'key': None})],
    'groupby': [([('by', None), 'axis', ('level', None), ('as_index', True), ('sort', True), ('group_keys', True), 'observed', ('dropna', True)], {}), ([('by', None), ('axis', 0), ('level', None), ('as_index', True), ('sort', True), ('group_keys', True), 'observed', ('dropna', True)], {})],
    'set_index': [(['keys'], {'drop': True, 'append': False, 'inplace': False, 'verify_integrity': False})],
    'query': [(['expr'], {'inplace': False})],
    'merge': [(['right', ('how', 'inner'), ('on', None), ('left_on', None), ('right_on', None), ('left_index', False), ('right_index', False), ('sort', False), 'suffixes', ('copy', None), ('indicator', False), ('validate', None)], {})],
    'join': [(['other', ('on', None), ('how', 'left'), ('lsuffix', ''), ('rsuffix', ''), ('sort', False), ('validate', None)], {}), (['sep'], {}), ([None], {})],
    'to': [([('other', None)], {})],
    'agg': [([('func', None), ('axis', 0)], {}), ([('func', None)], {'engine': None, 'engine_kwargs': None})],
    'min': [([('axis', 0), ('skipna', True), ('numeric_only', False)], {}), ([('numeric_only', False), ('min_count', -1), ('engine', None), ('engine_kwargs', None)], {})],
    'max': [([('axis', 0), ('skipna', True), ('numeric_only', False)], {}), ([('numeric_only', False), ('min_count', -1), ('engine', None), ('engine_kwargs', None)], {})],
    'sum': [([('axis', 0), ('skipna', True), ('numeric_only', False), ('min_count', 0)], {}), ([('axis', None), ('skipna', True), ('numeric_only', False), ('min_count', 0)], {}), ([('numeric_only', False), ('min_count', 0), ('engine', None), ('engine_kwargs', None)], {})],
    'mean': [([('axis', 0), ('skipna', True), ('numeric_only', False)], {}), ([('numeric_only', False), ('engine', None), ('engine_kwargs', None)], {})],
    'idxmax': [([('axis', 0), ('skipna', True), ('numeric_only', False)], {}), ([('axis', 0), ('skipna', True)], {}), (['axis', ('skipna', True), ('numeric_only', False)], {})],
    'idxmin': [([('axis', 0), ('skipna', True), ('numeric_only', False)], {}), ([('axis', 0), ('skipna', True)], {}), (['axis', ('skipna', True), ('numeric_only', False)], {})],
    'to_numpy': [([('dtype', None), ('copy', False), 'na_value'], {})],
    'copy': [([('deep', True)], {}), ([('as_view', False)], {}), ([], {})],
    'add_edge': [(['u_of_edge', 'v_of_edge'], {})],
    'add_node': [(['node_for_adding'], {})],
    'remove_edge': [(['u', 'v'], {})],
    'remove_node': [(['n'], {})],
    'has_edge': [(['u', 'v'], {})],
    'has_node': [(['n'], {})],
    'neighbors': [(['n'], {})],
    'subgraph': [(['nodes'], {})],
    'edge_subgraph': [(['edges'], {})],
    'get_edge_data': [(['u', 'v', ('default', None)], {})],
    'add_edges_from': [(['ebunch_to_add'], {})],
    'add_nodes_from': [(['nodes_for_adding'], {})],
    'add_collection': [(['collection', ('autolim', True)], {})],
    'add_patch': [(['p'], {})],
    'autoscale': [([('enable', True), ('axis', 'both'), ('tight', None)], {})],
    'set_xlabel': [(['xlabel', ('fontdict', None), ('labelpad', None)], {'loc': None})],
    'set_ylabel': [(['ylabel', ('fontdict', None), ('labelpad', None)], {'loc': None})],
    'set_ylim': [([('bottom', None), ('top', None)], {'emit': True, 'auto': False, 'ymin': None, 'ymax': None})],
    'set_xlim': [([('left', None), ('right', None)], {'emit': True, 'auto': False, 'xmin': None, 'xmax': None})],
    'annotate': [(['text', 'xy', ('xytext', None), ('xycoords', 'data'), ('textcoords', None), ('arrowprops', None), ('annotation_clip', None)], {})],
    'with_suffix': [(['suffix'], {})],
    'write_text': [(['data', ('encoding', None), ('errors', None), ('newline', None)], {})],
    'read_text': [([('encoding', None), ('errors', None)], {})],
    'write_bytes': [(['data'], {})],
    'open': [([('mode', 'r'), ('buffering', -1), ('encoding', None), ('errors', None), ('newline', None)], {})],
    'isin': [(['values'], {})],
    'pipe': [(['func'], {})],
    'transform': [(['func', ('axis', 0)], {}), (['func'], {'engine': None, 'engine_kwargs': None})],
    'itertuples': [([('index', True), ('name', 'Pandas')], {})],
    'drop_duplicates': [([('subset', None)], {'keep': 'first', 'inplace': False, 'ignore_index': False}), ([], {'keep': 'first', 'inplace': False, 'ignore_index': False})],
    'head': [([('n', 5)], {})],
    'tail': [([('n', 5)], {})],
}

def name_of(p):
    return p[0] if isinstance(p, tuple) else p


def is_default(t, v):
    """the constant t is v"""
    if v is None:
        return t is NONE
    if isinstance(v, bool):
        return t is (TRUE if v else FALSE)
    if isinstance(v, str):
        return t.op == 'str' and t.args[0] == v
    return t.op == 'num' and t.args[0] == v


def plain(sig, args, kwargs):
    """the arguments as positional as can be, without those that only repeat a default"""
    params, kwonly = sig
    args, kwargs = list(args), dict(kwargs)
    while len(args) < len(params) and name_of(params[len(args)]) in kwargs:
        args.append(kwargs.pop(name_of(params[len(args)])))
    defaults = dict(kwonly)
    defaults.update(p for p in params if isinstance(p, tuple))
    for k in list(kwargs):
        if k in defaults and is_default(kwargs[k], defaults[k]):
            del kwargs[k]
    if '**' not in kwargs:
        while args and len(args) <= len(params) and isinstance(params[len(args) - 1], tuple) and \
                is_default(args[-1], params[len(args) - 1][1]):
            args.pop()
    return args, kwargs


def known(sig):
    return {name_of(p) for p in sig[0]} | set(sig[1])


def normal(name, args, kwargs, method=False):
    if any(x.op == 'star' for x in args):
        return args, kwargs
    if not method:
        return plain(FUNCTIONS[name], args, kwargs) if name in FUNCTIONS else (args, kwargs)
    found = []
    for sig in METHODS.get(name, ()):
        if len(args) <= len(sig[0]) and all(k in known(sig) or k == '**' for k in kwargs):
            r = plain(sig, args, kwargs)
            if r not in found:
                found.append(r)
    return found[0] if len(found) == 1 else (args, kwargs)
