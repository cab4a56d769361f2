"""Which units decide which property."""
ASSUME = ['C++ library functions behave as documented (engine/models.py states the assumed effect)',
          'real arithmetic stands for floating point: rounding, overflow and NaN are outside the claim unless stated',
          'inputs are within the shapes given by the drivers: every content of every shape, shapes up to the stated sizes']
def U(name, drivers, sources=(), **k): return dict(name=name, drivers=drivers if isinstance(drivers, list) else [drivers], sources=list(sources), **k)
STR = ['flut/string_tools.cpp', 'flut/system/path.cpp']
LOG = ['flut/system/log.cpp'] + STR
CS = ['flut/char_stream.cpp', 'flut/filesystem.cpp', 'flut/system_tools.cpp'] + LOG
PROPS = {
 'C01': dict(units=[U('log', 'c01_log.cpp', LOG)]),
 'C02': dict(units=[U('level%d' % n, 'c02_static.cpp', LOG, defs=['FLUT_STATIC_LOG_LEVEL=%d' % n]) for n in range(1, 8)]),
 'C03': dict(units=[U('sinks', 'c03_sinks.cpp', LOG)]),
 'C04': dict(units=[U('extract', 'c04_extract.cpp', CS)]),
 'C05': dict(units=[U('bounds', 'c05_bounds.cpp', CS, limits={'hang': True, 'steps': 400000})]),
 'C06': dict(units=[U('token', 'c06_token.cpp', CS)]),
 'C07': dict(units=[U('quote', 'c07_quote.cpp', CS)]),
 'C08': dict(units=[U('path', 'c08_path.cpp', ['flut/system/path.cpp'])]),
 'C09': dict(units=[U('filename', 'c09_filename.cpp', CS)]),
 'C10': dict(units=[U('slice', 'c10_slice.cpp', CS)]),
 'C11': dict(units=[U('format', 'c11_format.cpp', CS)]),
}
PROPS.update({
 'C12': dict(units=[U('convert', 'c12_convert.cpp', CS)]),
 'C13': dict(units=[U('keyed', 'c13_keyed.cpp', CS)]),
 'C14': dict(units=[U('header', 'c14_header.cpp', LOG)]),
})
PROPS.update({
 'C15': dict(units=[U('circular', 'c15_circular.cpp', LOG)]),
 'C16': dict(units=[U('dynarray', 'c16_dynarray.cpp', LOG)]),
 'C17': dict(units=[U('table', 'c17_table.cpp', LOG)]),
 'C18': dict(units=[U('sorted', 'c18_sorted.cpp', LOG)]),
})
PN = ['flut/prop_node.cpp'] + CS
PROPS.update({
 'C19': dict(units=[U('clamp', 'c19_clamp.cpp', PN)]),
 'C20': dict(units=[U('vector', 'c20_vector.cpp', PN)]),
 'C21': dict(units=[U('quat', 'c21_quat.cpp', PN)]),
})
PT = ['flut/prop_node_tools.cpp'] + PN
PROPS.update({
 'C22': dict(units=[U('tree', 'c22_tree.cpp', PT)]),
 'C24': dict(units=[U('include', 'c24_include.cpp', PT, limits={'steps': 16000000, 'frames': 1500})]),
 'C25': dict(units=[U('files', 'c25_files.cpp', PT)]),
 'C23': dict(units=[U('prop', 'c23_prop.cpp', PT)]),
})
PROPS.update({
 'C26': dict(units=[U('transform', 'c26_transform.cpp', PN)]),
})
PROPS.update({
 'C27': dict(units=[U('stats', 'c27_stats.cpp', LOG)]),
})
PROPS.update({
 'C28': dict(units=[U('signal', 'c28_signal.cpp', PN)]),
})
PROPS.update({
 'C29': dict(units=[U('tools', 'c29_tools.cpp', PT + ['flut/interruptible.cpp'])], rules=['interrupt_flag']),
})
PROPS.update({
 'C30': dict(units=[U('filesystem', 'c30_filesystem.cpp', CS)]),
})
PROPS.update({
 'C31': dict(units=[U('time', 'c31_time.cpp', PT + ['flut/stopwatch.cpp', 'flut/timer.cpp', 'flut/system/profiler.cpp'])]),
})
PROPS.update({
 'C33': dict(units=[U('random', 'c33_random.cpp', ['flut/math/random.cpp'])]),
})
PROPS.update({
 'C32': dict(units=[U('exceptions%d_asserts%d' % (e, a), 'c32_errors.cpp', STR, defs=['FLUT_USE_EXCEPTIONS=%d' % e, 'FLUT_USE_ASSERT=%d' % a]) for e in (0, 1) for a in (0, 1)] + [U('default', 'c32_errors.cpp', STR)]),
})
PROPS.update({
 'C34': dict(units=[U('debug', 'c34_debug.cpp', ['flut/system/debug_storage.cpp'] + LOG)]),
})
import rules
PROPS.update({
 'C35': dict(rules=[rules.headers_alone, rules.one_definition, rules.state_per_unit]),
 'C36': dict(rules=[rules.hidden_state]),
})
PROPS.update({
 'C37': dict(rules=[rules.defined_results, rules.fields_have_values]),
})
for _p in PROPS.values(): _p['rules'] = [getattr(rules, r) if isinstance(r, str) else r for r in _p.get('rules', ())]
