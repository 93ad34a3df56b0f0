"""Which analyses decide which property."""
import state
from explain import EXPLAIN
COMMON = ['allocation succeeds and sizes stay far below 2^62 (64-bit arithmetic is treated as unbounded)', 'element and callback types keep their own contracts: their special members do not throw and do not modify the container they are stored in',
          'clang 18 translates the headers to IR faithfully; -O0 plus scalar replacement only']
LIFE = {'bounds', 'use-after-free', 'double-free', 'double-destroy', 'dead-object', 'overwrite-live', 'moved-read', 'element-leak', 'leak', 'raw-overwrite', 'bad-free', 'null-deref', 'storage', 'overlap', 'uninit', 'const-write'}
# constants of the pinned tree that are no sizes (code unit values, ASCII codes, element widths)
CONSTANTS = {f: {32, 64, 127, 128, 224, 240, 248, 252, 1024} for f in ('utf.cpp', 'nar.cpp')}
SIZES = {'utf.cpp': {18, 130}, 'nar.cpp': {18, 130}}  # of the long-sequence drivers on every run; {18} unless given
PROPS = {
 'C01': dict(drivers=[('ptr.cpp', 'spec_ptr', '.*')]),
 'C02': dict(drivers=[('str.cpp', 'spec_str', r'.*', LIFE | {'nonatomic-counter', 'terminator', 'escape'})]),
 'C03': dict(drivers=[('str.cpp', 'spec_str', r'.*')]),
 'C04': dict(drivers=[('list.cpp', 'spec_list', r'E_.*', LIFE), ('list.cpp', 'spec_list', r'E_.*own(_move)?'), ('nest.cpp', 'spec_seq', r'.*')]),
 'C05': dict(drivers=[('list.cpp', 'spec_list', r'[EI]_(?!s_).*'), ('seq.cpp', 'spec_seq', r'r_compare|c_(list|array)_.*'), ('nest.cpp', 'spec_seq', r'[LAH]_.*')], big=[('seq.cpp', 'spec_seq', r'r_compare|l_list')]),
 'C06': dict(drivers=[('list.cpp', 'spec_list', r'[EI]_(insert_copy|insert_move|remove_at|remove_range|set_copy|set_move|get|index|cindex|a_ctor|a_resize|a_set_copy|a_set_move|a_get|a_index|s_remove_at|s_get)'), ('grp.cpp', 'spec_seq', r'hist')]),
 'C07': dict(drivers=[('val.cpp', 'spec_val', r'N[EVK]?_.*')]),
 'C08': dict(drivers=[('val.cpp', 'spec_val', r'V_.*')]),
 'C15': dict(drivers=[('fn.cpp', 'spec_val', r'F_.*')]),
 'C16': dict(drivers=[('fn.cpp', 'spec_val', r'V_.*')], big=[('fn.cpp', 'spec_seq', r'big_.*')]),
 'C22': dict(drivers=[('val.cpp', 'spec_val', r'[PT]_.*|NE_compare')]),
 'C10': dict(drivers=[('list.cpp', 'spec_list', r'[EI]_s_.*'), ('seq.cpp', 'spec_seq', r's_sorted|c_sorted')], big=[('seq.cpp', 'spec_seq', r'l_search')]),
 'C09': dict(drivers=[('dict.cpp', 'spec_list', r'.*'), ('nest.cpp', 'spec_seq', r'[DG]_.*'), ('grp.cpp', 'spec_seq', r'.*'), ('seq.cpp', 'spec_seq', r's_(dict|group)|c_dict')], big=[('grp.cpp', 'spec_seq', r'big_.*')]),
 'C11': dict(drivers=[('seq.cpp', 'spec_seq', r's_.*|o_.*')], big=[('seq.cpp', 'spec_seq', r's_.*|o_.*')]),
 'C12': dict(drivers=[('seq.cpp', 'spec_seq', r'o_.*|r_.*')], big=[('seq.cpp', 'spec_seq', r'o_.*|r_.*')]),
 'C17': dict(drivers=[('glob.cpp', 'spec_glob', r'.*')]),
 'C18': dict(drivers=[('num.cpp', 'spec_num', r'.*')]),
 'C25': dict(drivers=[('po.cpp', 'spec_seq', r'.*')], big=[('po.cpp', 'spec_seq', r'big_.*')]),
 'C27': dict(drivers=[('ut.cpp', 'spec_ut', r'.*')]),
 'C26': dict(drivers=[('time.cpp', 'spec_time', r'.*')]),
 'C21': dict(drivers=[('seq.cpp', 'spec_seq', r'q_.*')], big=[('seq.cpp', 'spec_seq', r'q_.*')]),
 'C23': dict(drivers=[('seq.cpp', 'spec_seq', r'c_.*')], big=[('seq.cpp', 'spec_seq', r'c_.*')]),
 'C13': dict(drivers=[('utf.cpp', 'spec_bit', r'u8_.*|u16_.*|u16be_.*|w_.*')]),
 'C19': dict(drivers=[('ro.cpp', 'spec_seq', r'.*', {'shared-write', 'nonatomic-counter', 'const-write'})], extra=[state.hidden_state]),
 'C20': dict(drivers=[('nar.cpp', 'spec_nar', r'.*')], big=[('nar.cpp', 'spec_nar', r'big')]),
 'C29': dict(drivers=[('lor.cpp', 'spec_lor', r'.*')]),
 'C24': dict(drivers=[('type.cpp', 'spec_val', r'.*')]),
 'C28': dict(drivers=[('alloc.cpp', 'spec_seq', r'.*')]),
 'C14': dict(drivers=[('utf.cpp', 'spec_bit', r't_.*|b_.*|r_.*')], big=[('utf.cpp', 'spec_bit', r'big_.*')]),
}
for k in PROPS: PROPS[k]['explain'] = EXPLAIN[k]
