PROPS = {}
def prop(id, units, **kw):
    for u in units: u.setdefault('name', u['entry'])
    PROPS[id] = dict(units=units, **kw)

prop('J01', [
    dict(h='json_parse', entry='h_tokens', quick={'N': 5}, thorough={'N': 7}, reach=['end', 'token', 'string'], steps=60000),
    dict(h='json_parse', entry='h_skip', quick={'N': 6}, thorough={'N': 8}, reach=['end', 'value'], steps=60000),
    dict(h='json_parse', entry='h_tokens', name='h_tokens_levels', defs={'LEVELS': 2}, quick={'N': 4}, thorough={'N': 6}, reach=['end', 'token'], steps=60000),
    dict(h='json_parse', entry='h_skip', name='h_skip_levels', defs={'LEVELS': 2}, quick={'N': 5}, thorough={'N': 7}, reach=['end', 'value'], steps=60000),
    dict(h='json_parse', entry='h_levels', defs={'LEVELS': 3}, thorough={'LEVELS': 5}, reach=['refused', 'end'], steps=60000),
    dict(h='json_parse', entry='h_string_end', quick={'N': 3}, thorough={'N': 4}, reach=['end', 'string'], steps=60000),
    dict(h='json_parse', entry='h_number', quick={'DIG': 28}, thorough={'DIG': 40}, reach=['end', 'ok'], steps=60000),
])
prop('J02', [
    dict(h='json_diff', entry='h_document', quick={'DEPTH': 1}, thorough={'DEPTH': 2}, reach=['read']),
    dict(h='json_diff', entry='h_nested', quick={'DEPTH': 3}, thorough={'DEPTH': 4}, reach=['read', 'skipped']),
    dict(h='json_diff', entry='h_scalar', reach=['read']),
    dict(h='json_diff', entry='h_skip_document', quick={'DEPTH': 1}, thorough={'DEPTH': 2}, reach=['read']),
])
prop('J03', [
    dict(h='json_diff', entry='h_structure', quick={'N': 7}, thorough={'N': 8}, reach=['clean', 'malformed']),
])
prop('J04', [
    dict(h='json_write', entry='h_write', quick={'K': 4}, thorough={'K': 5}, reach=['refused', 'complete']),
    dict(h='json_write', entry='h_write_token', quick={'K': 4}, thorough={'K': 5}, reach=['refused', 'complete']),
    dict(h='json_write', entry='h_write', name='h_write_moved', defs={'MOVED': 1}, quick={'K': 3}, thorough={'K': 4}, reach=['refused', 'complete']),
    dict(h='json_write', entry='h_write_full', quick={'K': 3}, thorough={'K': 4}, reach=['refused', 'full']),
])

prop('H01', [
    dict(h='http', entry='h_request_line', quick={'N': 7, 'CAP': 4}, thorough={'N': 9, 'CAP': 5}, reach=['end', 'resource'], steps=60000),
    dict(h='http', entry='h_protocol', quick={'N': 8, 'CAP': 5}, thorough={'N': 10, 'CAP': 7}, reach=['protocol'], steps=60000),
    dict(h='http', entry='h_status_line', quick={'N': 7, 'CAP': 4}, thorough={'N': 9, 'CAP': 5}, reach=['reason'], steps=60000),
    dict(h='http', entry='h_headers', quick={'N': 9, 'CAP': 3}, thorough={'N': 11, 'CAP': 4}, reach=['end', 'header', 'body'], steps=60000),
])
prop('H02', [
    dict(h='http', entry='h_request_roundtrip', quick={'N': 5}, thorough={'N': 7}, reach=['end']),
    dict(h='http', entry='h_response_roundtrip', quick={'N': 7}, thorough={'N': 7}, reach=['end']),
])
prop('H03', [
    dict(h='http', entry='h_order', quick={'K': 5}, thorough={'K': 7}, reach=['refused', 'body', 'end']),
    dict(h='http', entry='h_order', name='h_order_moved', defs={'MOVED': 1}, quick={'K': 5}, thorough={'K': 6}, reach=['refused', 'body', 'end']),
])
prop('H04', [
    dict(h='http', entry='h_injection', quick={'N': 6}, thorough={'N': 8}, reach=['sent', 'end']),
])
prop('H05', [
    dict(h='http', entry='h_parameters', quick={'N': 9}, thorough={'N': 11}, reach=['found', 'absent']),
])
prop('H06', [
    dict(h='http', entry='h_body', quick={'N': 6}, thorough={'N': 8}, reach=['end']),
    dict(h='http', entry='h_put_body', quick={'N': 8}, thorough={'N': 12}, reach=['end']),
])
prop('L01', [
    dict(h='log', entry='h_line', quick={'SIZE': 8, 'N': 5, 'K': 4}, thorough={'SIZE': 8, 'N': 5, 'K': 5}, reach=['long', 'flush', 'moved', 'end']),
    dict(h='log', entry='h_line', name='h_line_tiny', quick={'SIZE': 1, 'N': 2, 'K': 3}, thorough={'SIZE': 1, 'N': 3, 'K': 4}, reach=['long', 'flush', 'moved', 'end']),
    dict(h='log', entry='h_thread_id', reach=['end']),
])
prop('L02', [
    dict(h='log', entry='h_entry', name='entry_debug', quick={'FORMAT': 0, 'N': 3}, thorough={'FORMAT': 0, 'N': 8}, reach=['suppressed', 'line', 'changed', 'blank']),
    dict(h='log', entry='h_entry', name='entry_diag', quick={'FORMAT': 1, 'N': 3}, thorough={'FORMAT': 1, 'N': 8}, reach=['suppressed', 'line', 'changed', 'blank']),
    dict(h='log', entry='h_entry', name='entry_test', quick={'FORMAT': 2, 'N': 3}, thorough={'FORMAT': 2, 'N': 8}, reach=['suppressed', 'line', 'changed', 'blank']),
    dict(h='log', entry='h_entry', name='entry_long', quick={'FORMAT': 1, 'N': 3, 'LSIZE': 34}, thorough={'FORMAT': 1, 'N': 3, 'LSIZE': 34}, reach=['suppressed', 'line', 'changed', 'blank']),
    dict(h='log', entry='h_binary', name='binary_debug', quick={'FORMAT': 0, 'N': 33}, thorough={'FORMAT': 0, 'N': 40}, reach=['end']),
    dict(h='log', entry='h_binary', name='binary_diag', quick={'FORMAT': 1, 'N': 33}, thorough={'FORMAT': 1, 'N': 40}, reach=['end']),
    dict(h='log', entry='h_binary', name='binary_test', quick={'FORMAT': 2, 'N': 33}, thorough={'FORMAT': 2, 'N': 40}, reach=['end']),
])
prop('T01', [
    dict(h='log', entry='h_date', quick={'DAYS': 106751, 'CHUNK': 40}, thorough={'DAYS': 800000}, reach=['leap day', 'end']),
    dict(h='log', entry='h_time', quick={'HOURS': 24}, reach=['end']),
    dict(h='log', entry='h_instant', reach=['end'], defs={'CHUNK': 97}),
    dict(h='log', entry='h_compare_ts', reach=['end']),
])
prop('A01', [
    dict(h='log', entry='h_ascii', reach=['end']),
    dict(h='log', entry='h_compare', quick={'N': 4}, thorough={'N': 7}, reach=['equal', 'different']),
])
prop('B01', [
    dict(h='log', entry='h_buffer', quick={'N': 4, 'K': 4}, thorough={'N': 5, 'K': 6}, reach=['full', 'moved', 'end']),
])
P = ['-DH_POOL']
prop('V01', [
    dict(h='vmem', entry='h_pages', defs={'M': 3}, quick={'K': 3, 'SLOTS': 3}, thorough={'K': 4, 'SLOTS': 3}, reach=['moved', 'end'], flags=P),
    dict(h='vmem', entry='h_replace', quick={'M': 3}, thorough={'M': 5}, reach=['end'], flags=P),
])
prop('V02', [
    dict(h='vmem', entry='h_alloc', defs={'M': 4}, quick={'K': 7}, thorough={'K': 9}, reach=['reopened', 'end'], flags=P),
    dict(h='vmem', entry='h_tight', defs={'M': 3}, reach=['tight', 'refused', 'end'], flags=P),
    dict(h='vmem', entry='h_tight', name='h_tight_4', defs={'M': 4}, reach=['tight', 'refused', 'end'], flags=P),
    dict(h='vmem', entry='h_alloc', name='h_alloc_min', defs={'M': 3}, quick={'K': 7}, thorough={'K': 9}, reach=['reopened', 'end'], flags=P),
])
prop('V04', [
    dict(h='vmem', entry='h_open', defs={'M': 3}, reach=['opened', 'refused', 'new'], flags=P),
    dict(h='vmem', entry='h_crash', defs={'M': 4}, reach=['full', 'end'], flags=P),
])
S = ['-DH_SEQ']
def seq(name, pad, q, t, **k): return dict(h='vmem', entry='h_seq', name=name, defs=dict({'M': 4, 'PAD': pad}, **k), quick=q, thorough=t, reach=['end'], flags=S)
prop('V05', [
    seq('list_cap3', 1298, {'K': 2, 'FILL': 7}, {'K': 3, 'FILL': 8}),
    seq('list_cap4', 998, {'K': 2, 'FILL': 9}, {'K': 3, 'FILL': 9}),
    seq('list_cap2', 1998, {'K': 3, 'FILL': 4}, {'K': 4, 'FILL': 6}),
    seq('list_cap1', 2998, {'K': 3, 'FILL': 3}, {'K': 4, 'FILL': 4}),
    seq('list_all_ops', 1298, {'K': 1, 'FILL': 7}, {'K': 2, 'FILL': 5}, OPS=7),
    seq('list_all_ops_cap1', 2998, {'K': 2, 'FILL': 3}, {'K': 3, 'FILL': 3}, OPS=7),
])
prop('V06', [
    dict(h='vmem', entry='h_stack', name='stack_cap3', defs={'M': 4, 'PAD': 1298}, quick={'K': 3, 'FILL': 7}, thorough={'K': 6, 'FILL': 8}, reach=['popped', 'reopened', 'temporary', 'end'], flags=['-DH_STACK']),
    dict(h='vmem', entry='h_stack', name='stack_cap1', defs={'M': 4, 'PAD': 2998}, quick={'K': 3, 'FILL': 3}, thorough={'K': 6, 'FILL': 4}, reach=['popped', 'reopened', 'temporary', 'end'], flags=['-DH_STACK']),
])
MP = ['-DH_MAP']
def mp(name, kpad, q, t, m=5, **k): return dict(h='vmem', entry='h_map', name=name, defs=dict({'M': m, 'KPAD': kpad, 'OPEN': 0}, **k), quick=q, thorough=t, reach=['inserted', 'erased', 'found', 'missed', 'end'], flags=MP, steps=8000000)
prop('V08', [
    mp('map_cap3', 1338, {'K': 1, 'FILL': 9, 'FILLED': 0, 'GONE': 2}, {'K': 2, 'FILL': 8, 'FILLED': 4, 'GONE': 2}),
    mp('map_cap2', 1998, {'K': 1, 'FILL': 7, 'FILLED': 5, 'GONE': 6}, {'K': 2, 'FILL': 8, 'FILLED': 6, 'GONE': 5}),
    mp('map_cap4', 998, {'K': 1, 'FILL': 17, 'FILLED': 16, 'GONE': 4}, {'K': 1, 'FILL': 24, 'FILLED': 10, 'GONE': 20}),
    mp('map_big_value', 1338, {'K': 1, 'FILL': 9, 'FILLED': 7, 'GONE': 4}, {'K': 2, 'FILL': 7, 'FILLED': 6, 'GONE': 3}, VPAD=2600),
    mp('map_two_ops', 1998, {'K': 2, 'FILL': 5, 'FILLED': 5, 'GONE': 1}, {'K': 3, 'FILL': 6, 'FILLED': 4, 'GONE': 2}, OPEN=1),
])
prop('V07', [
    dict(h='vmem', entry='h_linked', defs={'M': 4, 'FILL': 3}, quick={'K': 2}, thorough={'K': 3, 'FILL': 4}, reach=['erased', 'spliced', 'cleared', 'end'], flags=['-DH_LINKED']),
    dict(h='vmem', entry='h_linked', name='h_linked_min', defs={'M': 3, 'FILL': 3}, quick={'K': 2}, thorough={'K': 3, 'FILL': 3}, reach=['erased', 'spliced', 'cleared', 'end'], flags=['-DH_LINKED']),
])
def fs(name, pad, seq, ops, q, t, m=4): return dict(h='vmem', entry='h_fault', name=name, defs={'M': m, 'PAD': pad, 'SEQ': seq, 'STATE': seq + '_state', 'OPS': ops}, quick=q, thorough=t, reach=['full', 'unmapped', 'end'], flags=['-DH_FAULT'])
def fm(name, kpad, q, t, m=6): return dict(h='vmem', entry='h_map_fault', name=name, defs={'M': m, 'KPAD': kpad, 'OPEN': 0, 'GONE': 0, 'FAULTS': 16}, quick=q, thorough=t, reach=['full', 'unmapped', 'end'], flags=MP, steps=8000000)
prop('V11', [
    fs('fault_list_cap3', 1298, 'vmem_list', 1, {'FILL': 7}, {'FILL': 10}),
    fs('fault_list_cap3_min', 1298, 'vmem_list', 1, {'FILL': 7}, {'FILL': 10}, 3),
    fs('fault_list_cap1', 2998, 'vmem_list', 1, {'FILL': 3}, {'FILL': 5}, 3),
    fs('fault_stack', 1298, 'vmem_stack', 0, {'FILL': 7}, {'FILL': 10}, 3),
    dict(h='vmem', entry='h_string_full', defs={'M': 4}, quick={'K': 3}, thorough={'K': 5}, reach=['full', 'flushed later', 'end'], flags=['-DH_STRING'], steps=400000000),
    fm('fault_map_cap3', 1338, {'FILL': 9, 'FILLED': 0}, {'FILL': 14, 'FILLED': 0}),
    fm('fault_map_cap2', 1998, {'FILL': 9, 'FILLED': 5}, {'FILL': 12, 'FILLED': 0}),
])
prop('V09', [
    dict(h='vmem', entry='h_string', defs={'M': 4}, quick={'K': 4}, thorough={'K': 5}, reach=['end'], flags=['-DH_STRING'], steps=400000000),
])
prop('V10', [
    seq('half_full_cap3', 1298, {'K': 3, 'FILL': 7, 'FILLED': 7}, {'K': 4, 'FILL': 8, 'FILLED': 8}),
    seq('half_full_cap4', 998, {'K': 3, 'FILL': 8, 'FILLED': 8}, {'K': 4, 'FILL': 9, 'FILLED': 9}),
])
prop('S01', [
    dict(h='socket', entry='h_read', quick={'N': 5, 'K': 8}, thorough={'N': 8, 'K': 10}, reach=['moved', 'eof', 'end']),
    dict(h='socket', entry='h_write', quick={'K': 7}, thorough={'K': 9}, reach=['moved', 'flushed', 'failed', 'end']),
])
prop('S02', [
    dict(h='socket', entry='h_client', quick={'K': 4}, thorough={'K': 5}, reach=['tied', 'end']),
    dict(h='socket', entry='h_server', reach=['accepted', 'refused', 'end']),
    dict(h='socket', entry='h_datagram', reach=['end']),
])
prop('S03', [
    dict(h='socket', entry='h_tls_client', reach=['refused', 'not made', 'exchanged', 'end'], flags=['-DH_TLS']),
    dict(h='socket', entry='h_tls_server', reach=['refused', 'accepted', 'not made', 'exchanged', 'end'], flags=['-DH_TLS']),
])
def ep(entry, q=None, t=None, reach=['end'], **k): return dict(dict(h='endpoint', entry=entry, quick=q or {}, thorough=t or q or {}, reach=reach, shim=True, steps=4000000), **k)
prop('E01', [
    ep('h_paths', {'N': 5}, {'N': 7}, ['sent', 'refused', 'end']),
    ep('h_dots', None, None, ['sent', 'refused', 'end']),
])
prop('E02', [
    ep('h_files', None, None, ['sent', 'not found', 'not allowed', 'unreadable', 'end']),
    ep('h_types', None, None, ['known', 'unknown']),
    ep('h_rest'),
    ep('h_garbage', {'N': 5}, {'N': 7}, ['answered', 'end']),
    ep('h_long', None, None, ['sent', 'refused', 'end']),
])
prop('E03', [
    ep('h_shutdown', {'REQ': 3, 'SWITCHES': 1}, {'REQ': 3, 'SWITCHES': 2}, ['answered', 'refused', 'shut down', 'end']),
    ep('h_shutdown', {'REQ': 2, 'SWITCHES': 2}, {'REQ': 2, 'SWITCHES': 4}, ['answered', 'refused', 'shut down', 'end'], name='h_shutdown_2'),
])
prop('E04', [
    ep('h_accept', {'SWITCHES': 1}, {'SWITCHES': 3}),
])
def mf(kind, name, entry, q, t, reach, **k): return dict(h='multifile', entry=entry, name=name, defs=dict({'KIND': kind}, **k), quick=q, thorough=t, reach=reach, shim=True)
prop('L03', [
    mf(0, 'size', 'h_sequence', {'K': 4}, {'K': 5}, ['failing', 'failed', 'rotated', 'moved', 'end']),
    mf(0, 'size_big_buffer', 'h_sequence', {'K': 4}, {'K': 5}, ['failing', 'failed', 'rotated', 'moved', 'end'], ABC_FILEBUF=16),
    mf(1, 'duration', 'h_sequence', {'K': 3}, {'K': 4}, ['failing', 'failed', 'rotated', 'moved', 'end']),
    mf(2, 'plain', 'h_sequence', {'K': 4}, {'K': 5}, ['failing', 'rotated', 'moved', 'end']),
    mf(0, 'paths', 'h_paths', {}, {}, ['made', 'refused']),
])
def gp(entry, q=None, t=None, reach=['end'], **k): return dict(dict(h='gpio', entry=entry, quick=q or {}, thorough=t or q or {}, reach=reach, steps=4000000), **k)
prop('G01', [
    gp('h_open_bus', None, None, ['refused', 'made']),
    gp('h_transfers', {'K': 2}, {'K': 3}, ['failed', 'done', 'end']),
    gp('h_shared_bus', {'SWITCHES': 2}, {'SWITCHES': 4}),
])
prop('G02', [
    gp('h_frequency', {'CLOCK': 72000000}, None, ['made', 'refused']),
    gp('h_frequency', {'CLOCK': 10000}, None, ['made', 'refused'], name='h_frequency_low'),
    gp('h_widths', {'PAIRS': 2}, {'PAIRS': 4}),
    gp('h_motor'),
])
prop('G03', [
    gp('h_chip', None, None, ['refused', 'invalid', 'end']),
    gp('h_lines', None, None, ['refused', 'set', 'read', 'moved', 'end']),
    gp('h_expect', None, None, ['came', 'late', 'end']),
])
prop('G04', [
    gp('h_measure', None, None, ['failed', 'end']),
    gp('h_calibrate'),
    gp('h_values'),
    gp('h_scale', {'BLOCKS': 4, 'BITS': 6}, {'BLOCKS': 16, 'BITS': 8}, qtimeout=120000),
    gp('h_grayscale', None, None, ['failed', 'end']),
])
prop('G05', [
    gp('h_distance', None, None, ['measured', 'nothing', 'end']),
])
prop('G06', [
    gp('h_emulator_ends', {'SWITCHES': 2}, {'SWITCHES': 3}),
    gp('h_emulator_pulses', None, None, ['pulses', 'timed', 'end']),
    gp('h_emulator_refused', None, None, ['refused', 'end']),
])
prop('G07', [
    gp('h_tracker', {'K': 3, 'SWITCHES': 1}, {'K': 4, 'SWITCHES': 2}, ['running', 'stopped', 'end']),
    gp('h_tracker_path', {'K': 4}, {'K': 20}),
    gp('h_tracker_refused', None, None, ['refused', 'end']),
])
def gm(entry, name, q=None, t=None, reach=['end'], c4=False, **k): return dict(h='games', entry=entry, name=name, quick=q or {}, thorough=t or q or {}, reach=reach, shim=True, steps=4000000, defs=dict(k, **({'CONNECT4': 1} if c4 else {})))
prop('X01', [
    gm('h_position', 'ttt_position', reach=['end', 'refused', 'over']),
    gm('h_position', 'c4_position', c4=True, reach=['end', 'win']),
    gm('h_game', 'ttt_game', {'K': 3}, {'K': 4}, ['end', 'accepted', 'refused']),
    gm('h_game', 'ttt_game_late', {'K': 3}, {'K': 4}, ['end', 'accepted', 'refused'], FIRST=4),
    gm('h_game', 'c4_game', {'K': 2}, {'K': 3}, ['end', 'accepted', 'refused'], c4=True),
    gm('h_game', 'c4_game_late', {'K': 2}, {'K': 3}, ['end', 'accepted', 'refused'], c4=True, FIRST=4),
])
prop('X02', [
    gm('h_engine', 'ttt_engine', {'EMPTY': 3}, {'EMPTY': 4}, reach=['end', 'unknown', 'best'], ENGINE=1),
    gm('h_engine', 'c4_engine', {'EMPTY': 3}, {'EMPTY': 4}, reach=['end', 'unknown', 'best'], c4=True, ENGINE=1),
    gm('h_learn', 'ttt_learn', ENGINE=1),
    gm('h_learn', 'c4_learn', c4=True, ENGINE=1),
    gm('h_slow', 'ttt_slow', ENGINE=1),
    gm('h_slow', 'c4_slow', c4=True, ENGINE=1),
])

def gr(entry, name, q=None, t=None, reach=['end'], c4=False, **k): return dict(gm(entry, name, q, t, reach, c4, **k), h='games_rest', steps=40000000)
prop('X03', [
    gr('h_play', 'ttt_play', {'K': 4}, {'K': 5}, ['end', 'claimed twice', 'moved', 'refused', 'listed']),
    gr('h_play', 'ttt_play_engine', {'K': 2, 'SWITCHES': 1}, {'K': 3, 'SWITCHES': 1}, ['end', 'claimed', 'moved', 'engine'], ENGINE_O=1, FIRST=1),
    gr('h_play', 'c4_play', {'K': 3}, {'K': 4}, ['end', 'claimed twice', 'moved', 'refused', 'listed'], c4=True),
    gr('h_play', 'c4_play_engine', {'K': 2, 'SWITCHES': 1}, {'K': 3, 'SWITCHES': 1}, ['end', 'claimed', 'moved', 'engine'], c4=True, ENGINE_O=1, FIRST=1),
    gr('h_errors', 'ttt_errors', None, None, ['end', 'full', 'moved']),
    gr('h_errors', 'c4_errors', None, None, ['end', 'moved'], c4=True),
    gr('h_create', 'ttt_create', None, None, ['end', 'made', 'refused']),
    gr('h_create', 'c4_create', None, None, ['end', 'made', 'refused'], c4=True),
    gr('h_garbage', 'ttt_garbage', {'N': 4}, {'N': 6}),
    gr('h_garbage', 'c4_garbage', {'N': 3}, {'N': 5}, c4=True),
])

def eq(entry, q=None, t=None, reach=['end'], **k): return dict(h='equations', entry=entry, quick=q or {}, thorough=t or q or {}, reach=reach, shim=True, steps=4000000, qtimeout=240000, defs=k)
prop('X04', [
    eq('h_solve', {'VALUES': 3}, {'VALUES': 4}, ['one', 'none', 'many']),
    eq('h_numbers', {'BITS': 1}, {'BITS': 3}, ['solved', 'refused']),
    eq('h_errors', None, None, ['solved', 'refused']),
    eq('h_garbage', {'N': 5}, {'N': 7}),
])
def cr(entry, q=None, t=None, reach=['end'], **k): return dict(h='car', entry=entry, quick=q or {}, thorough=t or q or {}, reach=reach, shim=True, steps=40000000, **k)
prop('X05', [
    cr('h_drive', {'K': 2, 'ROUNDS': 1}, {'K': 2, 'ROUNDS': 1, 'AFTER': 1}, ['end', 'power', 'turn', 'limited']),
    cr('h_drive', {'K': 1, 'ROUNDS': 2}, {'K': 1, 'ROUNDS': 3}, ['end', 'power', 'turn', 'limited'], name='h_rounds'),
    cr('h_number', {'BITS': 10}, {'BITS': 20}, ['accepted', 'refused']),
    cr('h_errors', None, None, ['end', 'accepted', 'refused']),
    cr('h_garbage', {'N': 2}, {'N': 4}),
    cr('h_several', {'SWITCHES': 2}, {'SWITCHES': 2, 'ORDER': 0}, ['end', 'limited']),
    cr('h_end', {'SWITCHES': 1}, {'SWITCHES': 1, 'ORDER': 0}, ['end', 'limited']),
])

prop('T02', [
    dict(h='testfw', entry='h_suite', quick={'METHODS': 2}, thorough={'METHODS': 3}, reach=['passed', 'failed', 'thrown', 'drawn'], steps=4000000),
    dict(h='testfw', entry='h_values', quick={'N': 4}, thorough={'N': 6}, reach=['equal', 'different'], steps=4000000),
    dict(h='testfw', entry='h_blobs', quick={'LONGEST': 33}, thorough={'LONGEST': 65}, reach=['equal', 'different'], steps=4000000),
])

NA = {}
