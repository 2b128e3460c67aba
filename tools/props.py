PROPS = {}
U = ['uri', 'error']
def R(harness, entry, tus, **k):
    return dict(harness=harness, entry=entry, tus=tus, **k)
PROPS['C15'] = dict(runs=[
    R('uri', 'h_uri_parse', U, opts=dict(len=4), thorough=dict(len=6), reach=['accepted', 'rejected'], samples=12),
    R('uri', 'h_uri_compose', U, opts=dict(len=1), thorough=dict(len=2), reach=['accepted', 'rejected'], samples=12)])
PROPS['C16'] = dict(runs=[
    R('uri', 'h_resolve_path', U, opts=dict(lb=3, lr=4), thorough=dict(lb=5, lr=6), reach=['resolved'], samples=12),
    R('uri', 'h_resolve_any', U, opts=dict(lb=3, lr=2), thorough=dict(lb=4, lr=4), reach=['resolved', 'not absolute'], samples=12),
    R('uri', 'h_resolve_parts', U, reach=['resolved', 'not absolute'], samples=12)])
PROPS['C17'] = dict(runs=[
    R('uri', 'h_percent_encode', U, opts=dict(len=3, exc=1), thorough=dict(len=4, exc=2), reach=['end'], samples=12),
    R('uri', 'h_percent_decode', U, opts=dict(len=4), thorough=dict(len=7), reach=['malformed', 'decoded'], samples=12),
    R('uri', 'h_percent_uri', U, opts=dict(len=1), thorough=dict(len=2), reach=['end'], samples=12),
    R('uri', 'h_file_uri', U, opts=dict(len=2), thorough=dict(len=4), reach=['end'], samples=12),
    R('uri', 'h_file_uri_accept', U, reach=['rejected', 'converted'], samples=12)])

TH = dict(sched=1, san=['none', 'thread'], native_extra=['sched'], no_validate=1)
X = ['execution', 'algorithm/fixed_step_algorithm', 'slave_simulator', 'timer', 'error', 'exception', 'log/logger', 'model_description', 'system_structure', 'function/utility', 'utility/utility']
PROPS['C01'] = dict(threads=1, runs=[
    R('exec', 'h_schedule', X, opts=dict(sims=2, steps=5, maxf=3), thorough=dict(sims=3, steps=9, maxf=4), reach=['end'], samples=6),
    R('exec', 'h_schedule_threads', X, opts=dict(sims=2, steps=2, workers=2), thorough=dict(sims=3, steps=2, workers=2), args=['--preempt', '2'], targs=['--preempt', '2'], reach=['end'], **TH),
    R('exec', 'h_schedule_h', X, opts=dict(steps=4, maxf=3, hmax=1 << 24), thorough=dict(steps=8, maxf=6, hmax=1 << 40), reach=['end'], samples=6)])
PROPS['C02'] = dict(runs=[
    R('exec', 'h_transfer', X, opts=dict(steps=6, maxf=3), thorough=dict(steps=12, maxf=4), reach=['end'], samples=6),
    R('exec', 'h_transfer_function', X, opts=dict(steps=6, maxf=3), thorough=dict(steps=12, maxf=4), reach=['end'], samples=6),
    R('exec', 'h_transfer_chain', X, opts=dict(chain=3), thorough=dict(chain=5), reach=['end'], samples=6)])
PROPS['C03'] = dict(runs=[
    R('exec', 'h_connect', X, reach=['accepted', 'rejected'], samples=6),
    R('exec', 'h_connect_twice', X, opts=dict(connections=3), thorough=dict(connections=4), reach=['end'], samples=6),
    R('exec', 'h_connect_function', X, reach=['accepted', 'rejected'], samples=6)])
PROPS['C04'] = dict(runs=[
    R('exec', 'h_notify', X, opts=dict(sims=2, steps=2), thorough=dict(sims=3, steps=3), reach=['end', 'failed'], samples=6)])
PROPS['C05'] = dict(threads=1, runs=[
    R('exec', 'h_until', X, opts=dict(steps=3), thorough=dict(steps=6), reach=['threw', 'stopped', 'completed', 'again'], samples=6),
    R('exec', 'h_until_async', X, opts=dict(steps=2), thorough=dict(steps=3), args=['--preempt', '2'], targs=['--preempt', '3'], reach=['end'], **TH)])
PROPS['C08'] = dict(threads=1, runs=[
    R('exec', 'h_lifecycle', X, opts=dict(sims=2, steps=2), thorough=dict(sims=3, steps=3), reach=['failed', 'fine'], samples=6),
    R('exec', 'h_lifecycle', X, name='h_lifecycle_threads', opts=dict(sims=2, steps=1, workers=1), thorough=dict(sims=2, steps=2, workers=2), args=['--preempt', '2'], targs=['--preempt', '1'], reach=['failed', 'fine'], **TH)])
PROPS['C25'] = dict(threads=1, runs=[
    R('pool', 'h_pool', ['error'], opts=dict(threads=2, tasks=3), thorough=dict(threads=3, tasks=3), args=['--preempt', '2'], targs=['--preempt', '2'], reach=['waited', 'end'], **TH),
    R('pool', 'h_pool_reuse', ['error'], opts=dict(threads=2, rounds=2), thorough=dict(threads=2, rounds=3), args=['--preempt', '2'], targs=['--preempt', '3'], reach=['end'], **TH),
    R('pool', 'h_pool_waiters', ['error'], args=['--preempt', '2'], targs=['--preempt', '3'], reach=['end'], **TH)])
F = ['utility/concurrency', 'utility/filesystem', 'utility/uuid', 'file_cache', 'uri', 'error', 'log/logger']
PROPS['C23'] = dict(threads=1, runs=[
    R('lock', 'h_cache_temp', F, opts=dict(ops=6, keys=0), thorough=dict(ops=9, keys=0), reach=['rw granted', 'rw refused', 'ro granted', 'ro refused', 'end'], samples=6),
    R('lock', 'h_cache_temp', F, name='h_cache_temp_keys', opts=dict(ops=3), thorough=dict(ops=4), reach=['rw granted', 'rw refused', 'ro granted', 'ro refused', 'end'], samples=6),
    R('lock', 'h_cache_persistent', F, opts=dict(ops=3), thorough=dict(ops=4), reach=['ro granted', 'ro refused', 'cleaned', 'end'], samples=6),
    R('lock', 'h_cache_persistent', F, name='h_cache_persistent_plain', opts=dict(ops=4, keys=0), thorough=dict(ops=6, keys=0), reach=['ro granted', 'ro refused', 'cleaned', 'end'], samples=6),
    R('lock', 'h_cache_threads', F, opts=dict(threads=1), thorough=dict(threads=2), args=['--preempt', '2'], targs=['--preempt', '2'], reach=['end'], **TH)])
PROPS['C24'] = dict(threads=1, runs=[
    R('lock', 'h_lock_ops', F, opts=dict(ops=4, objects=3), thorough=dict(ops=6, objects=3), reach=['try succeeded', 'try failed', 'end'], samples=6),
    R('lock', 'h_lock_threads', F, opts=dict(threads=1), thorough=dict(threads=2), args=['--preempt', '2'], targs=['--preempt', '2'], reach=['end'], **TH),
    R('lock', 'h_lock_one_object', F, args=['--preempt', '20'], reach=['end'], **TH)])
PROPS['C06'] = dict(runs=[
    R('slavesim', 'h_set_cache', X, opts=dict(ops=4), thorough=dict(ops=6), reach=['delivered in a step', 'delivered in an iteration', 'end'], samples=6),
    R('slavesim', 'h_get_cache', X, opts=dict(ops=4), thorough=dict(ops=6), reach=['read', 'end'], samples=6)])
PROPS['C07'] = dict(runs=[
    R('slavesim', 'h_modifiers', X, opts=dict(ops=4), thorough=dict(ops=6), reach=['step', 'iteration', 'end'], samples=6)])
M = X + ['manipulator/override_manipulator', 'manipulator/scenario_manager', 'scenario_parser']
PROPS['C09'] = dict(threads=1, runs=[
    R('manip', 'h_override', M, opts=dict(steps=3, ops=2), thorough=dict(steps=4, ops=2), reach=['input overridden', 'output overridden', 'end'], samples=6),
    R('manip', 'h_override_threads', M, args=['--preempt', '6'], targs=['--preempt', '20'], reach=['end'], **TH)])
PROPS['C10'] = dict(runs=[
    R('manip', 'h_scenario', M, opts=dict(events=3, steps=3), thorough=dict(events=4, steps=5), reach=['due', 'several due', 'finished', 'aborted', 'aborted afterwards', 'end'], samples=6),
    R('manip', 'h_scenario_execution', M, opts=dict(steps=4), thorough=dict(steps=7), reach=['finished', 'end'], samples=6)])
PROPS['C11'] = dict(runs=[
    R('manip', 'h_parse_event', M + F, reach=['accepted', 'rejected'], samples=12),
    R('manip', 'h_parse_events', M + F, opts=dict(events=2), thorough=dict(events=3), reach=['end'], samples=12)])
O = X + ['observer/time_series_observer', 'observer/last_value_observer', 'observer/slave_value_provider', 'observer/file_observer']
PROPS['C12'] = dict(threads=1, runs=[
    R('obs', 'h_samples', O, opts=dict(ops=3, buffer=2, number=2), thorough=dict(ops=5, buffer=3, number=3), reach=['no samples', 'none', 'some', 'all', 'synchronised', 'end'], samples=6),
    R('obs', 'h_step_numbers', O, opts=dict(steps=3), thorough=dict(steps=5), reach=['end'], samples=6),
    R('obs', 'h_samples_threads', O, args=['--preempt', '6'], targs=['--preempt', '20'], reach=['end'], **TH)])
PROPS['C13'] = dict(threads=1, runs=[
    R('obs', 'h_last_value', O, opts=dict(steps=3, maxf=2), thorough=dict(steps=6, maxf=3), reach=['in the middle of a step', 'end'], samples=6),
    R('obs', 'h_last_value_threads', O, args=['--preempt', '6'], targs=['--preempt', '20'], reach=['end'], **TH)])
PROPS['C14'] = dict(threads=1, runs=[
    R('obs', 'h_file_rows', O, opts=dict(steps=4, maxf=2, maxd=2), thorough=dict(steps=6, maxf=3, maxd=3), reach=['stopped', 'restarted', 'end'], samples=6),
    R('obs', 'h_file_config', O, reach=['unknown variable', 'end'], samples=12),
    R('obs', 'h_file_threads', O, args=['--preempt', '6'], targs=['--preempt', '20'], reach=['end'], **TH)])
FN = X + ['function/linear_transformation', 'function/vector_sum']
PROPS['C18'] = dict(runs=[
    R('func', 'h_linear', FN, opts=dict(ops=4), thorough=dict(ops=7), reach=['valid reference', 'invalid reference', 'end'], samples=6),
    R('func', 'h_vector_sum_real', FN, opts=dict(ops=3, inputs=3, dimension=2), thorough=dict(ops=4, inputs=4, dimension=3), reach=['valid reference', 'invalid reference', 'end'], samples=6),
    R('func', 'h_vector_sum_integer', FN, opts=dict(ops=3, inputs=3, dimension=2), thorough=dict(ops=4, inputs=4, dimension=3), reach=['valid reference', 'invalid reference', 'end'], samples=6),
    R('func', 'h_functions_run', FN, opts=dict(steps=3), thorough=dict(steps=6), reach=['end'], samples=6)])
PROPS['C19'] = dict(runs=[
    R('func', 'h_get_parameter', FN, reach=['accepted', 'rejected', 'end'], samples=6),
    R('func', 'h_substitute', FN, reach=['added', 'refused', 'substituted', 'error'], samples=6),
    R('func', 'h_instantiate', FN, reach=['instantiated', 'refused', 'in a system'], samples=6)])
PROPS['C20'] = dict(runs=[
    R('sys', 'h_connection_rule', FN, reach=['accepted', 'refused'], samples=6),
    R('sys', 'h_edits', FN, opts=dict(edits=2), thorough=dict(edits=3), reach=['added', 'not added', 'connected', 'not connected', 'end'], samples=6)])
PROPS['C21'] = dict(runs=[
    R('sys', 'h_initial_values', FN, opts=dict(values=3), thorough=dict(values=4), reach=['accepted', 'rejected', 'end'], samples=6)])
PROPS['C22'] = dict(runs=[
    R('sys', 'h_inject', FN, reach=['with functions', 'without functions'], samples=6),
    R('sys', 'h_inject_values', FN, reach=['refused', 'end'], samples=6)])
Z = ['utility/zip', 'error', 'exception']
PROPS['C26'] = dict(runs=[
    R('zip', 'h_extract_all', Z, opts=dict(entries=2, components=3, components2=2), thorough=dict(entries=2, components=4, components2=3), reach=['extracted', 'rejected', 'unsure'], samples=6),
    R('zip', 'h_extract_faults', Z, opts=dict(bytes=4), thorough=dict(bytes=7), reach=['extracted', 'disk full', 'read failed', 'failed'], samples=6),
    R('zip', 'h_entries', Z, reach=['missing', 'found', 'not found', 'end'], samples=6)])
T = ['timer']
PROPS['C27'] = dict(runs=[
    R('timer', 'h_pace', T, opts=dict(steps=2), thorough=dict(steps=3, bits=26), reach=['slept', 'did not sleep', 'restarted', 'end'], samples=6, native_extra=['clock']),
    R('timer', 'h_metrics', T, opts=dict(steps=5), thorough=dict(steps=8), reach=['sampled', 'window', 'end'], samples=6, native_extra=['clock']),
    R('timer', 'h_metrics', T, opts=dict(steps=4, wall=1), thorough=dict(steps=6), reach=['sampled', 'window', 'end'], samples=6, native_extra=['clock'], name='h_metrics_wall', seconds=150),
    R('timer', 'h_pace_execution', X, opts=dict(steps=2, bits=28), thorough=dict(steps=3, bits=26), reach=['slept', 'did not sleep'], samples=6, native_extra=['clock'])])
PROPS['C28'] = dict(runs=[
    R('timeconv', 'h_roundtrip', [], reach=['end'], samples=12),
    R('timeconv', 'h_whole', [], reach=['end'], samples=12),
    R('timeconv', 'h_seconds', [], reach=['end'], samples=12),
    R('timeconv', 'h_steps', [], opts=dict(steps=2), thorough=dict(steps=4), reach=['end'], samples=12),
    R('timeconv', 'h_tick_steps', [], reach=['end'], samples=12)])
PROPS['C29'] = dict(runs=[
    R('tempdir', 'h_temp_dir', ['utility/filesystem', 'utility/uuid'], opts=dict(ops=4, objects=3), thorough=dict(ops=6, objects=3), reach=['failed', 'gone before', 'end'], samples=6)])
PROPS['C30'] = dict(runs=[
    R('resolver', 'h_resolvers', X + F + ['orchestration'], opts=dict(resolvers=2), thorough=dict(resolvers=3), reach=['relative', 'unknown', 'failed', 'found'], samples=6),
    R('resolver', 'h_fmu_files', X + F + ['orchestration'], opts=dict(len=2), thorough=dict(len=3), reach=['not a file', 'bad file', 'model'], samples=6),
    R('resolver', 'h_fmu_escaped', X + F + ['orchestration'], reach=['model'], samples=6)])
C = X + F + ['orchestration', 'ssp/ssp_parser', 'ssp/ssp_loader', 'utility/zip', 'function/linear_transformation']
PROPS['C32'] = dict(config=1, runs=[
    R('ssp', 'h_ssp_structure', C, opts=dict(connections=2), thorough=dict(full=1), reach=['rejected', 'loaded', 'transformed'], samples=6),
    R('ssp', 'h_ssp_settings', C, reach=['rejected', 'loaded', 'algorithm'], samples=6),
    R('ssp', 'h_ssp_parameters', C, opts=dict(parameters=2), reach=['rejected', 'loaded'], samples=6),
    R('ssp', 'h_ssp_malformed', C, reach=['rejected', 'loaded'], samples=6),
    R('ssp', 'h_ssp_archive', C, reach=['rejected', 'loaded'], samples=6)])
OC = X + F + ['orchestration', 'osp_config_parser', 'function/linear_transformation', 'function/vector_sum']
PROPS['C31'] = dict(config=1, runs=[
    R('osp', 'h_osp_structure', OC, opts=dict(connections=2, values=2), reach=['rejected', 'loaded', 'connected'], samples=6),
    R('osp', 'h_osp_settings', OC, reach=['rejected', 'loaded'], samples=6),
    R('osp', 'h_osp_functions', OC, reach=['rejected', 'loaded', 'several targets'], samples=6),
    R('osp', 'h_osp_groups', OC, reach=['rejected', 'loaded', 'nested'], samples=6),
    R('osp', 'h_osp_places', OC, reach=['rejected', 'loaded'], samples=6),
    R('osp', 'h_osp_vectors', OC, reach=['rejected', 'loaded', 'several targets'], samples=6),
    R('osp', 'h_osp_malformed', OC, reach=['rejected', 'loaded'], samples=6)])
FM = ['fmi/glue', 'fmi/importer', 'fmi/v1/fmu', 'fmi/v2/fmu', 'utility/zip', 'utility/filesystem', 'utility/uuid', 'error', 'exception', 'log/logger', 'file_cache', 'utility/concurrency']
PROPS['C33'] = dict(**{'with': ('fmi/',)}, runs=[
    R('fmi', 'h_fmi_life', FM, opts=dict(steps=2), thorough=dict(steps=3), reach=['setup failed', 'start failed', 'discarded', 'end'], samples=6),
    R('fmi', 'h_fmi_values', FM, opts=dict(n=3), thorough=dict(n=4), reach=['refused', 'discarded', 'read'], samples=6),
    R('fmi', 'h_fmi_instances', FM, opts=dict(ops=5), thorough=dict(ops=7), reach=['made', 'singleton', 'end'], samples=6),
    R('fmi', 'h_fmi_description', FM, reach=['bad file', 'unsupported', 'described'], samples=6)])
PROPS['C34'] = dict(**{'with': ('fmi/',)}, runs=[
    R('fmi', 'h_fmu_import', FM, opts=dict(ops=3), thorough=dict(ops=4), reach=['imported', 'shared', 'failed', 'interrupted', 'end'], samples=6),
    R('fmi', 'h_fmu_header', FM, reach=['unsupported', 'bad file', 'loaded'], samples=6)])
PX = ['proxy/remote_fmu', 'proxy/remote_slave', 'proxy/proxy_uri_sub_resolver', 'orchestration', 'uri', 'error', 'exception', 'utility/filesystem', 'utility/uuid', 'log/logger', 'file_cache', 'utility/concurrency']
PROPS['C35'] = dict(**{'with': ('proxy/',)}, runs=[
    R('proxy', 'h_proxy_life', PX, opts=dict(steps=2), thorough=dict(steps=4), reach=['end'], samples=6),
    R('proxy', 'h_proxy_values', PX, opts=dict(n=3), thorough=dict(n=4), reach=['refused', 'end'], samples=6),
    R('proxy', 'h_proxy_description', PX, reach=['unsupported', 'described'], samples=6),
    R('proxy', 'h_proxy_uri', PX, reach=['bad host', 'no query', 'bad file', 'found'], samples=6)])
from docs import DOCS
for _i, (_o, _q, _t, _x) in DOCS.items():
    PROPS[_i].update(bounds="oracle: %s quick: %s. thorough: %s." % (_o, _q, _t), outside=_x)
NOT_APPLICABLE = {}
