"""Registry: which harness entries decide which property, within which bounds."""
import bounds

LEVEL = 'other'
EXPL = ('Bounded symbolic execution: the LLVM IR of the listed functions, compiled from the current working tree, is executed with symbolic inputs; every '
        'feasible path within the bounds is enumerated by solver queries and each assertion is discharged for all input values of its path, by '
        'simplification to an identical expression, by z3 on a sound linear abstraction of IEEE arithmetic, or by cvc5/z3 on bit-precise or '
        'rounding-axiom encodings. Counterexamples are replayed against the real code with the real libraries.')
ASSUME = ['clang -O1 IR and the g++ -O1 build agree (checked on replayed witnesses)', 'protobuf, absl, zlib and iostreams behave like the shim models in /verif/shim']
TECH = 'bounded symbolic execution of the compiled code, discharged by SMT (z3, cvc5)'
NOTE = ('Within the stated bounds every path of the harness is explored symbolically and every assertion is discharged by a solver for all values on that path; what a run '
        'left undecided or discharged only in narrowed float precision is listed in its evidence and is not claimed. Trusts: clang -O1 IR = g++ build (compared on replayed '
        'witnesses), the library shims, the executor.')
NA = {}
ACC = 'account.cc'
C = {}


def unit(h, *entries, **kw):
    d = dict(harness=h, entries=list(entries))
    d.update(kw)
    return d


SHORT = [[('fp', 'cvc5', None, 3), ('fpn', 'z3', 4, 4), ('exact', 'z3', None, 3)]]


def acc(pid, *entries, **kw):
    C[pid] = dict(units=[unit(ACC, *entries, ecfg=kw.pop('ecfg', {}))], native_spec=dict(native=['base/account.cc'], protos=['base/base.proto']), **kw)


acc('C01', 'c01_reject', 'c01_methods')
acc('C02', 'c02_core', 'c02_nonneg')
acc('C03', 'c03_buy', 'c03_sell')
acc('C04', 'c04_fee', 'c04_schedule')
acc('C05', 'c05_price', 'c05_fill')
acc('C06', 'c06_trigger')
acc('C07', 'c07_limit', 'c07_cap', ecfg=dict(c07_cap=dict(lin_s=4, plan=SHORT)))
acc('C08', 'c08_formula', 'c08_spend', 'c08_receive', ecfg=dict(c08_spend=dict(lin_s=4, plan=SHORT), c08_receive=dict(lin_s=4, plan=SHORT)))
acc('C09', 'c09_kind', 'c09_init')
acc('C10', 'c10_grid', 'c10_core', 'c10_nounit')


def hist(pid, *entries, **kw):
    C[pid] = dict(units=[unit('history.cc', *entries, defs=kw.pop('defs', {}), tdefs=kw.pop('tdefs', {}), ecfg=kw.pop('ecfg', {}))],
                  native_spec=dict(native=['base/history.cc', 'base/side_input.cc'], protos=['base/base.proto']), **kw)


hist('C21', 'c21_lookup', defs=dict(N_SIDE=10), tdefs=dict(N_SIDE=20))
hist('C22', 'c22_price', 'c22_ohlc', 'c22_side', defs=dict(N_SUB=5), tdefs=dict(N_SUB=9))
hist('C23', 'c23_grid', 'c23_long', defs=dict(N_RES=4), tdefs=dict(N_RES=6, GAP=4, LONG_GAP=64))
hist('C24', 'c24_summary', defs=dict(N_RES=4), tdefs=dict(N_RES=6, GAP=4))
hist('C25', 'c25_any', 'c25_lookahead', tdefs=dict(N_OUT=5, N_LOOK=4))
hist('C26', 'c26_gaps', tdefs=dict(N_GAPS=6))
hist('C27', 'c27_context')


def ind(pid, *entries, **kw):
    C[pid] = dict(units=[unit('indicators.cc', *entries, defs=kw.pop('defs', {}), tdefs=kw.pop('tdefs', {}), ecfg=kw.pop('ecfg', {}))],
                  native_spec=dict(native=['indicators/%s.cc' % x for x in (
                      'util', 'last_n_ohlc_ticks', 'simple_moving_average', 'exponential_moving_average', 'moving_average_convergence_divergence',
                      'relative_strength_index', 'stochastic_oscillator', 'volatility')], protos=['base/base.proto']), **kw)


ind('C28', 'c28_window', 'c28_long')
ind('C29', 'c29_sma', 'c29_long')
ind('C30', 'c30_ema', 'c30_macd')
ind('C31', 'c31_core', 'c31_rsi', defs=dict(N_UPD=2))
ind('C32', 'c32_core', 'c32_so', defs=dict(N_UPD=2))
ind('C33', 'c33_minmax', 'c33_long')
ind('C34', 'c34_meanvar', tdefs=dict(REL_TOL=1))
ind('C35', 'c35_volatility')
ind('C36', 'c36_split', defs=dict(N_SPLIT=2))


EXEC = '_ZN6trader7Account12ExecuteOrderERKNS_13AccountConfigERKNS_5OrderERKNS_8OhlcTickE'
ADDM = '_ZN6trader23AddMonthsToTimestampSecEli'


def ev(pid, *entries, **kw):
    stubs = kw.pop('stubs', {EXEC: 'vp_exec'})
    C[pid] = dict(units=[unit('eval.cc', *entries, defs=kw.pop('defs', {}), tdefs=kw.pop('tdefs', {}), ecfg=kw.pop('ecfg', {}), cfg=dict(stubs=stubs))],
                  native_spec=dict(native=['eval/eval.cc', 'base/account.cc', 'base/side_input.cc', 'base/history.cc', 'util/time.cc', 'indicators/util.cc',
                                           'indicators/last_n_ohlc_ticks.cc', 'indicators/volatility.cc'], protos=['base/base.proto', 'eval/eval.proto'],
                                   wrap=stubs, **kw.pop('nat', {})), **kw)


ev('C11', 'c11_steps', 'c11_many')
ev('C12', 'c12_once', 'c12_many')
ev('C13', 'c13_core', 'c13_result', 'c13_many')
ev('C14', 'c14_side')
ev('C15', 'c15_modes')
ev('C16', 'c16_log', 'c16_many')
ev('C55', 'c55_days', 'c55_volatility')
ev('C17', 'c17_windows', 'c17_long', defs=dict(N_PER=2), tdefs=dict(N_PER=3))
ev('C18', 'c18_scores')
ev('C19', 'c19_batch', 'c19_many', defs=dict(N_BATCH=2), tdefs=dict(N_BATCH=3, N_PREEMPT=2), stubs={EXEC: 'vp_exec_fun'}, nat=dict(fut=True))
ev('C20', 'c20_end', 'c20_negative', stubs={EXEC: 'vp_exec', ADDM: 'vp_add_months'})


def trd(pid, *entries, **kw):
    C[pid] = dict(units=[unit('traders.cc', *entries, defs=kw.pop('defs', {}), tdefs=kw.pop('tdefs', {}), ecfg=kw.pop('ecfg', {}))],
                  native_spec=dict(native=['traders/rebalancing_trader.cc', 'traders/stop_trader.cc', 'traders/trader_factory.cc'],
                                   protos=['base/base.proto', 'traders/trader_config.proto']), **kw)


trd('C37', 'c37_core', 'c37_market')
trd('C38', 'c38_core', 'c38_limit')
trd('C39', 'c39_core', 'c39_rebalancing', 'c39_stop')
trd('C40', 'c40_stop', 'c40_half')
trd('C41', 'c41_trail')
trd('C42', 'c42_rebalancing', 'c42_stop', 'c42_factory', defs=dict(N_LIST=2), tdefs=dict(N_LIST=3))

trd('C54', 'c54_rebalancing', 'c54_stop')


def one(pid, h, native, protos, *entries, **kw):
    stubs = kw.pop('stubs', {})
    nwrap = dict(stubs, **kw.pop('nwrap', {}))
    C[pid] = dict(units=[unit(h, *entries, defs=kw.pop('defs', {}), tdefs=kw.pop('tdefs', {}), ecfg=kw.pop('ecfg', {}), cfg=dict(stubs=stubs))],
                  native_spec=dict(native=native, protos=protos, wrap=nwrap), **kw)


one('C43', 'log.cc', ['logging/csv_logger.cc'], ['base/base.proto'], 'c43_csv', defs=dict(N_ROWS=2), tdefs=dict(N_ROWS=3))

CONV = ['base/history.cc', 'util/time.cc']
one('C44', 'import.cc', CONV, ['base/base.proto'], 'c44_price', 'c44_ohlc', 'c44_side', 'c44_missing', 'c44_long', defs=dict(N_ROWS=2), tdefs=dict(N_ROWS=3, N_LONG=7))
one('C45', 'import.cc', CONV, ['base/base.proto'], 'c45_price', 'c45_ohlc', 'c45_long', defs=dict(N_ROWS=2), tdefs=dict(N_ROWS=3, N_LONG=7))
one('C52', 'import.cc', CONV, ['base/base.proto'], 'c52_gaps', 'c52_outliers', defs=dict(N_ROWS=2), tdefs=dict(N_ROWS=3))
SER = '_ZN6google8protobuf4util34SerializeDelimitedToZeroCopyStreamERKNS0_11MessageLiteEPNS0_2io20ZeroCopyOutputStreamE'
one('C46', 'stream.cc', ['util/time.cc'], ['base/base.proto'], 'c46_read', 'c46_collect', 'c46_cut', 'c46_write', 'c46_open', 'c46_long', nwrap={SER: 'vp_serialize'},
    defs=dict(N_MSG=2), tdefs=dict(N_MSG=3))
one('C49', 'stream.cc', ['util/time.cc'], ['base/base.proto'], 'c49_price', 'c49_ohlc', 'c49_side', 'c49_long', nwrap={SER: 'vp_serialize'}, defs=dict(N_MSG=2), tdefs=dict(N_MSG=3))
one('C47', 'time.cc', ['util/time.cc'], [], 'c47_month', 'c47_steps', 'c47_carry', 'c47_seconds')
one('C48', 'time.cc', ['util/time.cc'], [], 'c48_forms', 'c48_days', 'c48_refuse', 'c48_print')
one('C50', 'tool_convert.cc', ['base/history.cc', 'util/time.cc'], ['base/base.proto'], 'c50_price', 'c50_ohlc', 'c50_side', 'c50_refuse',
    defs=dict(N_ROWS=2), tdefs=dict(N_ROWS=3))
EVT = '_ZN6trader14EvaluateTraderERKNS_13AccountConfigERKNS_16EvaluationConfigERKSt6vectorINS_8OhlcTickESaIS7_EEPKNS_9SideInputERKNS_13TraderEmitterEPNS_6LoggerE'
EVB = ('_ZN6trader22EvaluateBatchOfTradersERKNS_13AccountConfigERKNS_16EvaluationConfigERKSt6vectorINS_8OhlcTickESaIS7_EEPKNS_9SideInputE'
       'RKS6_ISt10unique_ptrINS_13TraderEmitterESt14default_deleteISG_EESaISJ_EE')
one('C51', 'tool_trader.cc', sorted(['base/history.cc', 'util/time.cc', 'base/side_input.cc', 'logging/csv_logger.cc', 'traders/rebalancing_trader.cc', 'traders/stop_trader.cc',
                              'traders/trader_factory.cc']), ['base/base.proto', 'eval/eval.proto', 'traders/trader_config.proto'],
    'c51_single', 'c51_side', 'c51_batch', 'c51_ties', 'c51_refuse', stubs={EVT: 'vp_eval', EVB: 'vp_eval_batch'}, defs=dict(N_ROWS=2), tdefs=dict(N_ROWS=3))
one('C53', 'tool_convert.cc', CONV, ['base/base.proto'], 'c53_write', 'c53_read', 'c53_convert')
C['C53']['units'].append(dict(C['C51']['units'][0], entries=['c53_trader'], native_spec=C['C51']['native_spec']))


for _p, (_b, _o) in bounds.B.items():
    C[_p].setdefault('bounds', _b)
    C[_p].setdefault('outside', _o or 'nothing but the executor\'s and the library models\' assumptions')


def get(pid, tier):
    d = dict(C[pid])
    if tier == 'thorough':
        d['units'] = [dict(u, defs=u.get('tdefs') or u.get('defs', {})) for u in d['units'] if not u.get('quick_only')]
    else:
        d['units'] = [u for u in d['units'] if not u.get('thorough_only')]
    return d
