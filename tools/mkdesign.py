#!/usr/bin/env python3
"""Rewrites the table of properties in DESIGN.md (between the TABLE markers) from properties.jsonl, engine/checks.py, engine/bounds.py and seeded/*/meta.json."""
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'engine'))
import checks
ORACLE = {
 'C01': 'bit equality of every account field with its copy from before', 'C02': 'the reference settlement; plus inequalities on the reference and on BuyBase/SellBase with free operands',
 'C03': 'independent settlement (acc.h: ref_buy, ref_sell)', 'C04': 'ref_fee; the schedule is free per order type', 'C05': 'ref_price, and best/worst bounds on the implied price',
 'C06': 'trigger predicate on high/low', 'C07': 'ref_cap; price = limit', 'C08': 'ref_buy_quote/ref_sell_quote and the spend/receive inequalities',
 'C09': 'ref_execute, the complete reference exchange', 'C10': 'distance of the results from the unit grid', 'C11': 'reference stepper: what the trader saw, which orders were tried at which tick, in which order',
 'C12': 'count of executions per emitted order', 'C13': 'ledger kept by the scripted exchange; first/last prices of the history', 'C14': 'linear scan of the side records',
 'C15': 'self-composition: the same run with and without logger / volatilities, compared', 'C16': 'recording logger against the reference stepper', 'C17': 'civil-calendar windows, linear scan of the ticks',
 'C18': 'documented formulas over the reported periods', 'C19': 'sequential EvaluateTrader per emitter, under a schedule that the solver picks', 'C20': 'step counter and object bounds',
 'C21': 'linear scan', 'C22': 'linear scan', 'C23': 'grid arithmetic', 'C24': 'fold over the records of the period', 'C25': 'definition of an outlier; sub-sequence test', 'C26': 'selection of the largest gaps by definition',
 'C27': 'set of neighbours by definition', 'C28': 'aggregation of the ticks per period', 'C29': 'mean of the closes', 'C30': 'recurrence', 'C31': 'recurrence; range 0..100 on the quotient with free averages', 'C32': 'definition; range 0..100',
 'C33': 'minimum and maximum of the retained values', 'C34': 'two-pass mean and variance with a rounding bound', 'C35': 'log returns of the reference', 'C36': 'self-composition: split against unsplit',
 'C37': 'share after the trade equals the target', 'C38': 'share after the fill equals the target, at a price at the band edge', 'C39': 'validity predicate and holdings', 'C40': 'mode machine', 'C41': 'ratchet inequalities', 'C42': 'nested loops over the lists',
 'C43': 'text assembled by the harness', 'C44': 'rows assembled by the harness', 'C45': 'validity predicate over the records', 'C46': 'list of messages and the end of the stream', 'C47': 'civil arithmetic', 'C48': 'civil time the text was made from',
 'C49': 'the records before', 'C50': 'library functions on the records of the harness (decided by C22-C25)', 'C51': 'arguments recorded by a stand-in for the evaluation; printed text', 'C52': 'text assembled by the harness', 'C53': 'status and exit code', 'C54': 'text assembled by the harness from the tick and the emitted order',
 'C55': 'the figures of two Volatility objects (decided by C35) fed with the ticks the trader was called on',
}
seeds = {}
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    seeds.setdefault(json.load(open(f))['property'], []).append(os.path.basename(os.path.dirname(f)))
rows = ['| Property | Entries | Oracle | Bounds (every value within them) | Outside | Planted bugs caught |', '|---|---|---|---|---|---|']
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l); i = p['id']; c = checks.C[i]
    ent = ', '.join(e for u in c['units'] for e in u['entries'])
    rows.append('| %s %s | %s | %s | %s | %s | %s |' % (i, p['title'], ent, ORACLE[i], c['bounds'].replace('|', '/'), c['outside'], ', '.join(seeds.get(i, []))))
s = open(os.path.join(H, 'DESIGN.md')).read()
a, b = '<!-- TABLE -->', '<!-- /TABLE -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
open(os.path.join(H, 'DESIGN.md'), 'w').write(s)
print(len(rows) - 2, 'rows')
