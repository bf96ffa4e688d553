"""Which module decides which property."""
import importlib

OF = {}
for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P14'):
    OF[p] = 'fa.check_ops'
OF['P07'] = 'fa.check_lift'
for p in ('P12', 'P13', 'P15', 'P16', 'P17', 'P18', 'P19', 'P20', 'P21', 'P22', 'P23', 'P24'):
    OF[p] = 'fa.check_core'
for p in ('P08', 'P09', 'P10', 'P25'):
    OF[p] = 'fa.special'
for p in ('P27', 'P28', 'P29', 'P30', 'P31', 'P32'):
    OF[p] = 'fa.check_ode'
for p in ('P50', 'P51', 'P52', 'P53', 'P54', 'P55', 'P56', 'P57', 'P58', 'P60', 'P61', 'P62', 'P64', 'P65', 'P66', 'P67'):
    OF[p] = 'fc.check_c'


def run(prop, repo, tier, seed):
    rep = importlib.import_module(OF[prop]).run(prop, repo, tier, seed)
    if OF[prop] == 'fa.check_ode':
        rep = importlib.import_module('fc.check_c').extend(rep, prop, tier, seed)
    return rep
