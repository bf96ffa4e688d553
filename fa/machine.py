"""Symbolic start states of the AD machine: an arbitrary tape and an arbitrary vari registry."""
from .terms import *
from . import terms as TM
from .interp import *

CS = ('m', 'fazang_vari_mod', 'callstack')
REC = 6


class Machine:
    """Start state in which the registry holds HV-1 varis, the tape is filled up to H-1, both
    arrays have room left, and every slot at or beyond the heads is in its documented fresh state
    (tape zero; the chain slot arbitrary)."""

    def __init__(self, interp):
        self.I = interp
        self.HV = sym('HV', 'i', ONE)
        self.H = sym('H', 'i', ONE)
        self.CAPV = sym('CAPV', 'i', ONE)
        self.CAP = sym('CAP', 'i', ONE)
        DOMINANT.add(self.CAPV)
        DOMINANT.add(self.CAP)
        self.I0 = asym('I0', 1, 'i')
        self.CH0 = asym('CH0', 1, 'p')
        self.S0 = asym('S0', 1, 'i')
        ABOUNDS['I0'] = ([ONE], [isub(self.H, ci(REC))])
        ALIGNED['I0'] = REC

    def state(self):
        st = self.I.init_state()
        m = st.mem
        z = fresh('z')
        m[(CS, ('head',))] = self.HV
        m[(CS, ('n_varis',))] = self.CAPV
        m[(CS, ('varis', '#a'))] = TRUE
        m[(CS, ('varis', '#n1'))] = self.CAPV
        m[(CS, ('varis', '#l1'))] = ONE
        m[(CS, ('varis', 'i'))] = self.I0
        m[(CS, ('varis', 'chain'))] = self.CH0
        m[(CS, ('stack', 'head'))] = self.H
        m[(CS, ('stack', 'storage_size'))] = self.CAP
        m[(CS, ('stack', 'storage', '#a'))] = TRUE
        m[(CS, ('stack', 'storage', '#n1'))] = self.CAP
        m[(CS, ('stack', 'storage', '#l1'))] = ONE
        m[(CS, ('stack', 'storage'))] = lam((z,), ite(ge0(isub(isub(self.H, ONE), z)), sel(self.S0, z), ZERO))
        return st
