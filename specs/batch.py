"""Reference semantics of TransitionBatch: one record per transition, fields never mix."""
import jax
import numpy as np

from coax.reward_tracing import TransitionBatch as Batch


class TransitionBatch:
    def __init__(self, S, A, logP, Rn, In, S_next, A_next=None, logP_next=None, W=None, idx=None,
                 extra_info=None):
        self.S = S
        self.A = A
        self.logP = logP
        self.Rn = Rn
        self.In = In
        self.S_next = S_next
        self.A_next = A_next
        self.logP_next = logP_next
        self.W = np.ones_like(Rn) if W is None else W
        self.idx = np.arange(Rn.shape[0], dtype='int32') if idx is None else idx
        self.extra_info = extra_info

    @classmethod
    def from_single(cls, s, a, logp, r, done, gamma, s_next=None, a_next=None, logp_next=None,
                    w=1, idx=None, extra_info=None):
        array = (int, float, np.ndarray, jax.numpy.ndarray)
        if not (isinstance(logp, array) and np.all(logp <= 0)):
            raise TypeError('')
        if not isinstance(r, array):
            raise TypeError('')
        if not isinstance(done, bool):
            raise TypeError('')
        if not (isinstance(gamma, (float, int)) and 0 <= gamma <= 1):
            raise TypeError('')
        if not (logp_next is None or (isinstance(logp_next, array) and np.all(logp_next <= 0))):
            raise TypeError('')
        if not (isinstance(w, (float, int)) and w > 0):
            raise TypeError('')
        return cls(
            S=batched(s),
            A=batched(a),
            logP=batched(logp),
            Rn=batched(r),
            In=batched(float(gamma) * (1. - bool(done))),
            S_next=batched(s_next) if s_next is not None else None,
            A_next=batched(a_next) if a_next is not None else None,
            logP_next=batched(logp_next) if logp_next is not None else None,
            W=batched(float(w)),
            idx=batched(idx) if idx is not None else None,
            extra_info=batched(extra_info) if extra_info is not None else None)

    @property
    def batch_size(self):
        return np.shape(self.Rn)[0]

    def to_singles(self):
        if np.shape(self.Rn)[0] == 1:
            return [self]
        return [
            Batch(*[jax.tree_util.tree_map(lambda leaf: leaf[slice(i, i + 1)], field) for field in (
                self.S, self.A, self.logP, self.Rn, self.In, self.S_next, self.A_next,
                self.logP_next, self.W, self.idx, self.extra_info)])
            for i in range(np.shape(self.Rn)[0])]

    def items(self):
        return [('S', self.S), ('A', self.A), ('logP', self.logP), ('Rn', self.Rn),
                ('In', self.In), ('S_next', self.S_next), ('A_next', self.A_next),
                ('logP_next', self.logP_next), ('W', self.W), ('idx', self.idx),
                ('extra_info', self.extra_info)]

    def _asdict(self):
        return {'S': self.S, 'A': self.A, 'logP': self.logP, 'Rn': self.Rn, 'In': self.In,
                'S_next': self.S_next, 'A_next': self.A_next, 'logP_next': self.logP_next,
                'W': self.W, 'idx': self.idx, 'extra_info': self.extra_info}

    def __iter__(self):
        return (x for x in (self.S, self.A, self.logP, self.Rn, self.In, self.S_next, self.A_next,
                            self.logP_next, self.W, self.idx, self.extra_info))


def batched(pytree):
    return jax.tree_util.tree_map(lambda arr: np.expand_dims(arr, axis=0), pytree)


def flatten(tn):
    return ((tn.S, tn.A, tn.logP, tn.Rn, tn.In, tn.S_next, tn.A_next, tn.logP_next, tn.W, tn.idx,
             tn.extra_info), None)


def unflatten(treedef, leaves):
    return Batch(*leaves)
