CONSTANT D = 2
INIT Init
NEXT Next
INVARIANTS Action Assoc Distr Adjoint Conj Terms
