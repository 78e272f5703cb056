CONSTANT N = 4
INIT Init
NEXT Next
INVARIANT Fine
