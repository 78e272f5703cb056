CONSTANTS MaxDim = 4
          MaxDeg = 8
SPECIFICATION Spec
INVARIANTS Sound NoRepeat NotTooMany Complete NestedOrder
