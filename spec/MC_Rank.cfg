CONSTANTS MaxDim = 5
          MaxDeg = 6
          Top = 20
SPECIFICATION Spec
INVARIANTS RankIsPosition BisectFinds
PROPERTY Terminates
