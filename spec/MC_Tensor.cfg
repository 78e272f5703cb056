CONSTANTS Labels = {0, 2, 3}
          Deg = 2
          MaxSteps = 5
          KindSet = {"triangle", "cube", "cross", "cross_nc", "rectangle"}
SPECIFICATION Spec
INVARIANTS Product ProjLaw InnerLaw
