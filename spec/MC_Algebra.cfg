CONSTANTS KindSet = {"triangle", "cube"}
          Deg = 1
          Steps = 3
          Labels = {0, 2}
SPECIFICATION Spec
INVARIANTS WellFormed Linear Bilinear Tensored Restricts
