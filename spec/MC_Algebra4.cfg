CONSTANTS KindSet = {"triangle", "cube", "cross", "rectangle"}
          Deg = 1
          Steps = 4
          Labels = {0, 2}
SPECIFICATION Spec
INVARIANTS WellFormed Linear Bilinear Tensored Restricts
