CONSTANTS Paths = 2
Objects = 3
SPECIFICATION Spec
