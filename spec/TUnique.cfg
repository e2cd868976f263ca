CONSTANTS Roots = 3
Objs = 10
SPECIFICATION Spec
