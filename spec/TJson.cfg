CONSTANTS Docs = 3
Vars = 2
SPECIFICATION Spec
