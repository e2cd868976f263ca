CONSTANTS Slots = 3
SPECIFICATION Spec
