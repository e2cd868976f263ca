SPECIFICATION Spec
INVARIANTS OneToOne Cases DigitsInRow Pairs Anchors TextIsOne FactsGrow NoneOf23 TablesAgree WidthsDouble
