------------------------------- MODULE MCNames -------------------------------
(* The tables of Names are coherent: walked code point by code point, alias by alias, standard by standard. *)
EXTENDS Names, TLC
VARIABLES cp, std
vars == <<cp, std>>
Init == cp = 0 /\ std \in Standards
Next == \/ cp < 127 /\ cp' = cp + 1 /\ UNCHANGED std
        \/ \E s \in Standards : s > std /\ std' = s /\ UNCHANGED cp
        \/ cp = 127 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Name == Chart[cp + 1]
\* one name per code point and one code point per name
OneToOne == Len(Chart) = 128 /\ CodePointOf(Name) = cp /\ \A d \in 0..127 : d # cp => Chart[d + 1] # Name
\* letters of both cases differ by 32, digits follow each other, brackets mirror each other
Cases == \A k \in 1..26 : CodePointOf(Small(k)) = CodePointOf(Capital(k)) + 32 /\ CodePointOf(Capital(k)) = 64 + k
DigitsInRow == \A k \in 1..10 : CodePointOf("Digit" \o Digits[k]) = 47 + k
Pairs == /\ CodePointOf("RightParenthesis") = CodePointOf("LeftParenthesis") + 1
         /\ CodePointOf("RightSquareBracket") = CodePointOf("LeftSquareBracket") + 2
         /\ CodePointOf("RightCurlyBracket") = CodePointOf("LeftCurlyBracket") + 2
         /\ CodePointOf("GreaterThanSign") = CodePointOf("LessThanSign") + 2
\* names known from elsewhere
Anchors == /\ CodePointOf("LineFeed") = 10 /\ CodePointOf("CarriageReturn") = 13 /\ CodePointOf("CharacterTabulation") = 9 /\ CodePointOf("Backspace") = 8
           /\ CodePointOf("FormFeed") = 12 /\ CodePointOf("Space") = 32 /\ CodePointOf("QuotationMark") = 34 /\ CodePointOf("Solidus") = 47
           /\ CodePointOf("ReverseSolidus") = 92 /\ CodePointOf("DigitZero") = 48 /\ CodePointOf("LatinCapitalLetterA") = 65 /\ CodePointOf("Delete") = 127
           /\ CodePointOf("CommercialAt") = 64 /\ CodePointOf("LowLine") = 95 /\ CodePointOf("Colon") = 58 /\ CodePointOf("Escape") = 27
TextIsOne == cp > 0 => TextOf(Name) = <<cp>>
\* a newer standard has everything an older one has
FactsGrow == \A s \in Standards : s >= std => \A f \in {"HAS_CXX11", "HAS_CXX14", "HAS_CXX17", "HAS_CXX20", "HAS_CXX23"} :
                Fact(f, std, "") = "1" => Fact(f, s, "") = "1"
NoneOf23 == Fact("HAS_CXX23", std, "") = "0" /\ Fact("HAS_CXX11", std, "") = "1"
\* the three tables of aliases agree where they overlap
TablesAgree == \A a \in DOMAIN AliasTable \cap DOMAIN PointerWide : AliasTable[a].kind = PointerWide[a] /\ AliasTable[a].bits = Pointer
WidthsDouble == \A k \in {8, 16, 32} : \E a, b \in DOMAIN AliasTable : AliasTable[a] = Is("signed", k) /\ AliasTable[b] = Is("signed", 2 * k)
=============================================================================
