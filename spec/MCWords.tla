-------------------------------- MODULE MCWords ------------------------------
EXTENDS Words
CONSTANTS Chars, MaxLen
VARIABLE w
Init == w = <<>>
Next == Len(w) < MaxLen /\ \E c \in Chars : w' = Append(w, c)
Spec == Init /\ [][Next]_w
Both(a, b) == a \o <<"sp", "tab">> \o b \o <<"sp">>
Inv ==
    /\ Parsable(SingleQ(w)) /\ Words(SingleQ(w)) = <<w>>
    /\ Words(DoubleQ(w)) = <<w>>
    /\ w # <<>> => Words(EscapeQ(w)) = <<w>>
    /\ Words(Both(SingleQ(w), DoubleQ(w))) = <<w, w>>
    /\ ~Parsable(Append(SingleQ(w), "'"))
    /\ w # <<>> /\ w[Len(w)] \notin {"nl", "cr"} => /\ Maps(Append(w, "nl")) = Maps(w) /\ Maps(w \o <<"cr", "nl">>) = Maps(w)
                                                   /\ Maps(w \o <<"nl">> \o w) = Maps(w) \o Maps(w)
    /\ MapOf(SingleQ(<<"a", "=">> \o w)) = {<<<<"a">>, w>>}
=============================================================================
