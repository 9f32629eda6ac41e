-------------------------------- MODULE Words --------------------------------
(* What a task's text on descriptor 3 means: one map per line, made of the     *)
(* line's key=value words, quoted as in a POSIX shell.                         *)
(* A text is a sequence of characters; "sp" "tab" "nl" "cr" stand for blanks,  *)
(* "bad" for a byte that is not text.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Blank == {"sp", "tab"}

\* one step of the scanner: s = [st, w (the word so far), ws (the words)]
Scan(s, c) ==
    LET Put(x, to) == [s EXCEPT !.w = Append(@, x), !.st = to]
        To(to) == [s EXCEPT !.st = to]
    IN
    CASE s.st = "com" -> s
      [] s.st = "sq" -> IF c = "'" THEN To("word") ELSE Put(c, "sq")
      [] s.st = "dq" -> IF c = "\"" THEN To("word") ELSE IF c = "\\" THEN To("dqb") ELSE Put(c, "dq")
      [] s.st = "dqb" -> IF c \in {"$", "`", "\"", "\\"} THEN Put(c, "dq") ELSE [s EXCEPT !.w = @ \o <<"\\", c>>, !.st = "dq"]
      [] s.st = "wb" -> Put(c, "word")
      [] c = "'" -> To("sq")
      [] c = "\"" -> To("dq")
      [] c = "\\" -> To("wb")
      [] c \in Blank -> IF s.st = "word" THEN [s EXCEPT !.ws = Append(@, s.w), !.w = <<>>, !.st = "gap"] ELSE s
      [] c = "#" /\ s.st = "gap" -> To("com")
      [] OTHER -> Put(c, "word")

Scanned(line) == FoldLeft(Scan, [st |-> "gap", w |-> <<>>, ws |-> <<>>], line)

\* a line with an open quote has no meaning
Parsable(line) == Scanned(line).st \notin {"sq", "dq", "dqb"}
Words(line) ==
    LET s == Scanned(line) IN
    CASE s.st = "word" -> Append(s.ws, s.w)
      [] s.st = "wb" -> Append(s.ws, Append(s.w, "\\"))
      [] OTHER -> s.ws

HasEq(w) == \E i \in 1..Len(w) : w[i] = "="
Eq(w) == CHOOSE i \in 1..Len(w) : w[i] = "=" /\ \A j \in 1..(i - 1) : w[j] # "="
KeyOf(w) == SubSeq(w, 1, Eq(w) - 1)
ValOf(w) == SubSeq(w, Eq(w) + 1, Len(w))

\* a later word for the same key replaces an earlier one
MapOf(line) ==
    LET ws == Words(line)
        I == {i \in 1..Len(ws) : HasEq(ws[i])}
    IN {<<KeyOf(ws[i]), ValOf(ws[i])>> : i \in {i \in I : \A j \in I : j > i => KeyOf(ws[j]) # KeyOf(ws[i])}}

\* lines end with "nl", or with "cr" "nl"; the end of the last one may be missing
Lines(text) ==
    LET Step(s, c) ==
            IF c # "nl" THEN [s EXCEPT !.l = Append(@, c)]
            ELSE LET k == Len(s.l)
                 IN [l |-> <<>>, ls |-> Append(s.ls, IF k > 0 /\ s.l[k] = "cr" THEN SubSeq(s.l, 1, k - 1) ELSE s.l)]
        e == FoldLeft(Step, [l |-> <<>>, ls |-> <<>>], text)
    IN IF e.l = <<>> THEN e.ls ELSE Append(e.ls, e.l)

MapsOfLines(ls) == LET ok == SelectSeq(ls, Parsable) IN [i \in 1..Len(ok) |-> MapOf(ok[i])]
Maps(text) == IF \E i \in 1..Len(text) : text[i] = "bad" THEN <<>> ELSE MapsOfLines(Lines(text))

-----------------------------------------------------------------------------
(* The reading is right: quoting a word in any of the usual ways and reading   *)
(* it back gives the word (checked for all short words by MCWords).            *)
Each(w, Q(_)) == LET Step(s, c) == s \o Q(c) IN FoldLeft(Step, <<>>, w)
SQ(c) == IF c = "'" THEN <<"'", "\\", "'", "'">> ELSE <<c>>
DQ(c) == IF c \in {"\"", "\\", "$", "`"} THEN <<"\\", c>> ELSE <<c>>
EQ(c) == <<"\\", c>>
SingleQ(w) == <<"'">> \o Each(w, SQ) \o <<"'">>
DoubleQ(w) == <<"\"">> \o Each(w, DQ) \o <<"\"">>
EscapeQ(w) == Each(w, EQ)
=============================================================================
