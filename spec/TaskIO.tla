-------------------------------- MODULE TaskIO -------------------------------
(* One task program and what is to become of its input, output and values.     *)
(* A program is a sequence of operations:                                      *)
(*   [o |-> "rd", n]   read n bytes of the input    [o |-> "ra"]  read to its end *)
(*   [o |-> "ci"]      close the input                                          *)
(*   [o |-> "out", n]  [o |-> "err", n]  write n bytes to stdout / stderr       *)
(*   [o |-> "val", x]  write the text x to descriptor 3                         *)
(*   [o |-> "c3"]      close descriptor 3                                       *)
(*   [o |-> "nap"]     take a while                                             *)
(*   [o |-> "bg", x]   leave a background process that writes x to it later     *)
(*   [o |-> "exit", s] exit (a negative s: die of that signal)                  *)
EXTENDS Words

\* what the reads of program p see of an input of n bytes (n = -1: there is none)
Reads(p, n) ==
    LET Step(s, c) ==
            LET left == n - s.got IN
            CASE c.o = "ci" -> [s EXCEPT !.open = FALSE]
              [] c.o = "ra" /\ s.open -> [s EXCEPT !.got = n, !.r = Append(@, [n |-> left, eof |-> 1])]
              [] c.o = "rd" /\ s.open -> [s EXCEPT !.got = IF c.n <= left THEN @ + c.n ELSE n,
                                                   !.r = Append(@, [n |-> IF c.n <= left THEN c.n ELSE left, eof |-> IF c.n <= left THEN 0 ELSE 1])]
              [] OTHER -> s
    IN FoldLeft(Step, [got |-> 0, open |-> n >= 0, r |-> <<>>], p).r

Text(p) ==
    LET Step(s, c) ==
            CASE c.o = "c3" -> [s EXCEPT !.open = FALSE]
              [] c.o = "val" /\ s.open -> [s EXCEPT !.x = @ \o c.x]
              [] c.o = "bg" /\ s.open -> [s EXCEPT !.late = @ \o c.x]
              [] OTHER -> s
        e == FoldLeft(Step, [open |-> TRUE, x |-> <<>>, late |-> <<>>], p)
    IN e.x \o e.late

Total(p, o) == LET Step(s, c) == IF c.o = o THEN s + c.n ELSE s IN FoldLeft(Step, 0, p)
Status(p) == p[Len(p)].s
=============================================================================
