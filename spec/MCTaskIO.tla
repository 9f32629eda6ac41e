------------------------------- MODULE MCTaskIO ------------------------------
(* The runner and one task process, connected by pipes of limited capacity.    *)
(* Whatever the program does, the task comes to its end, and what has been     *)
(* carried over is what TaskIO says.                                           *)
EXTENDS TaskIO
CONSTANTS Cap,        \* bytes that fit into a pipe
          MaxIn,      \* longest input
          MaxProg,    \* operations before exit
          Sequential  \* TRUE: a runner that first gets rid of the input and then reads the output
Ops == {[o |-> "rd", n |-> 1], [o |-> "rd", n |-> 3], [o |-> "ra"], [o |-> "ci"], [o |-> "out", n |-> 3], [o |-> "val", x |-> <<"a", "=", "nl">>],
        [o |-> "c3"], [o |-> "bg", x |-> <<"b", "=">>]}
Progs == UNION {[1..k -> Ops] : k \in 0..MaxProg}
VARIABLES p, n,      \* the program and its input
          pc, sub,   \* operation and how far it has come (bytes)
          fed,       \* bytes of the input written; eof is written after that
          eof, rd,   \* the runner has closed its end; bytes the process has taken
          inopen, out3, out1, w3, w1, reads, bg, open3, gone, done
vs == <<p, n, pc, sub, fed, eof, rd, inopen, out3, out1, w3, w1, reads, bg, open3, gone, done>>
\* w3/w1: in the pipe; out3/out1: read by the runner
Init ==
    /\ p \in {q \o <<[o |-> "exit", s |-> 0]>> : q \in Progs} /\ n \in -1..MaxIn
    /\ pc = 1 /\ sub = 0 /\ fed = 0 /\ eof = (n < 0) /\ rd = 0 /\ inopen = (n >= 0)
    /\ out3 = <<>> /\ out1 = 0 /\ w3 = <<>> /\ w1 = 0 /\ reads = <<>> /\ bg = <<>> /\ open3 = TRUE /\ gone = FALSE /\ done = FALSE
C == p[pc]
Adv == pc' = pc + 1 /\ sub' = 0
\* the task process
Read ==
    /\ ~gone /\ C.o \in {"rd", "ra"} /\ inopen
    /\ \/ /\ rd < fed /\ rd' = rd + 1
          /\ (IF C.o = "rd" /\ sub + 1 = C.n THEN Adv /\ reads' = Append(reads, [n |-> C.n, eof |-> 0])
              ELSE pc' = pc /\ sub' = sub + 1 /\ UNCHANGED reads)
       \/ /\ rd = fed /\ eof /\ Adv /\ reads' = Append(reads, [n |-> sub, eof |-> 1]) /\ UNCHANGED rd
    /\ UNCHANGED <<p, n, fed, eof, inopen, out3, out1, w3, w1, bg, open3, gone, done>>
Write ==
    /\ ~gone /\ C.o \in {"out", "val"} /\ (C.o = "val" => open3)
    /\ IF C.o = "out" THEN w1 < Cap /\ w1' = w1 + 1 /\ UNCHANGED w3 ELSE Len(w3) < Cap /\ w3' = Append(w3, C.x[sub + 1]) /\ UNCHANGED w1
    /\ (IF sub + 1 = (IF C.o = "out" THEN C.n ELSE Len(C.x)) THEN Adv ELSE pc' = pc /\ sub' = sub + 1)
    /\ UNCHANGED <<p, n, fed, eof, rd, inopen, out3, out1, reads, bg, open3, gone, done>>
Other ==
    /\ ~gone
    /\ \/ C.o = "ci" /\ Adv /\ inopen' = FALSE /\ UNCHANGED <<open3, bg, gone>>
       \/ C.o = "c3" /\ Adv /\ open3' = FALSE /\ UNCHANGED <<inopen, bg, gone>>
       \/ C.o = "bg" /\ Adv /\ bg' = (IF open3 THEN bg \o C.x ELSE bg) /\ UNCHANGED <<inopen, open3, gone>>
       \/ C.o \in {"rd", "ra"} /\ ~inopen /\ Adv /\ UNCHANGED <<inopen, open3, bg, gone>>
       \/ C.o = "val" /\ ~open3 /\ Adv /\ UNCHANGED <<inopen, open3, bg, gone>>
       \/ C.o = "exit" /\ gone' = TRUE /\ inopen' = FALSE /\ UNCHANGED <<pc, sub, open3, bg>>
    /\ UNCHANGED <<p, n, fed, eof, rd, out3, out1, w3, w1, reads, done>>
\* background processes write after the program is gone (they hold descriptor 3 open)
Late == gone /\ bg # <<>> /\ Len(w3) < Cap /\ w3' = Append(w3, Head(bg)) /\ bg' = Tail(bg) /\ UNCHANGED <<p, n, pc, sub, fed, eof, rd, inopen, out3, out1, w1, reads, open3, gone, done>>
\* the runner
Feed ==
    /\ ~eof /\ ~done
    /\ IF ~inopen THEN eof' = TRUE /\ UNCHANGED fed          \* nobody reads any more: give up
       ELSE IF fed < n THEN fed - rd < Cap /\ fed' = fed + 1 /\ UNCHANGED eof
       ELSE eof' = TRUE /\ UNCHANGED fed
    /\ UNCHANGED <<p, n, pc, sub, rd, inopen, out3, out1, w3, w1, reads, bg, open3, gone, done>>
Collect ==
    /\ ~done /\ (Sequential => eof)
    /\ \/ w3 # <<>> /\ out3' = Append(out3, Head(w3)) /\ w3' = Tail(w3) /\ UNCHANGED <<out1, w1>>
       \/ w1 > 0 /\ out1' = out1 + 1 /\ w1' = w1 - 1 /\ UNCHANGED <<out3, w3>>
    /\ UNCHANGED <<p, n, pc, sub, fed, eof, rd, inopen, reads, bg, open3, gone, done>>
\* the process has been waited for and all its output has been read to the end
Finish ==
    /\ ~done /\ gone /\ bg = <<>> /\ w3 = <<>> /\ w1 = 0 /\ (Sequential => eof)
    /\ done' = TRUE
    /\ UNCHANGED <<p, n, pc, sub, fed, eof, rd, inopen, out3, out1, w3, w1, reads, bg, open3, gone>>
Next == Read \/ Write \/ Other \/ Late \/ Feed \/ Collect \/ Finish
Spec == Init /\ [][Next]_vs /\ WF_vs(Next)
Inv == done => /\ reads = Reads(p, n)
               /\ out3 = Text(p)
               /\ out1 = Total(p, "out")
Ends == <>done
=============================================================================
