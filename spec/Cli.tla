---------------------------------- MODULE Cli ---------------------------------
(* The at-asm command over a file system.  A file system is a function from     *)
(* normalised paths ("@" is the root of the world, "@/d/f" a file in it) to     *)
(* [k |-> "dir"|"file"|"link"|"pipe", c |-> content, or target of a symbolic     *)
(* link].  A named pipe with a content is one that somebody writes that into,   *)
(* piece by piece; one without is one that somebody reads, until the command    *)
(* ends: its content is what they get.                                          *)
(* OBJ maps the content of a source to the content of its object, or to         *)
(* "refused".                                                                   *)
EXTENDS Sequences, SequencesExt, Integers

VARIABLES args, cwd, fs, OBJ, pc, inp, out, ext, object, code
clivars == <<args, cwd, fs, OBJ, pc, inp, out, ext, object, code>>

(* --------------------------------- paths ---------------------------------- *)
Ch(s, i) == SubSeq(s, i, i)
\* the components of a path
Split(s) == LET f == FoldLeft(LAMBDA a, i : IF Ch(s, i) = "/" THEN [cur |-> "", all |-> Append(a.all, a.cur)]
                                            ELSE [a EXCEPT !.cur = @ \o Ch(s, i)],
                              [cur |-> "", all |-> <<>>], [i \in 1..Len(s) |-> i])
            IN Append(f.all, f.cur)
Join(cs) == FoldLeft(LAMBDA a, c : IF a = "" THEN c ELSE a \o "/" \o c, "", cs)
Absolute(p) == Len(p) >= 1 /\ Ch(p, 1) = "@"
Parent(q) == LET cs == Split(q) IN Join(SubSeq(cs, 1, Len(cs) - 1))
\* a path is walked component by component: every one on the way must be a directory or a link to one;
\* the path without links, or "" if there is no such place.  at: a directory; f: the number of links left
RECURSIVE Walk(_, _, _, _)
Walk(at, cs, f, last) ==
    IF cs = <<>> THEN at
    ELSE LET c == cs[1]  rest == SubSeq(cs, 2, Len(cs))  next == at \o "/" \o c IN
         IF c = "." \/ c = "" THEN Walk(at, rest, f, last)
         ELSE IF c = ".." THEN Walk(IF at = "@" THEN at ELSE Parent(at), rest, f, last)
         ELSE IF c = "@" THEN Walk("@", rest, f, last)
         ELSE IF next \notin DOMAIN fs THEN (IF rest = <<>> THEN next ELSE "")
         ELSE IF fs[next].k = "dir" THEN Walk(next, rest, f, last)
         ELSE IF fs[next].k \in {"file", "pipe"} THEN (IF rest = <<>> THEN next ELSE "")
         ELSE IF rest = <<>> /\ ~last THEN next
         ELSE IF f = 0 THEN ""
         ELSE Walk(IF Absolute(fs[next].c) THEN "@" ELSE at, Split(fs[next].c) \o rest, f - 1, last)
Resolve(p) == IF p = "" THEN "" ELSE Walk(IF Absolute(p) THEN "@" ELSE cwd, Split(p), 40, TRUE)
Reachable(p) == Resolve(p) # ""
\* the same, but a link that the path itself names is not followed
Named(p) == IF p = "" THEN "" ELSE Walk(IF Absolute(p) THEN "@" ELSE cwd, Split(p), 40, FALSE)
IsLink(q) == q \in DOMAIN fs /\ fs[q].k = "link"
IsPipe(q) == q \in DOMAIN fs /\ fs[q].k = "pipe"

\* the last component with its extension (what follows the last '.', unless that is
\* its first character) replaced
Dots(s) == {i \in 2..Len(s) : Ch(s, i) = "."}
Stem(s) == IF Dots(s) = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in Dots(s) : \A j \in Dots(s) : j <= i) - 1)
WithExtension(p) == LET cs == Split(p) n == Len(cs) IN
                    FoldLeft(LAMBDA a, i : IF i = 1 THEN cs[1] ELSE a \o "/" \o cs[i], "", [i \in 1..(n - 1) |-> i])
                    \o (IF n > 1 THEN "/" ELSE "") \o Stem(cs[n]) \o ".o"

(* -------------------------------- the command ----------------------------- *)
Options == SelectSeq([i \in DOMAIN args |-> i], LAMBDA i : args[i] = "-o")
\* what is not specified: several -o; a path that names nothing or ends in '/'
OddPath(p) == LET cs == Split(p) IN p = "" \/ cs[Len(cs)] \in {"", ".", "..", "@"}

Goto(p) == pc' = p
Stay == UNCHANGED <<args, cwd, OBJ, ext>>
Exit(c) == pc' = "done" /\ code' = c
Parse ==
  /\ pc = "parse" /\ Stay /\ UNCHANGED <<fs, object>>
  /\ LET os == Options
         rest == IF os = <<>> THEN args
                 ELSE SelectSeq([i \in DOMAIN args |-> IF i \in {os[1], os[1] + 1} THEN "-o" ELSE args[i]],
                                LAMBDA a : a # "-o")
     IN CASE Len(os) > 1 -> Goto("open") /\ UNCHANGED <<inp, out, code>>
          [] Len(os) = 1 /\ os[1] = Len(args) -> Exit(1) /\ UNCHANGED <<inp, out>>
          [] Len(rest) # 1 -> Exit(1) /\ UNCHANGED <<inp, out>>
          [] OTHER -> /\ inp' = rest[1]
                      /\ out' = IF os = <<>> THEN WithExtension(rest[1]) ELSE args[os[1] + 1]
                      /\ Goto("read") /\ UNCHANGED code
Input == Resolve(inp)
Output == Resolve(out)
Read ==
  /\ pc = "read" /\ Stay /\ UNCHANGED <<fs, inp, out>>
  /\ IF ~Reachable(inp) \/ Input \notin DOMAIN fs THEN Exit(1) /\ UNCHANGED object
     ELSE IF fs[Input].k = "dir" THEN Exit(1) /\ UNCHANGED object
     ELSE IF fs[Input].k = "pipe" /\ fs[Input].c = "" THEN Goto("open") /\ UNCHANGED <<object, code>>
     ELSE IF Reachable(out) /\ Output = Input THEN Goto("open") /\ UNCHANGED <<object, code>>
     ELSE IF OBJ[fs[Input].c] = "refused" THEN Exit(1) /\ UNCHANGED object
     ELSE object' = OBJ[fs[Input].c] /\ Goto("write") /\ UNCHANGED code
CanWrite == Reachable(out) /\ ~OddPath(out) /\ (Output \notin DOMAIN fs \/ fs[Output].k \in {"file", "pipe"})
Write ==
  /\ pc = "write" /\ Stay /\ UNCHANGED <<inp, out, object>>
  /\ IF IsPipe(Output) /\ fs[Output].c # "" THEN Goto("open") /\ UNCHANGED <<fs, code>>
     ELSE IF ~CanWrite THEN (IF IsLink(Named(out)) THEN Goto("open") /\ UNCHANGED code ELSE Exit(1)) /\ UNCHANGED fs
     ELSE /\ fs' = [p \in DOMAIN fs \cup {Output} |->
                      IF p = Output THEN [k |-> IF IsPipe(p) THEN "pipe" ELSE "file", c |-> object] ELSE fs[p]]
          /\ Exit(0)
\* the other way to write through a path that names a link or a pipe: it is replaced by the file
Replaced(before) == [before EXCEPT ![Named(out)] = [k |-> "file", c |-> object]]
CliNext == Parse \/ Read \/ Write

CliInit(a, d, f, o) ==
  /\ args = a /\ cwd = d /\ fs = f /\ OBJ = o
  /\ pc = "parse" /\ inp = "" /\ out = "" /\ ext = 0 /\ object = "none" /\ code = -1
\* "open": the language of the command leaves the case open
Ended == pc \in {"done", "open"}
=============================================================================
