----------------------------- MODULE TraceMachine -----------------------------
(* Trace validation of whole programs: the object file the real assembler wrote *)
(* for a source is linked and run, for every environment and entry chosen,      *)
(* against the source machine.  Trace: as in TraceAsm.                          *)
EXTENDS Machine, Json, IOUtils
CONSTANTS STEPS,    \* bound on the steps of a run
          LAYOUTS   \* environments tried: numbers added to the trace's
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, lines, stage, env, img, addrs, src, cpu, steps, why
run == <<env, img, addrs, src, cpu, steps>>
vars == <<line, sect, items, labels, globals, status, t, lines, stage, run, why>>
T == Traces[t]
NoRun == <<>>

Init == /\ AsmInit /\ t \in 1..Len(Traces) /\ lines = <<>> /\ stage = "start" /\ why = <<>>
        /\ env = 0 /\ img = NoRun /\ addrs = NoRun /\ src = [k |-> "no"] /\ cpu = [k |-> "no"] /\ steps = 0
Begin == /\ stage = "start" /\ stage' = "read" /\ lines' = Lines(T.src)
         /\ UNCHANGED <<asmvars, t, run, why>>
EmptyAt(n) == n \in DOMAIN lines /\ lines[n] = <<>>
Skip == /\ stage = "read" /\ EmptyAt(line + 1)
        /\ LET n == CHOOSE n \in (line + 1)..Len(lines) : ~EmptyAt(n + 1) IN SkipBlank(n - line)
        /\ UNCHANGED <<t, lines, stage, run, why>>
Read == /\ stage = "read" /\ line < Len(lines) /\ ~EmptyAt(line + 1)
        /\ LET p == ParseLine(lines[line + 1]) IN ReadLine(p)
        /\ UNCHANGED <<t, lines, stage, run, why>>
Finish == /\ stage = "read" /\ line = Len(lines) /\ EndOfInput /\ stage' = "link"
          /\ UNCHANGED <<t, lines, run, why>>

\* the entries tried: the first and the last label of the text section
TextLabels == {j \in DOMAIN labels : labels[j].s = "text"}
Entries == {labels[j] : j \in {j \in TextLabels : (\A i \in TextLabels : i >= j) \/ (\A i \in TextLabels : i <= j)}}

Valid == status = "read"
NoObject == /\ stage = "link" /\ Valid /\ (T.end # "ok" \/ T.files = <<>>)
            /\ stage' = "over" /\ why' = <<"valid program not assembled", T.end>>
            /\ UNCHANGED <<asmvars, t, lines, run>>
LinkIt == /\ stage = "link" /\ Valid /\ T.end = "ok" /\ T.files # <<>>
          /\ LET o == ReadObj(T.files[1]) IN
             IF ~o.ok THEN /\ stage' = "over" /\ why' = <<"unreadable object", o.why>> /\ UNCHANGED run
             ELSE IF TextLabels = {} THEN stage' = "over" /\ UNCHANGED <<run, why>>
             ELSE /\ env' \in {((t + k) % 4) + 1 : k \in LAYOUTS}
                  /\ LET e == ENVS[env'] bs == Bases(o, e) IN
                     /\ addrs' = Places(o, bs)
                     /\ img' = Link(o, e)
                     /\ \E l \in Entries :
                          LET m == SourceInit(e, l) c == CpuInit(e, o, bs, l.name) IN
                          /\ src' = m /\ cpu' = c
                          /\ why' = IF c.rip = addrs'[l.s][l.at + 1] THEN <<>> ELSE <<"entry", l.name, c.rip>>
                  /\ steps' = 0 /\ stage' = "run"
          /\ UNCHANGED <<asmvars, t, lines>>

AtSyscall == src.s # "bss" /\ src.at < Len(items[src.s]) /\ items[src.s][src.at + 1].k = "i"
             /\ items[src.s][src.at + 1].q.op = "syscall"
Step == /\ stage = "run" /\ src.k = "run" /\ steps < STEPS
        /\ LET e == ENVS[env] m == SourceStep(src, e, img) IN
           /\ src' = m /\ steps' = steps + 1
           /\ IF m.k \in {"end", "open"} THEN UNCHANGED <<cpu, why>>
              ELSE LET c == CpuStep(cpu, e, img)
                       p == IF AtSyscall THEN Pointers(addrs, img, src, cpu) ELSE <<>>
                   IN cpu' = c /\ why' = IF p # <<>> THEN p ELSE Disagree(addrs, img, m, c)
        /\ UNCHANGED <<asmvars, t, lines, stage, env, img, addrs>>
Stop == /\ stage = "run" /\ (src.k # "run" \/ steps = STEPS) /\ stage' = "over"
        /\ PrintT(ToJson([k |-> IF src.k = "run" THEN "cut" ELSE src.k, n |-> steps, sys |-> src.n]))
        /\ UNCHANGED <<asmvars, t, lines, run, why>>
Next == Begin \/ Skip \/ Read \/ Finish \/ NoObject \/ LinkIt \/ Step \/ Stop
Spec == Init /\ [][Next]_vars
Short == [t |-> t, why |-> why]   \* what is printed of a state
Conforms == why = <<>>
\* the rest of the state is a function of these
View == <<t, line, stage, env, steps, src, cpu, why>>
=============================================================================
