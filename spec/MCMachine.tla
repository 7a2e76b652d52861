------------------------------ MODULE MCMachine -------------------------------
(* The design of the assembler, of the object format and of the encoder, put    *)
(* together: for every short program over a palette of lines, the object the    *)
(* design writes, linked anywhere and run, does what the source says.           *)
EXTENDS Machine, Json
CONSTANTS PALETTE, MAXLINES
MACHINE == << "section .text", "section .data", "x:", "y dw 7", "mov rsi, x", "mov eax, y", "mov ax, 513",
              "push rsi", "push 200", "ret", "syscall", "mov rsp, rax" >>
JUMPS == << "x:", "y:", "mov rdi, x", "mov rdi, y", "push rdi", "ret", "section .data", "section .text", "push rsp" >>
Pal == [i \in DOMAIN (IF PALETTE = "jumps" THEN JUMPS ELSE MACHINE) |->
           ParseLine(Codes((IF PALETTE = "jumps" THEN JUMPS ELSE MACHINE)[i]))]
VARIABLES prog, stage, env, img, addrs, src, cpu, steps, why
vars == <<line, sect, items, labels, globals, status, prog, stage, env, img, addrs, src, cpu, steps, why>>
run == <<env, img, addrs, src, cpu, steps>>
Init == /\ AsmInit /\ prog = <<>> /\ stage = "read" /\ why = <<>>
        /\ env = 0 /\ img = <<>> /\ addrs = <<>> /\ src = [k |-> "no"] /\ cpu = [k |-> "no"] /\ steps = 0
Read == /\ stage = "read" /\ line < MAXLINES
        /\ \E i \in DOMAIN Pal : ReadLine(Pal[i]) /\ prog' = Append(prog, i)
        /\ UNCHANGED <<stage, run, why>>
TextLabels == {j \in DOMAIN labels : labels[j].s = "text"}
Finish == /\ stage = "read" /\ EndOfInput /\ TextLabels # {}
          /\ stage' = "link" /\ UNCHANGED <<prog, run, why>>
LinkIt == /\ stage = "link" /\ status = "read"
          /\ PrintT(ToJson(prog))
          /\ LET o == ReadObj(Emit(DesignObject)) IN
             /\ o.ok /\ env' \in {(line % Len(ENVS)) + 1, ((line + Len(prog) + 1) % Len(ENVS)) + 1}
             /\ LET e == ENVS[env'] bs == Bases(o, e) IN
                /\ addrs' = Places(o, bs) /\ img' = Link(o, e)
                /\ \E j \in TextLabels :
                      LET l == labels[j] c == CpuInit(e, o, bs, l.name) IN
                      /\ src' = SourceInit(e, l) /\ cpu' = c
                      /\ why' = IF c.rip = addrs'[l.s][l.at + 1] THEN <<>> ELSE <<"entry", l.name>>
          /\ steps' = 0 /\ stage' = "run" /\ UNCHANGED <<asmvars, prog>>
Step == /\ stage = "run" /\ src.k = "run" /\ steps < 12
        /\ LET e == ENVS[env] m == SourceStep(src, e, img) IN
           /\ src' = m /\ steps' = steps + 1
           /\ IF m.k \in {"end", "open"} THEN UNCHANGED <<cpu, why>>
              ELSE LET c == CpuStep(cpu, e, img)
                       sys == items[src.s][src.at + 1].q.op = "syscall"
                       p == IF sys THEN Pointers(addrs, img, src, cpu) ELSE <<>>
                   IN cpu' = c /\ why' = IF p # <<>> THEN p ELSE Disagree(addrs, img, m, c)
        /\ UNCHANGED <<asmvars, prog, stage, env, img, addrs>>
Next == Read \/ Finish \/ LinkIt \/ Step
Spec == Init /\ [][Next]_vars
Simulates == why = <<>>
=============================================================================
