------------------------------- MODULE Stream ------------------------------
(***************************************************************************)
(* State machine of one network fed by a stream, for each network of a     *)
(* given list.  Frames are symbolic: <<"x", a>> is the stream frame fed    *)
(* a frames ago (0: the latest), <<"y", j>> the j-th frame of a call which *)
(* must not update the state.  As frames are named by age and as n wraps   *)
(* by a multiple of the period once the start-up is over, the state graph  *)
(* is finite and covers streams of unbounded length.                       *)
(*                                                                         *)
(* Every transition is checked against the declarative whole-clip          *)
(* semantics (the Laws), and printed as an edge for replaying on the        *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

None == <<"none">>
ZeroF == <<"zero">>
NInfF == <<"ninf">>
H0 == <<"h0">>
OpF(m, frames) == <<"f", m.id, frames>>
OpCell(m, x, h) == <<"h", m.id, x, h>>
OpOut(m, h) == <<"o", m.id, h>>
OpPos(m, pos, x) == <<"pe", m.id, pos, x>>
C == INSTANCE CoNet

Given == JsonDeserialize(IOEnv.NETS)      \* sequence of [net, chunks, cap, snap, clips]
NetIx == 1..Len(Given)
Nets == [i \in NetIx |-> C!Build(Given[i].net)]

VARIABLES
  i,      \* which network
  st,     \* its stream state
  n,      \* frames fed since the state was clean, wrapped once settled
  bits,   \* outcomes of the predicate, one per frame (networks with Conditional only)
  snap,   \* saved [st, n, bits], or << >>
  warm,   \* whether the start of the stream was made up by warming up
  lab     \* label of the last transition (not part of the state)
vars == <<i, st, n, bits, snap, warm, lab>>
View == <<i, st, n, bits, snap, warm>>

---------------------------------------------------------------------------
X(a) == <<"x", a>>
Y(j) == <<"y", j>>

RECURSIVE AgeF(_, _)
AgeF(f, d) ==
  CASE f[1] = "x" -> <<"x", f[2] + d>>
    [] f[1] = "f" -> <<"f", f[2], [j \in 1..Len(f[3]) |-> AgeF(f[3][j], d)]>>
    [] f[1] = "h" -> <<"h", f[2], AgeF(f[3], d), AgeF(f[4], d)>>
    [] f[1] = "o" -> <<"o", f[2], AgeF(f[3], d)>>
    [] f[1] = "pe" -> <<"pe", f[2], f[3], AgeF(f[4], d)>>
    [] OTHER -> f

RECURSIVE AgeS(_, _, _)
AgeS(m, s, d) ==
  CASE m.k \in {"conv", "pool", "delay", "win"} -> [s EXCEPT !.buf = [j \in 1..Len(s.buf) |-> AgeF(s.buf[j], d)]]
    [] m.k = "rnn" -> [h |-> AgeF(s.h, d)]
    [] m.k \in {"seq", "par", "br", "cond"} -> [j \in 1..Len(m.ch) |-> AgeS(m.ch[j], s[j], d)]
    [] OTHER -> s

RECURSIVE Ages(_)   \* ages of the stream frames a value depends on
Ages(f) ==
  CASE f[1] = "x" -> {f[2]}
    [] f[1] = "f" -> UNION {Ages(f[3][j]) : j \in 1..Len(f[3])}
    [] f[1] = "h" -> Ages(f[3]) \cup Ages(f[4])
    [] f[1] = "o" -> Ages(f[3])
    [] f[1] = "pe" -> Ages(f[4])
    [] f[1] = "list" -> UNION {Ages(f[j]) : j \in 2..Len(f)}
    [] OTHER -> {}

Net == Nets[i]
Cond == [j \in NetIx |-> C!HasKind(Nets[j], {"cond"})]
Unbounded == [j \in NetIx |-> C!HasKind(Nets[j], {"rnn"})]
Settled == [j \in NetIx |-> C!Settle(Nets[j]) + C!Stride(Nets[j])
                           + (IF Given[j].warm THEN C!DelayOf(Nets[j]) ELSE 0)]
Per == [j \in NetIx |-> C!LCM(C!Period(Nets[j]), C!Stride(Nets[j]))]
\* The counter wraps if the whole cycle fits under the cap; else the stream is cut off there
Wraps == [j \in NetIx |-> ~Cond[j] /\ ~Unbounded[j] /\ Settled[j] + Per[j] <= Given[j].cap]
Wrap(c) == IF Wraps[i] /\ c >= Settled[i] + Per[i]
           THEN Settled[i] + ((c - Settled[i]) % Per[i]) ELSE c
Room(c) == Wraps[i] \/ n + c <= Given[i].cap

Sws == IF Cond[i] THEN BOOLEAN ELSE {TRUE}
Hist == [j \in 1..n |-> X(n - j)]                        \* the stream so far, ages as of now
Peek(c) == [j \in 1..c |-> Y(j)]
Fresh(c) == [j \in 1..c |-> X(c - j)]                    \* a chunk, ages as of after the call
\* End padding makes sense where parallel branches give equally long clips
Pes == IF C!Aligned(Net) THEN BOOLEAN ELSE {FALSE}
Bits(sw, c) == IF Cond[i] THEN bits \o [j \in 1..c |-> sw] ELSE bits
Chunks == {Given[i].chunks[j] : j \in DOMAIN Given[i].chunks}
Clips == {Given[i].clips[j] : j \in DOMAIN Given[i].clips}

---------------------------------------------------------------------------
Init ==
  /\ i \in NetIx
  /\ st = C!InitState(Nets[i])
  /\ n = 0 /\ bits = << >> /\ snap = << >> /\ warm = FALSE
  /\ lab = [a |-> "init", c |-> 0, pe |-> FALSE, upd |-> FALSE, sw |-> TRUE, out |-> << >>, stall |-> FALSE,
            fed |-> << >>]

\* Frames handed to each child of a sequential network by a call without end padding
Counted == [j \in NetIx |-> Nets[j].k = "seq" /\ ~C!HasKind(Nets[j], {"bcast", "par", "dispatch"})]
FedBy(a, c, pe, sw) ==
  IF Counted[i] /\ a \in {"step", "steps"} /\ ~pe THEN C!Fed(Net, st, 1, Peek(c), sw) ELSE << >>

Label(a, c, pe, upd, sw, out, stall) ==
  lab' = [a |-> a, c |-> c, pe |-> pe, upd |-> upd, sw |-> sw, out |-> out, stall |-> stall,
          fed |-> FedBy(a, c, pe, sw)]

\* a single-step call
DoStep(upd, sw) ==
  LET m == Net
      r == C!Step(m, IF upd THEN AgeS(m, st, 1) ELSE st, IF upd THEN X(0) ELSE Y(1), sw)
  IN /\ upd => Room(1)
     /\ st' = IF upd THEN r[2] ELSE st
     /\ n' = IF upd THEN Wrap(n + 1) ELSE n
     /\ bits' = IF upd THEN Bits(sw, 1) ELSE bits
     /\ Label("step", 1, FALSE, upd, sw, r[1], FALSE)
     /\ UNCHANGED <<i, snap, warm>>

\* a multi-step call
DoSteps(c, pe, upd, sw) ==
  LET m == Net
      r == C!Steps(m, IF upd THEN AgeS(m, st, c) ELSE st, IF upd THEN Fresh(c) ELSE Peek(c), pe, sw)
  IN /\ upd => Room(c)
     /\ st' = IF upd THEN r.s ELSE st
     /\ n' = IF upd THEN Wrap(n + c) ELSE n
     /\ bits' = IF upd THEN Bits(sw, c) ELSE bits
     /\ Label("steps", c, pe, upd, sw, r.o, r.stall)
     /\ UNCHANGED <<i, snap, warm>>

\* a whole-clip call in the middle of the stream
DoForward(c, sw) ==
  /\ C!FwdLen(Net, c) > 0 \/ (C!FwdLen(Net, c) = 0 /\ Net.k \in {"delay", "skip"})
  /\ UNCHANGED <<i, bits, snap, warm>>
  /\ IF Net.k = "rpe" \* documented exception: reads and advances the position
     THEN /\ Label("forward", c, FALSE, FALSE, sw,
                   [t \in 1..c |-> OpPos(Net, (st.ix + t - 1) % Net.num, Y(t))], FALSE)
          /\ st' = [ix |-> (st.ix + Net.fadv) % Net.num]
          /\ n' = Wrap(n + Net.fadv)
     ELSE /\ Label("forward", c, FALSE, FALSE, sw, C!Fwd(Net, Peek(c), sw), FALSE)
          /\ UNCHANGED <<st, n>>

DoClean ==
  /\ st' = C!InitState(Net)
  /\ n' = 0 /\ bits' = << >> /\ warm' = FALSE
  /\ Label("clean", 0, FALSE, TRUE, TRUE, << >>, FALSE)
  /\ UNCHANGED <<i, snap>>

\* fills a clean network with as many padding frames as its delay
WarmFrame == IF Net.k = "pool" THEN C!FillFrame(Net.fill, ZeroF) ELSE ZeroF
DoWarm ==
  /\ Given[i].warm /\ ~Cond[i] /\ n = 0 /\ ~warm
  /\ st' = IF C!DelayOf(Net) = 0 THEN st
           ELSE C!Steps(Net, st, [j \in 1..C!DelayOf(Net) |-> WarmFrame], FALSE, TRUE).s
  /\ n' = C!DelayOf(Net) /\ warm' = TRUE
  /\ Label("warm", 0, FALSE, TRUE, TRUE, << >>, FALSE)
  /\ UNCHANGED <<i, bits, snap>>

DoSave ==
  /\ Given[i].snap
  /\ snap' = [st |-> st, n |-> n, bits |-> bits, warm |-> warm]
  /\ Label("save", 0, FALSE, FALSE, TRUE, << >>, FALSE)
  /\ UNCHANGED <<i, st, n, bits, warm>>

DoRestore ==
  /\ Given[i].snap /\ snap # << >>
  /\ st' = snap.st /\ n' = snap.n /\ bits' = snap.bits /\ warm' = snap.warm
  /\ Label("restore", 0, FALSE, TRUE, TRUE, << >>, FALSE)
  /\ UNCHANGED <<i, snap>>

\* a call whose frames are refused fails, and that is all it does
DoRefuse ==
  /\ "refuse" \in DOMAIN Given[i] /\ Given[i].refuse
  /\ Label("refuse", 0, FALSE, FALSE, TRUE, << >>, FALSE)
  /\ UNCHANGED <<i, st, n, bits, snap, warm>>

Next ==
  \/ \E upd \in BOOLEAN, sw \in Sws : DoStep(upd, sw)
  \/ \E c \in Chunks, pe \in Pes, upd \in BOOLEAN, sw \in Sws : DoSteps(c, pe, upd, sw)
  \/ \E c \in Clips, sw \in Sws : DoForward(c, sw)
  \/ DoClean
  \/ DoWarm
  \/ DoSave
  \/ DoRestore
  \/ DoRefuse

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The properties.  Laws compare a transition's outputs with the           *)
(* whole-clip semantics of history plus chunk.                             *)

\* Networks for which streaming has a whole-clip meaning
Lawful == [j \in NetIx |->
  /\ ~Cond[j]
  /\ C!FillMatches(Nets[j])
  /\ C!Aligned(Nets[j])
  /\ ~C!HasKind(Nets[j], {"skip", "par", "bcast", "dispatch", "win"})
  /\ \A x \in C!AllNodes(Nets[j]) : x.k = "br" => C!InStep(x)
  /\ \A x \in C!AllNodes(Nets[j]) : (x.k = "delay" /\ x.shrink # "no") => FALSE]
\* The same where the emission follows from other attributes: standalone windows
\* and skips, routed streams and residuals which shrink
Lawful2 == [j \in NetIx |-> Given[j].lawful]

Whole(c, upd) == [j \in 1..n |-> X(n - j + (IF upd THEN c ELSE 0))] \o (IF upd THEN Fresh(c) ELSE Peek(c))

Slice(c, pe, upd) ==
  LET f == C!Fwd(Net, Whole(c, upd), TRUE)
      to == IF pe THEN Len(f) ELSE C!Emitted(Net, n + c)
  IN SubSeq(f, C!Emitted(Net, n) + 1, to)

\* C01 C02 C03 C06 C08 C09 C11 C12: what a single-step call returns
LawStep ==
  (lab'.a = "step" /\ ~warm /\ (Lawful[i] \/ Lawful2[i])) =>
     lab'.out = (LET s == Slice(1, FALSE, lab'.upd) IN IF s = << >> THEN None ELSE s[1])

\* C03: what a multi-step call returns
LawSteps ==
  (lab'.a = "steps" /\ ~warm /\ ~lab'.pe /\ (Lawful[i] \/ Lawful2[i])) => lab'.out = Slice(lab'.c, FALSE, lab'.upd)

\* C04: what a multi-step call with end padding returns
LawPadEnd ==
  (lab'.a = "steps" /\ ~warm /\ lab'.pe /\ (Lawful[i] \/ Lawful2[i]) /\ (~lab'.stall \/ n = 0)) =>
     lab'.out = Slice(lab'.c, TRUE, lab'.upd)

\* C05: calls which must not update the state leave it alone
LawPeek ==
  (lab'.a \in {"step", "steps", "forward"} /\ ~lab'.upd /\ ~(lab'.a = "forward" /\ Net.k = "rpe")) =>
     UNCHANGED <<st, n, bits>>

\* C04: end padding leaves no trace
LawNoTrace ==
  (lab'.a = "steps" /\ lab'.upd) =>
     st' = C!Steps(Net, AgeS(Net, st, lab'.c), Fresh(lab'.c), FALSE, lab'.sw).s

\* C06: no output depends on frames older than the receptive field
LawLocal ==
  (lab'.a = "step" /\ lab'.upd /\ ~Unbounded[i] /\ ~Cond[i]) => \A a \in Ages(lab'.out) : a < C!RF(Net)

\* C07: cleaning gives a new network
LawClean == lab'.a = "clean" => st' = C!InitState(Net)

\* C19: restoring gives the saved stream
LawRestore == lab'.a = "restore" => <<st', n', bits'>> = <<snap.st, snap.n, snap.bits>>

\* C29: refused calls are as if they had not been made
LawRefuse == lab'.a = "refuse" => UNCHANGED <<st, n, bits, snap, warm>>

\* C24: after warming up, outputs come at once (as soon as the stride allows)
LawWarm ==
  (lab'.a = "step" /\ warm /\ (Lawful[i] \/ Lawful2[i])) =>
     ((lab'.out = None) <=> (C!Emitted(Net, n + 1) = C!Emitted(Net, n)))

\* C10: a top-level Conditional behaves as if each branch were alone on its frames
Sel(bs, b) == SelectSeq(bs, LAMBDA e : e = b)
LawCond ==
  (lab'.a = "step" /\ Net.k = "cond") =>
     LET b == IF lab'.sw THEN 1 ELSE 2
         now == IF lab'.upd THEN 1 ELSE 0
         ixs == SelectSeq([j \in 1..n |-> j], LAMBDA j : bits[j] = lab'.sw)
         own == [j \in 1..Len(ixs) |-> X(n - ixs[j] + now)] \o <<IF lab'.upd THEN X(0) ELSE Y(1)>>
     IN IF b > Len(Net.ch) THEN lab'.out = own[Len(own)]
        ELSE (C!FillMatches(Net) /\ C!Aligned(Net.ch[b]) /\ ~C!HasKind(Net.ch[b], {"skip", "cond", "win"})) =>
             LET e1 == C!Emitted(Net.ch[b], Len(own) - 1)
                 e2 == C!Emitted(Net.ch[b], Len(own))
             IN lab'.out = IF e2 = e1 THEN None ELSE C!Fwd(Net.ch[b], own, TRUE)[e2]

Laws == /\ LawStep /\ LawSteps /\ LawPadEnd /\ LawPeek /\ LawNoTrace
        /\ LawLocal /\ LawClean /\ LawRestore /\ LawCond /\ LawWarm /\ LawRefuse
Correct == [][Laws]_vars

\* Declared attributes agree with each other (C06)
Attributes ==
  (Lawful[i] /\ ~C!HasKind(Net, {"br", "par"})) => C!DelayOf(Net) = C!RF(Net) - 1 - C!Pad(Net)

---------------------------------------------------------------------------
(* Edges for the replay *)
Key(nn, bb, ss, ww, xx) ==
  <<nn, bb, IF ss = << >> THEN << >> ELSE <<ss.n, ss.bits, ss.warm, TLCFP(ss.st)>>, ww, TLCFP(xx)>>
Emit ==
  PrintT(<<"EDGE", ToJson([i |-> i, s |-> Key(n, bits, snap, warm, st), d |-> Key(n', bits', snap', warm', st'), l |-> lab'])>>)
RECURSIVE Parts(_)
Parts(m) == [rf |-> C!RF(m), delay |-> C!DelayOf(m), stride |-> C!Stride(m), pad |-> C!Pad(m),
             parts |-> IF m.k = "seq" \/ (m.k \in {"par", "br"} /\ ~m.auto)
                       THEN [j \in 1..Len(m.ch) |-> Parts(m.ch[j])] ELSE << >>]
Info ==
  \A j \in NetIx :
    PrintT(<<"NET", ToJson([i |-> j, init |-> Key(0, << >>, << >>, FALSE, C!InitState(Nets[j])), rf |-> C!RF(Nets[j]), delay |-> C!DelayOf(Nets[j]),
                            stride |-> C!Stride(Nets[j]), pad |-> C!Pad(Nets[j]),
                            lawful |-> (Lawful[j] \/ Lawful2[j]), wraps |-> Wraps[j],
                            settled |-> Settled[j], per |-> Per[j], aligned |-> C!Aligned(Nets[j]), parts |-> Parts(Nets[j])])>>)
ASSUME Info
=============================================================================
