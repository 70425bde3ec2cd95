------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Are recorded executions of the real modules behaviours of the           *)
(* specification?  The modules were given integer weights and integer      *)
(* frames, so that CoNet's operators, here with integers for frames,       *)
(* compute every output exactly: no other oracle is involved.              *)
(*                                                                         *)
(* A trace is a record [net, ops, evs].  ops[id] is the function of the    *)
(* node with that id.  An event e is a call with its outcome: e.a the      *)
(* call, e.xs its frames, e.pe and e.upd its flags, e.sw the predicate of  *)
(* conditionals, e.out the frames that came out.                           *)
(* The verdict is total: each trace ends as accepted, or as rejected with  *)
(* the event and what the specification allows instead.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.NETS)

VARIABLES
  tr, l,        \* which trace, and the next event
  st, snap,     \* the state of the stream; the state saved last
  ex,           \* the state which a second stream passes in and takes out explicitly
  why           \* empty, "accepted", or why not
vars == <<tr, l, st, snap, ex, why>>

V(x) == <<"v", x>>
None == <<"none">>
ZeroF == V(0)
NInfF == V(-1000000000)
H0 == V(0)
Ops == Given[tr].ops

RECURSIVE Sum(_, _), Prod(_, _), Most(_, _)
Sum(f, j) == IF j = 0 THEN 0 ELSE f[j] + Sum(f, j - 1)
Prod(f, j) == IF j = 0 THEN 1 ELSE f[j] * Prod(f, j - 1)
Most(f, j) == IF j = 1 THEN f[1] ELSE LET r == Most(f, j - 1) IN IF f[j] > r THEN f[j] ELSE r
Relu(x) == IF x > 0 THEN x ELSE 0

OpF(m, frames) ==
  LET o == Ops[m.id]
      f == [j \in 1..Len(frames) |-> frames[j][2]]
      N == Len(f)
  IN V(CASE o.op = "lin" -> Sum([j \in 1..N |-> o.w[j] * f[j]], N) + o.b
         [] o.op = "avg" -> Sum(f, N) \div N        \* the recorder sees to it that this is exact
         [] o.op = "max" -> Most(f, N)
         [] o.op = "sum" -> Sum(f, N)
         [] o.op = "mul" -> Prod(f, N)
         [] o.op = "first_minus_rest" -> 2 * f[1] - Sum(f, N)
         [] o.op = "relu" -> Relu(f[1]))
OpCell(m, x, h) == LET o == Ops[m.id] IN V(Relu(o.w[1] * x[2] + o.w[2] * h[2] + o.b))
OpOut(m, h) == h
OpPos(m, pos, x) == V(Ops[m.id].w[pos + 1] + x[2])
C == INSTANCE CoNet

Nets == [j \in 1..Len(Given) |-> C!Build(Given[j].net)]
Net == Nets[tr]
Evs == Given[tr].evs
E == Evs[l]
Frames(xs) == [j \in 1..Len(xs) |-> V(xs[j])]
Shown(fs) == [j \in 1..Len(fs) |-> fs[j][2]]
Attrs(m) == <<C!RF(m), C!Stride(m), C!Pad(m), C!DelayOf(m)>>

Init ==
  /\ tr \in 1..Len(Given)
  /\ l = 1 /\ why = "" /\ snap = << >>
  /\ st = C!InitState(Nets[tr]) /\ ex = st

\* an event is consumed if its outcome is the specification's; otherwise the trace is rejected here
OutcomeX(clause, expected, next, nsnap, nex) ==
  /\ IF E.out = expected THEN why' = "" /\ l' = l + 1 /\ st' = next /\ snap' = nsnap /\ ex' = nex
     ELSE /\ why' = clause /\ UNCHANGED <<l, st, snap, ex>>
          /\ PrintT(<<"TRACE", ToJson([tr |-> tr, ok |-> FALSE, at |-> l, clause |-> clause, expected |-> expected])>>)
  /\ UNCHANGED tr

Outcome(clause, expected, next, nsnap) == OutcomeX(clause, expected, next, nsnap, ex)

IsEvent(a) == why = "" /\ l <= Len(Evs) /\ E.a = a

DoAttrs == IsEvent("attrs") /\ Outcome("the declared receptive field, stride, padding and delay", Attrs(Net), st, snap)

DoStep ==
  /\ IsEvent("step")
  /\ LET r == C!Step(Net, st, V(E.xs[1]), E.sw) IN
     Outcome("the output of a single-step call", IF r[1] = None THEN << >> ELSE Shown(<<r[1]>>),
             IF E.upd THEN r[2] ELSE st, snap)

DoSteps ==
  /\ IsEvent("steps")
  /\ LET r == C!Steps(Net, st, Frames(E.xs), E.pe, E.sw) IN
     \* what end padding completes is undefined where some module had nothing to hand on; the state is not
     IF E.pe /\ (~C!Aligned(Net) \/ r.stall)
     THEN /\ why' = "" /\ l' = l + 1 /\ st' = (IF E.upd THEN r.s ELSE st) /\ UNCHANGED <<tr, snap, ex>>
     ELSE Outcome("the outputs of a multi-step call", IF E.err THEN Append(Shown(r.o), 0) ELSE Shown(r.o), IF E.upd THEN r.s ELSE st, snap)

DoForward ==
  /\ IsEvent("forward")
  /\ Outcome("the outputs of a whole-clip call", Shown(C!Fwd(Net, Frames(E.xs), E.sw)), st, snap)

DoClean == IsEvent("clean") /\ Outcome("cleaning", << >>, C!InitState(Net), snap)
DoSave == IsEvent("save") /\ Outcome("saving the state", << >>, st, st)
DoRestore == IsEvent("restore") /\ Outcome("restoring the state", << >>, snap, snap)
DoCopy == IsEvent("copy") /\ Outcome("copying", << >>, st, snap)

\* a step of the second stream, whose state is explicit; and its start
DoExplicit ==
  /\ IsEvent("explicit")
  /\ LET r == C!Step(Net, ex, V(E.xs[1]), E.sw) IN
     OutcomeX("the output of a step with explicit state", IF r[1] = None THEN << >> ELSE Shown(<<r[1]>>), st, snap, r[2])
DoFresh == IsEvent("fresh") /\ OutcomeX("starting a stream with explicit state", << >>, st, snap, C!InitState(Net))

\* warming up a clean network: as many padding frames as its delay
WarmFrame == IF Net.k = "pool" THEN C!FillFrame(Net.fill, ZeroF) ELSE ZeroF
DoWarm ==
  /\ IsEvent("warm")
  /\ Outcome("warming up", << >>,
             IF C!DelayOf(Net) = 0 THEN st
             ELSE C!Steps(Net, st, [j \in 1..C!DelayOf(Net) |-> WarmFrame], FALSE, TRUE).s, snap)

Accept ==
  /\ why = "" /\ l = Len(Evs) + 1
  /\ why' = "accepted"
  /\ PrintT(<<"TRACE", ToJson([tr |-> tr, ok |-> TRUE])>>)
  /\ UNCHANGED <<tr, l, st, snap, ex>>

Next == DoAttrs \/ DoExplicit \/ DoFresh \/ DoWarm \/ DoStep \/ DoSteps \/ DoForward \/ DoClean \/ DoSave \/ DoRestore \/ DoCopy \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
