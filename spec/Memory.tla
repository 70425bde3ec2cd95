------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Memory that a caller and a network both can reach.                      *)
(*                                                                         *)
(* The caller owns cells of memory.  It fills some with frames or clips of *)
(* frames, hands them to calls of the network, and gets results, which     *)
(* occupy cells, too: new ones, or, if the network passes something        *)
(* through, the cell of the argument.  All of these cells are the caller's *)
(* to reuse: he may fill a cell he handed over with the next frame, spoil  *)
(* it, spoil a result, or feed a result to the network as the next input.  *)
(*                                                                         *)
(* The network knows values only: what it returns is a function of the     *)
(* values it was fed, as they were when it was fed them, and nothing in    *)
(* the caller's cells ever changes but by the caller's doing.              *)
(*                                                                         *)
(* Networks are read from a JSON file: the kinds of input each takes       *)
(* ("frame", "chunk", "clip"), whether results can be its next input.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Given == JsonDeserialize(IOEnv.NETS)
HMax == IF "HMAX" \in DOMAIN IOEnv THEN atoi(IOEnv.HMAX) ELSE 0           \* > 0: record behaviours of that many actions
Fed == IF HMax > 0 THEN 1000000 ELSE atoi(IOEnv.FED)    \* else: bounds how much is fed
NArgs == atoi(IOEnv.ARGS)
NRes == atoi(IOEnv.RESULTS)
Args == 1..NArgs
Results == (NArgs + 1)..(NArgs + NRes)
Cells == Args \cup Results

VARIABLES i,      \* the network
          at,     \* cell -> its place in memory, 0 if none
          mem,    \* place -> its value
          kind,   \* cell -> what it is fit for
          held,   \* the network's knowledge: the values it was fed since it was clean
          n,      \* frames made so far
          made,   \* result cell -> the value it was given
          h
vars == <<i, at, mem, kind, held, n, made, h>>
View == <<i, at, mem, kind, held, n, made>>

Junk == <<"junk">>
Nothing == <<"nothing">>
Value(c) == IF at[c] = 0 THEN Nothing ELSE mem[at[c]]
Usable(c) == Value(c) \notin {Junk, Nothing}
Kinds == {Given[i].kinds[k] : k \in DOMAIN Given[i].kinds}
Ways(k) == CASE k = "frame" -> {"step"} [] k = "chunk" -> {"steps"} [] k = "clip" -> {"steps", "forward"}

Init ==
  /\ i \in DOMAIN Given
  /\ at = [c \in Cells |-> 0] /\ mem = [p \in Cells |-> Nothing] /\ kind = [c \in Cells |-> "frame"]
  /\ held = << >> /\ n = 0 /\ made = [c \in Results |-> Nothing] /\ h = << >>

Quiet == HMax > 0 => Len(h) < HMax
Note(r) == h' = IF HMax > 0 THEN Append(h, r) ELSE h

\* Every cell has a place of its own, but for results which are where the argument was
Fill == Quiet /\ n < Fed /\ \E c \in Args, k \in Kinds :
  \* filling what others share: they see it, too
  /\ LET p == IF at[c] # 0 /\ k = kind[c] THEN at[c] ELSE c IN
     /\ \A d \in Cells \ {c} : at[d] # c     \* not while somebody else is there
     /\ at' = [at EXCEPT ![c] = p]
     /\ mem' = [mem EXCEPT ![p] = <<"x", n + 1>>]
  /\ kind' = [kind EXCEPT ![c] = k] /\ n' = n + 1
  /\ UNCHANGED <<i, held, made>> /\ Note([a |-> "fill", c |-> c, kind |-> k])
Spoil == Quiet /\ \E c \in Cells :
  /\ Usable(c)
  /\ mem' = [mem EXCEPT ![at[c]] = Junk]
  /\ UNCHANGED <<i, at, kind, held, n, made>> /\ Note([a |-> "spoil", c |-> c])
Call == Quiet /\ Len(held) < Fed /\ \E c \in Cells, r \in Results, upd \in BOOLEAN, pe \in BOOLEAN :
  \E way \in Ways(kind[c]) :
  /\ Usable(c) /\ c # r
  /\ c \in Results => Given[i].again
  /\ pe => (way = "steps" /\ Given[i].pads)
  /\ way = "forward" => upd
  /\ LET now == IF way = "forward" THEN << <<way, Value(c)>> >> ELSE Append(held, <<way, Value(c)>>)
         v == <<"r", now, pe>>
     IN
     /\ held' = IF way = "forward" \/ ~upd THEN held ELSE now
     /\ made' = [made EXCEPT ![r] = v]
     /\ kind' = [kind EXCEPT ![r] = kind[c]]
     /\ \/ /\ \A d \in Cells \ {r} : at[d] # r
           /\ at' = [at EXCEPT ![r] = r]
           /\ mem' = [mem EXCEPT ![r] = v]
        \/ /\ HMax = 0 /\ Given[i].passes            \* handed through
           /\ at' = [at EXCEPT ![r] = at[c]]
           /\ made' = [made EXCEPT ![r] = Value(c)]
           /\ UNCHANGED mem
  /\ UNCHANGED <<i, n>>
  /\ Note([a |-> "call", c |-> c, r |-> r, way |-> way, upd |-> upd, pe |-> pe])
Clean == Quiet /\ held' = << >> /\ UNCHANGED <<i, at, mem, kind, n, made>> /\ Note([a |-> "clean"])
End == HMax > 0 /\ Len(h) = HMax /\ h' = Append(h, [a |-> "end"]) /\ UNCHANGED <<i, at, mem, kind, held, n, made>>

Next == End \/ Fill \/ Fill \/ Spoil \/ Call \/ Call \/ Call \/ (Clean /\ (HMax > 0 => Len(h) % 4 = 0))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
RECURSIVE Pure(_)
Pure(v) == CASE v[1] = "junk" -> FALSE
             [] v[1] = "r" -> \A k \in DOMAIN v[2] : Pure(v[2][k][2])
             [] OTHER -> TRUE
\* what a network knows does not change under it, and nothing spoilt gets into it or into a result
Kept == \A k \in DOMAIN held : Pure(held[k][2])
\* a result is what it was made, unless the caller wrote over it
Stays == \A r \in Results : at[r] = r => Value(r) \in {made[r], Junk}
\* what a call returns depends on what it is fed, not on where that is
Fresh == \A r \in Results : at[r] = r /\ Value(r) # Junk => Pure(Value(r))
\* the caller's cells change by what the caller does only: a call writes nothing but its result
Frugal == [][\A p \in Cells : made' # made /\ mem'[p] # mem[p] => \E r \in Results : at'[r] = p /\ made'[r] = mem'[p]]_vars

Emit == (HMax > 0 /\ Len(h') = HMax + 1) => PrintT(<<"WALK", ToJson([i |-> i, h |-> h'])>>)
=============================================================================
