------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* Conversion of torch.nn networks: what becomes of every kind of module,  *)
(* what is refused, what stays the same object.  A structure is a tree of  *)
(* modules; it (or any part of it) is converted directly or by putting it  *)
(* in a container, after any history of modules being made streamable in   *)
(* place, types being registered, and modes being set.  The laws are those *)
(* of C20 and the last of C23.                                             *)
(*                                                                         *)
(* Kinds of modules                                                        *)
(*   layer   has a continual counterpart, and settings it can follow       *)
(*   bad     of a type with a counterpart or condition, but with settings  *)
(*           that cannot be followed                                       *)
(*   plain   acts on each frame alone: made streamable in place            *)
(*   seq     a sequence: its children are converted                        *)
(*   other   not known                                                     *)
(*   custom  of a type of one's own, which can be registered               *)
(*   co      continual already                                             *)
(*   fn      a function                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.NETS)  \* sequence of sequences of [k: kind, ch: children, hand: may be made streamable by hand]; the root comes first
HMax == IF "HMAX" \in DOMAIN IOEnv THEN atoi(IOEnv.HMAX) ELSE 0
Vias == {"continual", "container", "branches", "conditional", "append", "builder"}

VARIABLES
  i,        \* which structure
  reg,      \* whether the type of one's own has been registered
  marked,   \* modules made streamable in place
  train,    \* train[n]: module n is in training mode
  res,      \* what the last conversion gave: [n, ok, out]; out[m] for all m below n: [as, same, train]
  h
vars == <<i, reg, marked, train, res, h>>
View == <<i, reg, marked, train, res>>

T == Given[i]
Nodes == DOMAIN T
Kind(n) == T[n].k
Kids(n) == ToSet(T[n].ch)
RECURSIVE Below(_)
Below(n) == {n} \cup UNION {Below(c) : c \in Kids(n)}
IsModule(n) == Kind(n) # "fn"

---------------------------------------------------------------------------
(* The conversion: in order of the children, with its effect on those that are made streamable in place *)
\* st: [ok, marked, out]; modules which are streamable already are left alone
RECURSIVE Conv(_, _), ConvAll(_, _)
Put(st, n, as, same) == [st EXCEPT !.out = @ @@ (n :> [as |-> as, same |-> same])]
Conv(n, st) ==
  IF ~st.ok THEN st
  ELSE IF n \in st.marked \/ Kind(n) = "co" THEN Put(st, n, "itself", TRUE)
  ELSE CASE Kind(n) = "layer" -> Put(st, n, "counterpart", FALSE)
         [] Kind(n) = "plain" -> [Put(st, n, "itself", TRUE) EXCEPT !.marked = @ \cup {n}]
         [] Kind(n) = "custom" -> IF reg THEN Put(st, n, "counterpart", FALSE) ELSE [st EXCEPT !.ok = FALSE]
         [] Kind(n) = "fn" -> Put(st, n, "wrapper", FALSE)
         [] Kind(n) = "seq" -> ConvAll(T[n].ch, Put(st, n, "container", FALSE))
         [] OTHER -> [st EXCEPT !.ok = FALSE]
ConvAll(ns, st) == IF ns = << >> THEN st ELSE ConvAll(Tail(ns), Conv(Head(ns), st))

Start == [ok |-> TRUE, marked |-> marked, out |-> << >>]
Converted(n) == Conv(n, Start)
Refused == [n |-> 0, ok |-> FALSE, out |-> << >>]

Init ==
  /\ i \in DOMAIN Given
  /\ reg = FALSE /\ marked = {} /\ train = [n \in DOMAIN Given[i] |-> TRUE] /\ res = Refused /\ h = << >>

Quiet == HMax > 0 => Len(h) < HMax
Note(r) == h' = IF HMax > 0 THEN Append(h, r) ELSE h

\* Made streamable by hand; a second time is harmless
Mark == Quiet /\ \E n \in Nodes :
  /\ T[n].hand
  /\ marked' = IF Kind(n) = "co" THEN marked ELSE marked \cup {n}
  /\ UNCHANGED <<i, reg, train, res>> /\ Note([a |-> "mark", n |-> n])
\* Registered with a continual type that is complete, or refused
Register == Quiet /\ \E good \in BOOLEAN :
  /\ reg' = (reg \/ good)
  /\ UNCHANGED <<i, marked, train, res>> /\ Note([a |-> "register", good |-> good])
SetMode == Quiet /\ \E n \in Nodes, b \in BOOLEAN :
  /\ IsModule(n)
  /\ train' = [m \in Nodes |-> IF m \in Below(n) THEN b ELSE train[m]]
  /\ res' = [res EXCEPT !.out = [m \in DOMAIN @ |-> IF m \in Below(n) /\ @[m].same THEN [@[m] EXCEPT !.train = b] ELSE @[m]]]
  /\ UNCHANGED <<i, reg, marked>> /\ Note([a |-> "mode", n |-> n, b |-> b])
Convert == Quiet /\ \E n \in Nodes, via \in Vias :
  LET c == Converted(n) IN
  /\ via = "builder" => Kind(n) = "seq" /\ n \notin marked  \* the container's own
  /\ marked' = c.marked
  /\ res' = IF c.ok THEN [n |-> n, ok |-> TRUE, out |-> [m \in DOMAIN c.out |-> c.out[m] @@ [train |-> train[m]]]] ELSE Refused
  /\ UNCHANGED <<i, reg, train>>
  /\ Note([a |-> "convert", n |-> n, via |-> via, ok |-> c.ok, out |-> [m \in Nodes |-> IF m \in DOMAIN res'.out THEN res'.out[m] ELSE << >>]])
\* Converting the result gives itself
Again == Quiet /\ res.ok /\ UNCHANGED <<i, reg, marked, train, res>>
         /\ \E via \in Vias \ {"builder"} : Note([a |-> "again", via |-> via])
End == HMax > 0 /\ Len(h) = HMax /\ h' = Append(h, [a |-> "end"]) /\ UNCHANGED <<i, reg, marked, train, res>>

Next == End \/ Mark \/ Register \/ SetMode \/ Convert \/ Convert \/ Again
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Can(n) == \/ n \in marked
          \/ Kind(n) \in {"layer", "plain", "co", "fn"}
          \/ Kind(n) = "custom" /\ reg
\* nothing unsupported gets through, at any depth, and nothing supported is refused
RECURSIVE AllCan(_)
AllCan(n) == Can(n) \/ (Kind(n) = "seq" /\ \A c \in Kids(n) : AllCan(c))
Exact == \A n \in Nodes : Converted(n).ok <=> AllCan(n)
\* the result has the structure of the original
Complete == \A n \in Nodes : LET c == Converted(n) IN
              c.ok => DOMAIN c.out = {m \in Below(n) : \A p \in Below(n) : m \in Below(p) /\ p # m => p \in DOMAIN c.out /\ c.out[p].as = "container"}
\* the same object exactly for what is streamable already or made so in place
Same == \A n \in Nodes : LET c == Converted(n) IN
          c.ok => \A m \in DOMAIN c.out : c.out[m].same <=> (m \in c.marked \/ Kind(m) = "co")
ModeKept == [][\A n \in Nodes : (res' # res /\ res'.ok) => \A m \in DOMAIN res'.out : (m \in DOMAIN res.out /\ res.n = res'.n) \/ res'.out[m].train = train[m]]_vars
\* conversion has no effect on the original but making plain modules streamable
Mild == [][\A n \in marked' \ marked : Kind(n) = "plain" \/ res' = res]_vars
Keeps == [][marked \subseteq marked' /\ (reg => reg')]_vars
\* converting twice is as converting once
Stable == \A n \in Nodes : LET c == Converted(n) IN c.ok => Conv(n, [Start EXCEPT !.marked = c.marked]).out = c.out

Emit == (HMax > 0 /\ Len(h') = HMax + 1) => PrintT(<<"WALK", ToJson([i |-> i, h |-> h'])>>)
=============================================================================
