------------------------------ MODULE CallMode ------------------------------
(***************************************************************************)
(* Which processing a call runs: a tree of modules, each with a mode of    *)
(* its own, and a stack of call-mode contexts.                             *)
(*                                                                         *)
(* The machine is that of the library: the context object keeps a current  *)
(* and a previous mode and a list of outer ones; a container running in    *)
(* some mode gives its child that mode temporarily (which, the child being *)
(* a container, sets the modes of its children as well), enters a further   *)
(* context if one is active, calls the child and undoes both; a leaf may    *)
(* fail, which unwinds all containers.  The laws say what a user sees:      *)
(* the leaves that run, their order and their mode; what becomes of the     *)
(* input (hooks may replace it, or the output, also where there is none);   *)
(* and that contexts and own modes are afterwards what the user made them   *)
(* (ghost variables).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.NETS)     \* a sequence of trees; a tree is a sequence of nodes [k, kids, sel, hook, pre, grad, pgrad]
HMax == IF "HMAX" \in DOMAIN IOEnv THEN atoi(IOEnv.HMAX) ELSE 0       \* record behaviours of this length
CMax == atoi(IOEnv.CMAX)                 \* contexts nested at most this deep
Modes == 0..2                            \* forward, forward_steps, forward_step
NoMode == 9
PreHook == 8
(* Hooks: 0 none, 1 one that watches, 2 one that replaces.  Values are sums of what the replacing hooks added, *)
(* which tells the hooks a value went through.  A mute leaf has no output except in whole clips.                *)
(* The hooks of gradients (grad: after those of the input are known, pgrad: when those of the output arrive)   *)
(* run when the caller differentiates what was returned, if it depends on the module; 2: they double it.        *)
None == -1

VARIABLES
  i,                    \* which tree
  own,                  \* own mode of each node
  cur, prev, outer,     \* the context object
  frames,               \* containers and leaves being run, innermost last
  boom,                 \* the leaf that fails in the present call, or 0
  fail,                 \* whether an error is under way
  ran,                  \* what ran in the present or latest call: <<node, mode>> for leaves, <<node, NoMode>> or
                        \* <<node, PreHook>> for hooks
  ret,                  \* the value returned latest
  tape,                 \* the hooks which differentiating it runs: <<node, 1>> as its output is reached, <<node, 0>> its input
  gown, gctx, want, wval, wtape,   \* ghosts: what the user set, the contexts the user entered, what should run and be returned
  h                     \* the history of what the user did, if recorded
vars == <<i, own, cur, prev, outer, frames, boom, fail, ran, ret, tape, gown, gctx, want, wval, wtape, h>>
View == <<i, own, cur, prev, outer, frames, boom, fail, ran, ret, tape, gown, gctx, want, wval, wtape>>

Tree == Given[i]
Nodes == 1..Len(Tree)
K(x) == Tree[x].k
IsLeaf(x) == K(x) \in {"probe", "plain", "mute"}
Kids(x) == Tree[x].kids
RECURSIVE Below(_)       \* a node and all below
Below(x) == {x} \cup UNION {Below(Kids(x)[j]) : j \in 1..Len(Kids(x))}
RECURSIVE Listed(_)      \* a node and all that setting its mode reaches: a conditional does not list its branches
Listed(x) == IF K(x) = "cond" THEN {x} ELSE {x} \cup UNION {Listed(Kids(x)[j]) : j \in 1..Len(Kids(x))}
Open == Listed(1)        \* the nodes a user handles in person
Runs(x) == IF K(x) = "cond" THEN (IF Tree[x].sel = 0 THEN << >> ELSE <<Kids(x)[Tree[x].sel]>>) ELSE Kids(x)

---------------------------------------------------------------------------
(* What a user expects *)
PreAdds(x) == IF Tree[x].pre = 2 THEN 4^(x - 1) ELSE 0
PostAdds(x, v, inp) == IF Tree[x].hook = 2 THEN (IF v = None THEN inp ELSE v) + 2 * 4^(x - 1) ELSE v
PreRan(x) == IF Tree[x].pre > 0 THEN <<<<x, PreHook>>>> ELSE << >>
PostRan(x) == IF Tree[x].hook > 0 THEN <<<<x, NoMode>>>> ELSE << >>
\* differentiating what a call returned, where r says what the module did: a hook may have put the input in place of no output
Taped(x, val, t) ==
  (IF Tree[x].pgrad > 0 THEN <<<<x, 1>>>> ELSE << >>) \o (IF val = None THEN << >> ELSE t) \o (IF Tree[x].grad > 0 THEN <<<<x, 0>>>> ELSE << >>)
Gain(t) ==
  LET doubles(e) == IF e[2] = 1 THEN Tree[e[1]].pgrad = 2 ELSE Tree[e[1]].grad = 2
  IN 2^Cardinality({j \in 1..Len(t) : doubles(t[j])})
LeafVal(x, m, v) == IF K(x) = "mute" /\ m # 0 THEN None ELSE v

\* what runs when node x is run in mode m on the value v, and what it returns; called: through __call__, so that hooks run
RECURSIVE Expect(_, _, _, _)
RECURSIVE ExpectSeq(_, _, _)
RECURSIVE ExpectBr(_, _, _)
Expect(x, m, called, v) ==
  LET v1 == IF called THEN v + PreAdds(x) ELSE v
      r == IF IsLeaf(x) THEN [ran |-> <<<<x, m>>>>, val |-> LeafVal(x, m, v1), tape |-> << >>]
           ELSE IF K(x) = "seq" THEN ExpectSeq(Kids(x), m, v1)
           ELSE IF K(x) = "br" THEN LET b == ExpectBr(Kids(x), m, v1) IN
                                    [ran |-> b.ran, val |-> IF \E j \in 1..Len(b.vals) : b.vals[j] = None THEN None ELSE b.vals[1],
                                     tape |-> b.tape]
           ELSE IF Runs(x) = << >> THEN [ran |-> << >>, val |-> v1, tape |-> << >>]
           ELSE Expect(Runs(x)[1], m, m = 0, v1)
  IN IF ~called THEN r ELSE [ran |-> PreRan(x) \o r.ran \o PostRan(x), val |-> PostAdds(x, r.val, v1), tape |-> Taped(x, r.val, r.tape)]
ExpectSeq(xs, m, v) ==
  IF xs = << >> \/ v = None THEN [ran |-> << >>, val |-> v, tape |-> << >>]
  ELSE LET a == Expect(xs[1], m, TRUE, v)
           b == ExpectSeq(Tail(xs), m, a.val)
       IN [ran |-> a.ran \o b.ran, val |-> b.val, tape |-> b.tape \o a.tape]
ExpectBr(xs, m, v) ==
  IF xs = << >> THEN [ran |-> << >>, vals |-> << >>, tape |-> << >>]
  ELSE LET a == Expect(xs[1], m, TRUE, v)
           b == ExpectBr(Tail(xs), m, v)
       IN [ran |-> a.ran \o b.ran, vals |-> <<a.val>> \o b.vals, tape |-> a.tape]    \* the first branch is what is returned

\* up to the failing leaf; the hooks of containers that were left by the error do not run
Upto(s, b) ==
  LET at(j) == s[j][1] = b /\ s[j][2] \in Modes IN
  IF b = 0 \/ ~\E j \in 1..Len(s) : at(j) THEN s ELSE SubSeq(s, 1, CHOOSE j \in 1..Len(s) : at(j))

InForce(x) == IF gctx = << >> THEN gown[x] ELSE gctx[Len(gctx)]

---------------------------------------------------------------------------
(* The machine *)
Eff(x) == IF prev = NoMode THEN own[x] ELSE cur

Init ==
  /\ i \in 1..Len(Given)
  /\ own = [x \in Nodes |-> 0] /\ gown = own
  /\ cur = 0 /\ prev = NoMode /\ outer = << >> /\ gctx = << >>
  /\ frames = << >> /\ boom = 0 /\ fail = FALSE /\ ran = << >> /\ want = << >> /\ h = << >>
  /\ ret = 0 /\ wval = 0 /\ tape = << >> /\ wtape = << >>

Quiet == frames = << >> /\ (HMax > 0 => Len(h) < HMax)    \* no call under way
Note(r) == h' = IF HMax > 0 THEN Append(h, r @@ [own |-> own', ran |-> ran', ret |-> ret', back |-> tape', gain |-> Gain(tape'), fail |-> fail']) ELSE h

EnterWith(m) ==
  /\ Len(gctx) < CMax
  /\ outer' = Append(outer, <<cur, prev>>) /\ prev' = cur /\ cur' = m
  /\ gctx' = Append(gctx, m)
  /\ ran' = << >> /\ want' = << >> /\ fail' = FALSE /\ ret' = 0 /\ wval' = 0 /\ tape' = << >> /\ wtape' = << >>
  /\ UNCHANGED <<i, own, gown, frames, boom>>
  /\ Note([a |-> "enter", m |-> m])
Enter == Quiet /\ \E m \in Modes : EnterWith(m)

\* leaving the q innermost contexts, in order or by one error
Leave ==
  /\ Quiet /\ gctx # << >>
  /\ \E q \in 1..Len(gctx), err \in BOOLEAN :
       LET o == outer[Len(outer) - q + 1] IN
       /\ cur' = o[1] /\ prev' = o[2] /\ outer' = SubSeq(outer, 1, Len(outer) - q)
       /\ gctx' = SubSeq(gctx, 1, Len(gctx) - q)
       /\ ran' = << >> /\ want' = << >> /\ fail' = FALSE /\ ret' = 0 /\ wval' = 0 /\ tape' = << >> /\ wtape' = << >>
       /\ UNCHANGED <<i, own, gown, frames, boom>>
       /\ Note([a |-> "leave", q |-> q, err |-> err])

SetMode ==
  /\ Quiet
  /\ \E x \in Open, m \in Modes :
       /\ own' = [y \in Nodes |-> IF y \in Listed(x) THEN m ELSE own[y]]
       /\ gown' = [y \in Nodes |-> IF y \in Listed(x) THEN m ELSE gown[y]]
       /\ ran' = << >> /\ want' = << >> /\ fail' = FALSE /\ ret' = 0 /\ wval' = 0 /\ tape' = << >> /\ wtape' = << >>
       /\ UNCHANGED <<i, cur, prev, outer, gctx, frames, boom>>
       /\ Note([a |-> "set", x |-> x, m |-> m])

\* an unknown mode is refused: for a context (x = 0) or a module
Refused ==
  /\ Quiet
  /\ \E x \in {0} \cup {y \in Open : K(y) # "plain"} :
       /\ ran' = << >> /\ want' = << >> /\ fail' = FALSE /\ ret' = 0 /\ wval' = 0 /\ tape' = << >> /\ wtape' = << >>
       /\ UNCHANGED <<i, own, gown, cur, prev, outer, gctx, frames, boom>>
       /\ Note([a |-> "refused", x |-> x])

Frame(x, m, called, v) ==
  [x |-> x, m |-> m, called |-> called, k |-> 1, saved |-> << >>, pushed |-> FALSE,
   inp |-> IF called THEN v + PreAdds(x) ELSE v, outs |-> << >>, tapes |-> << >>]
\* a module is called: its pre-hooks run first
Begin(x, called) == IF called THEN PreRan(x) ELSE << >>

\* via: 0, 1, 2 name a method, 3 is a call.  A plain module has but one whole-clip method, which is its call.
Call ==
  /\ Quiet
  /\ \E x \in Open, via \in 0..3, b \in {0} \cup {y \in Nodes : IsLeaf(y)} :
       /\ b # 0 => b \in Below(x)
       /\ (K(x) = "plain" /\ via = 0) => Eff(x) = 0
       /\ LET m == IF via = 3 THEN Eff(x) ELSE via
              w == Expect(x, IF via = 3 THEN InForce(x) ELSE via, via = 3, 0)
          IN /\ b # 0 => \E j \in 1..Len(w.ran) : w.ran[j][1] = b
             /\ frames' = <<Frame(x, m, via = 3, 0)>>
             /\ ran' = Begin(x, via = 3)
             /\ want' = Upto(w.ran, b)
             /\ wval' = w.val /\ wtape' = w.tape
             /\ boom' = b
             /\ h' = IF HMax > 0 THEN Append(h, [a |-> "call", x |-> x, via |-> via, boom |-> b]) ELSE h
  /\ fail' = FALSE /\ ret' = 0 /\ tape' = << >>
  /\ UNCHANGED <<i, own, gown, cur, prev, outer, gctx>>

Top == frames[Len(frames)]
Under == SubSeq(frames, 1, Len(frames) - 1)

RunLeaf ==
  /\ frames # << >> /\ IsLeaf(Top.x) /\ ~fail
  /\ LET t == Top
         ok == boom # t.x
         v == LeafVal(t.x, t.m, t.inp)
     IN /\ ran' = (ran \o <<<<t.x, t.m>>>>) \o (IF ok /\ t.called THEN PostRan(t.x) ELSE << >>)
        /\ ret' = IF t.called THEN PostAdds(t.x, v, t.inp) ELSE v
        /\ tape' = IF t.called THEN Taped(t.x, v, << >>) ELSE << >>
        /\ fail' = ~ok
  /\ frames' = Under
  /\ UNCHANGED <<i, own, gown, cur, prev, outer, gctx, boom, want, wval, wtape>>
  /\ h' = IF HMax > 0 /\ frames' = << >>
          THEN [h EXCEPT ![Len(h)] = @ @@ [own |-> own', ran |-> ran', ret |-> ret', back |-> tape', gain |-> Gain(tape'), fail |-> fail']] ELSE h

\* a sequence ends where there is nothing to hand on; all branches run
Over(t) == t.k > Len(Runs(t.x)) \/ (K(t.x) = "seq" /\ t.k > 1 /\ t.outs[t.k - 1] = None)
Given2(t) == IF K(t.x) = "seq" /\ t.k > 1 THEN t.outs[t.k - 1] ELSE t.inp

\* a container is about to run its k-th child: lend it the mode
Descend ==
  /\ frames # << >> /\ ~IsLeaf(Top.x) /\ ~fail /\ Top.saved = << >> /\ ~Over(Top)
  /\ LET t == Top
         c == Runs(t.x)[t.k]
         lend == K(t.x) # "cond" \/ t.m = 0     \* a conditional names the method of its branch otherwise
         inctx == lend /\ prev # NoMode
         own2 == IF lend THEN [y \in Nodes |-> IF y \in Listed(c) THEN t.m ELSE own[y]] ELSE own
         cm == IF ~lend THEN t.m ELSE IF inctx THEN t.m ELSE own2[c]
     IN /\ own' = own2
        /\ IF inctx THEN outer' = Append(outer, <<cur, prev>>) /\ prev' = cur /\ cur' = t.m
           ELSE UNCHANGED <<cur, prev, outer>>
        /\ frames' = Append(Append(Under, [t EXCEPT !.saved = <<own>>, !.pushed = inctx]), Frame(c, cm, lend, Given2(t)))
        /\ ran' = ran \o Begin(c, lend)
  /\ UNCHANGED <<i, gown, gctx, boom, fail, ret, tape, want, wval, wtape, h>>

\* the child is done, or failed: take everything back
Ascend ==
  /\ frames # << >> /\ ~IsLeaf(Top.x) /\ Top.saved # << >>
  /\ LET t == Top IN
     /\ own' = t.saved[1]
     /\ IF t.pushed
        THEN LET o == outer[Len(outer)] IN cur' = o[1] /\ prev' = o[2] /\ outer' = SubSeq(outer, 1, Len(outer) - 1)
        ELSE UNCHANGED <<cur, prev, outer>>
     /\ frames' = IF fail THEN Under ELSE Append(Under, [t EXCEPT !.saved = << >>, !.pushed = FALSE, !.k = @ + 1, !.outs = Append(@, ret), !.tapes = Append(@, tape)])
  /\ UNCHANGED <<i, gown, gctx, boom, fail, ran, ret, tape, want, wval, wtape>>
  /\ h' = IF HMax > 0 /\ frames' = << >>
          THEN [h EXCEPT ![Len(h)] = @ @@ [own |-> own', ran |-> ran', ret |-> ret', back |-> tape', gain |-> Gain(tape'), fail |-> fail']] ELSE h

RECURSIVE Back(_)        \* the tapes of what ran, latest first
Back(ts) == IF ts = << >> THEN << >> ELSE Back(Tail(ts)) \o ts[1]

Finish ==
  /\ frames # << >> /\ ~IsLeaf(Top.x) /\ ~fail /\ Top.saved = << >> /\ Over(Top)
  /\ ran' = ran \o (IF Top.called THEN PostRan(Top.x) ELSE << >>)
  /\ LET t == Top
         v == IF t.outs = << >> THEN t.inp
              ELSE IF K(t.x) = "br" THEN (IF \E j \in 1..Len(t.outs) : t.outs[j] = None THEN None ELSE t.outs[1])
              ELSE t.outs[Len(t.outs)]
         b == IF t.tapes = << >> THEN << >>
              ELSE IF K(t.x) = "br" THEN t.tapes[1]
              ELSE Back(t.tapes)
     IN /\ ret' = IF t.called THEN PostAdds(t.x, v, t.inp) ELSE v
        /\ tape' = IF t.called THEN Taped(t.x, v, b) ELSE b
  /\ frames' = Under
  /\ UNCHANGED <<i, own, gown, cur, prev, outer, gctx, boom, fail, want, wval, wtape>>
  /\ h' = IF HMax > 0 /\ frames' = << >>
          THEN [h EXCEPT ![Len(h)] = @ @@ [own |-> own', ran |-> ran', ret |-> ret', back |-> tape', gain |-> Gain(tape'), fail |-> fail']] ELSE h

\* the end of a recorded behaviour
End ==
  /\ HMax > 0 /\ frames = << >> /\ Len(h) = HMax
  /\ h' = Append(h, [a |-> "end", own |-> own])
  /\ UNCHANGED <<i, own, gown, cur, prev, outer, gctx, frames, boom, fail, ran, ret, tape, want, wval, wtape>>

Next == End \/ Enter \/ Leave \/ SetMode \/ Refused \/ Call \/ RunLeaf \/ Descend \/ Ascend \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(RunLeaf \/ Descend \/ Ascend \/ Finish)

---------------------------------------------------------------------------
(* Laws *)
Restored ==          \* between calls, every mode is what the user made it
  frames = << >> =>
    /\ \A x \in Open : own[x] = gown[x]
    /\ gctx = << >> => prev = NoMode
    /\ gctx # << >> => prev # NoMode /\ cur = gctx[Len(gctx)]
    /\ Len(outer) = Len(gctx)
RanAsExpected == frames = << >> => ran = want
ReturnedAsExpected == frames = << >> /\ ~fail => ret = wval
DifferentiatedAsExpected == frames = << >> /\ ~fail /\ ret # None => tape = wtape
OnceEach ==              \* a hook runs once per run of its module
  frames = << >> => \A x \in Nodes, b \in {0, 1} : Cardinality({j \in 1..Len(tape) : tape[j] = <<x, b>>}) <= 1
Prefix == \A j \in 1..Len(ran) : j <= Len(want) /\ ran[j] = want[j]     \* also on the way
Failing == frames = << >> /\ want # << >> => (fail <=> boom # 0)
CallsEnd == []<>(frames = << >>)

Emit == (HMax > 0 /\ Len(h') = HMax + 1) => PrintT(<<"WALK", ToJson([i |-> i, h |-> h'])>>)
=============================================================================
