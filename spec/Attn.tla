------------------------------- MODULE Attn --------------------------------
(***************************************************************************)
(* Continual multi-head attention and transformer encoders.                *)
(*                                                                         *)
(* The incremental algorithms (rolling key/value/query memories, the       *)
(* retroactive update of numerators and denominators, the residual delay   *)
(* lines of the encoder layers) are modelled with symbolic tokens and with *)
(* bags of attention contributions, and checked against what they have to  *)
(* compute: attention over exactly the last L tokens.                      *)
(*                                                                         *)
(* Tokens: <<"x", a>> the stream token a steps ago, <<"y", j>> a token of  *)
(* a call which must not update the state, Z the zero of unfilled memory.  *)
(* Values: <<"att", q, ks>> attention of query token q over tokens ks;     *)
(* <<"row", l, x, q, ws>> encoder layer l at x attending over ws.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

None == <<"none">>      \* as printed
Nil == << >>            \* no output
Z == <<"z", 0>>
One == <<"one", 0>>
X(a) == <<"x", a>>
Y(j) == <<"y", j>>

\* [kind, L, qi, layers, chunks, clips, cap, snap]
\* kind: "single", "retro" (attention); "slayer", "rlayer" (encoder layers); "stack"
Given == JsonDeserialize(IOEnv.NETS)
NetIx == 1..Len(Given)

VARIABLES i, st, n, snap, lab
vars == <<i, st, n, snap, lab>>
View == <<i, st, n, snap>>

Net == Given[i]
L == Net.L
\* steps between the newest token and the query's position in the window
Back == IF Net.qi >= 0 THEN L - 1 - Net.qi ELSE -Net.qi - 1
IsRetro(m) == m.kind = "retro" \/ m.kind = "rlayer" \/ (m.kind = "stack" /\ m.layers > 1)
IsLayer(m) == m.kind \in {"slayer", "rlayer", "stack"}

Const(k, v) == [j \in 1..k |-> v]
Shift(s, v) == IF s = << >> THEN << >> ELSE Append(Tail(s), v)

---------------------------------------------------------------------------
(* Bags of contributions: functions to non-zero integers                   *)
NoBag == [e \in {} |-> 0]
Plus(b, e, c) ==
  LET v == (IF e \in DOMAIN b THEN b[e] ELSE 0) + c
  IN IF v = 0 THEN [x \in DOMAIN b \ {e} |-> b[x]] ELSE (e :> v) @@ b
RECURSIVE PlusAll(_, _)
PlusAll(b, es) == IF es = << >> THEN b ELSE PlusAll(IF Head(es) = << >> THEN b ELSE Plus(b, Head(es), 1), Tail(es))
Sub(b, e) == IF e = << >> THEN b ELSE Plus(b, e, -1)
Add(b, e) == IF e = << >> THEN b ELSE Plus(b, e, 1)
\* exp(q k) is one whenever one of them is zero; a zero value adds nothing
Weight(q, k) == IF q = Z \/ k = Z THEN <<One, One>> ELSE <<q, k>>
Contrib(q, k, v) == IF v = Z THEN << >> ELSE IF q = Z \/ k = Z THEN <<One, One, v>> ELSE <<q, k, v>>

---------------------------------------------------------------------------
Mem0(m) ==
  LET nq == IF IsRetro(m) THEN m.L - 1
            ELSE IF m.qi >= 0 THEN m.L - m.qi - 1 ELSE -m.qi - 1
  IN [Q |-> Const(nq, Z), K |-> Const(m.L, Z), V |-> Const(m.L, Z),
      d |-> IF IsRetro(m) THEN Const(m.L - 1, NoBag) ELSE << >>,
      av |-> IF IsRetro(m) THEN Const(m.L - 1, NoBag) ELSE << >>,
      ix |-> -m.L,
      r |-> << >>, rx |-> 0]          \* residual: ring and index
Off == [off |-> TRUE]

\* one token through single-output attention: <<output, memory>>
SingleStep(s, x) ==
  LET q == IF s.Q = << >> THEN x ELSE s.Q[1]
      K == Shift(s.K, x)
      V == Shift(s.V, x)
      ix == IF s.ix < 0 THEN s.ix + 1 ELSE s.ix
  IN <<IF ix < 0 THEN Nil ELSE <<"att", q, K>>,
       [s EXCEPT !.Q = Shift(s.Q, x), !.K = K, !.V = V, !.ix = ix]>>

\* one token through retroactive attention: <<rows of <<query, denominator, numerator>>, memory>>
RetroStep(s, x) ==
  LET k0 == s.K[1]
      v0 == s.V[1]
      K == Shift(s.K, x)
      V == Shift(s.V, x)
      Q == Shift(s.Q, x)
      top(j) == [q |-> s.Q[j],
                 d |-> Add(Sub(s.d[j], Weight(s.Q[j], k0)), Weight(s.Q[j], x)),
                 av |-> Add(Sub(s.av[j], Contrib(s.Q[j], k0, v0)), Contrib(s.Q[j], x, x))]
      bottom == [q |-> x,
                 d |-> PlusAll(NoBag, [t \in 1..L |-> Weight(x, K[t])]),
                 av |-> PlusAll(NoBag, [t \in 1..L |-> Contrib(x, K[t], V[t])])]
      rows == [j \in 1..L |-> IF j < L THEN top(j) ELSE bottom]
      ix == IF s.ix < 0 THEN s.ix + 1 ELSE s.ix
  IN <<IF ix < 0 THEN Nil ELSE rows,
       [s EXCEPT !.Q = Q, !.K = K, !.V = V, !.ix = ix,
                 !.d = [j \in 1..(L - 1) |-> rows[j + 1].d],
                 !.av = [j \in 1..(L - 1) |-> rows[j + 1].av]]>>

\* A row which carries exactly one contribution of every token of its window is attention over it
RowValue(row, ws) ==
  IF /\ row.d = PlusAll(NoBag, [t \in 1..L |-> Weight(row.q, ws[t])])
     /\ row.av = PlusAll(NoBag, [t \in 1..L |-> Contrib(row.q, ws[t], ws[t])])
     /\ row.q # Z
  THEN <<"att", row.q, ws>> ELSE <<"bad", row>>

\* residual of a single-output layer: delays by Back
DelayStep(s, x) ==
  IF Back = 0 THEN <<x, s>>
  ELSE LET s1 == IF s.r = << >> THEN [s EXCEPT !.r = Const(Back, Z), !.rx = -Back] ELSE s
           nx == s1.rx + 1
       IN <<IF s1.rx >= 0 THEN s1.r[s1.rx + 1] ELSE Nil,
            [s1 EXCEPT !.r[(s1.rx % Back) + 1] = x, !.rx = IF nx > 0 THEN nx % Back ELSE nx]>>

\* residual of a retroactive layer: hands out the last L tokens, oldest first
UnityStep(s, x) ==
  LET s1 == IF s.r = << >> THEN [s EXCEPT !.r = Const(L, Z), !.rx = -(L - 1)] ELSE s
      buf == [s1.r EXCEPT ![(s1.rx % L) + 1] = x]
      nx == s1.rx + 1
  IN <<IF s1.rx >= 0 THEN [p \in 1..L |-> buf[((p + s1.rx) % L) + 1]] ELSE Nil,
       [s1 EXCEPT !.r = buf, !.rx = IF nx > 0 THEN nx % L ELSE nx]>>

\* the layers after a first retroactive layer see whole (updated) sequences
Regular(l, ws) == [j \in 1..Len(ws) |-> <<"row", l, ws[j], <<"att", ws[j], ws>>>>]
RECURSIVE Upper(_, _, _)
Upper(l, last, ws) == IF l > last THEN ws ELSE Upper(l + 1, last, Regular(l, ws))

Step(s0, x) ==
  LET s == IF "off" \in DOMAIN s0 THEN Mem0(Net) ELSE s0
  IN CASE Net.kind = "single" -> SingleStep(s, x)
       [] Net.kind = "retro" ->
            LET r == RetroStep(s, x)
            IN <<IF r[1] = Nil THEN Nil ELSE [j \in 1..L |-> RowValue(r[1][j], r[2].K)], r[2]>>
       [] Net.kind = "slayer" \/ (Net.kind = "stack" /\ Net.layers = 1) ->
            LET d == DelayStep(s, x)
                r == SingleStep(d[2], x)
            IN <<IF r[1] = Nil \/ d[1] = Nil THEN Nil ELSE <<"row", 1, d[1], r[1]>>, r[2]>>
       [] Net.kind = "rlayer" \/ (Net.kind = "stack" /\ Net.layers > 1) ->
            LET d == UnityStep(s, x)
                r == RetroStep(d[2], x)
                rows == [j \in 1..L |-> <<"row", 1, d[1][j], RowValue(r[1][j], r[2].K)>>]
            IN <<IF r[1] = Nil \/ d[1] = Nil THEN Nil
                 ELSE IF Net.kind = "rlayer" THEN rows
                 ELSE Upper(2, Net.layers, rows)[L],
                 r[2]>>

RECURSIVE Fold(_, _, _)
Fold(s, xs, outs) ==
  IF xs = << >> THEN <<outs, s>>
  ELSE LET r == Step(s, Head(xs)) IN Fold(r[2], Tail(xs), IF r[1] = Nil THEN outs ELSE Append(outs, r[1]))

---------------------------------------------------------------------------
(* What has to be computed: whole clips                                    *)
\* all outputs of the network for a clip
Whole(ws) ==
  LET att(j) == <<"att", ws[j], ws>>
      rows == [j \in 1..Len(ws) |-> <<"row", 1, ws[j], att(j)>>]
  IN CASE Net.kind \in {"single", "retro"} -> [j \in 1..Len(ws) |-> att(j)]
       [] Net.kind \in {"slayer", "rlayer"} -> rows
       [] Net.kind = "stack" -> Upper(2, Net.layers, rows)

\* what one step has to return once the window is full
Due(ws) ==
  IF Net.kind \in {"retro", "rlayer"} THEN Whole(ws) ELSE Whole(ws)[L - Back]

---------------------------------------------------------------------------
AgeT(f, c) == IF f[1] = "x" THEN <<"x", f[2] + c>> ELSE f
AgeE(e, c) == [t \in DOMAIN e |-> AgeT(e[t], c)]
AgeB(b, c) ==
  LET D == {AgeE(e, c) : e \in DOMAIN b} IN [e \in D |-> b[CHOOSE o \in DOMAIN b : AgeE(o, c) = e]]
Age(s, c) ==
  IF "off" \in DOMAIN s THEN s
  ELSE [s EXCEPT !.Q = [j \in DOMAIN @ |-> AgeT(@[j], c)], !.K = [j \in DOMAIN @ |-> AgeT(@[j], c)],
                 !.V = [j \in DOMAIN @ |-> AgeT(@[j], c)], !.r = [j \in DOMAIN @ |-> AgeT(@[j], c)],
                 !.d = [j \in DOMAIN @ |-> AgeB(@[j], c)], !.av = [j \in DOMAIN @ |-> AgeB(@[j], c)]]

Settled == L + 1
Per == IF IsLayer(Net) THEN (IF IsRetro(Net) THEN L ELSE IF Back = 0 THEN 1 ELSE Back) ELSE 1
Wrap(c) == IF c >= Settled + Per THEN Settled + ((c - Settled) % Per) ELSE c
Fresh(c) == [j \in 1..c |-> X(c - j)]
Peek(c) == [j \in 1..c |-> Y(j)]
History == [j \in 1..n |-> X(n - j)]
Elems(s) == {s[j] : j \in DOMAIN s}

Init ==
  /\ i \in NetIx
  /\ st = Off /\ n = 0 /\ snap = << >>
  /\ lab = [a |-> "init", c |-> 0, pe |-> FALSE, upd |-> FALSE, sw |-> TRUE, out |-> << >>, stall |-> FALSE, fed |-> << >>]

Label(a, c, upd, out) ==
  lab' = [a |-> a, c |-> c, pe |-> FALSE, upd |-> upd, sw |-> TRUE, out |-> out, stall |-> FALSE, fed |-> << >>]

DoStep(upd) ==
  LET r == Step(IF upd THEN Age(st, 1) ELSE st, IF upd THEN X(0) ELSE Y(1))
  IN /\ st' = IF upd THEN r[2] ELSE st
     /\ n' = IF upd THEN Wrap(n + 1) ELSE n
     /\ Label("step", 1, upd, IF r[1] = Nil THEN None ELSE r[1])
     /\ UNCHANGED <<i, snap>>

DoSteps(c, upd) ==
  LET r == Fold(IF upd THEN Age(st, c) ELSE st, IF upd THEN Fresh(c) ELSE Peek(c), << >>)
  IN /\ st' = IF upd THEN r[2] ELSE st
     /\ n' = IF upd THEN Wrap(n + c) ELSE n
     /\ Label("steps", c, upd, r[1])
     /\ UNCHANGED <<i, snap>>

DoForward(c) ==
  /\ c > Back
  /\ Label("forward", c, FALSE, Whole(Peek(c)))
  /\ UNCHANGED <<i, st, n, snap>>

DoClean == st' = Off /\ n' = 0 /\ Label("clean", 0, TRUE, << >>) /\ UNCHANGED <<i, snap>>
DoSave == Net.snap /\ snap' = [st |-> st, n |-> n] /\ Label("save", 0, FALSE, << >>) /\ UNCHANGED <<i, st, n>>
DoRestore ==
  /\ Net.snap /\ snap # << >>
  /\ st' = snap.st /\ n' = snap.n /\ Label("restore", 0, TRUE, << >>) /\ UNCHANGED <<i, snap>>
\* a call whose tokens are refused fails, and that is all it does
DoRefuse ==
  /\ "refuse" \in DOMAIN Net /\ Net.refuse
  /\ Label("refuse", 0, FALSE, << >>) /\ UNCHANGED <<i, st, n, snap>>

Next ==
  \/ \E upd \in BOOLEAN : DoStep(upd)
  \/ \E c \in Elems(Net.chunks), upd \in BOOLEAN : DoSteps(c, upd)
  \/ \E c \in Elems(Net.clips) : DoForward(c)
  \/ DoClean \/ DoSave \/ DoRestore \/ DoRefuse
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* the last L tokens of history and chunk, at the t-th token of the chunk
WindowAt(c, upd, t) ==
  LET h == [j \in 1..n |-> X(n - j + (IF upd THEN c ELSE 0))] \o (IF upd THEN Fresh(c) ELSE Peek(c))
  IN SubSeq(h, n + t - L + 1, n + t)

\* C13 C14 C15: every output is attention (the encoder's output) over exactly the last L tokens
LawWindow ==
  /\ lab'.a = "step" => IF n + 1 < L THEN lab'.out = None ELSE lab'.out = Due(WindowAt(1, lab'.upd, 1))
  /\ lab'.a = "steps" =>
       LET first == IF n + 1 >= L THEN 1 ELSE L - n
           due == IF first > lab'.c THEN << >>
                  ELSE [t \in 1..(lab'.c - first + 1) |-> Due(WindowAt(lab'.c, lab'.upd, first + t - 1))]
       IN lab'.out = due
\* C05
LawPeek == (lab'.a \in {"step", "steps", "forward"} /\ ~lab'.upd) => UNCHANGED <<st, n>>
\* C07
LawClean == lab'.a = "clean" => st' = Off
\* C14: no trace of a token which left the window, in any part of the state
Tokens(s) ==
  IF "off" \in DOMAIN s THEN {}
  ELSE Elems(s.Q) \cup Elems(s.K) \cup Elems(s.V) \cup Elems(s.r)
       \cup UNION {UNION {Elems(e) : e \in DOMAIN s.d[j]} : j \in DOMAIN s.d}
       \cup UNION {UNION {Elems(e) : e \in DOMAIN s.av[j]} : j \in DOMAIN s.av}
Forgets == \A x \in Tokens(st) : x[1] = "x" => x[2] < L

\* C29
LawRefuse == lab'.a = "refuse" => UNCHANGED <<st, n, snap>>

Laws == LawWindow /\ LawPeek /\ LawClean /\ LawRefuse
Correct == [][Laws]_vars

Key(nn, ss, xx) == <<nn, << >>, IF ss = << >> THEN << >> ELSE <<ss.n, << >>, FALSE, TLCFP(ss.st)>>, FALSE, TLCFP(xx)>>
Emit == PrintT(<<"EDGE", ToJson([i |-> i, s |-> Key(n, snap, st), d |-> Key(n', snap', st'), l |-> lab'])>>)
Info ==
  \A j \in NetIx :
    PrintT(<<"NET", ToJson([i |-> j, init |-> Key(0, << >>, Off), rf |-> Given[j].L, settled |-> Given[j].L + 1])>>)
ASSUME Info
=============================================================================
