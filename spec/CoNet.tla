------------------------------- MODULE CoNet -------------------------------
(***************************************************************************)
(* Continual inference networks: structure, streaming semantics, and the   *)
(* whole-clip semantics they have to agree with.                           *)
(*                                                                         *)
(* A network is a record m with field k (kind).  Leaves:                   *)
(*   conv  [id, K, s, p, fill, fpad]      temporal convolution             *)
(*   pool  [id, K, s, p, d, fill, fpad]   temporal pooling                 *)
(*   win   [id, L, dly]                   function of the last L frames    *)
(*                                        (attention, encoders, adaptive   *)
(*                                        pooling)                         *)
(*   delay [n, shrink]    skip [n]    point [id]    rnn [id]               *)
(*   rpe   [id, num]                      recycling positional encoding    *)
(*   bcast [n]   reduce [id]   dispatch [map]      routing of streams      *)
(* Containers have ch (children):  seq, par [auto], br [id, auto],         *)
(*   residual [id, shrink, ch of length 1], cond (1 or 2 children).        *)
(*                                                                         *)
(* Frames are values of an algebra given by the constant operators below,  *)
(* so that the same specification runs on symbolic terms (Stream.tla) and  *)
(* on integers (Trace.tla).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  OpF(_, _),        \* OpF(m, frames): the function of node m on a window / on branch values
  OpCell(_, _, _),  \* OpCell(m, x, h): next hidden value of recurrent node m
  OpOut(_, _),      \* OpOut(m, h): output of recurrent node m in hidden value h
  OpPos(_, _, _),   \* OpPos(m, pos, x): encoding of position pos added to x
  H0,               \* initial hidden value
  ZeroF, NInfF,     \* padding frames
  None              \* "no output"

Empty == << >>      \* a clip without frames; also: no output of a multi-step call

---------------------------------------------------------------------------
(* Helpers *)
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
LCM(a, b) == (a \div GCD(a, b)) * b
RECURSIVE MaxOver(_, _)
MaxOver(op(_), seq) == IF Len(seq) = 1 THEN op(seq[1]) ELSE Max(op(seq[1]), MaxOver(op, Tail(seq)))
Const(n, v) == [i \in 1..n |-> v]
IsList(v) == Len(v) > 0 /\ v[1] = "list"
List(vs) == <<"list">> \o vs
Elems(v) == Tail(v)

---------------------------------------------------------------------------
(* Declared attributes of (built) networks                                 *)
Span(m) == IF m.k = "pool" THEN m.d * (m.K - 1) + 1 ELSE m.K

RECURSIVE RF(_), Stride(_), Pad(_), DelayOf(_)

RECURSIVE SeqRF(_, _, _)
SeqRF(ch, i, rf) ==
  IF i = 0 THEN rf
  ELSE SeqRF(ch, i - 1, Stride(ch[i]) * rf + RF(ch[i]) - Stride(ch[i]))

RECURSIVE SeqPad(_, _, _, _)
SeqPad(ch, i, p, s) ==
  IF i > Len(ch) THEN p
  ELSE SeqPad(ch, i + 1, p + Pad(ch[i]) * s, s * Stride(ch[i]))

RECURSIVE SeqStride(_)
SeqStride(ch) == IF ch = << >> THEN 1 ELSE Stride(ch[1]) * SeqStride(Tail(ch))

RF(m) ==
  CASE m.k \in {"conv", "pool"} -> Span(m)
    [] m.k = "win" -> m.L
    [] m.k = "delay" -> m.n + 1
    [] m.k = "seq" -> SeqRF(m.ch, Len(m.ch) - 1, RF(m.ch[Len(m.ch)]))
    [] m.k \in {"par", "br", "cond"} -> MaxOver(RF, m.ch)
    [] OTHER -> 1

Stride(m) ==
  CASE m.k \in {"conv", "pool"} -> m.s
    [] m.k = "seq" -> SeqStride(m.ch)
    [] m.k \in {"par", "br", "cond"} -> Stride(m.ch[1])
    [] OTHER -> 1

Pad(m) ==
  CASE m.k \in {"conv", "pool"} -> m.p
    [] m.k = "seq" -> SeqPad(m.ch, 1, 0, 1)
    [] m.k \in {"par", "br", "cond"} -> MaxOver(Pad, m.ch)
    [] OTHER -> 0

DelayOf(m) ==
  CASE m.k = "win" -> m.dly
    [] m.k = "skip" -> 0
    [] m.k = "delay" -> m.n
    [] m.k \in {"par", "br"} -> MaxOver(DelayOf, m.ch)
    [] m.k = "cond" -> MaxOver(DelayOf, m.ch)
    [] OTHER -> RF(m) - 1 - Pad(m)

---------------------------------------------------------------------------
(* Construction: what the constructors add to the given modules            *)
DelayNode(n, shrink) == [k |-> "delay", n |-> n, shrink |-> shrink]

AddDelay(m, n) ==
  IF Stride(m) = 1 THEN [k |-> "seq", ch |-> <<m, DelayNode(n, "no")>>]
  ELSE [k |-> "seq", ch |-> <<DelayNode(n, "no"), m>>]

AutoDelay(ch) ==
  LET D == MaxOver(DelayOf, ch)
  IN [i \in 1..Len(ch) |-> IF DelayOf(ch[i]) < D THEN AddDelay(ch[i], D - DelayOf(ch[i])) ELSE ch[i]]

ResidualBranch(m, shrink) ==
  LET equal == RF(m) - 2 * Pad(m) = 1
      sh == IF equal THEN "no" ELSE shrink
      D == DelayOf(m)
  IN CASE sh = "leading" -> [k |-> "skip", n |-> D]
       [] sh = "cen" -> DelayNode(D \div 2, "cen")
       [] OTHER -> DelayNode(D, sh)

RECURSIVE Build(_)
Build(m) ==
  CASE m.k = "seq" -> [m EXCEPT !.ch = [i \in 1..Len(m.ch) |-> Build(m.ch[i])]]
    [] m.k \in {"par", "br"} ->
         LET ch == [i \in 1..Len(m.ch) |-> Build(m.ch[i])]
         IN [m EXCEPT !.ch = IF m.auto THEN AutoDelay(ch) ELSE ch]
    [] m.k = "residual" ->
         LET c == Build(m.ch[1])
         IN [k |-> "br", id |-> m.id, auto |-> FALSE, ch |-> <<ResidualBranch(c, m.shrink), c>>]
    [] m.k = "cond" ->
         LET ch == [i \in 1..Len(m.ch) |-> Build(m.ch[i])]
             D == MaxOver(DelayOf, ch)
         IN [k |-> "cond",
             ch |-> [i \in 1..Len(ch) |->
                       IF DelayOf(ch[i]) = D THEN ch[i]
                       ELSE [k |-> "seq", ch |-> <<DelayNode(D - DelayOf(ch[i]), "no"), ch[i]>>]]]
    [] OTHER -> m

---------------------------------------------------------------------------
(* Streaming semantics.  A state is                                        *)
(*   conv, pool : [on, buf (ring), ix, sx]      win : [buf (newest last)]  *)
(*   delay      : [on, buf (ring), ix]          skip : [ix]                *)
(*   rnn        : [h]      rpe : [ix]           containers : tuple         *)
RECURSIVE InitState(_)
InitState(m) ==
  CASE m.k \in {"conv", "pool"} -> [on |-> FALSE, buf |-> << >>, ix |-> 0, sx |-> 0]
    [] m.k = "delay" -> [on |-> FALSE, buf |-> << >>, ix |-> 0]
    [] m.k = "win" -> [buf |-> << >>]
    [] m.k = "skip" -> [ix |-> -m.n]
    [] m.k = "rnn" -> [h |-> H0]
    [] m.k = "rpe" -> [ix |-> 0]
    [] m.k \in {"seq", "par", "br", "cond"} -> [i \in 1..Len(m.ch) |-> InitState(m.ch[i])]
    [] OTHER -> << >>

FillFrame(kind, x) == CASE kind = "zero" -> ZeroF [] kind = "ninf" -> NInfF [] OTHER -> x

NextPhase(sx, s) == LET q == sx + 1 IN IF q > 0 THEN q % s ELSE q

ConvStep(m, st0, x) ==
  LET tot == m.K - 1
      st == IF st0.on THEN st0
            ELSE [on |-> TRUE, buf |-> Const(tot, FillFrame(m.fill, x)), ix |-> 0, sx |-> m.s - m.K + m.p]
      window == [j \in 1..m.K |-> IF j < m.K THEN st.buf[((st.ix + j - 1) % tot) + 1] ELSE x]
      nst == [on |-> TRUE,
              buf |-> IF tot = 0 THEN st.buf ELSE [st.buf EXCEPT ![st.ix + 1] = x],
              ix |-> IF tot = 0 THEN 0 ELSE (st.ix + 1) % tot,
              sx |-> NextPhase(st.sx, m.s)]
  IN <<IF st.sx = m.s - 1 THEN OpF(m, window) ELSE None, nst>>

PoolStep(m, st0, x) ==
  LET L == Span(m)
      st == IF st0.on THEN st0
            ELSE [on |-> TRUE, buf |-> Const(L, FillFrame(m.fill, x)), ix |-> 0, sx |-> m.s - L + m.p]
      buf == [st.buf EXCEPT ![st.ix + 1] = x]
      nix == (st.ix + 1) % L
      window == [j \in 1..m.K |-> buf[((nix + (j - 1) * m.d) % L) + 1]]
  IN <<IF st.sx = m.s - 1 THEN OpF(m, window) ELSE None,
       [on |-> TRUE, buf |-> buf, ix |-> nix, sx |-> NextPhase(st.sx, m.s)]>>

DelayStep(m, st0, x) ==
  IF m.n = 0 THEN <<x, st0>>
  ELSE
  LET st == IF st0.on THEN st0
            ELSE [on |-> TRUE, buf |-> Const(m.n, ZeroF), ix |-> IF m.shrink = "cen" THEN -2 * m.n ELSE -m.n]
      nix == st.ix + 1
  IN <<IF st.ix >= 0 THEN st.buf[st.ix + 1] ELSE None,
       [on |-> TRUE, buf |-> [st.buf EXCEPT ![(st.ix % m.n) + 1] = x],
        ix |-> IF nix > 0 THEN nix % m.n ELSE nix]>>

WinStep(m, st, x) ==
  LET b == Append(IF Len(st.buf) = m.L THEN Tail(st.buf) ELSE st.buf, x)
  IN <<IF Len(b) = m.L THEN OpF(m, b) ELSE None, [buf |-> b]>>

\* Dispatch mappings are trees: [i |-> stream] or [g |-> sequence of mappings]
RECURSIVE DispatchTo(_, _)
DispatchTo(t, vs) ==
  IF "i" \in DOMAIN t THEN vs[t.i + 1]
  ELSE List([j \in 1..Len(t.g) |-> DispatchTo(t.g[j], vs)])

RECURSIVE Step(_, _, _, _)

RECURSIVE SeqStep(_, _, _, _, _)
SeqStep(m, st, i, x, sw) ==
  LET r == Step(m.ch[i], st[i], x, sw)
      st1 == [st EXCEPT ![i] = r[2]]
  IN IF r[1] = None \/ i = Len(m.ch) THEN <<r[1], st1>> ELSE SeqStep(m, st1, i + 1, r[1], sw)

Step(m, st, x, sw) ==
  CASE m.k = "conv" -> ConvStep(m, st, x)
    [] m.k = "pool" -> PoolStep(m, st, x)
    [] m.k = "win" -> WinStep(m, st, x)
    [] m.k = "delay" -> DelayStep(m, st, x)
    [] m.k = "skip" -> IF st.ix >= 0 THEN <<x, st>> ELSE <<None, [ix |-> st.ix + 1]>>
    [] m.k = "point" -> <<OpF(m, <<x>>), st>>
    [] m.k = "rnn" -> LET h == OpCell(m, x, st.h) IN <<OpOut(m, h), [h |-> h]>>
    [] m.k = "rpe" -> <<OpPos(m, st.ix, x), [ix |-> (st.ix + 1) % m.num]>>
    [] m.k = "bcast" -> <<List(Const(m.n, x)), st>>
    [] m.k = "dispatch" -> <<List([j \in 1..Len(m.map) |-> DispatchTo(m.map[j], Elems(x))]), st>>
    [] m.k = "reduce" -> <<IF \E j \in 1..Len(Elems(x)) : Elems(x)[j] = None THEN None ELSE OpF(m, Elems(x)), st>>
    [] m.k = "seq" -> SeqStep(m, st, 1, x, sw)
    [] m.k = "par" ->
         LET rs == [i \in 1..Len(m.ch) |->
                      IF Elems(x)[i] = None THEN <<None, st[i]>> ELSE Step(m.ch[i], st[i], Elems(x)[i], sw)]
         IN <<List([i \in 1..Len(m.ch) |-> rs[i][1]]), [i \in 1..Len(m.ch) |-> rs[i][2]]>>
    [] m.k = "br" ->
         LET rs == [i \in 1..Len(m.ch) |-> Step(m.ch[i], st[i], x, sw)]
         IN <<IF \E i \in 1..Len(m.ch) : rs[i][1] = None THEN None
              ELSE OpF(m, [i \in 1..Len(m.ch) |-> rs[i][1]]),
              [i \in 1..Len(m.ch) |-> rs[i][2]]>>
    [] m.k = "cond" ->
         LET i == IF sw THEN 1 ELSE 2
         IN IF i > Len(m.ch) THEN <<x, st>>
            ELSE LET r == Step(m.ch[i], st[i], x, sw) IN <<r[1], [st EXCEPT ![i] = r[2]]>>

---------------------------------------------------------------------------
(* Multi-step calls: [o |-> outputs, s |-> state after the frames (never   *)
(* after padding), stall |-> some module had nothing to hand on]           *)
RECURSIVE Fold(_, _, _, _, _)
Fold(m, st, xs, sw, outs) ==
  IF xs = << >> THEN [o |-> outs, s |-> st, stall |-> FALSE]
  ELSE LET r == Step(m, st, Head(xs), sw)
       IN Fold(m, r[2], Tail(xs), sw, IF r[1] = None THEN outs ELSE Append(outs, r[1]))

PadFrames(m, last) ==
  CASE m.k \in {"conv", "pool"} -> Const(m.p, FillFrame(m.fill, last))
    [] m.k = "delay" -> IF m.shrink = "no" THEN Const(m.n, ZeroF) ELSE << >>
    [] OTHER -> << >>

Zip(m, clips) == \* frame-wise reduction of equally long clips
  IF \E i \in 1..Len(clips) : clips[i] = Empty THEN Empty
  ELSE [t \in 1..Len(clips[1]) |-> OpF(m, [i \in 1..Len(clips) |-> clips[i][t]])]

RECURSIVE Steps(_, _, _, _, _)

RECURSIVE SeqSteps(_, _, _, _, _, _, _, _)
\* xs: what the frames alone produced so far; ps: the same with end padding
SeqSteps(m, st, i, xs, ps, pe, sw, stall) ==
  IF i > Len(m.ch) THEN [o |-> IF pe THEN ps ELSE xs, s |-> st, stall |-> stall]
  ELSE
  LET r == IF xs = Empty THEN [o |-> Empty, s |-> st[i], stall |-> TRUE]
           ELSE Steps(m.ch[i], st[i], xs, FALSE, sw)
      q == IF ~pe THEN r
           ELSE IF ps = Empty THEN [o |-> Empty, s |-> st[i], stall |-> TRUE]
           ELSE Steps(m.ch[i], st[i], ps, TRUE, sw)
  IN SeqSteps(m, [st EXCEPT ![i] = r.s], i + 1, r.o, q.o, pe, sw, stall \/ q.stall)

Steps(m, st, xs, pe, sw) ==
  CASE m.k \in {"conv", "pool", "win", "delay", "skip", "point", "rnn", "rpe"} ->
         LET r == Fold(m, st, xs, sw, << >>)
         IN IF ~pe THEN r
            ELSE [r EXCEPT !.o = @ \o Fold(m, r.s, PadFrames(m, xs[Len(xs)]), sw, << >>).o]
    [] m.k = "bcast" -> [o |-> List(Const(m.n, xs)), s |-> st, stall |-> FALSE]
    [] m.k = "dispatch" ->
         [o |-> List([j \in 1..Len(m.map) |-> DispatchTo(m.map[j], Elems(xs))]), s |-> st, stall |-> FALSE]
    [] m.k = "reduce" -> [o |-> Zip(m, Elems(xs)), s |-> st, stall |-> FALSE]
    [] m.k = "seq" -> SeqSteps(m, st, 1, xs, xs, pe, sw, FALSE)
    [] m.k = "par" ->
         LET rs == [i \in 1..Len(m.ch) |->
                      IF Elems(xs)[i] = Empty THEN [o |-> Empty, s |-> st[i], stall |-> TRUE]
                      ELSE Steps(m.ch[i], st[i], Elems(xs)[i], pe, sw)]
         IN [o |-> List([i \in 1..Len(m.ch) |-> rs[i].o]), s |-> [i \in 1..Len(m.ch) |-> rs[i].s],
             stall |-> \E i \in 1..Len(m.ch) : rs[i].stall]
    [] m.k = "br" ->
         LET rs == [i \in 1..Len(m.ch) |-> Steps(m.ch[i], st[i], xs, pe, sw)]
         IN [o |-> Zip(m, [i \in 1..Len(m.ch) |-> rs[i].o]), s |-> [i \in 1..Len(m.ch) |-> rs[i].s],
             stall |-> \E i \in 1..Len(m.ch) : rs[i].stall]
    [] m.k = "cond" ->
         LET i == IF sw THEN 1 ELSE 2
         IN IF i > Len(m.ch) THEN [o |-> xs, s |-> st, stall |-> FALSE]
            ELSE LET r == Steps(m.ch[i], st[i], xs, pe, sw)
                 IN [o |-> r.o, s |-> [st EXCEPT ![i] = r.s], stall |-> r.stall]

\* How many frames a sequential container hands to each of its children
RECURSIVE Fed(_, _, _, _, _)
Fed(m, st, i, xs, sw) ==
  IF i > Len(m.ch) THEN << >>
  ELSE <<Len(xs)>> \o Fed(m, st, i + 1, IF xs = Empty THEN Empty ELSE Steps(m.ch[i], st[i], xs, FALSE, sw).o, sw)

---------------------------------------------------------------------------
(* Whole-clip semantics: declarative, without any state.  Empty where the  *)
(* clip is too short.  Independent of everything above except structure.   *)
Windows(m, ys, L, d) ==
  LET n == IF Len(ys) >= L THEN ((Len(ys) - L) \div m.s) + 1 ELSE 0
  IN [i \in 1..n |-> OpF(m, [j \in 1..m.K |-> ys[(i - 1) * m.s + (j - 1) * d + 1]])]

RECURSIVE Hidden(_, _, _)
Hidden(m, xs, t) == IF t = 0 THEN H0 ELSE OpCell(m, xs[t], Hidden(m, xs, t - 1))

RECURSIVE Fwd(_, _, _)

RECURSIVE SeqFwd(_, _, _, _)
SeqFwd(m, i, xs, sw) == IF i > Len(m.ch) THEN xs ELSE SeqFwd(m, i + 1, Fwd(m.ch[i], xs, sw), sw)

Fwd(m, xs, sw) ==
  IF xs = Empty THEN Empty
  ELSE
  CASE m.k = "conv" \/ m.k = "pool" ->
         LET l == Const(m.p, FillFrame(m.fpad, xs[1]))
             r == Const(m.p, FillFrame(m.fpad, xs[Len(xs)]))
         IN Windows(m, l \o xs \o r, Span(m), IF m.k = "pool" THEN m.d ELSE 1)
    [] m.k = "win" ->
         [i \in 1..(IF Len(xs) >= m.L THEN Len(xs) - m.L + 1 ELSE 0) |-> OpF(m, SubSeq(xs, i, i + m.L - 1))]
    [] m.k = "delay" ->
         IF m.n = 0 THEN xs
         ELSE CASE m.shrink = "cen" -> SubSeq(xs, m.n + 1, Len(xs) - m.n)
                [] m.shrink = "lag" -> SubSeq(xs, 1, Len(xs) - m.n)
                [] OTHER -> xs
    [] m.k = "skip" -> SubSeq(xs, m.n + 1, Len(xs))
    [] m.k = "point" -> [t \in 1..Len(xs) |-> OpF(m, <<xs[t]>>)]
    [] m.k = "rnn" -> [t \in 1..Len(xs) |-> OpOut(m, Hidden(m, xs, t))]
    [] m.k = "rpe" -> [t \in 1..Len(xs) |-> OpPos(m, (t - 1) % m.num, xs[t])]
    [] m.k = "bcast" -> List(Const(m.n, xs))
    [] m.k = "dispatch" -> List([j \in 1..Len(m.map) |-> DispatchTo(m.map[j], Elems(xs))])
    [] m.k = "reduce" -> Zip(m, Elems(xs))
    [] m.k = "seq" -> SeqFwd(m, 1, xs, sw)
    [] m.k = "par" -> List([i \in 1..Len(m.ch) |-> Fwd(m.ch[i], Elems(xs)[i], sw)])
    [] m.k = "br" -> Zip(m, [i \in 1..Len(m.ch) |-> Fwd(m.ch[i], xs, sw)])
    [] m.k = "cond" ->
         LET i == IF sw THEN 1 ELSE 2
         IN IF i > Len(m.ch) THEN xs ELSE Fwd(m.ch[i], xs, sw)

---------------------------------------------------------------------------
(* Number of frames of the whole-clip result; 0 where the clip is too      *)
(* short, -1 where parallel branches disagree.  Streams: of the first.     *)
RECURSIVE FwdLen(_, _)
RECURSIVE SeqFwdLen(_, _, _)
SeqFwdLen(m, i, T) == IF i > Len(m.ch) \/ T <= 0 THEN T ELSE SeqFwdLen(m, i + 1, FwdLen(m.ch[i], T))
FwdLen(m, T) ==
  CASE m.k \in {"conv", "pool"} ->
         IF T + 2 * m.p >= Span(m) THEN ((T + 2 * m.p - Span(m)) \div m.s) + 1 ELSE 0
    [] m.k = "win" -> Max(0, T - m.L + 1)
    [] m.k = "delay" -> CASE m.shrink = "cen" -> Max(0, T - 2 * m.n)
                          [] m.shrink = "lag" -> Max(0, T - m.n)
                          [] OTHER -> T
    [] m.k = "skip" -> Max(0, T - m.n)
    [] m.k = "seq" -> SeqFwdLen(m, 1, T)
    [] m.k \in {"par", "br"} ->
         LET ls == {FwdLen(m.ch[i], T) : i \in 1..Len(m.ch)}
         IN IF -1 \in ls THEN -1 ELSE IF 0 \in ls THEN 0
            ELSE IF Cardinality(ls) = 1 THEN FwdLen(m.ch[1], T) ELSE -1
    [] m.k = "cond" -> FwdLen(m.ch[1], T)
    [] OTHER -> T

\* Whole-clip processing is defined for all clips that are long enough
Aligned(m) == \A T \in 1..(RF(m) + 2 * Stride(m) + 2) : FwdLen(m, T) # -1

RECURSIVE AllNodes(_)
AllNodes(m) ==
  IF m.k \in {"seq", "par", "br", "cond"}
  THEN {m} \cup UNION {AllNodes(m.ch[i]) : i \in 1..Len(m.ch)} ELSE {m}

HasKind(m, ks) == \E x \in AllNodes(m) : x.k \in ks

\* Parallel streams which come with the same delay (which auto_delay sees to)
InStep(m) == \A j \in 1..Len(m.ch) : DelayOf(m.ch[j]) = DelayOf(m.ch[1])

\* The fill of the stream's start is the padding of the clip's start
FillMatches(m) == \A x \in AllNodes(m) : x.k \in {"conv", "pool"} => (x.p = 0 \/ x.fill = x.fpad)

\* Emission: how many outputs n inputs have produced, by the declared attributes
Emitted(m, n) == IF n <= DelayOf(m) THEN 0 ELSE ((n - 1 - DelayOf(m)) \div Stride(m)) + 1

\* Inputs after which the state repeats up to renaming of frames
RECURSIVE Period(_)
RECURSIVE SeqPeriod(_, _, _)
SeqPeriod(ch, i, s) == IF i > Len(ch) THEN 1 ELSE LCM(s * Period(ch[i]), SeqPeriod(ch, i + 1, s * Stride(ch[i])))
RECURSIVE LCMOver(_)
LCMOver(ch) == IF ch = << >> THEN 1 ELSE LCM(Period(ch[1]), LCMOver(Tail(ch)))
Period(m) ==
  CASE m.k = "conv" -> LCM(Max(m.K - 1, 1), m.s)
    [] m.k = "pool" -> LCM(Span(m), m.s)
    [] m.k = "delay" -> Max(m.n, 1)
    [] m.k = "rpe" -> m.num
    [] m.k = "seq" -> SeqPeriod(m.ch, 1, 1)
    [] m.k \in {"par", "br", "cond"} -> LCMOver(m.ch)
    [] OTHER -> 1

\* Inputs after which no start-up padding is left anywhere
RECURSIVE Settle(_)
RECURSIVE SeqSettle(_, _, _)
SeqSettle(ch, i, s) == IF i > Len(ch) THEN 0 ELSE s * Settle(ch[i]) + SeqSettle(ch, i + 1, s * Stride(ch[i]))
Settle(m) ==
  CASE m.k \in {"conv", "pool"} -> Span(m) + m.s
    [] m.k = "delay" -> 2 * m.n + 1
    [] m.k = "win" -> m.L
    [] m.k = "skip" -> m.n
    [] m.k = "seq" -> SeqSettle(m.ch, 1, 1)
    [] m.k \in {"par", "br", "cond"} -> MaxOver(Settle, m.ch)
    [] OTHER -> 1
=============================================================================
