------------------------------ MODULE StateDict ------------------------------
(***************************************************************************)
(* Saving and loading the weights of nested containers, flattened or not.  *)
(* A key is a sequence of parts, a part a sequence of characters.  Two     *)
(* networks of the same structure are trained, stepped, saved and loaded,  *)
(* as a whole or any container of them, under flattening requests made by  *)
(* argument, by an attribute of the container, or by (nested) contexts.    *)
(* The machine is that of the library (names to long names by a table);    *)
(* the laws are those of C21.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.NETS)  \* sequence of [keys, parts]: all keys; the containers as [len: parts of their prefix, ix: their keys]
HMax == IF "HMAX" \in DOMAIN IOEnv THEN atoi(IOEnv.HMAX) ELSE 0
CMax == atoi(IOEnv.CMAX)
VMax == atoi(IOEnv.VMAX)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

Numeric(p) == p # << >> /\ \A j \in DOMAIN p : p[j] \in Digits
Short(key) == SelectSeq(key, LAMBDA p : ~Numeric(p))

---------------------------------------------------------------------------
(* Saving and loading as the library does it, on sequences of keys *)
Merges(keys) == Cardinality({Short(keys[j]) : j \in DOMAIN keys}) < Len(keys)
SavedKeys(keys, req) == IF req /\ ~Merges(keys) THEN [j \in DOMAIN keys |-> Short(keys[j])] ELSE keys

Table(keys) ==   \* short name to index; the last one wins
  [s \in {Short(keys[j]) : j \in DOMAIN keys} |-> Max({j \in DOMAIN keys : Short(keys[j]) = s})]

\* for each saved key the weight it is loaded into, 0 for none, or << -1 >> if the load is refused
LoadedInto(keys, saved, req) ==
  LET t == Table(keys)
      plain == [j \in DOMAIN saved |-> IF \E q \in DOMAIN keys : keys[q] = saved[j]
                                       THEN CHOOSE q \in DOMAIN keys : keys[q] = saved[j] ELSE 0]
  IN IF req /\ Cardinality(DOMAIN t) = Len(saved)
     THEN [j \in DOMAIN saved |-> IF saved[j] \in DOMAIN t THEN t[saved[j]] ELSE 0]
     ELSE plain
\* loading is what these keys are for
Fits(keys, saved, req) ==
  \/ Merges(keys)
  \/ req /\ saved = [j \in DOMAIN keys |-> Short(keys[j])]
  \/ ~req /\ saved = keys

(* Laws of names, for all small sets of keys *)
SmallParts == {<<"0">>, <<"1">>, <<"a">>, <<"1", "x">>}
SmallKeys == {<<p>> : p \in SmallParts \ {<<"0">>, <<"1">>}} \cup {<<p, r>> : p \in SmallParts, r \in SmallParts \ {<<"0">>, <<"1">>}}
NameLaws(keys) ==
  \A req \in BOOLEAN :
    LET saved == SavedKeys(keys, req)
    IN /\ Cardinality({saved[j] : j \in DOMAIN saved}) = Len(keys)                     \* every weight exactly once
       /\ req => \/ \A j \in DOMAIN saved : \A q \in DOMAIN saved[j] : ~Numeric(saved[j][q])
                 \/ Merges(keys) /\ saved = keys
       /\ ~req => saved = keys
       /\ \A rq \in BOOLEAN : Fits(keys, saved, rq) => LoadedInto(keys, saved, rq) = [j \in DOMAIN keys |-> j]
ASSUME \A a \in SmallKeys, b \in SmallKeys, c \in SmallKeys :
         Cardinality({a, b, c}) = 3 => NameLaws(<<a, b, c>>) /\ NameLaws(<<a, b>>)

---------------------------------------------------------------------------
VARIABLES
  i,        \* which structure
  ctx,      \* flattening contexts entered
  attr,     \* attr[m]: containers of network m which ask for flattening themselves
  w,        \* w[m][j]: version of weight j of network m, 0 if not known
  pos,      \* pos[m]: how far its stream is, wrapped
  vs,       \* versions handed out
  sd,       \* the saved dict: [x, keys, vers], or << >>
  h
vars == <<i, ctx, attr, w, pos, vs, sd, h>>
View == <<i, ctx, attr, w, pos, vs, sd>>

Keys == Given[i].keys
Conts == DOMAIN Given[i].conts
Part(x) == Given[i].conts[x]     \* [pre: length of the prefix, ix: indices of keys]
\* evaluated once: the keys of every container of every structure
Names == [s \in DOMAIN Given |-> [x \in DOMAIN Given[s].conts |->
            LET p == Given[s].conts[x]
                ks == [j \in DOMAIN p.ix |-> LET k == Given[s].keys[p.ix[j]] IN SubSeq(k, p.pre + 1, Len(k))]
            IN [keys |-> ks, kept |-> SavedKeys(ks, FALSE), flat |-> SavedKeys(ks, TRUE)]]]
KeysOf(x) == Names[i][x].keys
Saved(x, req) == IF req THEN Names[i][x].flat ELSE Names[i][x].kept
Req(m, x, arg) == ctx > 0 \/ x \in attr[m] \/ arg

Init ==
  /\ i \in DOMAIN Given
  /\ ctx = 0 /\ attr = [m \in 1..2 |-> {}] /\ pos = [m \in 1..2 |-> 0]
  /\ vs = 2 /\ w = [m \in 1..2 |-> [j \in DOMAIN Given[i].keys |-> m]]
  /\ sd = << >> /\ h = << >>

Quiet == HMax > 0 => Len(h) < HMax
Note(r) == h' = IF HMax > 0 THEN Append(h, r @@ [w |-> w', pos |-> pos', ctx |-> ctx']) ELSE h

Enter == Quiet /\ ctx < CMax /\ ctx' = ctx + 1 /\ UNCHANGED <<i, attr, w, pos, vs, sd>> /\ Note([a |-> "enter"])
Leave == Quiet /\ \E q \in 1..ctx, err \in BOOLEAN :
           ctx' = ctx - q /\ UNCHANGED <<i, attr, w, pos, vs, sd>> /\ Note([a |-> "leave", q |-> q, err |-> err])
Attr == Quiet /\ \E m \in 1..2, x \in Conts :
          /\ attr' = [attr EXCEPT ![m] = IF x \in @ THEN @ \ {x} ELSE @ \cup {x}]
          /\ UNCHANGED <<i, ctx, w, pos, vs, sd>>
          /\ Note([a |-> "attr", m |-> m, x |-> x, on |-> x \in attr'[m]])
Train == Quiet /\ \E m \in 1..2 :
          /\ HMax = 0 => vs < VMax
          /\ vs' = vs + 1 /\ w' = [w EXCEPT ![m] = [j \in DOMAIN Keys |-> vs + 1]]
          /\ UNCHANGED <<i, ctx, attr, pos, sd>> /\ Note([a |-> "train", m |-> m, v |-> vs + 1])
Step == Quiet /\ \E m \in 1..2 :
          /\ pos' = [pos EXCEPT ![m] = (@ + 1) % 2]
          /\ UNCHANGED <<i, ctx, attr, w, vs, sd>> /\ Note([a |-> "step", m |-> m])
Save == Quiet /\ \E m \in 1..2, x \in Conts, arg \in BOOLEAN :
          LET ks == KeysOf(x) IN
          /\ \A j \in DOMAIN Part(x).ix : w[m][Part(x).ix[j]] # 0
          /\ sd' = [x |-> x, keys |-> Saved(x, Req(m, x, arg)), vers |-> [j \in DOMAIN ks |-> w[m][Part(x).ix[j]]]]
          /\ UNCHANGED <<i, ctx, attr, w, pos, vs>>
          /\ Note([a |-> "save", m |-> m, x |-> x, arg |-> arg, keys |-> sd'.keys, flat |-> sd'.keys # ks])
\* the table decides; a weight loaded from no key becomes unknown
Load == Quiet /\ sd # << >> /\ \E m \in 1..2, arg \in BOOLEAN, strict \in BOOLEAN :
          LET x == sd.x
              ks == KeysOf(x)
              into == LoadedInto(ks, sd.keys, Req(m, x, arg))
          IN /\ Fits(ks, sd.keys, Req(m, x, arg))
             /\ w' = [w EXCEPT ![m] = [j \in DOMAIN Keys |->
                        IF \E q \in DOMAIN into : into[q] # 0 /\ Part(x).ix[into[q]] = j
                        THEN sd.vers[CHOOSE q \in DOMAIN into : into[q] # 0 /\ Part(x).ix[into[q]] = j]
                        ELSE IF \E q \in DOMAIN Part(x).ix : Part(x).ix[q] = j THEN 0 ELSE w[m][j]]]
             /\ UNCHANGED <<i, ctx, attr, pos, vs, sd>>
             /\ Note([a |-> "load", m |-> m, x |-> x, arg |-> arg, strict |-> strict])
\* a dict which lacks a weight or has one too many is refused; what of it was loaded is not known
Bad == Quiet /\ sd # << >> /\ \E m \in 1..2, arg \in BOOLEAN, more \in BOOLEAN :
          /\ Fits(KeysOf(sd.x), sd.keys, Req(m, sd.x, arg))
          /\ (more \/ sd.keys # << >>)
          /\ w' = [w EXCEPT ![m] = [j \in DOMAIN Keys |-> IF \E q \in DOMAIN Part(sd.x).ix : Part(sd.x).ix[q] = j THEN 0 ELSE @[j]]]
          /\ UNCHANGED <<i, ctx, attr, pos, vs, sd>>
          /\ Note([a |-> "bad", m |-> m, x |-> sd.x, arg |-> arg, more |-> more])
End == HMax > 0 /\ Len(h) = HMax /\ h' = Append(h, [a |-> "end"]) /\ UNCHANGED <<i, ctx, attr, w, pos, vs, sd>>

Next == End \/ Enter \/ Leave \/ Attr \/ Train \/ Step \/ Save \/ Save \/ Load \/ Load \/ Bad
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Once == sd # << >> => Cardinality({sd.keys[j] : j \in DOMAIN sd.keys}) = Len(KeysOf(sd.x))
\* loading restores exactly the weights that were saved, of the saved part and no other
RestoresStep ==
  \A m \in 1..2 : (w'[m] # w[m] /\ vs' = vs /\ \E j \in DOMAIN Keys : w'[m][j] # 0 /\ w'[m][j] # w[m][j]) =>
    \A j \in DOMAIN Keys :
      IF \E q \in DOMAIN Part(sd.x).ix : Part(sd.x).ix[q] = j
      THEN w'[m][j] = sd.vers[CHOOSE q \in DOMAIN Part(sd.x).ix : Part(sd.x).ix[q] = j]
      ELSE w'[m][j] = w[m][j]
Restores == [][RestoresStep]_vars
NeverForgets == [][(\E m \in 1..2, j \in DOMAIN Keys : w'[m][j] = 0 /\ w[m][j] # 0) => (sd # << >> /\ vs' = vs)]_vars
Undisturbed == [][(w' # w \/ sd' # sd \/ ctx' # ctx) => pos' = pos]_vars

Emit == (HMax > 0 /\ Len(h') = HMax + 1) => PrintT(<<"WALK", ToJson([i |-> i, h |-> h'])>>)
=============================================================================
