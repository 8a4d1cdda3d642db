------------------------------- MODULE Compose -------------------------------
(***************************************************************************)
(* Model checking of the specification: one behaviour runs a short list of   *)
(* cases one after the other and keeps what came of each, so that relations  *)
(* between runs (with and without surrounding bytes, marked and unmarked,    *)
(* V14 and V15, with and without failing memory ...) are invariants of the   *)
(* final state.  A family module gives the starting points, the lists and    *)
(* the relations.  Sampled behaviours are printed as JSON and replayed in    *)
(* the real library.                                                         *)
(***************************************************************************)
EXTENDS Meaning, Json, IOUtils

VARIABLES todo,    \* cases still to run
          hist,    \* tokens of the running case
          outs,    \* results of the finished cases
          idle,    \* steps since data was last used
          start    \* family data of the behaviour

mvars == <<vars, todo, hist, outs, idle, start>>

Self(x) == x
NumEnv(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
Seed == NumEnv("MCSEED", 1)
Stride == NumEnv("MCSTRIDE", 1)       \* every so manyth starting point
(* Every so manyth number, without pattern.                                   *)
Mix(n) == (((n % 40009) * 50021) + ((n \div 40009) * 31337) + ((Seed % 5000) * 12289)) % 999983
Drawn(n) == Mix(n) % Stride = 0
Prints == NumEnv("MCPRINT", 0)        \* every so manyth behaviour; 0 none

ACase(m, entry, bufs, p, ty) ==
  [m |-> m, entry |-> entry, bufs |-> bufs, pos |-> p, ty |-> ty, gh |-> <<>>, st |-> <<>>,
   flt |-> "", card |-> <<>>, aux |-> [h |-> "None", c |-> -1, ids |-> <<>>]]
With(k, hint, cmp, ids) == [k EXCEPT !.aux = [h |-> hint, c |-> cmp, ids |-> ids]]

(* Types *)
TR(def) == [path |-> <<>>, docs |-> <<>>, params |-> <<>>, def |-> def]
Prim(p) == TR("Primitive") @@ [prim |-> p]
Comp(fs) == TR("Composite") @@ [fields |-> fs]
Vari(vs) == TR("Variant") @@ [variants |-> vs]
SeqOf(t) == TR("Sequence") @@ [ty |-> t]
Arr(t, n) == TR("Array") @@ [ty |-> t, len |-> <<0, n>>]
Tup(ts) == TR("Tuple") @@ [tys |-> ts]
Comb(t) == TR("Compact") @@ [ty |-> t]
Bits(o, s) == TR("BitSequence") @@ [order |-> o, store |-> s]
At0(t, path) == [t EXCEPT !.path = path]
Fd(t, name, tn) == [name |-> name, tn |-> tn, ty |-> t, docs |-> <<>>]
Fp(t) == Fd(t, <<>>, <<>>)
Vr(name, ix, fs) == [name |-> name, ix |-> ix, fields |-> fs, docs |-> <<>>]

MetaWith(reg) == [reg |-> reg, v |-> 14, pallets |-> <<>>, exts |-> <<>>, xty |-> 0, xver |-> 4,
                  xp |-> [a |-> 0, c |-> 0, s |-> 0, e |-> 0]]

Load(k) ==
  /\ c' = k /\ ph' = "start" /\ ctl' = Idle /\ stk' = <<>> /\ buf' = 1 /\ pos' = k.pos
  /\ lim' = Len(k.bufs[1]) /\ emit' = <<>> /\ env' = Env0 /\ res' = NoRes

(* A start: nothing loaded yet.                                              *)
PickInit ==
  /\ c = 0 /\ ph = "pick" /\ ctl = Idle /\ stk = <<>> /\ buf = 1 /\ pos = 0
  /\ lim = 0 /\ emit = <<>> /\ env = Env0 /\ res = NoRes
  /\ todo = <<>> /\ hist = <<>> /\ outs = <<>> /\ idle = 0
RunAll(cases) ==
  /\ ph = "pick" /\ Load(cases[1]) /\ todo' = Tail(cases)
  /\ hist' = <<>> /\ outs' = <<>> /\ idle' = 0 /\ UNCHANGED start

Running == ph \notin {"pick", "done", "end"}
RunStep ==
  /\ Running /\ Next
  /\ hist' = IF buf' = 0 THEN hist ELSE hist \o emit'        \* the version constant is not shown
  /\ idle' = IF pos' = pos /\ buf' = buf THEN idle + 1 ELSE 0
  /\ UNCHANGED <<todo, outs, start>>

(* What is kept of a case; its metadata is left to the family.               *)
Outcome1 == [case |-> [c EXCEPT !.m = 0], res |-> res, toks |-> hist, dev |-> env.dev, hit |-> env.hit]
RECURSIVE SumOf(_, _)
SumOf(b, i) == IF i > Len(b) THEN 0 ELSE i * b[i] + SumOf(b, i + 1)
Hash(x) == SumOf(x.bufs[1], 1) + 7 * x.ty + 11 * Len(hist) + 13 * Len(outs) + 29 * start.n + Seed
Chosen1 == Prints # 0 /\ c.flt = "" /\ Hash(c) % Prints = 0
Say1 == IF Chosen1 THEN PrintT("B|" \o ToJson([n |-> start.n, i |-> Len(outs), case |-> c, res |-> res, toks |-> hist, dev |-> env.dev])) ELSE TRUE
NextCase ==
  /\ ph = "done" /\ Say1
  /\ outs' = Append(outs, Outcome1)
  /\ hist' = <<>> /\ idle' = 0 /\ UNCHANGED start
  /\ IF todo = <<>> THEN ph' = "end" /\ UNCHANGED <<c, ctl, stk, buf, pos, lim, emit, env, res, todo>>
     ELSE Load(Head(todo)) /\ todo' = Tail(todo)
(* ... and starts for which nothing was drawn                                 *)
Ended == ph \in {"pick", "end"} /\ UNCHANGED mvars

----------------------------------------------------------------------------
(* What holds in every state                                                 *)
RECURSIVE Ghosts(_, _)
Ghosts(ts, i) == IF i > Len(ts) THEN <<>> ELSE ts[i].g \o Ghosts(ts, i + 1)
ItemRun == Running /\ Case.entry \in {"at", "all"} /\ ctl.op # "err"
(* The position never leaves the buffer.                                     *)
InRange == Running /\ buf # 0 /\ pos <= lim => pos >= 0 /\ lim <= Len(Data)
(* The tokens so far, written out again, are exactly the bytes used.         *)
RoundTrip == ItemRun /\ Case.pos <= Len(Data) =>
               Ghosts(hist, 1) = SubSeq(Data, Case.pos + 1, pos)
(* A bounded number of steps between uses of data: no endless loop.          *)
(* Every step without data descends one level or finishes a part.            *)
Busy == Running => idle <= 40
ProgressBound == Busy
Alive == ph \in {"pick", "end"} \/ ENABLED (RunStep \/ NextCase)
=============================================================================
