-------------------------------- MODULE Trace --------------------------------
(* Conformance: every recorded run of the real library must be a behaviour   *)
(* of the specification.  Each case is an initial state; the specification   *)
(* runs and every token it emits is compared with the recorded one.          *)
(* Differences are collected as classes and reported once per behaviour.     *)
EXTENDS Cards, Messages, Json, IOUtils

VARIABLES l, bad
tvars == <<vars, card, l, bad>>

TraceCases == ndJsonDeserialize(IOEnv.CASES)
TraceMetas == ndJsonDeserialize(IOEnv.METAS)

TraceCase(i) == TraceCases[i]
TraceMeta(i) == TraceMetas[i]

Rec == Case.r
Crashed == Rec.st \notin {"ok", "err"}
WildInfo(i) == Len(i) = 1 /\ i[1].d = "?" /\ Len(i[1].p) = 0
SameInfo(a, b) == WildInfo(b) \/ a = b
If(cond, class) == IF cond THEN {class} ELSE {}

(* Differences of an expected token a and a recorded token b.                *)
TokenDiff(a, b) ==
  IF a.k # b.k THEN {"kind"}
  ELSE CASE a.k = "leaf" -> IF a.s # b.s THEN {"kind"}
                            ELSE If(a.v # b.v, "val") \cup If(a.sp # b.sp, "label")
                                 \cup If(~SameInfo(a.i, b.i), "info")
         [] a.k = "end" -> If(b.s # "?" /\ a.s # b.s, "wrap") \cup If(~SameInfo(a.e, b.e), "einfo")
         [] a.k = "seq" -> If(a.n # b.n, "kind") \cup If(~SameInfo(a.i, b.i), "info")
                           \cup If(~SameInfo(a.e, b.e), "einfo")
         [] a.k = "field" -> If(a.t # b.t \/ a.v # b.v, "names") \cup If(a.d # b.d, "docs")
         [] a.k \in {"var", "call", "event"} ->
              If(a.n # b.n, "kind") \cup If(a.s # b.s \/ a.t # b.t, "names")
              \cup If(a.d # b.d, "docs") \cup If(~SameInfo(a.i, b.i), "info") \cup If(a.e # b.e, "pinfo")
         [] a.k = "part" -> If(a.s # b.s, "kind") \cup If(a.d # b.d, "docs")
         [] a.k = "hash" -> If(a.s # b.s \/ a.n # b.n \/ a.v # b.v, "val")
         [] a.k = "key" -> If(a.s # b.s, "kind") \cup If(a.i # b.i, "info")
         [] OTHER -> If(a.n # b.n, "kind") \cup If(~SameInfo(a.i, b.i), "info")

Muted == \/ Rec.st # "ok" \/ "kind" \in bad \/ buf' = 0
         \/ Rec.cst = "err" /\ (ph' = "callitem" \/ ph = "callitem")

Compare ==
  IF emit' = <<>> \/ Muted THEN UNCHANGED <<l, bad>>
  ELSE IF l > Len(Rec.toks) THEN bad' = bad \cup {"kind"} /\ UNCHANGED l
  ELSE bad' = bad \cup TokenDiff(emit'[1], Rec.toks[l]) /\ l' = l + 1

ErrDiff(a, b) ==      \* wrapper and kind, then details
  IF a.w # b.w \/ a.k # b.k THEN {"errkind"}
  ELSE If(a.p # b.p, "errpos") \cup If(a.n # b.n \/ a.s # b.s, "errval")

Outcome ==
  IF Crashed THEN {Rec.st}
  ELSE IF res.st = "err"
  THEN IF Rec.st = "ok" THEN {"accepted"}
       ELSE LET d == ErrDiff(res.e, Rec.e) IN
            d \cup If(d = {} /\ res.e.k # "Codec" /\ ~MessageSays(res.e, Rec.words), "message")
  ELSE IF Rec.st = "err" THEN {"refused"}
  ELSE If(res.pos # Rec.pos, "pos") \cup If(res.x # Rec.x, "fact")
       \cup If("kind" \notin bad /\ l # Len(Rec.toks) + 1, "kind")
       \cup (IF res.cst = "err" /\ Rec.cst = "err"
             THEN LET d == ErrDiff(res.ce, Rec.ce) IN
                  {"call" \o x : x \in d}
                  \cup If(d = {} /\ ~MessageSays(res.ce, Rec.words), "message")
             ELSE If(res.cst # Rec.cst, IF Rec.cst = "ok" THEN "callaccepted" ELSE "callrefused"))

Carded == Rec.st = "ok" /\ Len(Case.card) = 1 /\ Len(Rec.cards) = 1
(* For single items the lines joined, as the library prints them, come last.  *)
Whole(cs) == LET n == Len(cs) - 1 IN
  [i |-> -1, c |-> JoinStr([k \in 1..n |-> cs[k].c], "\n"), d |-> JoinStr([k \in 1..n |-> cs[k].d], "\n"), x |-> ""]
CardsEnd ==
  LET cs == Rec.cards[1] IN
  IF Case.entry \in {"at", "all"}
  THEN If(l # Len(cs), "card") \cup (IF l = Len(cs) THEN If(cs[l] # Whole(cs), "card") ELSE {})
  ELSE If(l # Len(cs) + 1, "card")
Final == IF Carded THEN bad \cup CardsEnd ELSE bad \cup Outcome
RECURSIVE SetStr(_)
SetStr(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : TRUE IN x \o "," \o SetStr(S \ {x})
Verdict == "V|" \o ToString(c) \o "|" \o SetStr(Final) \o "|" \o env.dev \o "|"
           \o res.st \o "|" \o res.e.w \o ":" \o res.e.k \o "|" \o res.cst \o "|" \o res.ce.k

(* Cards, where recorded: what the card writer makes of the decoded tokens.   *)
RCards == Rec.cards[1]
(* A wrong amount on a line of the right kind is told apart.                  *)
AmountLine(tk) == tk.k = "leaf" /\ tk.s \in UintNames /\ tk.sp \in {"Balance", "Tip"}
StartsLike(a, h) == Len(a) >= Len(h) /\ SubSeq(a, 1, Len(h)) = h
OneDiff(w, rc, tk) ==
  IF w = rc THEN {}
  ELSE IF AmountLine(tk) /\ w.c # rc.c
          /\ \E h \in {Spaces(w.i) \o "Balance: ", Spaces(w.i) \o "Tip: "} : StartsLike(w.c, h) /\ StartsLike(rc.c, h)
       THEN {"amount"} ELSE {"card"}
CardDiff(w, k) ==
  UNION {IF k + j > Len(RCards) THEN {"card"} ELSE OneDiff(w[j], RCards[k + j], Rec.toks[card.i]) : j \in 1..Len(w)}
StartCards ==
  /\ ph = "done" /\ l # 0 /\ Carded /\ ~card.on
  /\ CardStart(Case.card[1].bal) /\ l' = 1 /\ bad' = bad \cup Outcome
  /\ UNCHANGED vars
WriteCards ==
  /\ l # 0 /\ CardStep(Rec.toks, Case.card[1])
  /\ bad' = bad \cup CardDiff(card'.out, l - 1) /\ l' = l + Len(card'.out)
  /\ UNCHANGED vars
CardsDone == IF Carded THEN CardsFinished(Rec.toks) ELSE ph = "done"

TInit == c \in 1..Len(TraceCases) /\ EntryInit /\ l = 1 /\ bad = {} /\ card = CardIdle
Run == ph # "done" /\ Next /\ Compare /\ UNCHANGED card
Report == /\ ph = "done" /\ l # 0 /\ CardsDone
          /\ PrintT(Verdict) /\ l' = 0 /\ UNCHANGED <<vars, bad, card>>
TNext == Run \/ StartCards \/ WriteCards \/ Report
Spec == TInit /\ [][TNext]_tvars
=============================================================================
