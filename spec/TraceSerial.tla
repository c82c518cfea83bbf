---------------------------- MODULE TraceSerial -----------------------------
(* Conformance of recorded histories of saves and loads with NanoSerial.    *)
(* A case has programs (files), operations and the log of their outcomes.   *)
EXTENDS NanoSerial, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES idx, i, fs, slots, size, verdict
vars == <<idx, i, fs, slots, size, verdict>>
Good == <<>>
Slots == 0..2

Init == /\ idx \in 1..Len(Cases) /\ i = 0 /\ verdict = Good
        /\ fs = [t \in 0..9 |-> NoFile] /\ slots = [s \in Slots |-> 0]
        /\ size = [p \in 0..9 |-> -1]

All(e, ok) == \A j \in 2..Len(e) : e[j] \in ok
FirstOut(e, ok) == CHOOSE j \in 2..Len(e) : e[j] \notin ok /\ \A k \in 2..(j - 1) : e[k] \in ok

\* the outcome of operation o, observed as e: new files, slots, sizes and a verdict
Outcome(o, e, n) ==
  LET f == fs[o.t]
      Same == [f |-> fs, s |-> slots, z |-> size, v |-> Good]
      Bad(v) == [Same EXCEPT !.v = v]
      Saved(p) ==
        IF e[2] # 1 THEN Bad(<<"a complete save reported failure", e>>)
        ELSE IF size[p] # -1 /\ size[p] # e[3] THEN Bad(<<"two images of one program differ in size", e>>)
        ELSE [Same EXCEPT !.f = [fs EXCEPT ![o.t] = Image(p, e[3])], !.z = [size EXCEPT ![p] = e[3]]]
  IN
  IF e[1] # 100 + o.o THEN Bad(<<"wrong event", e>>)
  ELSE CASE o.o = 30 -> Saved(o.p)
    [] o.o = 36 -> Saved(slots[o.p])
    [] o.o = 31 ->
         IF <<e[2], e[3]>> \in Loads(f, slots[o.p], n) THEN [Same EXCEPT !.s = [slots EXCEPT ![o.p] = e[3]]]
         ELSE Bad(<<"loading", f, "gave", e>>)
    [] o.o = 32 -> [Same EXCEPT !.f = [fs EXCEPT ![o.t] = Cut(f, o.n)]]
    [] o.o = 33 -> IF f.k = "none" \/ o.n >= f.len \/ o.n >= HeaderSize THEN Same
                   ELSE [Same EXCEPT !.f = [fs EXCEPT ![o.t] = Change(f, o.n, o.p)]]
    [] o.o = 34 -> [Same EXCEPT !.f = [fs EXCEPT ![o.t] = NoFile]]
    [] o.o = 35 -> IF e[2] = 0 THEN Same ELSE Bad(<<"saved where nothing can be written", o.n>>)
    [] o.o = 37 ->
         IF o.n >= size[o.p] THEN Saved(o.p)
         ELSE IF e[2] # 0 THEN Bad(<<"an incomplete save reported success", o.n, size[o.p]>>)
         ELSE [Same EXCEPT !.f = [fs EXCEPT ![o.t] = [k |-> "left", p |-> o.p, len |-> e[3], x |-> <<>>]]]
    [] o.o \in {38, 41} ->
         IF All(e, {0}) THEN [Same EXCEPT !.f = [fs EXCEPT ![o.t] = [NoFile EXCEPT !.k = "left"]]]
         ELSE Bad(<<IF o.o = 38 THEN "a file cut short was loaded, bytes" ELSE "a wrong header was accepted, case",
                    FirstOut(e, {0}) - 2, "outcome", e[FirstOut(e, {0})]>>)
    \* 0: failed and cannot be loaded, 6: failed but complete, 7: saved;
    \* 2: failed with a hole in the file, about which nothing is promised
    [] o.o \in {39, 40} ->
         LET may == IF o.o = 39 THEN {0, 6, 7} ELSE {0, 2, 6, 7} IN
         IF All(e, may) THEN [Same EXCEPT !.f = [fs EXCEPT ![o.t] = [NoFile EXCEPT !.k = "left"]]]
         ELSE Bad(<<"failing write", FirstOut(e, may) - 2, "outcome", e[FirstOut(e, may)]>>)
    [] OTHER -> Bad(<<"unknown operation">>)

Next ==
  /\ verdict = Good
  /\ \E c \in {Cases[idx]} :
     /\ i <= Len(c.ops)
     /\ i' = i + 1
     /\ IF i = Len(c.ops) THEN
          /\ verdict' = IF c.end # 0 THEN <<"crash or hang", c.end>>
                        ELSE IF Len(c.log) # Len(c.ops) THEN <<"events", Len(c.log)>> ELSE Good
          /\ UNCHANGED <<fs, slots, size>>
        ELSE IF i + 1 > Len(c.log) THEN
          /\ verdict' = <<"no outcome of operation", i + 1, c.ops[i + 1].o, "end", c.end>>
          /\ UNCHANGED <<fs, slots, size>>
        ELSE \E r \in {Outcome(c.ops[i + 1], c.log[i + 1], Len(c.files))} :
          /\ verdict' = r.v /\ fs' = r.f /\ slots' = r.s /\ size' = r.z
  /\ UNCHANGED idx

Spec == Init /\ [][Next]_vars
View == <<idx, i>>
Conforms == verdict = Good \/ (PrintT(<<"BAD", Cases[idx].id, verdict>>) /\ FALSE)
=============================================================================
