----------------------------- MODULE UcodeLayout -----------------------------
(* Which microcode field declarations the assembler must accept for a given *)
(* set of hardware fields, and where the hardware then reads each field.    *)
(*                                                                          *)
(* A behaviour starts from a declaration that matches the hardware and      *)
(* edits it; every reachable declaration is a case with a verdict, written  *)
(* to IOEnv.CASES and replayed into the real sentinel.ucoderom.UCodeROM.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

(* Each configuration (IOEnv.CONFIGS):                                      *)
(*  hw    sequence of [name, kind, width, members]: kind "plain" | "enum";  *)
(*        members sequence of [n, v], canon: the names that may not be      *)
(*        missing (an alias may)                                            *)
(*  decl  sequence of [name, kind, width, members, origin]:                 *)
(*        kind "plain" | "bool" | "enum"; width -1: inferred;               *)
(*        origin -1: next free bit                                          *)
(*  width word width;  edits: how many edits to explore                     *)
Configs == JsonDeserialize(IOEnv.CONFIGS)

VARIABLES cfg, decl, width, k, last
vars == <<cfg, decl, width, k, last>>

HW == Configs[cfg].hw
Names(s) == {s[i].name : i \in 1..Len(s)}
HwOf(n) == HW[CHOOSE i \in 1..Len(HW) : HW[i].name = n]

RECURSIVE BitLen(_)
BitLen(v) == IF v = 0 THEN 0 ELSE 1 + BitLen(v \div 2)
SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE v \in S : \A u \in S : u <= v

MemberNames(f) == {f.members[i].n : i \in 1..Len(f.members)}
ValueOf(f, n) == f.members[CHOOSE i \in 1..Len(f.members) : f.members[i].n = n].v
MaxMember(f) == SetMax({f.members[i].v : i \in 1..Len(f.members)})
BoolLike(f) == MemberNames(f) = {"false", "true"} /\ ValueOf(f, "false") = 0 /\ ValueOf(f, "true") = 1

Width(f) == CASE f.kind = "bool" -> 1
              [] f.width >= 0 -> f.width
              [] OTHER -> BitLen(MaxMember(f))

(* ---- the declaration by itself ---- *)
WellFormed(f) ==
  /\ Cardinality(MemberNames(f)) = Len(f.members)
  /\ f.kind = "enum" => Width(f) >= BitLen(MaxMember(f))

RECURSIVE OriginsR(_, _, _)
OriginsR(d, i, free) ==
  IF i > Len(d) THEN <<>>
  ELSE LET o == IF d[i].origin >= 0 THEN d[i].origin ELSE free
       IN <<o>> \o OriginsR(d, i + 1, o + Width(d[i]))
Origins(d) == OriginsR(d, 1, 0)

Ordered(d) == LET o == Origins(d) IN
  \A i \in 1..(Len(d) - 1) : o[i + 1] >= o[i] + Width(d[i])
Fits(d, w) == LET o == Origins(d) IN \A i \in 1..Len(d) : o[i] + Width(d[i]) <= w

(* ---- against the hardware ---- *)
FieldMatches(f) ==
  /\ f.name \in Names(HW)
  /\ LET h == HwOf(f.name) IN
     /\ Width(f) = h.width
     /\ CASE h.kind = "plain" -> f.kind \in {"plain", "bool"} \/ BoolLike(f)
          [] OTHER -> /\ f.kind = "enum"
                      /\ \A n \in MemberNames(f) : n \in MemberNames(h) /\ ValueOf(h, n) = ValueOf(f, n)
                      /\ \A i \in 1..Len(h.canon) : h.canon[i] \in MemberNames(f)

Accept(d, w) ==
  /\ Cardinality(Names(d)) = Len(d)
  /\ \A i \in 1..Len(d) : WellFormed(d[i]) /\ FieldMatches(d[i])
  /\ Ordered(d)
  /\ Fits(d, w)
Missing(d) == Names(HW) \ Names(d)

Reason(d, w) ==
  CASE Cardinality(Names(d)) # Len(d) -> "duplicate field"
    [] \E i \in 1..Len(d) : ~WellFormed(d[i]) -> "malformed enum"
    [] \E i \in 1..Len(d) : ~FieldMatches(d[i]) ->
         LET i == CHOOSE i \in 1..Len(d) : ~FieldMatches(d[i]) IN
         "field " \o d[i].name \o " does not match"
    [] ~Ordered(d) -> "overlapping or out of order"
    [] ~Fits(d, w) -> "word too narrow"
    [] OTHER -> ""

(* ---- edits ---- *)
Spot == 1..Len(decl)
IsEnum(i) == decl[i].kind = "enum" /\ Len(decl[i].members) > 0
Put(i, f) == decl' = [decl EXCEPT ![i] = f]

Rename(i) == \E n \in {"xyzzy", decl[1].name, decl[i].name \o "2"} \ {decl[i].name} :
               Put(i, [decl[i] EXCEPT !.name = n])
SetWidth(i) == \E d \in {-1, 1, 2} : Width(decl[i]) + d > 0 /\ decl[i].kind # "bool"
                 /\ Put(i, [decl[i] EXCEPT !.width = Width(decl[i]) + d])
ToPlain(i) == decl[i].kind # "plain" /\ Width(decl[i]) > 0
              /\ Put(i, [decl[i] EXCEPT !.kind = "plain", !.members = <<>>, !.width = Width(decl[i])])
ToBool(i) == decl[i].kind # "bool" /\ Put(i, [decl[i] EXCEPT !.kind = "bool", !.members = <<>>, !.width = -1])
ToEnum(i) == decl[i].kind # "enum" /\ \E m \in { <<[n |-> "off", v |-> 0], [n |-> "on", v |-> 1]>>,
                                                <<[n |-> "false", v |-> 0], [n |-> "true", v |-> 1]>> } :
              Put(i, [decl[i] EXCEPT !.kind = "enum", !.members = m, !.width = Width(decl[i])])
AddMember(i) == IsEnum(i) /\ \E v \in {0, MaxMember(decl[i]), MaxMember(decl[i]) + 1} :
                  Put(i, [decl[i] EXCEPT !.members = Append(@, [n |-> "plugh", v |-> v])])
DropMember(i) == IsEnum(i) /\ Len(decl[i].members) > 1 /\ \E j \in 1..Len(decl[i].members) :
                  Put(i, [decl[i] EXCEPT !.members = RemoveAt(@, j)])
RenameMember(i) == IsEnum(i) /\ \E j \in 1..Len(decl[i].members) :
                  \E n \in {"plugh", decl[i].members[1].n} \ {decl[i].members[j].n} :
                  Put(i, [decl[i] EXCEPT !.members[j].n = n])
ReValue(i) == IsEnum(i) /\ \E j \in 1..Len(decl[i].members), v \in 0..(MaxMember(decl[i]) + 1) :
                  decl[i].members[j].v # v /\ Put(i, [decl[i] EXCEPT !.members[j].v = v])
SwapMembers(i) == IsEnum(i) /\ \E j \in 1..(Len(decl[i].members) - 1) :
                  Put(i, [decl[i] EXCEPT !.members = [@ EXCEPT ![j] = decl[i].members[j + 1], ![j + 1] = decl[i].members[j]]])
SwapValues(i) == IsEnum(i) /\ \E j \in 1..(Len(decl[i].members) - 1) :
                  /\ decl[i].members[j].v # decl[i].members[j + 1].v
                  /\ Put(i, [decl[i] EXCEPT !.members[j].v = decl[i].members[j + 1].v,
                                            !.members[j + 1].v = decl[i].members[j].v])
(* all fields from i on move up by g bits; origins become explicit          *)
Shift(i) == LET o == Origins(decl) IN
  \E g \in {1, 3} : decl' = [j \in Spot |-> [decl[j] EXCEPT !.origin = o[j] + (IF j >= i THEN g ELSE 0)]]
Overlap(i) == LET o == Origins(decl) IN
              /\ i > 1 /\ o[i] > 0
              /\ decl' = [j \in Spot |-> [decl[j] EXCEPT !.origin = o[j] - (IF j >= i THEN 1 ELSE 0)]]
Drop(i) == Len(decl) > 1 /\ decl' = [j \in 1..(Len(decl) - 1) |-> IF j < i THEN decl[j] ELSE decl[j + 1]]
SwapFields(i) == /\ i < Len(decl)
                 /\ decl' = [j \in Spot |-> IF j = i THEN [decl[i + 1] EXCEPT !.origin = -1]
                                            ELSE IF j = i + 1 THEN [decl[i] EXCEPT !.origin = -1]
                                            ELSE [decl[j] EXCEPT !.origin = -1]]
ReverseAll == decl' = [j \in Spot |-> [decl[Len(decl) + 1 - j] EXCEPT !.origin = -1]]
Extra == decl' = Append(decl, [name |-> "xyzzy", kind |-> "plain", width |-> 2, members |-> <<>>, origin |-> -1])

Used == LET o == Origins(decl) IN SetMax({o[i] + Width(decl[i]) : i \in Spot})

Edit ==
  \/ \E i \in Spot :
       \/ (Rename(i) /\ last' = "rename")
       \/ (SetWidth(i) /\ last' = "width")
       \/ (ToPlain(i) /\ last' = "to plain")
       \/ (ToBool(i) /\ last' = "to bool")
       \/ (ToEnum(i) /\ last' = "to enum")
       \/ (AddMember(i) /\ last' = "add member")
       \/ (DropMember(i) /\ last' = "drop member")
       \/ (RenameMember(i) /\ last' = "rename member")
       \/ (ReValue(i) /\ last' = "value")
       \/ (SwapMembers(i) /\ last' = "swap members")
       \/ (SwapValues(i) /\ last' = "swap values")
       \/ (Shift(i) /\ last' = "gap")
       \/ (Overlap(i) /\ last' = "overlap")
       \/ (Drop(i) /\ last' = "drop field")
       \/ (SwapFields(i) /\ last' = "swap fields")
  \/ (ReverseAll /\ last' = "reverse")
  \/ (Extra /\ last' = "extra field")

Case == [cfg |-> cfg, decl |-> decl, width |-> width, edits |-> k, last |-> last,
         accept |-> Accept(decl, width), missing |-> Cardinality(Missing(decl)),
         reason |-> Reason(decl, width),
         origins |-> IF \A i \in Spot : WellFormed(decl[i]) THEN Origins(decl) ELSE <<>>]
Emit == Serialize(ToJson(Case) \o "\n", IOEnv.CASES,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Init == /\ cfg \in 1..Len(Configs)
        /\ decl = Configs[cfg].decl /\ width = Configs[cfg].width
        /\ k = 0 /\ last = "none"

Next == /\ k < Configs[cfg].edits
        /\ k' = k + 1 /\ UNCHANGED cfg
        /\ \/ Edit /\ UNCHANGED width
           \/ /\ \E w \in {Used - 1, Used, Used + 3} : w > 0 /\ w # width /\ width' = w
              /\ last' = "word width" /\ UNCHANGED decl

Spec == Init /\ [][Next]_vars

(* ---- properties of the specification itself ---- *)
(* The hardware reads fields in declaration order, gaps filled with padding.*)
RECURSIVE ReadFrom(_, _, _)
ReadFrom(d, o, i) ==
  IF i = 1 THEN <<o[1]>>
  ELSE LET r == ReadFrom(d, o, i - 1)
           pad == o[i] - (o[i - 1] + Width(d[i - 1]))
       IN Append(r, r[i - 1] + Width(d[i - 1]) + pad)
Placement == Accept(decl, width) =>
  LET o == Origins(decl)  r == ReadFrom(decl, o, Len(decl)) IN
  \A i \in Spot :
    /\ r[i] = o[i]
    /\ Width(decl[i]) = HwOf(decl[i].name).width
    /\ \A j \in Spot : i < j => o[j] >= o[i] + Width(decl[i])
Symbols == Accept(decl, width) => \A i \in Spot : decl[i].kind = "enum" /\ HwOf(decl[i].name).kind = "enum" =>
               \A n \in MemberNames(decl[i]) : ValueOf(decl[i], n) = ValueOf(HwOf(decl[i].name), n)
Verdict == Accept(decl, width) <=> Reason(decl, width) = ""
Faithful == k = 0 => Accept(decl, width) /\ Missing(decl) = {}
Emitted == Emit
=============================================================================
