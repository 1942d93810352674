----------------------------- MODULE UcodeProgram ----------------------------
(* What a microcode source means: which sources are refused, which word the *)
(* ROM holds at each address, and what the hex listing and the field        *)
(* definitions say about it.                                                *)
(*                                                                          *)
(* A behaviour writes a source one statement at a time; every source is a   *)
(* case with a verdict and a memory image, written to IOEnv.CASES and       *)
(* replayed into the real sentinel.ucoderom.UCodeROM.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

(* Each configuration (IOEnv.CONFIGS):                                      *)
(*  size      words in the address space;  width  bits per word             *)
(*  steps     how many statements to write                                  *)
(*  origins   addresses an origin statement may name                        *)
(*  labels    sequence of sets (sequences) of labels an instruction carries *)
(*  targets   values of the jump field: [k |-> "none"|"num"|"label", n, l]  *)
(*  ops       values of the enumerated field: [k |-> "none"|"sym"|"macro", v]*)
(*  flags     values of the boolean field: -1 not mentioned, 0, 1           *)
(*  prune     TRUE: refused sources are not continued                       *)
(*  spaces    TRUE: a second address space may be declared                  *)
(*  toff, ooff, foff  positions of the three fields                         *)
(*  tdef, odef, fdef  defaults of the three fields; macro: the macro's op   *)
Configs == JsonDeserialize(IOEnv.CONFIGS)

VARIABLES cfg, prog
vars == <<cfg, prog>>
C == Configs[cfg]

(* ---- statements ---- *)
Org(a) == [s |-> "org", a |-> a, labels |-> <<>>, t |-> [k |-> "none", n |-> 0, l |-> ""],
           o |-> [k |-> "none", v |-> 0], f |-> -1]
Other == [Org(0) EXCEPT !.s = "space"]
Ins(l, t, o, f) == [s |-> "ins", a |-> 0, labels |-> l, t |-> t, o |-> o, f |-> f]

(* ---- addresses ---- *)
RECURSIVE PcR(_, _)
PcR(p, i) == IF i = 1 THEN 0
             ELSE LET b == p[i - 1] IN
                  CASE b.s = "org" -> b.a
                    [] b.s = "ins" -> PcR(p, i - 1) + 1
                    [] OTHER -> PcR(p, i - 1)
Pc(i) == PcR(prog, i)
InsAt == {i \in 1..Len(prog) : prog[i].s = "ins"}
Placed == {Pc(i) : i \in InsAt}

Definitions(l) == {Pc(i) : i \in {j \in InsAt : l \in Range(prog[j].labels)}}
Labels == UNION {Range(prog[i].labels) : i \in InsAt}
Mentioned == {prog[i].t.l : i \in {j \in InsAt : prog[j].t.k = "label"}}
Where(l) == CHOOSE a \in Definitions(l) : TRUE

(* ---- verdict ---- *)
Collision == \E i, j \in InsAt : i < j /\ Pc(i) = Pc(j)
TooFar == \E a \in Placed : a >= C.size
TwoPlaces == \E l \in Labels : Cardinality(Definitions(l)) > 1
Spaces == \E i \in 1..Len(prog) : prog[i].s = "space"
(* the assembler gives an undefined label no meaning; such sources are not  *)
(* replayed                                                                 *)
Undefined == \E l \in Mentioned : l \notin Labels
Empty == InsAt = {}
Accept == ~Collision /\ ~TooFar /\ ~TwoPlaces /\ ~Spaces
Reason == CASE Spaces -> "two address spaces"
            [] Collision -> "two instructions at one address"
            [] TwoPlaces -> "a label with two addresses"
            [] TooFar -> "past the end of the address space"
            [] OTHER -> ""

(* ---- memory ---- *)
TargetOf(i) == CASE prog[i].t.k = "none" -> C.tdef
                 [] prog[i].t.k = "num" -> prog[i].t.n
                 [] OTHER -> Where(prog[i].t.l)
OpOf(i) == CASE prog[i].o.k = "none" -> C.odef
             [] prog[i].o.k = "macro" -> C.macro
             [] OTHER -> prog[i].o.v
FlagOf(i) == IF prog[i].f = -1 THEN C.fdef ELSE prog[i].f
WordOf(i) == TargetOf(i) * 2 ^ C.toff + OpOf(i) * 2 ^ C.ooff + FlagOf(i) * 2 ^ C.foff

At(a) == {i \in InsAt : Pc(i) = a}
Memory == [a \in 0..(C.size - 1) |-> IF At(a) = {} THEN 0 ELSE WordOf(CHOOSE i \in At(a) : TRUE)]
Fields(a) == LET i == CHOOSE i \in At(a) : TRUE IN
  IF At(a) = {} THEN [t |-> 0, o |-> 0, f |-> 0]
  ELSE [t |-> TargetOf(i), o |-> OpOf(i), f |-> FlagOf(i)]

RECURSIVE BitLen(_)
BitLen(v) == IF v = 0 THEN 0 ELSE 1 + BitLen(v \div 2)
AddrWidth == BitLen(C.size - 1)

(* ---- behaviours ---- *)
Add(st) == prog' = Append(prog, st) /\ UNCHANGED cfg
Next ==
  /\ Len(prog) < C.steps
  /\ C.prune => Accept
  /\ \/ \E a \in Range(C.origins) : Add(Org(a))
     \/ \E l \in Range(C.labels), t \in Range(C.targets), o \in Range(C.ops), f \in Range(C.flags) :
          (* an instruction mentions at least one field *)
          /\ ~(t.k = "none" /\ o.k = "none" /\ f = -1)
          /\ Add(Ins(l, t, o, f))
     \/ (C.spaces /\ ~Spaces /\ Add(Other))

Init == cfg \in 1..Len(Configs) /\ prog = <<>>
Spec == Init /\ [][Next]_vars

Known == Accept /\ ~Undefined
Case == [cfg |-> cfg, prog |-> prog, accept |-> Accept, reason |-> Reason, addrwidth |-> AddrWidth,
         placed |-> IF Known THEN SetToSeq(Placed) ELSE <<>>,
         memory |-> IF Known THEN [a \in 1..C.size |-> Memory[a - 1]] ELSE <<>>,
         fields |-> IF Known THEN [a \in 1..C.size |-> Fields(a - 1)] ELSE <<>>]
Emit == Serialize(ToJson(Case) \o "\n", IOEnv.CASES,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
(* A source whose fate does not depend on an undefined label *)
Emitted == (Undefined /\ Accept) \/ Empty \/ Emit

(* ---- properties of the specification itself ---- *)
(* fields do not touch each other and every address fits the jump field     *)
Disjoint == /\ \A i \in InsAt : Known => WordOf(i) < 2 ^ C.width
            /\ Known => \A a \in 0..(C.size - 1) :
                 /\ (Memory[a] \div 2 ^ C.toff) % 2 ^ C.twidth = Fields(a).t
                 /\ (Memory[a] \div 2 ^ C.ooff) % 4 = Fields(a).o
                 /\ (Memory[a] \div 2 ^ C.foff) % 2 = Fields(a).f
(* every instruction of an accepted source is in the ROM, and nothing else *)
Complete == Known => /\ Cardinality(Placed) = Cardinality(InsAt)
                     /\ \A i \in InsAt : Memory[Pc(i)] = WordOf(i)
                     /\ \A a \in (0..(C.size - 1)) \ Placed : Memory[a] = 0
(* what is refused stays refused, whatever follows (labels do not move) *)
Monotone == [][~Accept => ~Accept']_vars
(* adding a statement changes no word already placed, unless it resolves a  *)
(* forward reference                                                        *)
Stable == [][(Known /\ Known') => \A a \in Placed : Memory'[a] = Memory[a]]_vars
Verdict == Accept <=> Reason = ""
=============================================================================
