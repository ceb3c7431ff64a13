------------------------------ MODULE HkStrings ------------------------------
(***************************************************************************)
(* Text helpers.  TLC treats strings as sequences for Len, SubSeq and \o.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Char(s, i) == SubSeq(s, i, i)
Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [d \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = d]
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
          "r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
          "R","S","T","U","V","W","X","Y","Z"}
IdentStart == Lower \cup Upper \cup {"_"}
IdentRest  == IdentStart \cup Digits

ValidIdent(s) ==
  /\ Len(s) > 0
  /\ Char(s, 1) \in IdentStart
  /\ \A i \in 2..Len(s) : Char(s, i) \in IdentRest

HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
DropPrefix(s, p) == SubSeq(s, Len(p) + 1, Len(s))

(* Number of trailing decimal digits of s. *)
RECURSIVE TrailFrom(_, _)
TrailFrom(s, i) ==
  IF i >= 1 /\ Char(s, i) \in Digits THEN 1 + TrailFrom(s, i - 1) ELSE 0
Trail(s) == TrailFrom(s, Len(s))

RECURSIVE ToNat(_)
ToNat(s) == IF Len(s) = 0 THEN 0
            ELSE 10 * ToNat(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Char(s, Len(s))]

(* s is "<stem>_<digits>": the explicitly numbered form. *)
ExplicitlyNumbered(s) ==
  LET t == Trail(s)
  IN  t > 0 /\ Len(s) > t /\ Char(s, Len(s) - t) = "_"
Stem(s)   == IF ExplicitlyNumbered(s) THEN SubSeq(s, 1, Len(s) - Trail(s) - 1) ELSE s
Number(s) == ToNat(SubSeq(s, Len(s) - Trail(s) + 1, Len(s)))

(* Last path component. *)
RECURSIVE BaseFrom(_, _)
BaseFrom(s, i) == IF i < 1 THEN s
                  ELSE IF Char(s, i) = "/" THEN SubSeq(s, i + 1, Len(s))
                  ELSE BaseFrom(s, i - 1)
BaseName(s) == BaseFrom(s, Len(s))

(* Components of a path. *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, j) ==
  IF j > Len(s) THEN << SubSeq(s, i, Len(s)) >>
  ELSE IF Char(s, j) = "/" THEN << SubSeq(s, i, j - 1) >> \o SplitFrom(s, j + 1, j + 1)
  ELSE SplitFrom(s, i, j + 1)
SplitPath(s) == SplitFrom(s, 1, 1)

(* Replace every occurrence of the one-character marker m in s by r. *)
RECURSIVE ReplFrom(_, _, _, _)
ReplFrom(s, m, r, i) ==
  IF i > Len(s) THEN ""
  ELSE (IF Char(s, i) = m THEN r ELSE Char(s, i)) \o ReplFrom(s, m, r, i + 1)
Contains(s, m) == \E i \in 1..Len(s) : Char(s, i) = m
Replace(s, m, r) == IF Contains(s, m) THEN ReplFrom(s, m, r, 1) ELSE s
=============================================================================
