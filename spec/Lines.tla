------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* The observation line format, over sequences of bytes (0..255):          *)
(*                                                                         *)
(*    timestamp [delim field {delim field}]      field ::= name ["=" value]*)
(*                                                                         *)
(* and the division of a request body into lines.  Text is turned into     *)
(* TLA+ strings by Chr, an injective table of the text of each byte.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Chr          \* Chr[b + 1] is the string for byte b

RECURSIVE Text(_, _)
Text(bs, i) == IF i > Len(bs) THEN "" ELSE Chr[bs[i] + 1] \o Text(bs, i + 1)

Digit(b) == b >= 48 /\ b <= 57

\* number of leading digits, at most 20
Digits(bs) == LET m == IF Len(bs) < 20 THEN Len(bs) ELSE 20
                  is == {i \in 1..m : ~Digit(bs[i])}
              IN  IF is = {} THEN m ELSE (CHOOSE i \in is : \A j \in is : i <= j) - 1

\* digits of 2^63 - 1
MaxTs == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>

RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) == i > Len(a) \/ a[i] < b[i] \/ (a[i] = b[i] /\ LexLe(a, b, i + 1))

RECURSIVE StripZeros(_)
StripZeros(d) == IF d # << >> /\ Head(d) = 48 THEN StripZeros(Tail(d)) ELSE d

InRange(d) == LET s == StripZeros(d) IN Len(s) < 19 \/ (Len(s) = 19 /\ LexLe(s, MaxTs, 1))

\* position of the first b in bs at or after i, or 0
RECURSIVE Pos(_, _, _)
Pos(bs, b, i) == IF i > Len(bs) THEN 0 ELSE IF bs[i] = b THEN i ELSE Pos(bs, b, i + 1)

Field(bs) == LET e == Pos(bs, 61, 1)
             IN  IF e = 0 THEN [f |-> Text(bs, 1), v |-> ""]
                 ELSE [f |-> Text(SubSeq(bs, 1, e - 1), 1), v |-> Text(SubSeq(bs, e + 1, Len(bs)), 1)]

RECURSIVE Fields(_, _)
Fields(bs, delim) == LET p == Pos(bs, delim, 1)
                     IN  IF p = 0 THEN << Field(bs) >>
                         ELSE << Field(SubSeq(bs, 1, p - 1)) >> \o Fields(SubSeq(bs, p + 1, Len(bs)), delim)

TooLong == <<-1>>     \* stands for a line longer than the server accepts

ParseLine(bs) ==
  LET n == IF bs = TooLong THEN 0 ELSE Digits(bs)
  IN  IF n = 0 \/ ~InRange(SubSeq(bs, 1, n)) THEN [ok |-> FALSE, row |-> << >>]
      ELSE IF n = Len(bs) THEN [ok |-> TRUE, row |-> << >>]
      ELSE [ok |-> TRUE, row |-> Fields(SubSeq(bs, n + 2, Len(bs)), bs[n + 1])]

\* one carriage return before the line feed is not part of the line
DropCR(bs) == IF bs # << >> /\ bs # TooLong /\ bs[Len(bs)] = 13 THEN SubSeq(bs, 1, Len(bs) - 1) ELSE bs

\* lines: the pieces of the body between line feeds; a last piece that is empty is no line
ParseBody(lines) ==
  LET k == IF lines # << >> /\ lines[Len(lines)] = << >> THEN Len(lines) - 1 ELSE Len(lines)
  IN  [i \in 1..k |-> ParseLine(DropCR(lines[i]))]

=============================================================================
