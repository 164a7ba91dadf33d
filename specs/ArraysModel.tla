---------------------------- MODULE ArraysModel -----------------------------
(* Programs of array operations.                                             *)
EXTENDS Arrays, TLC, Json
CONSTANTS RowsIn, ColsIn, RowsTo, ColsTo, Depth
VARIABLES first, a, prog
vars == <<first, a, prog>>

Label(r, c) == Build(r, c, LAMBDA i, j : i*c + j + 1)
Init == /\ \E r \in RowsIn, c \in ColsIn : first = Label(r, c)
        /\ a = first /\ prog = <<>>
Apply(op) == prog' = Append(prog, op) /\ a' = Do(a, op) /\ UNCHANGED first
EvenSized(x) == Rows(x) % 2 = 0 /\ Cols(x) % 2 = 0
Op == \/ \E r \in RowsTo, c \in ColsTo, x \in {0, 7} :
           Apply([op |-> "crop", r |-> r, c |-> c, x |-> x])
      \/ Apply([op |-> "square"])
      \* relays are defined for arrays of even size and interpixel ones
      \/ \E n \in {0, 1, 2, 3} : Apply([op |-> "relay", n |-> n, cen |-> "interpixel"])
      \/ EvenSized(a) /\ \E n \in 1..2 : Apply([op |-> "relay", n |-> n, cen |-> "pixel"])
      \/ \E i \in {-3, 0, 9}, j \in {1, 7, -20}, r \in {3, 6}, c \in {2, 3} :
           Apply([op |-> "off", i2 |-> i, j2 |-> j, r |-> r, c |-> c])
      \/ \E k \in 2..3 : CanBin(a, k) /\ Apply([op |-> "bin", k |-> k])
Next == (Len(prog) < Depth /\ Op) \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Shape == Rows(a) >= 1 /\ \A i \in 1..Rows(a) : Len(a[i]) = Cols(a)
\* padding then cropping back is the identity; chains of crops commute
RoundTrip == Len(prog) < 2 => \A r \in RowsTo, c \in ColsTo :
   (r >= Rows(a) /\ c >= Cols(a)) => Crop(Crop(a, r, c, 0), Rows(a), Cols(a), 0) = a
Chain == Len(prog) < 2 => \A r \in RowsTo, c \in ColsTo, q \in RowsTo, d \in ColsTo :
   (r >= Rows(a) \/ r >= q) /\ (c >= Cols(a) \/ c >= d)
      => Crop(Crop(a, r, c, 0), q, d, 0) = Crop(a, q, d, 0)
CentreStays == Len(prog) < 2 => \A r \in RowsTo, c \in ColsTo :
   At(Crop(a, r, c, 0), Mid(r), Mid(c), 0) = At(a, Mid(Rows(a)), Mid(Cols(a)), 0)
TwoRelays == \A cen \in {"pixel", "interpixel"} : Turn(Turn(a, cen), cen) = a
RelayKeepsCentre == EvenSized(a) =>
   At(Turn(a, "pixel"), Mid(Rows(a)), Mid(Cols(a)), 0) = At(a, Mid(Rows(a)), Mid(Cols(a)), 0)
OffcentreIsCrop == Len(prog) < 2 => \A r \in RowsTo, c \in ColsTo :
   Window(a, Mid(Rows(a)), Mid(Cols(a)), r, c, 0) = Crop(a, r, c, 0)
Emit == Len(prog) = Depth => PrintT("@@SCN " \o ToJson([first |-> first, prog |-> prog]))
=============================================================================
