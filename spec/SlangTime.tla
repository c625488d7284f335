------------------------------ MODULE SlangTime ------------------------------
(***************************************************************************)
(* Points of time as seconds since 1970-01-01 00:00 UTC, the calendar and  *)
(* clock of a time zone, and the texts strftime writes and strptime reads. *)
(* A zone has an offset in seconds east of UTC and possibly a second one   *)
(* from the n-th Sunday of a month to the n-th Sunday of another (5: the   *)
(* last), changing at a second of that day on the clock shown before.      *)
(* A format is a sequence of items: [l |-> text] literally or              *)
(* [d |-> letter] for a directive.  Cases:                                 *)
(*   write  the text of time t in format f                                 *)
(*   read   the time that the clock reading c, written in format f and     *)
(*          cut after n items, stands for; 0 if it is none                 *)
(*   now    times that were observed one after the other                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, st
vars == <<k, st>>

Q == Cases[k]
Init == k \in 1..Len(Cases) /\ st = "asked"

----------------------------------------------------------------------------
(* The calendar                                                            *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Length(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE Before(y, m - 1) + Length(y, m - 1)      \* days of the year before a month
Years(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
Day(y, m, d) == Years(y) + Before(y, m) + d - 1                                \* days since 1970-01-01
YearOf(z) == LET e == 1970 + z \div 365 IN CHOOSE y \in (e - 1)..(e + 1) : Years(y) <= z /\ z < Years(y + 1)
MonthOf(y, r) == CHOOSE m \in 1..12 : Before(y, m) <= r /\ r < Before(y, m) + Length(y, m)
Weekday(z) == (z + 4) % 7                                                      \* 0 is Sunday

(* Clocks                                                                  *)
Sunday(y, m, n) == LET f == Day(y, m, 1)
                       s == f + ((7 - Weekday(f)) % 7) + 7 * (n - 1)
                   IN IF s < f + Length(y, m) THEN s ELSE s - 7
Summer(z, t) ==
  /\ z.dname # ""
  /\ LET y == YearOf((t + z.off) \div 86400)
         b == Sunday(y, z.sm, z.sn) * 86400 + z.ss - z.off
         e == Sunday(y, z.em, z.en) * 86400 + z.es - z.doff
     IN IF b < e THEN b <= t /\ t < e ELSE b <= t \/ t < e
Clock(z, t) ==
  LET o == IF Summer(z, t) THEN z.doff ELSE z.off
      u == (t + o) \div 86400
      s == (t + o) % 86400
      y == YearOf(u)
      r == u - Years(y)
      m == MonthOf(y, r)
  IN [Y |-> y, m |-> m, d |-> r - Before(y, m) + 1, H |-> s \div 3600, M |-> (s \div 60) % 60, S |-> s % 60, w |-> Weekday(u), j |-> r,
      o |-> o, t |-> t, z |-> IF Summer(z, t) THEN z.dname ELSE z.name]

----------------------------------------------------------------------------
(* Writing                                                                 *)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Three(n) == IF n < 100 THEN "0" \o Two(n) ELSE ToString(n)
Blank(n) == IF n < 10 THEN " " \o ToString(n) ELSE ToString(n)
Days == <<"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday">>
Months == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
Short(s) == SubSeq(s, 1, 3)
Twelve(h) == IF h % 12 = 0 THEN 12 ELSE h % 12
\* the week of ISO 8601 is the one of its Thursday
Thursday(c) == Day(c.Y, c.m, c.d) + 3 - ((c.w + 6) % 7)
Abs(n) == IF n < 0 THEN -n ELSE n

Weeks(c) == [U |-> (c.j + 7 - c.w) \div 7, W |-> (c.j + 7 - ((c.w + 6) % 7)) \div 7,
             V |-> LET t == Thursday(c) IN (t - Years(YearOf(t))) \div 7 + 1, G |-> YearOf(Thursday(c))]

RECURSIVE Dir(_, _)
Dir(x, c) ==
  CASE x = "Y" -> ToString(c.Y)
    [] x = "C" -> Two(c.Y \div 100)
    [] x = "y" -> Two(c.Y % 100)
    [] x = "m" -> Two(c.m)
    [] x = "d" -> Two(c.d)
    [] x = "e" -> Blank(c.d)
    [] x = "H" -> Two(c.H)
    [] x = "I" -> Two(Twelve(c.H))
    [] x = "k" -> Blank(c.H)
    [] x = "l" -> Blank(Twelve(c.H))
    [] x = "M" -> Two(c.M)
    [] x = "S" -> Two(c.S)
    [] x = "p" -> IF c.H < 12 THEN "AM" ELSE "PM"
    [] x = "P" -> IF c.H < 12 THEN "am" ELSE "pm"
    [] x = "s" -> ToString(c.t)
    [] x = "t" -> "\t"
    [] x = "A" -> Days[c.w + 1]
    [] x = "a" -> Short(Days[c.w + 1])
    [] x = "B" -> Months[c.m]
    [] x \in {"b", "h"} -> Short(Months[c.m])
    [] x = "j" -> Three(c.j + 1)
    [] x = "w" -> ToString(c.w)
    [] x = "u" -> ToString(IF c.w = 0 THEN 7 ELSE c.w)
    [] x \in {"U", "W", "V"} -> Two(Weeks(c)[x])
    [] x = "G" -> ToString(Weeks(c).G)
    [] x = "g" -> Two(Weeks(c).G % 100)
    [] x \in {"D", "x"} -> Dir("m", c) \o "/" \o Dir("d", c) \o "/" \o Dir("y", c)
    [] x = "F" -> Dir("Y", c) \o "-" \o Dir("m", c) \o "-" \o Dir("d", c)
    [] x = "R" -> Dir("H", c) \o ":" \o Dir("M", c)
    [] x \in {"T", "X"} -> Dir("R", c) \o ":" \o Dir("S", c)
    [] x = "r" -> Dir("I", c) \o ":" \o Dir("M", c) \o ":" \o Dir("S", c) \o " " \o Dir("p", c)
    [] x = "c" -> Dir("a", c) \o " " \o Dir("b", c) \o " " \o Dir("e", c) \o " " \o Dir("T", c) \o " " \o Dir("Y", c)
    [] x = "Z" -> c.z
    [] x = "z" -> (IF c.o < 0 THEN "-" ELSE "+") \o Two(Abs(c.o) \div 3600) \o Two((Abs(c.o) \div 60) % 60)
    [] x = "%" -> "%"

RECURSIVE Text(_, _)
Text(f, c) == IF f = <<>> THEN "" ELSE (IF "d" \in DOMAIN f[1] THEN Dir(f[1].d, c) ELSE f[1].l) \o Text(Tail(f), c)

----------------------------------------------------------------------------
(* Reading.  The reading c is what was written, so that a directive reads  *)
(* the number of c it wrote.                                               *)
Uses(f) == UNION {CASE "l" \in DOMAIN f[i] -> {}
                    [] f[i].d = "D" -> {"m", "d", "y"}
                    [] f[i].d = "F" -> {"Y", "m", "d"}
                    [] f[i].d = "T" -> {"H", "M", "S"}
                    [] f[i].d = "R" -> {"H", "M"}
                    [] f[i].d = "e" -> {"d"}
                    [] f[i].d \in {"b", "B", "h"} -> {"m"}
                    [] OTHER -> {f[i].d} : i \in DOMAIN f}
\* values no directive accepts; a number with a digit too many is an error where something else has to follow, otherwise the rest of the text is ignored
Zeros(u, c) == ("m" \in u /\ c.m = 0) \/ ("d" \in u /\ c.d = 0)
Over(u, c) == \/ "m" \in u /\ c.m > 12
              \/ "d" \in u /\ c.d > 31
              \/ "H" \in u /\ c.H > 23
              \/ "M" \in u /\ c.M > 59
              \/ "S" \in u /\ c.S > 61
Last(x) == CASE x = "D" -> "y" [] x = "F" -> "d" [] x = "T" -> "S" [] x = "R" -> "M" [] OTHER -> x
Wrong(f, c) == \E i \in {j \in DOMAIN f : "d" \in DOMAIN f[j]} :
                 LET u == Uses(<<f[i]>>)
                     v == IF i < Len(f) /\ "l" \in DOMAIN f[i + 1] THEN {} ELSE {Last(f[i].d)}
                 IN Zeros(u, c) \/ Over(u \ v, c)
Hour(u, c) == IF "H" \in u \/ {"I", "p"} \subseteq u THEN c.H ELSE 0
\* all times at which the clock shows the reading
Shown(z, y, m, d, h, mi, s) ==
  LET x == Day(y, m, d) * 86400 + h * 3600 + mi * 60 + s
  IN {t \in {x - z.off} \cup (IF z.dname = "" THEN {} ELSE {x - z.doff}) :
        LET c == Clock(z, t) IN <<c.Y, c.m, c.d, c.H, c.M, c.S>> = <<y, m, d, h, mi, s>>}
Read(z, f, n, c) ==
  LET u == Uses(f)
  IN IF Wrong(SubSeq(f, 1, n), c) \/ n < Len(f) THEN <<0>>
     ELSE IF Over(u, c) THEN <<>>
     ELSE IF ~({"m", "d"} \subseteq u /\ {"Y", "y"} \cap u # {}) \/ ("I" \in u) # ("p" \in u) THEN <<>>
     ELSE IF c.d > Length(c.Y, c.m) \/ ("S" \in u /\ c.S > 59) \/ ("Y" \notin u /\ c.Y \notin 1969..2068) THEN <<>>
     ELSE LET T == Shown(z, c.Y, c.m, c.d, Hour(u, c), IF "M" \in u THEN c.M ELSE 0, IF "S" \in u THEN c.S ELSE 0)
          \* a reading that is shown never or twice stands for no particular time
          IN IF Cardinality(T) = 1 THEN <<CHOOSE t \in T : TRUE>> ELSE <<>>

----------------------------------------------------------------------------
Ordered(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

Answer == CASE Q.k = "write" -> <<Text(Q.f, Clock(Q.z, Q.t))>>
            [] Q.k = "read" -> <<Text(SubSeq(Q.f, 1, Q.n), Q.c), Read(Q.z, Q.f, Q.n, Q.c)>>
            [] Q.k = "now" -> <<Ordered(Q.s)>>

Next == /\ st = "asked" /\ PrintT(<<"TIME", k, Answer>>) /\ st' = "answered" /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Laws                                                                    *)
Date(z) == LET y == YearOf(z) m == MonthOf(y, z - Years(y)) IN <<y, m, z - Years(y) - Before(y, m) + 1>>
\* the day after a day is the next one in the calendar
Calendar == Q.k = "write" =>
  LET z == Q.t \div 86400
      a == Date(z)
      b == Date(z + 1)
  IN /\ Day(a[1], a[2], a[3]) = z
     /\ \/ b = <<a[1], a[2], a[3] + 1>> /\ a[3] < Length(a[1], a[2])
        \/ b = <<a[1], a[2] + 1, 1>> /\ a[3] = Length(a[1], a[2]) /\ a[2] < 12
        \/ b = <<a[1] + 1, 1, 1>> /\ a[2] = 12 /\ a[3] = 31
\* a time is among those its own clock reading stands for
RoundTrip == Q.k = "write" =>
  LET c == Clock(Q.z, Q.t) IN Q.t \in Shown(Q.z, c.Y, c.m, c.d, c.H, c.M, c.S)
\* weeks of ISO 8601 have seven days and year G has its fourth of January in week 1
IsoWeeks == Q.k = "write" =>
  LET c == Clock(Q.z, Q.t)
      w == Weeks(c)
      f == Day(w.G, 1, 4)
  IN Day(c.Y, c.m, c.d) = f - ((Weekday(f) + 6) % 7) + 7 * (w.V - 1) + ((c.w + 6) % 7)
=============================================================================
