------------------------------- MODULE P06_Crew -------------------------------
(* Completion of passenger, cargo, crew and baggage inputs. State: the aircraft inputs o, a record
   whose fields are integers, M when not given. One action per stage of the completion; the whole
   completion is applied twice (a second application must change nothing).
   Fields: mp mf mb me  mission passengers in total, first, business, economy;  dp df db de  design;
   cargo maxc desc  cargo masses (lbm);  att gal fcr cab  flight attendants, galley, flight and cabin
   crew;  pbag  baggage per passenger, pmass  mass per passenger, pwb  mass with bags;  range (nmi);
   fuse  fuselage engines of the first engine type;  typ  aircraft type (0 transport, 1 other);
   tail  vertical tail mount;  meth  0 FLOPS 1 GASP M none;  ptype 0 sizing 1 other. *)
EXTENDS Emit

M == -999
Given(x) == x # M
Or0(x) == IF Given(x) THEN x ELSE 0

FLOPS(o) == o.meth = 0
GASP(o) == o.meth = 1

MissionGiven(o) == Given(o.mp) \/ (FLOPS(o) /\ (Given(o.mf) \/ Given(o.mb) \/ Given(o.me)))
DesignGiven(o) == Given(o.dp) \/ (FLOPS(o) /\ (Given(o.df) \/ Given(o.db) \/ Given(o.de)))

(* stage 1: counts not given are 0; a side of which nothing is given is the other side *)
Fill(o) == IF FLOPS(o)
  THEN [o EXCEPT !.mp = Or0(@), !.mf = Or0(@), !.mb = Or0(@), !.me = Or0(@),
                 !.dp = Or0(@), !.df = Or0(@), !.db = Or0(@), !.de = Or0(@)]
  ELSE [o EXCEPT !.mp = Or0(@), !.dp = Or0(@)]
CopySide(o) ==
  LET f == Fill(o)
      m == MissionGiven(o)
      d == DesignGiven(o)
  IN IF m /\ ~d THEN IF FLOPS(o) THEN [f EXCEPT !.dp = f.mp, !.df = f.mf, !.db = f.mb, !.de = f.me] ELSE [f EXCEPT !.dp = f.mp]
     ELSE IF ~m /\ d THEN IF FLOPS(o) THEN [f EXCEPT !.mp = f.dp, !.mf = f.df, !.mb = f.db, !.me = f.de] ELSE [f EXCEPT !.mp = f.dp]
     ELSE f

(* stage 2: classes win over the total; with no classes at all everybody is in economy *)
Resolve(o) ==
  IF FLOPS(o)
  THEN LET ds == o.df + o.db + o.de
           ms == o.mf + o.mb + o.me
       IN [o EXCEPT !.dp = IF ds # 0 THEN ds ELSE @, !.de = IF ds = 0 THEN o.dp ELSE @,
                    !.mp = IF ms # 0 THEN ms ELSE @, !.me = IF ms = 0 THEN o.mp ELSE @]
  ELSE [o EXCEPT !.de = IF o.dp # 0 /\ Or0(o.df) = 0 /\ Or0(o.db) = 0 /\ ~Given(o.de) THEN o.dp ELSE @,
                 !.me = IF o.mp # 0 /\ Or0(o.mf) = 0 /\ Or0(o.mb) = 0 /\ ~Given(o.me) THEN o.mp ELSE @]
\* deviation of the code (known finding): with GASP, economy is always made the total
ResolveDev(o) == IF FLOPS(o) THEN Resolve(o)
  ELSE [o EXCEPT !.de = IF o.dp # 0 THEN o.dp ELSE @, !.me = IF o.mp # 0 THEN o.mp ELSE @]

(* stage 3 (GASP): cargo *)
Cargo(o) ==
  LET c == Given(o.cargo)
      x == Given(o.maxc)
      d == Given(o.desc)
  IN CASE c /\ x /\ d -> [o EXCEPT !.cargo = IF o.ptype = 0 THEN o.desc ELSE @]
       [] c /\ x /\ ~d -> [o EXCEPT !.desc = o.maxc]
       [] c /\ ~x /\ d -> [o EXCEPT !.maxc = o.desc]
       [] c /\ ~x /\ ~d -> [o EXCEPT !.maxc = o.cargo, !.desc = o.cargo]
       [] ~c /\ x /\ d -> [o EXCEPT !.cargo = 0]
       [] ~c /\ x /\ ~d -> [o EXCEPT !.cargo = 0, !.desc = 0]
       [] ~c /\ ~x /\ d -> [o EXCEPT !.cargo = 0, !.maxc = o.desc]
       [] OTHER -> [o EXCEPT !.cargo = 0, !.maxc = 0, !.desc = 0]
CargoRefused(o) == o.cargo > o.maxc \/ o.desc > o.maxc

(* stage 4 (FLOPS): crew, baggage, tail *)
Attendants(n) == IF n <= 0 THEN 0 ELSE IF n <= 50 THEN 1 ELSE n \div 40 + 1
Galley(n) == IF n <= 150 THEN 0 ELSE n \div 250 + 1
FlightCrew(n) == IF n <= 150 THEN 2 ELSE 3
Bags(range) == IF ~Given(range) \/ range <= 900 THEN 35 ELSE IF range <= 2900 THEN 40 ELSE 44
Crew(o) ==
  LET a == [o EXCEPT !.att = IF Given(@) /\ @ >= 0 THEN @ ELSE Attendants(o.dp),
                     !.gal = IF Given(@) /\ @ >= 0 THEN @ ELSE Galley(o.dp),
                     !.fcr = IF Given(@) THEN @ ELSE FlightCrew(o.dp),
                     !.pbag = IF Given(@) THEN @ ELSE Bags(o.range),
                     !.tail = IF Given(@) THEN @
                              ELSE IF Given(o.fuse) /\ o.fuse > 1 /\ o.typ \in {M, 0} THEN 1 ELSE 0]
  IN [a EXCEPT !.cab = IF Given(@) THEN a.att + a.gal ELSE @]

Complete(o, R(_)) ==
  IF ~Given(o.meth) THEN [err |-> "UserWarning", o |-> o]
  ELSE LET r == R(CopySide(o)) IN
  IF FLOPS(o) THEN [err |-> "", o |-> Crew(r)]
  ELSE LET c == Cargo(r) IN
       IF CargoRefused(c) THEN [err |-> "UserWarning", o |-> o]
       ELSE IF ~Given(o.pwb) /\ (~Given(o.pmass) \/ ~Given(o.pbag)) THEN [err |-> "KeyError", o |-> o]
       ELSE [err |-> "", o |-> [c EXCEPT !.pwb = IF Given(@) THEN @ ELSE o.pmass + o.pbag]]

Result(o) == Complete(o, Resolve)
ResultDev(o) == Complete(o, ResolveDev)

\* the second completion (known finding): a sizing run whose flown cargo is not the design cargo once
\* completed - the first completion leaves that, the second one flies the design cargo
Unstable(o) == GASP(o) /\ o.ptype = 0 /\ LET c == Cargo(o) IN c.cargo # c.desc

----------------------------------------------------------------------------
CONSTANTS Counts, Few, CargoV, CrewV, PaxV, RangeV

Base == [mp |-> M, mf |-> M, mb |-> M, me |-> M, dp |-> M, df |-> M, db |-> M, de |-> M, cargo |-> M, maxc |-> M, desc |-> M,
         att |-> M, gal |-> M, fcr |-> M, cab |-> M, pbag |-> M, pmass |-> M, pwb |-> M, range |-> M, fuse |-> M, typ |-> M,
         tail |-> M, meth |-> M, ptype |-> 0]
OrM(S) == S \cup {M}
With(b, r) == [k \in DOMAIN b |-> IF k \in DOMAIN r THEN r[k] ELSE b[k]]

PaxF == [mp : OrM(Counts), mf : OrM(Few), mb : OrM(Few), me : OrM(Few), dp : OrM(Counts), df : OrM(Few), db : OrM(Few), de : OrM(Few),
         meth : {0}]
PaxG == [mp : OrM(Counts), me : OrM(Few), mf : OrM(Few), dp : OrM(Counts), df : OrM(Few), de : OrM(Few), meth : {1}, pmass : {180}, pbag : {20}]
CargoG == [cargo : OrM(CargoV), maxc : OrM(CargoV), desc : OrM(CargoV), ptype : {0, 1}, meth : {1}, mp : {M, 100}, dp : {M, 120},
           pmass : {M, 180}, pbag : {M, 20}, pwb : {M, 210}]
CrewF == [dp : OrM(PaxV), mp : {M, 151}, att : OrM(CrewV), gal : OrM(CrewV), fcr : OrM(CrewV), cab : OrM(CrewV), meth : {0}]
BagF == [range : OrM(RangeV), pbag : {M, 37}, fuse : {M, 0, 1, 2}, typ : {M, 0, 1}, tail : {M, 0, 1}, meth : {0}, dp : {100}]
NoMeth == [mp : {M, 5}, meth : {M}]

CONSTANT Group
Worlds == CASE Group = "PaxF" -> PaxF [] Group = "PaxG" -> PaxG [] Group = "CargoG" -> CargoG
            [] Group = "CrewF" -> CrewF [] Group = "BagF" -> BagF [] Group = "NoMeth" -> NoMeth

VARIABLES o0, o, err, n
vars == <<o0, o, err, n>>
Init == \E w \in Worlds : o0 = With(Base, w) /\ o = o0 /\ err = "" /\ n = 0
Preprocess == n < 2 /\ err = "" /\ LET r == Result(o) IN o' = r.o /\ err' = r.err /\ n' = n + 1 /\ UNCHANGED o0
Next == Preprocess
\* one line per world: the intended and the known deviating result of the first run
EmitCase == n = 0 => LET r == Result(o)
                         d == ResultDev(o)
                     IN Emit([o |-> o, err |-> r.err, r |-> r.o, derr |-> d.err, d |-> d.o, unstable |-> Unstable(o)])

(* properties of the design *)
Done == n >= 1 /\ err = ""
ClassesSum == (Done /\ FLOPS(o)) => o.mp = o.mf + o.mb + o.me /\ o.dp = o.df + o.db + o.de
SidesFilled == (Done /\ ~MissionGiven(o0)) => o.mp = o.dp
DesignFilled == (Done /\ ~DesignGiven(o0)) => o.mp = o.dp
\* class counts are only ever added, or made the total when all are zero
ClassesKept == (Done /\ FLOPS(o)) =>
   /\ \A k \in {"mf", "mb", "df", "db"} : Given(o0[k]) => o[k] = o0[k]
   /\ (Given(o0.me) /\ Or0(o0.mf) + Or0(o0.mb) + o0.me # 0) => o.me = o0.me
   /\ (Given(o0.de) /\ Or0(o0.df) + Or0(o0.db) + o0.de # 0) => o.de = o0.de
ConsistentTotalKept == Done => /\ (Given(o0.dp) /\ (GASP(o) \/ o0.dp = Or0(o0.df) + Or0(o0.db) + Or0(o0.de))) => o.dp = o0.dp
                               /\ (Given(o0.mp) /\ (GASP(o) \/ o0.mp = Or0(o0.mf) + Or0(o0.mb) + Or0(o0.me))) => o.mp = o0.mp
CargoOrdered == (Done /\ GASP(o)) => o.cargo <= o.maxc /\ o.desc <= o.maxc
CargoKept == (Done /\ GASP(o)) => (Given(o0.maxc) => o.maxc = o0.maxc) /\ (Given(o0.desc) => o.desc = o0.desc)
CrewSum == (Done /\ FLOPS(o) /\ Given(o.cab)) => o.cab = o.att + o.gal
CrewKept == (Done /\ FLOPS(o)) => \A k \in {"att", "gal"} : (Given(o0[k]) /\ o0[k] >= 0) => o[k] = o0[k]
Stable == [][(n = 1 /\ ~Unstable(o0)) => o' = o]_vars
=============================================================================
