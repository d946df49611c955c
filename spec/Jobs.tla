-------------------------------- MODULE Jobs --------------------------------
(***************************************************************************)
(* What is executed for each property: NEnum(prop) systematically          *)
(* enumerated jobs followed by any number of pseudo-random ones.           *)
(***************************************************************************)
EXTENDS JobsArith, JobsCalc, JobsStruct, JobsInt, JobsSess, JobsPrint, JobsForms

NEnum(prop) ==
    CASE prop = "C01" -> FamSize(C01Fam)
      [] prop = "C03" -> FamSize(C03Fam)
      [] prop = "C04" -> FamSize(C04Fam)
      [] prop = "C05" -> FamSize(C05Fam)
      [] prop = "C06" -> FamSize(C06Fam)
      [] prop = "C07" -> 2 * NReps
      [] prop = "C08" -> FamSize(C08Fam)
      [] prop = "C22" -> FamSize(C22Fam)
      [] prop = "C02" -> FamSize(C02Fam)
      [] prop = "C14" -> FamSize(C14Fam)
      [] prop = "C15" -> FamSize(C15Fam)
      [] prop = "C16" -> FamSize(C16Fam)
      [] prop = "C17" -> FamSize(C17Fam)
      [] prop = "C18" -> FamSize(C18Fam)
      [] prop = "C21" -> FamSize(C21Fam)
      [] prop = "C09" -> FamSize(C09Fam)
      [] prop = "C10" -> FamSize(C10Fam)
      [] prop = "C11" -> FamSize(C11Fam)
      [] prop = "C24" -> FamSize(C24Fam)
      [] prop = "C23" -> FamSize(C23Fam)
      [] prop = "C25" -> FamSize(FormFam)
      [] prop \in {"C12", "C13"} -> FamSize(SessFam)
      [] prop \in {"C19", "C20"} -> FamSize(PrintFam)
      [] OTHER -> 0

\* so many of them are in every tier; of the others, the quick tier may take every ESTEP-th
NAlways(prop) == IF prop \in {"C12", "C13"} THEN 3 * Len(Reps) ELSE IF prop = "C25" THEN NFormAlways ELSE IF prop \in {"C19", "C20"} THEN NPrintAlways ELSE 0

EnumJob(prop, i) ==
    CASE prop = "C01" -> C01E(i)
      [] prop = "C03" -> C03E(i)
      [] prop = "C04" -> C04E(i)
      [] prop = "C05" -> C05E(i)
      [] prop = "C06" -> C06E(i)
      [] prop = "C07" -> C07E(i)
      [] prop = "C08" -> C08E(i)
      [] prop = "C22" -> C22E(i)
      [] prop = "C21" -> C21E(i)
      [] prop = "C18" -> C18E(i)
      [] prop = "C17" -> C17E(i)
      [] prop = "C16" -> C16E(i)
      [] prop = "C15" -> C15E(i)
      [] prop = "C14" -> C14E(i)
      [] prop = "C09" -> C09E(i)
      [] prop = "C10" -> C10E(i)
      [] prop = "C11" -> C11E(i)
      [] prop = "C24" -> C24E(i)
      [] prop = "C23" -> C23E(i)
      [] prop = "C25" -> FormE(i)
      [] prop \in {"C12", "C13"} -> SessE(i)
      [] prop = "C19" -> PrintE("repr", i)
      [] prop = "C20" -> PrintE("latex", i)
      [] prop = "C02" -> C02E(i)

RandJob(prop, g) ==
    CASE prop = "C01" -> C01R(g)
      [] prop = "C03" -> C03R(g)
      [] prop = "C04" -> C04R(g)
      [] prop = "C05" -> C05R(g)
      [] prop = "C06" -> C06R(g)
      [] prop = "C07" -> C07R(g)
      [] prop = "C08" -> C08R(g)
      [] prop = "C22" -> C22R(g)
      [] prop = "C21" -> C21R(g)
      [] prop = "C18" -> C18R(g)
      [] prop = "C17" -> C17R(g)
      [] prop = "C16" -> C16R(g)
      [] prop = "C15" -> C15R(g)
      [] prop = "C14" -> C14R(g)
      [] prop = "C09" -> C09R(g)
      [] prop = "C10" -> C10R(g)
      [] prop = "C11" -> C11R(g)
      [] prop = "C24" -> C24R(g)
      [] prop = "C23" -> C23R(g)
      [] prop = "C25" -> FormR(g)
      [] prop \in {"C12", "C13"} -> SessR(g)
      [] prop = "C19" -> PrintR("repr", g)
      [] prop = "C20" -> PrintR("latex", g)
      [] prop = "C02" -> C02R(g)


\* other names for the symbols: the driver puts them in place of x, y, z everywhere in the job
Renames == <<[x |-> "alpha", y |-> "xx", z |-> "t"], [x |-> "k", y |-> "a", z |-> "x"], [x |-> "x_1", y |-> "x_2", z |-> "v"], [x |-> "t", y |-> "x", z |-> "y"], [x |-> "ab", y |-> "a", z |-> "beta"], [x |-> "u", y |-> "x", z |-> "v"], [x |-> "x", y |-> "u", z |-> "y"]>>
RenamesX == <<[x |-> "x", y |-> "a", z |-> "alpha"], [x |-> "x", y |-> "xx", z |-> "b"], [x |-> "x", y |-> "x1", z |-> "x_1"], [x |-> "x", y |-> "u", z |-> "v"]>>
Renamed(prop, j, g) ==
    LET c == Coin(g, 20)  r == Pick(c[2], IF prop \in {"C11", "C17", "C24"} THEN RenamesX ELSE Renames) IN
    IF c[1] /\ prop \notin {"C12", "C13", "C21", "C23", "C25"} THEN [ren |-> r[1]] @@ j ELSE j

Job(prop, seed, k) == IF k < NEnum(prop) THEN EnumJob(prop, k) ELSE Renamed(prop, RandJob(prop, G0(seed, k - NEnum(prop))), G0(seed + 77, k))
=============================================================================
