------------------------------- MODULE Judge -------------------------------
(* The verdict of property PROP on one recorded event. *)
EXTENDS JStruct, JInt, JSess, JPrint, JForms

Verdict(prop, ev) ==
    CASE ev.e = "meta" -> Skip(ev.what)
      [] prop = "C01" -> C01(ev)
      [] prop \in {"C12", "C13"} -> C1213(prop, ev)
      [] prop = "C19" -> C1920("repr", ev)
      [] prop = "C20" -> C1920("latex", ev)
      [] prop = "C25" -> C25(ev)
      [] prop = "C23" -> C23(ev)
      [] prop = "C24" -> C24(ev)
      [] prop = "C11" -> C11(ev)
      [] prop = "C10" -> C10(ev)
      [] prop = "C09" -> C09(ev)
      [] prop = "C03" -> C03(ev)
      [] prop = "C04" -> C04(ev)
      [] prop = "C05" -> C05(ev)
      [] prop = "C06" -> C06(ev)
      [] prop = "C07" -> C07(ev)
      [] prop = "C08" -> C08(ev)
      [] prop = "C22" -> C22(ev)
      [] prop = "C21" -> C21(ev)
      [] prop = "C18" -> C18(ev)
      [] prop = "C17" -> C17(ev)
      [] prop = "C16" -> C16(ev)
      [] prop = "C15" -> C15(ev)
      [] prop = "C14" -> C14(ev)
      [] prop = "C02" -> C02(ev)
=============================================================================
