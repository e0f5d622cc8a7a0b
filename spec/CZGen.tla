------------------------------- MODULE CZGen --------------------------------
(***************************************************************************)
(* Several generators with strain fields and post-transforms as objects of *)
(* their own (C08, C10, C11): a field can serve two generators and can be  *)
(* changed after it was attached; a copy has fields of its own.            *)
(*                                                                         *)
(* st = [gens |-> id :> [g, sid, pid], S |-> sequence of strain fields,    *)
(*       P |-> sequence of post-transforms (each a sequence of steps)];    *)
(* sid = 0, pid = 0: none.                                                 *)
(***************************************************************************)
EXTENDS CZField

GNone == [k |-> "none"]
View(st, id) == LET x == st.gens[id] IN
  [g |-> x.g, s |-> IF x.sid = 0 THEN GNone ELSE st.S[x.sid], post |-> IF x.pid = 0 THEN <<>> ELSE st.P[x.pid]]

RECURSIVE MapGens(_, _)
MapGens(Ts, g) == IF Ts = <<>> THEN g ELSE MapGens(Tail(Ts), MapGen(Head(Ts), g, Head(Ts)))

GEmpty == [gens |-> <<>>, S |-> <<>>, P |-> <<>>]
Put(st, id, x) == [st EXCEPT !.gens = (id :> x) @@ @]
GenStep(st, e) ==
  LET x == IF e.fn = "g_new" THEN <<>> ELSE st.gens[e.id] IN
  CASE e.fn = "g_new" -> Put(st, e.id, [g |-> [k |-> "crystal", o |-> e.o, B |-> e.B, D |-> e.D, sites |-> e.sites], sid |-> 0, pid |-> 0])
    [] e.fn = "g_strain" -> Put([st EXCEPT !.S = Append(@, e.s)], e.id, [x EXCEPT !.sid = Len(st.S) + 1])
    [] e.fn = "g_share" -> Put(st, e.id, [x EXCEPT !.sid = st.gens[e.from].sid])
    [] e.fn = "g_smat" -> [st EXCEPT !.S = [@ EXCEPT ![x.sid] = [@ EXCEPT !.vals = e.vals]]]
    [] e.fn = "g_smode" -> [st EXCEPT !.S = [@ EXCEPT ![x.sid] = [@ EXCEPT !.mode = e.mode]]]
    [] e.fn = "g_sorg" -> [st EXCEPT !.S = [@ EXCEPT ![x.sid] = [@ EXCEPT !.fix = TRUE, !.o = e.o]]]
    [] e.fn = "g_sgen" -> [st EXCEPT !.S = [@ EXCEPT ![x.sid] = [@ EXCEPT !.fix = FALSE]]]
    [] e.fn = "g_post" -> Put([st EXCEPT !.P = Append(@, e.post)], e.id, [x EXCEPT !.pid = Len(st.P) + 1])
    [] e.fn = "g_pshare" -> Put(st, e.id, [x EXCEPT !.pid = st.gens[e.from].pid])
    [] e.fn = "g_padd" -> [st EXCEPT !.P = [@ EXCEPT ![x.pid] = Append(@, e.p)]]
    [] e.fn = "g_org" -> Put(st, e.id, [x EXCEPT !.g = [@ EXCEPT !.o = e.o]])
    [] e.fn = "g_struct" -> Put(st, e.id, [x EXCEPT !.g = [@ EXCEPT !.B = e.B, !.D = e.D, !.sites = e.sites]])
    [] e.fn = "g_tf" -> Put(st, e.id, [x EXCEPT !.g = MapGen(e.T, @, e.T)])
    [] e.fn = "g_copy" ->
         LET v == View(st, e.id)
             st1 == IF x.sid = 0 THEN st ELSE [st EXCEPT !.S = Append(@, v.s)]
             st2 == IF x.pid = 0 THEN st1 ELSE [st1 EXCEPT !.P = Append(@, v.post)]
         IN Put(st2, e.new, [g |-> MapGens(e.T, x.g),
                             sid |-> IF x.sid = 0 THEN 0 ELSE Len(st1.S), pid |-> IF x.pid = 0 THEN 0 ELSE Len(st2.P)])
    [] OTHER -> st

GenClauses(st, e) ==
  IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE CASE e.fn = "g_supply" -> FieldSupply(View(st, e.id), e)
         [] e.fn = "g_volume" -> FieldVolume(View(st, e.id), e)
         [] OTHER -> {}
=============================================================================
