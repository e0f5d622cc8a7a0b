------------------------------- MODULE CZAGen -------------------------------
(***************************************************************************)
(* Several amorphous generators and volumes owning one (C13).              *)
(* st = id :> [ag |-> state of CZAmorph, vol |-> BOOLEAN, reg, pts]:       *)
(* an id names a generator or a volume with a generator of its own, whose  *)
(* region is reg = [planes |-> sequence of <<normal, point>>,              *)
(* spheres |-> sequence of <<centre, radius>>] and whose hull is spanned   *)
(* by pts.  Units of 1/1000 Angstrom, as in CZAmorph.                      *)
(***************************************************************************)
EXTENDS CZAmorph

AMap(T, A) == [i \in DOMAIN A |-> MapPoint(T, A[i])]
AMReg(T, r) == [planes |-> [i \in DOMAIN r.planes |-> <<MapNormal(T, r.planes[i][1]), MapPoint(T, r.planes[i][2])>>],
                spheres |-> [i \in DOMAIN r.spheres |-> <<MapPoint(T, r.spheres[i][1]), r.spheres[i][2]>>]]
(* as the half spaces CZAmorph asks for *)
AMHalf(r) == [planes |-> [i \in DOMAIN r.planes |-> <<r.planes[i][1], Dot(r.planes[i][1], r.planes[i][2])>>],
              spheres |-> r.spheres]

AMBlock(T, x) == IF T.bo THEN x ELSE [x EXCEPT !.block = AMap(T, @)]
AMTf(T, x) == IF x.vol THEN [x EXCEPT !.reg = AMReg(T, @), !.pts = AMap(T, @), !.ag = IF T.lk THEN AMBlock(T, @) ELSE @]
              ELSE [x EXCEPT !.ag = AMBlock(T, @)]
RECURSIVE AMTfs(_, _)
AMTfs(Ts, x) == IF Ts = <<>> THEN x ELSE AMTfs(Tail(Ts), AMTf(Head(Ts), x))

NoReg == [planes |-> <<>>, spheres |-> <<>>]
AMPut(st, id, x) == (id :> x) @@ st
AMStep(st, e) ==
  LET x == IF e.fn = "am_new" THEN <<>> ELSE st[e.id] IN
  CASE e.fn = "am_new" -> AMPut(st, e.id, [ag |-> AGNew(e), vol |-> FALSE, reg |-> NoReg, pts |-> <<>>])
    [] e.fn = "am_set" -> AMPut(st, e.id, [x EXCEPT !.ag = [@ EXCEPT !.dens = e.dens, !.m = e.m, !.z = e.z]])
    [] e.fn = "am_reuse" -> AMPut(st, e.id, [x EXCEPT !.ag = [@ EXCEPT !.reuse = e.on]])
    [] e.fn = "am_copy" -> AMPut(st, e.new, AMTfs(e.T, x))
    (* a volume made with the generator of x has one of its own *)
    [] e.fn = "am_vol" -> AMPut(st, e.new, [ag |-> x.ag, vol |-> TRUE, reg |-> e.reg, pts |-> e.pts])
    (* and one given the generator of x *)
    [] e.fn = "am_give" -> AMPut(st, e.to, [st[e.to] EXCEPT !.ag = x.ag])
    [] e.fn = "am_tf" -> AMPut(st, e.id, AMTf(e.T, x))
    [] e.fn = "am_look" -> AMPut(st, e.id, [x EXCEPT !.ag = [@ EXCEPT !.has = TRUE, !.bz = AGSpecies(x.ag), !.block = e.block]])
    [] OTHER -> st

AMClauses(st, e) ==
  IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE IF e.fn # "am_look" THEN {}
  ELSE LET x == st[e.id] IN
       IF x.vol THEN AGPopulate(x.ag, [res |-> e.res, block |-> e.block, zs |-> e.zs, pts |-> x.pts, region |-> AMHalf(x.reg)])
       ELSE AGSupply(x.ag, [res |-> e.res, zs |-> e.zs, pts |-> e.pts])
=============================================================================
