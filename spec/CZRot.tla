-------------------------------- MODULE CZRot --------------------------------
(***************************************************************************)
(* Rotation utilities (C27) and surface alignment (C20).                   *)
(*                                                                         *)
(* A real number x is recorded in two limbs <<h, l>>: x = h/10^4 + l/10^8   *)
(* to within 10^-8, with |l| <= 5000, so that claims about matrices are     *)
(* decided to about 10^-8 with 32-bit integers.  Angles are given by their  *)
(* rational cosine and sine.                                                *)
(***************************************************************************)
EXTENDS CZGeom

S4 == 10000
Hi(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[i][j][1]]]
Lo(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[i][j][2]]]
(* is H/10^4 + L/10^8 zero within tol/10^8 ? *)
IsZero(H, L, tol) == Abs(H) <= 100000 /\ Abs(S4 * H + L) <= tol
VIsZero(h, l, tol) == \A i \in 1..3 : IsZero(h[i], l[i], tol)
Mag(v) == Norm1(v) + 1

(* M is orthogonal to within 5*10^-8 and its determinant is positive *)
ProperRotation(m) ==
  LET h == Hi(m) l == Lo(m) IN
  /\ \A i, j \in 1..3 : Abs(h[i][j]) <= S4 + 1 /\ Abs(l[i][j]) <= 5000
  /\ \A i, j \in 1..3 :
       LET P == Dot(h[i], h[j]) - (IF i = j THEN S4 * S4 ELSE 0)
           Q == Dot(h[i], l[j]) + Dot(l[i], h[j])
       IN Abs(P) <= 50000 /\ Abs(S4 * P + Q) <= 60000
  /\ Dot(Cross(<<h[2][1], h[2][2], h[2][3]>>, <<h[3][1], h[3][2], h[3][3]>>), <<Sign(h[1][1]), Sign(h[1][2]), Sign(h[1][3])>>) > 0
(* M u = v for integer vectors *)
Maps(m, u, v) == VIsZero(VSub(MatVec(Hi(m), u), VMul(S4, v)), MatVec(Lo(m), u), 2 * Mag(u))
(* M u has the direction of v *)
Aligns(m, u, v) ==
  LET h == MatVec(Hi(m), u) l == MatVec(Lo(m), u) IN
  /\ VIsZero(Cross(h, v), Cross(l, v), 2 * Mag(u) * Mag(v))
  /\ Dot(h, v) > 0
Trace3(m) == m[1][1] + m[2][2] + m[3][3]
(* M = N/d *)
Equals(m, N, d) ==
  \A i, j \in 1..3 : IsZero(d * m[i][j][1] - S4 * N[i][j], d * m[i][j][2], 2 * d)

(***************************************************************************)
(* C27                                                                     *)
(***************************************************************************)
(* rotation about axis a by the angle with cosine c/d and sine s/d *)
RotV(e) ==
  LET h == Hi(e.m) l == Lo(e.m)
      w == <<h[3][2] - h[2][3], h[1][3] - h[3][1], h[2][1] - h[1][2]>>
  IN (IF ProperRotation(e.m) THEN {} ELSE {"not-a-rotation"})
     \cup (IF Maps(e.m, e.a, e.a) THEN {} ELSE {"axis-not-fixed"})
     \cup (IF IsZero(e.d * Trace3(h) - S4 * (e.d + 2 * e.c), e.d * Trace3(l), 6 * e.d) THEN {} ELSE {"wrong-angle"})
     \cup (IF e.s # 0 /\ Sign(Dot(w, e.a)) # Sign(e.s) THEN {"wrong-sense"} ELSE {})

(* shortest rotation of direction u onto v *)
RotVtv(e) ==
  LET w == Reduce(Cross(e.u, e.v))
      h == Hi(e.m) l == Lo(e.m)
  IN (IF ProperRotation(e.m) THEN {} ELSE {"not-a-rotation"})
     \cup (IF Aligns(e.m, e.u, e.v) THEN {} ELSE {"not-aligned"})
     \cup (IF w # Zero
           THEN IF Maps(e.m, w, w) THEN {} ELSE {"not-the-shortest-way"}
           ELSE IF Dot(e.u, e.v) > 0
           THEN IF Equals(e.m, Ident, 1) THEN {} ELSE {"not-the-shortest-way"}
           ELSE IF IsZero(Trace3(h) + S4, Trace3(l), 6) THEN {} ELSE {"not-a-half-turn"})

(* the same for v = sg (10^k u + t), k >= 4: next to parallel or to opposite *)
RotVtvNear(e) ==
  LET w == Reduce(Cross(e.u, e.t))
      h == Hi(e.m) l == Lo(e.m)
      hu == MatVec(h, e.u) lu == MatVec(l, e.u)
      a == Cross(hu, e.u)
      b == Cross(lu, e.u)
      c == Cross(hu, e.t)
      P == 10 ^ (e.k - 4)
  IN (IF ProperRotation(e.m) THEN {} ELSE {"not-a-rotation"})
     \cup (IF VIsZero(a, [i \in 1..3 |-> b[i] + (c[i] \div P)], 2 * Mag(e.u) * Mag(e.u) + 2) /\ e.sg * Dot(hu, e.u) > 0
           THEN {} ELSE {"not-aligned"})
     \cup (IF Maps(e.m, w, w) THEN {} ELSE {"not-the-shortest-way"})

RotAlign(e) ==
  (IF ProperRotation(e.m) THEN {} ELSE {"not-a-rotation"})
  \cup (IF Equals(e.m, e.N, e.d) THEN {} ELSE {"not-the-rotation"})

(* angles <<c, s, d>> *)
Rz(a) == << <<a[1], 0 - a[2], 0>>, <<a[2], a[1], 0>>, <<0, 0, a[3]>> >>
Rx(a) == << <<a[3], 0, 0>>, <<0, a[1], 0 - a[2]>>, <<0, a[2], a[1]>> >>
(* alpha-beta-gamma about the moving axes = gamma-beta-alpha about the fixed ones *)
RotZxz(e) ==
  (IF ProperRotation(e.m) THEN {} ELSE {"not-a-rotation"})
  \cup (IF Equals(e.m, MatMul(Rz(e.al), MatMul(Rx(e.be), Rz(e.ga))), e.al[3] * e.be[3] * e.ga[3])
        THEN {} ELSE {"wrong-sequence"})

RECURSIVE DotN(_, _, _)
DotN(u, v, k) == IF k = 0 THEN 0 ELSE u[k] * v[k] + DotN(u, v, k - 1)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET mid == (lo + hi) \div 2 IN
                           IF mid * mid <= n THEN ISqrtIn(n, mid, hi) ELSE ISqrtIn(n, lo, mid)
ISqrt(n) == ISqrtIn(n, 0, 46341)

(* ang and its cosine in two limbs; pi = 3.1415 9265 *)
VAngle(e) ==
  LET k == Len(e.u)
      uu == DotN(e.u, e.u, k)  vv == DotN(e.v, e.v, k)  uv == DotN(e.u, e.v, k)
      par == uv * uv = uu * vv
      A(h, l) == IsZero(e.ang[1] - h, e.ang[2] - l, 5)
      q == ISqrt(uu * vv * 10000)
  IN (IF e.ang[1] < 0 \/ e.ang[1] > 31416 THEN {"out-of-range"} ELSE {})
     \cup (IF par /\ uv > 0 /\ ~A(0, 0) THEN {"parallel-not-exact"} ELSE {})
     \cup (IF par /\ uv < 0 /\ ~A(31415, 9265) THEN {"opposite-not-exact"} ELSE {})
     \cup (IF uv = 0 /\ ~A(15707, 9633) THEN {"perpendicular-not-exact"} ELSE {})
     \cup (IF Abs(e.cos[1] * q - 1000000 * uv) <= 2 * S4 + 2 * q THEN {} ELSE {"wrong-angle"})

(***************************************************************************)
(* C20: planes with integer normals and points in 1/100 Angstrom.  The      *)
(* returned transformation is observed through the images (1/100 Angstrom)  *)
(* of points of the moving plane: p, p + u, p + v (in the plane), p + w     *)
(* along its normal, and of the reference point.                            *)
(***************************************************************************)
Near(a, b) == \A i \in 1..3 : Abs(a[i] - b[i]) <= 1
OnPlane(n, p, x) == Abs(Dot(n, VSub(x, p))) <= Norm1(n)
S2S(e) ==
  LET x0 == e.img[1]
      du == VSub(e.img[2], x0) dv == VSub(e.img[3], x0) dw == VSub(e.img[4], x0)
      SameLen(a, b) == Abs(Norm2(a) - Norm2(b)) <= 4 * Norm1(b) + 8
      SameDot(a, b, c, d) == Abs(Dot(a, b) - Dot(c, d)) <= 2 * (Norm1(c) + Norm1(d)) + 8
      cr == Cross(du, dv)
  IN (IF \A i \in 1..3 : OnPlane(e.tn, e.tp, e.img[i]) THEN {} ELSE {"not-on-the-target-plane"})
     \cup (IF VIsZero(<<0, 0, 0>>, Cross(dw, e.tn), 2 * Norm1(e.tn)) /\ Dot(dw, e.tn) < 0
           THEN {} ELSE {"normals-not-opposite"})
     \cup (IF VIsZero(<<0, 0, 0>>, Cross(VSub(e.img[5], e.tq), e.tn), 2 * Norm1(e.tn))
           THEN {} ELSE {"projections-differ"})
     \cup (IF /\ SameLen(du, e.du) /\ SameLen(dv, e.dv) /\ SameLen(dw, e.dw)
              /\ SameDot(du, dv, e.du, e.dv) /\ SameDot(du, dw, e.du, e.dw) /\ SameDot(dv, dw, e.dv, e.dw)
              /\ SameLen(VSub(e.img[5], x0), VSub(e.mq, e.mp))
              /\ SameDot(VSub(e.img[5], x0), dw, VSub(e.mq, e.mp), e.dw)
           THEN {} ELSE {"not-rigid"})
     \cup (IF Sign(Dot(cr, dw)) = Sign(Dot(Cross(e.du, e.dv), e.dw)) THEN {} ELSE {"mirrored"})
     (* the plane itself, transformed: unit normal in 1/10^4 *)
     \cup (IF VIsZero(<<0, 0, 0>>, Cross(e.pn, e.tn), 2 * Norm1(e.tn)) /\ Dot(e.pn, e.tn) < 0
              /\ OnPlane(e.tn, e.tp, e.pp) THEN {} ELSE {"plane-not-brought-into-contact"})

RotFns == {"rot_v", "rot_vtv", "rot_vtvn", "rot_align", "rot_zxz", "vangle", "s2s"}
RotClauses(e) ==
  IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE (IF e.same THEN {} ELSE {"inputs-changed"}) \cup
       CASE e.fn = "rot_v" -> RotV(e)
         [] e.fn = "rot_vtv" -> RotVtv(e)
         [] e.fn = "rot_vtvn" -> RotVtvNear(e)
         [] e.fn = "rot_align" -> RotAlign(e)
         [] e.fn = "rot_zxz" -> RotZxz(e)
         [] e.fn = "vangle" -> VAngle(e)
         [] e.fn = "s2s" -> S2S(e)
==============================================================================
