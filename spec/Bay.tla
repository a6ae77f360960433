-------------------------------- MODULE Bay --------------------------------
(***************************************************************************)
(* Stiffened panel bays.  A bay is a definition of the skin (as a shell)   *)
(* with                                                                    *)
(*   skins   the panels: [y1, y2, lam, rho, N, Nc], each on its strip; what *)
(*           its laminate does not give is that of the bay,                *)
(*   stiffs  the blade stiffeners in the order added: [kind, ys, rho, bb,  *)
(*           base, bf, flange, Fx, mf, nf, N, forces]; kind "1d" or "2d";  *)
(*           base and flange are laminates, stack = <<>> for none,         *)
(*   forces  the forces on the skin (and on a flange): [x, y, f],          *)
(*   sound   speed of sound, mu  given damping parameter.                  *)
(* Base: a laminate on the strip of width bb around ys, beneath the skin.  *)
(* Flange of a 1D blade: a beam with the motion of the skin line ys at     *)
(* the distance df.  Flange of a 2D blade: a plate of its own, joined to   *)
(* the skin line ys by penalties; its degrees of freedom follow those of   *)
(* the skin, in the order of the 2D blades.                                *)
(***************************************************************************)
EXTENDS Conn

\* laminate [stack, plyt, plyts, prop, props] put into a definition
WithLam(D, l, rho, off) ==
  [D EXCEPT !.stack = l.stack, !.plyt = l.plyt, !.plyts = l.plyts, !.prop = l.prop, !.props = l.props, !.rho = rho, !.rhos = <<>>,
            !.offset = off, !.ortho = FALSE]
RhoOf(Y, x) == IF x.rho # "" THEN x.rho ELSE Y.rho
OwnOr(Y, l) ==
  [stack |-> IF l.stack # <<>> THEN l.stack ELSE Y.stack,
   plyt |-> IF l.plyt # "" THEN l.plyt ELSE Y.plyt, plyts |-> IF l.plyts # <<>> THEN l.plyts ELSE Y.plyts,
   prop |-> IF l.prop # <<>> THEN l.prop ELSE Y.prop, props |-> IF l.props # <<>> THEN l.props ELSE Y.props]
SkinDef(Y, p) ==
  LET D == WithLam(Y, OwnOr(Y, p.lam), RhoOf(Y, p), "0")
  IN  [D EXCEPT !.sub = <<"", "", p.y1, p.y2>>, !.N = p.N, !.Nc = p.Nc]
Has(l) == l.stack # <<>>
PlyList(l) == IF l.plyts # <<>> THEN l.plyts ELSE [i \in 1..Len(l.stack) |-> l.plyt]
Thick(l) == IF Has(l) THEN RSumSeq([i \in 1..Len(l.stack) |-> R(PlyList(l)[i])]) ELSE R(0)

\* The panels on both sides of a line; at an edge of the bay the same one.
Left(Y, s)  == CHOOSE i \in 1..Len(Y.skins) : R(Y.skins[i].y2) = R(s.ys) \/ (R(s.ys) = R(0) /\ R(Y.skins[i].y1) = R(0))
Right(Y, s) == CHOOSE i \in 1..Len(Y.skins) : R(Y.skins[i].y1) = R(s.ys) \/ (R(s.ys) = R(Y.b) /\ R(Y.skins[i].y2) = R(Y.b))
SkinThick(Y, s) == RMul(Half, RAdd(Thickness(LamOf(SkinDef(Y, Y.skins[Left(Y, s)]))), Thickness(LamOf(SkinDef(Y, Y.skins[Right(Y, s)])))))
BaseDef(Y, s) ==
  [WithLam(Y, s.base, RhoOf(Y, s), RShow(RMul(R("-1/2"), RAdd(SkinThick(Y, s), Thick(s.base)))))
    EXCEPT !.sub = <<"", "", RShow(RSub(R(s.ys), RDiv(R(s.bb), 2))), RShow(RAdd(R(s.ys), RDiv(R(s.bb), 2)))>>,
           !.N = <<"0", "0", "0">>, !.Nc = <<"0", "0", "0">>]
FlangeFlags == << <<"0", "0", "0", "0">>, <<"1", "0", "1", "0">>, <<"0", "0", "0", "0">>, <<"1", "0", "1", "0">>,
                  <<"0", "1", "0", "1">>, <<"1", "1", "1", "1">> >>
FlangeDef(Y, s) ==
  [WithLam(Y, s.flange, RhoOf(Y, s), "0")
    EXCEPT !.b = s.bf, !.r = "", !.m = s.mf, !.n = s.nf, !.fl = FlangeFlags, !.sub = <<"", "", "", "">>, !.N = s.N, !.Nc = <<"0", "0", "0">>]
SkinOnly(Y) == [Y EXCEPT !.sub = <<"", "", "", "">>]

\* Degrees of freedom.
Plate(s) == s.kind = "2d" /\ Has(s.flange)
NumFl(s) == IF Plate(s) THEN 3 * s.mf * s.nf ELSE 0
RECURSIVE BeforeFl(_, _)
BeforeFl(Y, i) == IF i = 1 THEN 3 * Y.m * Y.n ELSE BeforeFl(Y, i - 1) + NumFl(Y.stiffs[i - 1])
BayTotal(Y) == BeforeFl(Y, Len(Y.stiffs) + 1)
\* Fields of a vector: skin, and one per stiffener (that of the skin where there is no plate).
BayField(Y, v, ab) ==
  [skin |-> Field(SkinOnly(Y), v, 0, ab),
   fl |-> [i \in 1..Len(Y.stiffs) |-> IF Plate(Y.stiffs[i]) THEN Field(FlangeDef(Y, Y.stiffs[i]), v, BeforeFl(Y, i), ab) ELSE <<>>]]

-----------------------------------------------------------------------------
(* Flange of a 1D blade. *)
Df(Y, s) == RAdd(RDiv(R(s.bf), 2), RAdd(Thick(s.base), RDiv(SkinThick(Y, s), 2)))
PlyProp(l, i) == IF l.props # <<>> THEN l.props[i] ELSE l.prop
\* sum over the plies of the thickness times f(stiffness of the ply)
OverPlies(l, f(_)) == RSumSeq([i \in 1..Len(l.stack) |-> RMul(R(PlyList(l)[i]), f(PlyQbar(PlyProp(l, i), l.stack[i])))])
\* axial stiffness per width: uniaxial stress across the flange
AxialE(l) == OverPlies(l, LAMBDA Q : RSub(MGet(Q, 1, 1), RDiv(RMul(MGet(Q, 1, 2), MGet(Q, 1, 2)), MGet(Q, 2, 2))))
ShearG(l) == OverPlies(l, LAMBDA Q : MGet(Q, 3, 3))
Cube(x) == RMul(x, RMul(x, x))
PolarJ(s) == LET h == Thick(s.flange)   b == R(s.bf) IN RDiv(RAdd(RMul(h, Cube(b)), RMul(b, Cube(h))), 12)
\* torsional stiffness; and the one of the pinned commit, without a modulus (see known_findings.json)
TorsionGJ(s) == RMul(RDiv(ShearG(s.flange), Thick(s.flange)), PolarJ(s))
TorsionCoded(s) == RMul(R(s.bf), PolarJ(s))
\* Coupling of the extension and the torsion of the flange (plies across the line, twist w,xy: shear strain 2 y w,xy, without transverse stress);
\* and the one of the pinned commit: from a face of the flange, half as much, and with Q16 for Q26.
RECURSIVE YPly(_, _)
YPly(l, i) == IF i = 1 THEN RDiv(R(PlyList(l)[1]), 2) ELSE RAdd(YPly(l, i - 1), RDiv(RAdd(R(PlyList(l)[i - 1]), R(PlyList(l)[i])), 2))
Couple(l, coded, ab) ==
  RSumSeq([i \in 1..Len(l.stack) |->
    LET Q == PlyQbar(PlyProp(l, i), l.stack[i])
        q == RSub(MGet(Q, 1, 3), RDiv(RMul(MGet(Q, 1, 2), MGet(Q, IF coded THEN 1 ELSE 2, 3)), MGet(Q, 2, 2)))
        y == IF coded THEN YPly(l, i) ELSE RMul(2, RSub(YPly(l, i), RDiv(Thick(l), 2)))
    IN  S(ab, RMul(R(PlyList(l)[i]), RMul(y, q)))])
BeamKC(Y, s, F1, F2, coded, ab) ==
  LET D == SkinOnly(Y)
      on(P) == OnY(D, P, R(s.ys), ab)
      df == Df(Y, s)
      ea == RMul(R(s.bf), AxialE(s.flange))
      e(F) == MAdd(on(F.ux), MScale(df, on(F.wxx)))
      ei == RDiv(RMul(ea, RMul(R(s.bf), R(s.bf))), 12)
  IN  RAdd(RMul(ea, IntX(D, PMul(e(F1), e(F2)), ab)),
      RAdd(RMul(ei, IntX(D, PMul(on(F1.wxx), on(F2.wxx)), ab)),
      RAdd(RMul(IF coded THEN TorsionCoded(s) ELSE TorsionGJ(s), IntX(D, PMul(on(F1.wxy), on(F2.wxy)), ab)),
           RMul(RMul(R(s.bf), Couple(s.flange, coded, ab)), RAdd(IntX(D, PMul(e(F1), on(F2.wxy)), ab), IntX(D, PMul(on(F1.wxy), e(F2)), ab))))))
BeamKG(Y, s, F1, F2, ab) ==
  LET D == SkinOnly(Y)
      on(P) == OnY(D, P, R(s.ys), ab)
  IN  RMul(S(ab, R(s.Fx)), IntX(D, PMul(on(F1.wx), on(F2.wx)), ab))
\* Velocities of the points of the flange, z = -(df +- bf/2): the moments of its section.
BeamKM(Y, s, F1, F2, ab) ==
  LET D == SkinOnly(Y)
      on(P) == OnY(D, P, R(s.ys), ab)
      bf == R(s.bf)
      df == Df(Y, s)
      i0 == RMul(R(RhoOf(Y, s)), RMul(bf, Thick(s.flange)))
      i1 == RMul(i0, df)
      i2 == RMul(i0, RAdd(RMul(df, df), RDiv(RMul(bf, bf), 12)))
      x(P, Q) == IntX(D, PMul(on(P), on(Q)), ab)
  IN  RSumSeq(<< RMul(i0, RSumSeq(<<x(F1.u, F2.u), x(F1.v, F2.v), x(F1.w, F2.w)>>)),
                 RMul(i1, RSumSeq(<<x(F1.u, F2.wx), x(F1.wx, F2.u), x(F1.v, F2.wy), x(F1.wy, F2.v)>>)),
                 RMul(i2, RAdd(x(F1.wx, F2.wx), x(F1.wy, F2.wy))) >>)

(* Joint of the flange of a 2D blade with the skin. *)
FlangeGap(Y, s, F, Fl, ab) ==
  LET D == SkinOnly(Y)   E == FlangeDef(Y, s)
      under == IF Has(s.base) THEN BaseDef(Y, s) ELSE SkinDef(Y, Y.skins[Left(Y, s)])
      k == KtKr(LamOf(under), LamOf(E), "ycte")
      kt == k[1]   kr == k[2]
      minus(P, Q) == IF ab THEN MAdd(P, Q) ELSE MSub(P, Q)
      s_(P) == OnY(D, P, R(s.ys), ab)   f_(P) == OnY(E, P, R(0), ab)
  IN  << <<kt, minus(s_(F.u), f_(Fl.u))>>, <<kt, minus(s_(F.v), f_(Fl.w))>>, <<kt, MAdd(s_(F.w), f_(Fl.v))>>, <<kr, minus(s_(F.wy), f_(Fl.wy))>> >>
JointForm(Y, s, G, H, ab) == RSumSeq([q \in 1..4 |-> RMul(G[q][1], IntX(SkinOnly(Y), PMul(G[q][2], H[q][2]), ab))])

-----------------------------------------------------------------------------
(* Forms of the bay. *)
Sum_(n, f(_)) == RSumSeq([i \in 1..n |-> f(i)])
Uncte(D, F1, F2, ab) == IF \E k \in 1..3 : R(D.Nc[k]) # R(0) THEN KGForm(D, F1, F2, UniformForces(D.Nc, ab), ab) ELSE R(0)
PlainKC(D, F1, F2, ab) == RAdd(KCForm(D, F1, F2, F1, FALSE, <<>>, ab), Uncte(D, F1, F2, ab))
\* What stiffener i adds.
StiffKC(Y, i, X1, X2, coded, ab) ==
  LET s == Y.stiffs[i] IN
  RAdd(IF Has(s.base) THEN PlainKC(BaseDef(Y, s), X1.skin, X2.skin, ab) ELSE R(0),
       IF ~Has(s.flange) THEN R(0)
       ELSE IF s.kind = "1d" THEN BeamKC(Y, s, X1.skin, X2.skin, coded, ab)
       ELSE RAdd(PlainKC(FlangeDef(Y, s), X1.fl[i], X2.fl[i], ab),
                 JointForm(Y, s, FlangeGap(Y, s, X1.skin, X1.fl[i], ab), FlangeGap(Y, s, X2.skin, X2.fl[i], ab), ab)))
\* X0: the state; the bases carry no membrane force.
StateKG(D, F1, F2, F0, nl, ab) == KGForm(D, F1, F2, MembraneForces(D, F0, nl, <<>>, D.N, ab), ab)
StiffKG(Y, i, X1, X2, X0, nl, ab) ==
  LET s == Y.stiffs[i] IN
  IF ~Has(s.flange) THEN R(0)
  ELSE IF s.kind = "1d" THEN BeamKG(Y, s, X1.skin, X2.skin, ab) ELSE StateKG(FlangeDef(Y, s), X1.fl[i], X2.fl[i], X0.fl[i], nl, ab)
PlainKM(D, F1, F2, ab) == KMForm(D, F1, F2, UniformMass(LamOf(D), ab), ab)
StiffKM(Y, i, X1, X2, ab) ==
  LET s == Y.stiffs[i] IN
  RAdd(IF Has(s.base) THEN PlainKM(BaseDef(Y, s), X1.skin, X2.skin, ab) ELSE R(0),
       IF ~Has(s.flange) THEN R(0)
       ELSE IF s.kind = "1d" THEN BeamKM(Y, s, X1.skin, X2.skin, ab) ELSE PlainKM(FlangeDef(Y, s), X1.fl[i], X2.fl[i], ab))
BayKC(Y, X1, X2, coded, ab) ==
  RAdd(Sum_(Len(Y.skins), LAMBDA i : PlainKC(SkinDef(Y, Y.skins[i]), X1.skin, X2.skin, ab)),
       Sum_(Len(Y.stiffs), LAMBDA i : StiffKC(Y, i, X1, X2, coded, ab)))
BayKG(Y, X1, X2, X0, ab) ==
  RAdd(Sum_(Len(Y.skins), LAMBDA i : StateKG(SkinDef(Y, Y.skins[i]), X1.skin, X2.skin, X0.skin, FALSE, ab)),
       Sum_(Len(Y.stiffs), LAMBDA i : StiffKG(Y, i, X1, X2, X0, FALSE, ab)))
BayKM(Y, X1, X2, ab) ==
  RAdd(Sum_(Len(Y.skins), LAMBDA i : PlainKM(SkinDef(Y, Y.skins[i]), X1.skin, X2.skin, ab)),
       Sum_(Len(Y.stiffs), LAMBDA i : StiffKM(Y, i, X1, X2, ab)))
=============================================================================
