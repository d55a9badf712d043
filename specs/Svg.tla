--------------------------------- MODULE Svg ---------------------------------
(* The SVG document of a drawing: what it contains and where on the canvas it  *)
(* puts each point.  The drawing is read point by point (Bounds); its image is *)
(* exact: a point is at NumX / Den, NumY / Den pixels.                         *)
EXTENDS Bounds
VARIABLE canvas          \* [w |-> width, h |-> height]
svars == <<paths, box, canvas>>

DX == box.maxx - box.minx
DY == box.maxy - box.miny
\* The one scale of both axes is A / B: the largest with which the drawing fits.
WidthGoverns == DX > 0 /\ (DY = 0 \/ canvas.w * DY <= canvas.h * DX)
HeightGoverns == DY > 0 /\ ~WidthGoverns
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Scale(num, den) == LET g == Gcd(num, den) IN <<num \div g, den \div g>>
AB == IF WidthGoverns THEN Scale(canvas.w, DX) ELSE IF HeightGoverns THEN Scale(canvas.h, DY) ELSE <<1, 1>>
A == AB[1]
B == AB[2]
Den == 2 * B
NumX(q) == canvas.w * B + A * (2 * q[1] - box.minx - box.maxx)
NumY(q) == canvas.h * B - A * (2 * q[2] - box.miny - box.maxy)
\* in thousandths of a pixel, rounded down
\* (in two parts, so that the numbers stay small)
Milli(num) == 1000 * (num \div Den) + (1000 * (num % Den)) \div Den
Image(q) == <<Milli(NumX(q)), Milli(NumY(q))>>
Doc == [w |-> canvas.w, h |-> canvas.h, paths |-> paths]

\* -------------------------------------------------------------------------
\* What the placement guarantees, for every drawing in the bounds.
Pts == {At(q) : q \in Places}
InsideCanvas == \A q \in Pts : NumX(q) \in 0..canvas.w * Den /\ NumY(q) \in 0..canvas.h * Den
Centred == Pts # {} =>
  LET xs == {NumX(q) : q \in Pts}
      ys == {NumY(q) : q \in Pts}
      MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
      MaxOf(s) == CHOOSE x \in s : \A y \in s : x >= y
  IN MinOf(xs) + MaxOf(xs) = canvas.w * Den /\ MinOf(ys) + MaxOf(ys) = canvas.h * Den
Upright == \A q, r \in Pts : (q[2] > r[2] => NumY(q) < NumY(r)) /\ (q[1] > r[1] => NumX(q) > NumX(r))
Undistorted == \A q, r \in Pts : (NumX(q) - NumX(r)) * (r[2] - q[2]) = (NumY(q) - NumY(r)) * (q[1] - r[1])
AsLargeAsPossible ==
  (Pts # {} /\ (DX > 0 \/ DY > 0)) =>
     \/ (\E q \in Pts : NumX(q) = 0) /\ (\E q \in Pts : NumX(q) = canvas.w * Den)
     \/ (\E q \in Pts : NumY(q) = 0) /\ (\E q \in Pts : NumY(q) = canvas.h * Den)
=============================================================================
