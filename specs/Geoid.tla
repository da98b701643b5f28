----------------------------------- MODULE Geoid ---------------------------------
(* Height of the geoid: the one-degree EGM2008 table in geoid.json (micrometres,    *)
(* by degree of longitude from 0 to 360, then latitude from -90 to 90) and its       *)
(* interpolation: Catmull-Rom cubics along both axes, linear next to the poles.      *)
EXTENDS Fix, Json
Table_ == JsonDeserialize("geoid.json")
Metres(n) == Carry(n \div 1000000, (n % 1000000) \div 100, (n % 100) * 100, 0, 0)
Node(x, y) == Metres(Table_[(x % 360) + 1][y + 91])
Spline(p, f) == p[2] \oplus (Half(f) \otimes ((p[3] \ominus p[1]) \oplus (f \otimes
  (((Mult(p[1], 2) \ominus Mult(p[2], 5)) \oplus (Mult(p[3], 4) \ominus p[4])) \oplus (f \otimes (Mult(p[2] \ominus p[3], 3) \oplus (p[4] \ominus p[1])))))))
Linear(a, b, f) == a \oplus (f \otimes (b \ominus a))
Column(x, y, f) == Spline(<<Node(x, y - 1), Node(x, y), Node(x, y + 1), Node(x, y + 2)>>, f)
\* in the cell whose south-west corner is x east, y north; offsets fx, fy
Cell(x, y, fx, fy) ==
  IF y = 90 THEN Node(x, 90)
  ELSE IF y = -90 \/ y = 89 THEN Linear(Linear(Node(x, y), Node(x + 1, y), fx), Linear(Node(x, y + 1), Node(x + 1, y + 1), fx), fy)
  ELSE Spline(<<Column(x - 1, y, fy), Column(x, y, fy), Column(x + 1, y, fy), Column(x + 2, y, fy)>>, fx)
\* degrees
Height(lat, lon) == Cell(lon[1] % 360, lat[1], <<0, lon[2], lon[3], lon[4], lon[5]>>, <<0, lat[2], lat[3], lat[4], lat[5]>>)
===============================================================================
