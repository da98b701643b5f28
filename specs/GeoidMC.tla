---------------------------------- MODULE GeoidMC --------------------------------
(* A traveller crosses the table cell by cell: the surface goes through the nodes,  *)
(* is continuous over the edges and the date line, and one value at each pole.      *)
EXTENDS Geoid
CONSTANTS Stride
VARIABLES x, y
vars == <<x, y>>
Init == x \in {0, 1, 179, 180, 359} /\ y \in {-90, -89, -88, 0, 87, 88, 89}
Next == \/ x + Stride < 360 /\ x' = x + Stride /\ y' = y
        \/ y + Stride < 90 /\ y' = y + Stride /\ x' = x
Spec == Init /\ [][Next]_vars
Z == Zero
O == One
Fs == {Zero, <<0, 2500, 0, 0, 0>>, <<0, 6180, 3399, 0, 0>>}
Same(a, b) == Close(a, b, E12(2))
Corners == /\ Same(Cell(x, y, Z, Z), Node(x, y)) /\ Same(Cell(x, y, O, Z), Node(x + 1, y))
           /\ Same(Cell(x, y, Z, O), Node(x, y + 1)) /\ Same(Cell(x, y, O, O), Node(x + 1, y + 1))
Edges == \A f \in Fs : /\ Same(Cell(x, y, O, f), Cell(x + 1, y, Z, f))
                       /\ y < 87 /\ y > -90 => Same(Cell(x, y, f, O), Cell(x, y + 1, f, Z))
                       /\ y = 89 => Same(Cell(x, y, f, O), Node(0, 90))
                       /\ y = -90 => Same(Cell(x, y, f, Z), Node(0, -90))
Poles == Node(x, 90) = Node(0, 90) /\ Node(x, -90) = Node(0, -90)
Seam == Table_[361] = Table_[1] /\ Height(Num(y), Num(x)) = Height(Num(y), Num(x - 360))
Tame == \A f, g \in Fs : Less(Mag(Cell(x, y, f, g) \ominus Node(x, y)), Num(25))
Range == Less(Mag(Node(x, y)), Num(110))
\* one cubic exactly follows another: a line, and a parabola, are reproduced
Exact == \A f \in Fs : /\ Same(Spline(<<Num(-3), Num(-1), Num(1), Num(3)>>, f), Mult(f, 2) \ominus One)
                       /\ Same(Spline(<<One, Z, One, Num(4)>>, f), Sq(f))
===============================================================================
