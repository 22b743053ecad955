----------------------------- MODULE MCInpaint -----------------------------
(* Theorems of inpainting: every small image or volume with every mask *)
EXTENDS Inpaint
CONSTANTS Vals, Shapes, Halves
QShapes == {<<1, 1, 5>>, <<2, 2, 1>>, <<1, 2, 2>>}
TShapes == {<<1, 2, 3>>, <<1, 1, 7>>, <<2, 1, 3>>}
VARIABLES img, todo, orig, mask, mode, h, k
vars == <<img, todo, orig, mask, mode, h, k>>
Init == /\ \E sh \in Shapes : \E f \in [1..Size(sh) -> Vals] :
              orig = [sh |-> sh, v |-> Eager([p \in 1..Size(sh) |-> DInt(f[p])])]
        /\ mask \in SUBSET (1..Len(orig.v))
        /\ mode \in {"mean", "median"} /\ h \in Halves
        /\ img = Emptied(orig, mask) /\ todo = mask /\ k = 0
FillStep == /\ Ready(img, todo) # {}
            /\ LET s == Pass(img, todo, h, mode) IN img' = s.img /\ todo' = s.todo
            /\ UNCHANGED <<orig, mask, mode, h, k>>
Done == Ready(img, todo) = {}
AgainStep == Done /\ k < 1 /\ k' = k + 1 /\ img' = Pass(img, mask, h, mode).img /\ UNCHANGED <<orig, mask, todo, mode, h>>
Next == FillStep \/ AgainStep
Spec == Init /\ [][Next]_vars /\ WF_vars(FillStep)
Known == {p \in 1..Len(orig.v) : p \notin mask /\ Has(orig.v[p])}
KnownKept == \A p \in 1..Len(orig.v) : p \notin mask => img.v[p] = orig.v[p]
\* values come from the known ones
InRange == \A p \in mask : Has(img.v[p]) =>
    /\ \E q \in Known : DLeq(DSub(orig.v[q], Tol(1)), img.v[p])
    /\ \E q \in Known : DLeq(img.v[p], DAdd(orig.v[q], Tol(1)))
MedianIsAValue == mode = "median" => \A p \in mask : Has(img.v[p]) => \E q \in Known : img.v[p] = orig.v[q]
\* whatever can be reached from known values is filled, in at most as many passes as there are pixels
Filled == Done /\ Known # {} /\ (\A p \in 1..Len(orig.v) : p \in mask \/ Has(orig.v[p])) => todo = {}
Ends == <>Done
Progress == [][FillStep => Cardinality(todo') < Cardinality(todo)]_vars
Composed == Done /\ k = 0 => Fill([img |-> Emptied(orig, mask), todo |-> mask], h, mode).img = img
=============================================================================
