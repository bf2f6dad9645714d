------------------------------ MODULE MCWeave ------------------------------
(* Two documents built in turns: every interleaving of the two lists of calls (file ALPHA: head, a, b).     *)
(* Each document must be what it is when built alone; the schedules are printed and replayed.               *)
EXTENDS GoPdfDoc
A == JsonDeserialize(IOEnv.ALPHA)
Cs == FoldLeft(LAMBDA s, o : ContAdd(s, o), <<>>, A.head)
VARIABLES da, db, ia, ib, hist
vars == <<da, db, ia, ib, hist>>
Run(dd, o) == IF o.op = "Start" THEN NewDoc(o) ELSE IF o.op = "Output" THEN dd ELSE Step(dd, Cs, o).d
Init == da = NoDoc /\ db = NoDoc /\ ia = 0 /\ ib = 0 /\ hist = <<>>
Show == Len(hist') < Len(A.a) + Len(A.b) \/ PrintT("SEQ " \o ToJson(hist'))
Next == \/ /\ ia < Len(A.a) /\ ia' = ia + 1 /\ da' = Run(da, A.a[ia + 1]) /\ hist' = Append(hist, 1) /\ UNCHANGED <<db, ib>> /\ Show
        \/ /\ ib < Len(A.b) /\ ib' = ib + 1 /\ db' = Run(db, A.b[ib + 1]) /\ hist' = Append(hist, 2) /\ UNCHANGED <<da, ia>> /\ Show
Spec == Init /\ [][Next]_vars
Alone(ops, n) == FoldLeft(LAMBDA dd, o : Run(dd, o), NoDoc, SubSeq(ops, 1, n))
Independent == da = Alone(A.a, ia) /\ db = Alone(A.b, ib)
=============================================================================
