----------------------------- MODULE StoreImpl -----------------------------
(* The chunk stores as implemented: an array of equal chunks; a cell's      *)
(* absolute position is split into a chunk and an offset. Word stands for  *)
(* the largest int: the last chunk may reach beyond it.                    *)
EXTENDS Store, TLCExt
CONSTANTS Matrix, InitRows, Chunk, Fields, Top, V, Word, Emit
VARIABLES h, abs, ev, tok
vars == <<h, abs, ev, tok>>
View == <<h, abs>>
None == 0

Ceil(a, b) == (a + b - 1) \div b
Chunks(n) == [c \in 0..(n - 1) |-> [o \in 0..(Chunk - 1) |-> Default]]
CapOf(n) == (IF n * Chunk > Word THEN Word ELSE n * Chunk) \div Fields
New == LET n == Ceil(InitRows * Fields, Chunk) IN [chunks |-> Chunks(n), cap |-> CapOf(n)]
Grown(c, rows) == LET n == Ceil(rows * Fields, Chunk)
                  IN [chunks |-> [k \in 0..(n - 1) |-> IF k \in DOMAIN c.chunks THEN c.chunks[k]
                                                       ELSE [o \in 0..(Chunk - 1) |-> Default]],
                      cap |-> CapOf(n)]
Set(c, r, f, v) ==
  LET d == IF r >= c.cap THEN Grown(c, r + 1) ELSE c
      a == r * Fields + f
  IN [d EXCEPT !.chunks[a \div Chunk][a % Chunk] = v]
Get(c, r, f) == IF r >= c.cap THEN Default
                ELSE LET a == r * Fields + f IN c.chunks[a \div Chunk][a % Chunk]

Step(c, e, t) == h' = c /\ ev' = e /\ abs' = Nxt(abs, e) /\ tok' = t
NewEv == [op |-> "new", m |-> Matrix, init |-> InitRows, chunk |-> Chunk, F |-> Fields, cap |-> New.cap, x |-> "ok"]
Init == h = New /\ abs = Nxt(Init0, NewEv) /\ ev = NewEv /\ tok = <<>>
Next ==
  \E r \in 0..Top :
    \/ \E f \in 0..(Fields - 1), v \in 0..(V - 1) :
         Addressable(abs, r) /\ Step(Set(h, r, f, v), [op |-> "set", r |-> r, f |-> f, v |-> v, cap |-> Set(h, r, f, v).cap, x |-> "ok"],
              <<"set", r, f, v>>)
    \/ /\ ~Addressable(abs, r)
       /\ Step(h, [op |-> "set", r |-> r, f |-> 0, v |-> 1, cap |-> h.cap, x |-> "bad"], <<"set", r, 0, 1>>)
    \/ \E f \in 0..(Fields - 1) :
         Step(h, [op |-> "get", r |-> r, f |-> f, v |-> Get(h, r, f), cap |-> h.cap, x |-> "ok"], <<"get", r, f>>)
    \/ /\ Matrix
       /\ \E f \in {-1, Fields} :
         \/ Step(h, [op |-> "set", r |-> r, f |-> f, v |-> 1, cap |-> h.cap, x |-> "RCE"], <<"set", r, f, 1>>)
         \/ Step(h, [op |-> "get", r |-> r, f |-> f, v |-> -7, cap |-> h.cap, x |-> "RCE"], <<"get", r, f>>)
Spec == Init /\ [][Next]_vars
Refines == [][Ok(abs, ev')]_vars
\* a refused call, or one with nothing to do, touches nothing at all
Inert == [][Idle(abs, ev') => UNCHANGED <<h, abs>>]_vars
Observable ==
  /\ Ok(Init0, NewEv)
  /\ \A r \in 0..(Top + 3), f \in 0..(Fields - 1) :
       Ok(abs, [op |-> "get", r |-> r, f |-> f, v |-> Get(h, r, f), cap |-> h.cap, x |-> "ok"])
\* every cell of a complete row has a place, and no two cells the same one
Structure == \A r \in 0..(h.cap - 1), f \in 0..(Fields - 1) :
               (r * Fields + f) \div Chunk \in DOMAIN h.chunks
EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
