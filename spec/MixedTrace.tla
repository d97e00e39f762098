----------------------------- MODULE MixedTrace -----------------------------
EXTENDS Mixed, Json, IOUtils
VARIABLES l, done
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1 /\ mesh = <<>> /\ forms = <<>> /\ done = {}
TBegin == Is("Begin") /\ mesh' = E.mesh /\ forms' = <<NewForm>> /\ done' = {}
TAdd == Is("Add") /\ UNCHANGED <<mesh, done>> /\
  (\/ E.op = "dom" /\ AddDom(E.f, E.k)
   \/ E.op = "int" /\ AddInt(E.f, E.k)
   \/ E.op = "bdr" /\ AddBdr(E.f, E.k, TRUE, <<>>)
   \/ E.op = "mark" /\ AddBdr(E.f, E.k, FALSE, E.m))
TNew == Is("New") /\ Create /\ UNCHANGED <<mesh, done>>
TCopy == Is("Copy") /\ CopyOf(E.f) /\ UNCHANGED <<mesh, done>>
\* the forms as they are observed through their own lists, and assembled
THas == Is("Has") /\ TRUE = (E.ni = Len(forms[E.f].int) /\ E.nb = Len(forms[E.f].bdr)
     /\ E.marked = [i \in 1..Len(forms[E.f].bdr) |-> ~forms[E.f].bdr[i].all]) /\ UNCHANGED <<mesh, forms, done>>
TAssemble == Is("Assemble") /\ TRUE = (E.f \notin done /\ IsForm(forms[E.f], mesh, E.mat)) /\ done' = done \union {E.f} /\ UNCHANGED <<mesh, forms>>
TEnd == Is("End") /\ UNCHANGED <<mesh, forms, done>>
TNext == TBegin \/ TAdd \/ TNew \/ TCopy \/ THas \/ TAssemble \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, mesh, forms, done>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
