------------------------------- MODULE Types -------------------------------
(* The type definitions (see Data) and what follows from them alone.       *)
EXTENDS Scope, Scalars

None == <<>>        \* absent field id or value

FieldId(f) == Id(f.ns, f.n)
Def(t) == Types[t]
OwnId(t) == Id(Def(t).ns, Def(t).n)
Direct(f) == f.mode = "direct"

(* Whether an element with the given id is accepted by a type, for a field *)
(* whose id is fid = <<id>>, or in a position without name (fid = <<>>).   *)
RECURSIVE Matches(_, _, _)
Matches(ty, id, fid) ==
    CASE ty.k = "sc" -> fid # None /\ fid[1] = id
      [] ty.k \in {"opt", "vec", "box"} -> Matches(ty.c[1], id, fid)
      [] ty.k = "any" -> TRUE
      [] ty.k = "ref" ->
           LET T == Def(ty.s) IN
           CASE T.k \in {"struct", "tuple", "unit"} -> id = OwnId(ty.s)
             [] T.k = "senum" -> id.ns = T.ns /\ (fid = None \/ fid[1].n = id.n)
             [] T.k = "fwd" -> \E i \in 1..Len(T.variants) : Matches(T.variants[i].ty, id, fid)
             [] T.k = "inline" -> \E i \in 1..Len(T.fields) :
                                     Matches(T.fields[i].ty, id, <<FieldId(T.fields[i])>>)

IsInline(ty) == ty.k = "ref" /\ Def(ty.s).k = "inline"
IsForward(ty) == ty.k = "ref" /\ Def(ty.s).k = "fwd"
FirstField(T, id) == First({i \in 1..Len(T.fields) : Matches(T.fields[i].ty, id, <<FieldId(T.fields[i])>>)})
Variants(T, id) == {i \in 1..Len(T.variants) : Matches(T.variants[i].ty, id, None)}

(* What is found in text position: a scalar or a scalar enum. *)
RECURSIVE IsText(_)
IsText(ty) == CASE ty.k = "sc" -> TRUE
                [] ty.k \in {"opt", "vec", "box"} -> IsText(ty.c[1])
                [] ty.k = "any" -> FALSE
                [] ty.k = "ref" -> Def(ty.s).k = "senum"

EnumValue(t, text) ==
    LET at == Where(Def(t).variants, LAMBDA v : v.text = text)
    IN IF at = {} THEN Fail ELSE Ok(V("e", Def(t).variants[First(at)].id, <<>>))
EnumText(t, variant) ==
    LET at == Where(Def(t).variants, LAMBDA v : v.id = variant) IN Def(t).variants[First(at)].text
TextValue(ty, text) ==   \* ty is a scalar or a reference to a scalar enum
    IF ty.k = "ref" THEN EnumValue(ty.s, text)
    ELSE LET r == Parse(ty.s, text) IN IF r.ok THEN Ok(VScalar(r.v[1])) ELSE Fail
=============================================================================
