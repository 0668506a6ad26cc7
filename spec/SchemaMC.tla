------------------------------ MODULE SchemaMC ------------------------------
(* Laws of schemas over all values and altered documents of module Model.     *)
EXTENDS Model, Schema
Sch == SchemaOf(st.t)
LawDescribes == st.m = 0 => Describes(Sch, st.t) /\ RefsResolve(Sch)
LawConforms == st.m = 0 /\ ~RepeatsShared(st.t, st.v) /\ ~HasPtrSet(st.t, {}) => Conf(Sch, st.j)
LawBetween == (Fits(st.t, st.j, TRUE) => Conf(Sch, st.j)) /\ (Conf(Sch, st.j) => Fits(st.t, st.j, FALSE))
\* what is strictly of the type is what the deserializer admits among documents without unknown names and references
LawReader == ~HasRef(st.j) /\ Fits(st.t, st.j, TRUE) => DR.ok
LawReader2 == DR.ok /\ ~HasRef(st.j) => Fits(st.t, st.j, FALSE)
=============================================================================
