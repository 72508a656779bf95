-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The serialized property store of a PropertyStoreDataBlock               *)
(* ([MS-PROPSTORE]): storages, each a list of values named by a number, or *)
(* by a text in the one format made for that.  A list ends with a size of  *)
(* zero; every storage and value is confined to its own declared size.     *)
(* Anything that does not fit makes the whole block Damaged.               *)
(***************************************************************************)
EXTENDS Bytes, Text

PropType == {
  <<0, "VT_EMPTY">>, <<1, "VT_NULL">>, <<2, "VT_I2">>, <<3, "VT_I4">>, <<4, "VT_R4">>,
  <<5, "VT_R8">>, <<6, "VT_CY">>, <<7, "VT_DATE">>, <<8, "VT_BSTR">>, <<10, "VT_ERROR">>,
  <<11, "VT_BOOL">>, <<14, "VT_DECIMAL">>, <<16, "VT_I1">>, <<17, "VT_UI1">>, <<18, "VT_UI2">>,
  <<19, "VT_UI4">>, <<20, "VT_I8">>, <<21, "VT_UI8">>, <<22, "VT_INT">>, <<23, "VT_UINT">>,
  <<30, "VT_LPSTR">>, <<31, "VT_LPWSTR">>, <<64, "VT_FILETIME">>, <<65, "VT_BLOB">>,
  <<66, "VT_STREAM">>, <<67, "VT_STORAGE">>, <<68, "VT_STREAMED_Object">>,
  <<69, "VT_STORED_Object">>, <<70, "VT_BLOB_Object">>, <<71, "VT_CF">>, <<72, "VT_CLSID">>,
  <<73, "VT_VERSIONED_STREAM">>, <<4098, "VT_VECTOR_I2">>, <<4099, "VT_VECTOR_I4">>,
  <<4100, "VT_VECTOR_R4">>, <<4101, "VT_VECTOR_R8">>, <<4102, "VT_VECTOR_CY">>,
  <<4103, "VT_VECTOR_DATE">>, <<4104, "VT_VECTOR_BSTR">>, <<4106, "VT_VECTOR_ERROR">>,
  <<4107, "VT_VECTOR_BOOL">>, <<4108, "VT_VECTOR_VARIANT">>, <<4112, "VT_VECTOR_I1">>,
  <<4113, "VT_VECTOR_UI1">>, <<4114, "VT_VECTOR_UI2">>, <<4115, "VT_VECTOR_UI4">>,
  <<4116, "VT_VECTOR_I8">>, <<4117, "VT_VECTOR_UI8">>, <<4126, "VT_VECTOR_LPSTR">>,
  <<4127, "VT_VECTOR_LPWSTR">>, <<4160, "VT_VECTOR_FILETIME">>, <<4167, "VT_VECTOR_CF">>,
  <<4168, "VT_VECTOR_CLSID">>, <<8194, "VT_ARRAY_I2">>, <<8195, "VT_ARRAY_I4">>,
  <<8196, "VT_ARRAY_R4">>, <<8197, "VT_ARRAY_R8">>, <<8198, "VT_ARRAY_CY">>,
  <<8199, "VT_ARRAY_DATE">>, <<8200, "VT_ARRAY_BSTR">>, <<8202, "VT_ARRAY_ERROR">>,
  <<8203, "VT_ARRAY_BOOL">>, <<8204, "VT_ARRAY_VARIANT">>, <<8206, "VT_ARRAY_DECIMAL">>,
  <<8208, "VT_ARRAY_I1">>, <<8209, "VT_ARRAY_UI1">>, <<8210, "VT_ARRAY_UI2">>,
  <<8211, "VT_ARRAY_UI4">>, <<8214, "VT_ARRAY_INT">>, <<8215, "VT_ARRAY_UINT">> }
PropTypeText == [n \in {t[1] : t \in PropType} |-> S((CHOOSE t \in PropType : t[1] = n)[2])]

STRING_NAMED == <<5, 213, 205, 213, 156, 46, 27, 16, 147, 151, 8, 0, 43, 44, 249, 174>>

(* the typed value in [t, hi) : [ok, v, type, warns] *)
TypedValue(b, t, hi) ==
  IF t + 4 > hi THEN [ok |-> FALSE]
  ELSE LET ty == U16(b, t)
           pad == U16(b, t + 2)
       IN  IF ty \notin DOMAIN PropTypeText THEN [ok |-> FALSE]
           ELSE IF pad = 0 /\ ty = 2
             THEN IF t + 6 > hi THEN [ok |-> FALSE]
                  ELSE [ok |-> TRUE, v |-> I16V(b, t + 4), type |-> PropTypeText[ty], warns |-> 0]
           ELSE IF pad = 0 /\ ty = 31
             THEN IF t + 8 > hi THEN [ok |-> FALSE]
                  ELSE LET w == Wide(b, t + 8, Min2(hi, t + 8 + 2 * U32(b, t + 4)))
                       IN [ok |-> TRUE, v |-> Text(w.cps), type |-> PropTypeText[ty], warns |-> w.warns]
           ELSE [ok |-> TRUE, v |-> None, type |-> PropTypeText[ty], warns |-> 0]

Value(b, v, hi, named, path) ==
  IF v + 8 > hi THEN Damaged
  ELSE
  LET ns == U32(b, v + 4)
      nm == Wide(b, v + 9, Min2(hi, v + 9 + ns))
      t == IF named THEN TypedValue(b, v + 9 + ns, hi) ELSE TypedValue(b, v + 9, hi)
  IN  IF ~t.ok THEN Damaged
      ELSE Res({P(path \o <<"value_size">>, U32V(b, v)),
                P(path \o <<"value">>, t.v), P(path \o <<"value_type">>, t.type)}
               \cup (IF named THEN {P(path \o <<"name_size">>, U32V(b, v + 4)),
                                    P(path \o <<"name">>, Text(nm.cps))}
                              ELSE {P(path \o <<"id">>, U32V(b, v + 4))}),
               t.warns + (IF named THEN nm.warns ELSE 0))

(* Where the pieces of a list start: each begins with its size, a size of  *)
(* zero ends it.  A piece is never smaller than the size itself.           *)
Starts(b, lo, hi) ==
  FoldLeft(LAMBDA c, k : IF c.st # "on" THEN c
                         ELSE IF c.at + 4 > hi THEN [c EXCEPT !.st = "cut"]
                         ELSE IF IsZero32(b, c.at) THEN [c EXCEPT !.st = "end"]
                         ELSE IF U32(b, c.at) < 4 THEN [c EXCEPT !.st = "cut"]
                         ELSE [st |-> "on", at |-> c.at + U32(b, c.at), list |-> Append(c.list, c.at)],
           [st |-> "on", at |-> lo, list |-> <<>>], AsSeq([k \in 1..((Max2(hi - lo, 0) \div 4) + 1) |-> k]))

ListOf(b, lo, hi, path, x(_, _, _)) ==
  LET c == Starts(b, lo, hi)
  IN  IF c.st # "end" THEN Damaged
      ELSE LET n == Len(c.list)
               xs == AsSeq([k \in 1..n |-> x(c.list[k], Min2(hi, c.list[k] + U32(b, c.list[k])), path \o <<Idx(k - 1)>>)])
           IN  IF n = 0 THEN Res({P(path, <<"l">>)}, 0)
               ELSE IF \E k \in 1..n : ~xs[k].ok THEN Damaged
               ELSE Res(UNION {xs[k].must : k \in 1..n}, Total([k \in 1..n |-> xs[k].warns]))

Storage(b, s, hi, path) ==
  IF s + 24 > hi THEN Damaged
  ELSE LET named == SubSeq(b, s + 9, s + 24) = STRING_NAMED
           vs == ListOf(b, s + 24, hi, path \o <<"serialized_property_values">>, LAMBDA v, end, at : Value(b, v, end, named, at))
       IN  IF ~vs.ok THEN Damaged
           ELSE Res({P(path \o <<"storage_size">>, U32V(b, s)),
                     P(path \o <<"version">>, Text(HexMin32(b, s + 4))),
                     P(path \o <<"format_id">>, GuidV(b, s + 8))} \cup vs.must, vs.warns)

Store(b, lo, hi, path) == ListOf(b, lo, hi, path, LAMBDA s, end, at : Storage(b, s, end, at))
=============================================================================
