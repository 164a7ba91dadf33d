------------------------------- MODULE Checks -------------------------------
(* Input checks: which values satisfy which condition.  A value is described *)
(* by its kind, and by its sign (scalars), or its element type and shape.    *)
EXTENDS Integers, Sequences
IntKinds == {"int", "npint", "npuint"}
FloatKinds == {"float", "npfloat", "npfloat32"}
ComplexKinds == {"complex", "npcomplex"}
RealKinds == IntKinds \cup FloatKinds
TextKinds == {"str", "bytes"}
ArrayKinds == {"array", "list"}
Elems == {"int", "float", "bool", "complex", "text"}
OtherKinds == {"none", "dict", "object", "set"}
Scalar(v) == v.kind \in RealKinds \cup ComplexKinds
IsArray(v, n) == v.kind \in ArrayKinds /\ Len(v.shape) = n
Numeric(v) == v.elem # "text"

Names == {"real_positive_scalar", "real_nonnegative_scalar", "real_scalar", "positive_scalar_integer",
          "nonnegative_scalar_integer", "scalar_integer", "string", "boolean", "dictionary",
          "real_array", "oneD_array", "twoD_array", "twoD_square_array", "threeD_array",
          "is_dict", "is_bool", "centering"}
\* checks with an exception of their own instead of a requested one
Fixed == {"is_dict", "is_bool", "centering"}
Holds(c, v) ==
  CASE c = "real_scalar" -> v.kind \in RealKinds
    [] c = "real_positive_scalar" -> v.kind \in RealKinds /\ v.sign > 0
    [] c = "real_nonnegative_scalar" -> v.kind \in RealKinds /\ v.sign >= 0
    [] c = "scalar_integer" -> v.kind \in IntKinds
    [] c = "positive_scalar_integer" -> v.kind \in IntKinds /\ v.sign > 0
    [] c = "nonnegative_scalar_integer" -> v.kind \in IntKinds /\ v.sign >= 0
    [] c = "string" -> v.kind \in TextKinds
    [] c \in {"boolean", "is_bool"} -> v.kind = "bool"
    [] c \in {"dictionary", "is_dict"} -> v.kind = "dict"
    [] c = "real_array" -> v.kind \in ArrayKinds /\ Len(v.shape) > 0 /\ v.elem \in {"int", "float", "bool"}
    [] c = "oneD_array" -> IsArray(v, 1)
    [] c = "twoD_array" -> IsArray(v, 2)
    [] c = "twoD_square_array" -> IsArray(v, 2) /\ v.shape[1] = v.shape[2]
    [] c = "threeD_array" -> IsArray(v, 3)
    [] c = "centering" -> v.kind = "pixel" \/ v.kind = "interpixel"
\* left open: truth values as numbers, arrays of text, empty shapes of lists
Open(c, v) == \/ v.kind = "bool" /\ c \in {"real_positive_scalar", "real_nonnegative_scalar", "real_scalar",
                    "positive_scalar_integer", "nonnegative_scalar_integer", "scalar_integer"}
              \/ v.kind \in ArrayKinds /\ v.elem = "text" /\ c # "real_array"
                    /\ c \in {"oneD_array", "twoD_array", "twoD_square_array", "threeD_array"}
Exc(c, v, want) == IF c = "centering" THEN (IF v.kind = "str" THEN "ValueError" ELSE "TypeError")
                   ELSE IF c \in Fixed THEN "TypeError" ELSE want
=============================================================================
