"""Field schemas of the AST (shape of well-formed objects)."""
from fractions import Fraction      # noqa: F401


def declare(S):
    A, E, L, P = S.A, S.E, S.L, S.P
    F = S.fields

    def d(cls, **kw):
        for k, v in kw.items():
            F[(cls, k)] = v

    opt = lambda x: ("opt", x)
    lst = lambda x: ("list", x)
    Expr = A.Expression
    d(E.Location, file_name="str", line_no=opt("int"), col_no=opt("int"))
    d(E.Message_Handler, brief="bool", warnings="int", errors="int",
      suppressed="int", sm="any", suppress_kind="any", out="any",
      strip_prefix=opt("str"))
    d(A.Node, location=E.Location)
    d(A.Value, location=E.Location, value="any", typ=opt(A.Type))
    d(Expr, typ=opt(A.Type))
    d(A.Entity, name="str")
    d(A.Typed_Entity, n_typ=A.Type)
    d(A.Null_Literal, )
    d(A.Integer_Literal, value="int")
    d(A.Decimal_Literal, value="real")
    d(A.Boolean_Literal, value="bool")
    d(A.String_Literal, value="str", has_references="bool",
      references=lst(A.Record_Reference))
    d(A.Enumeration_Literal, value=A.Enumeration_Literal_Spec)
    d(A.Array_Aggregate, value=lst(Expr))
    d(A.Tuple_Aggregate, value=("dict", "str", Expr), typ=A.Tuple_Type)
    d(A.Record_Reference, name="str", target=opt(A.Record_Object),
      package=A.Package,
      typ=opt(("or", A.Record_Type, A.Union_Type)))
    d(A.Name_Reference, entity=("or", A.Composite_Component,
                                A.Quantified_Variable))
    d(A.Unary_Expression, operator=("enum", A.Unary_Operator),
      n_operand=Expr)
    d(A.Binary_Expression, operator=("enum", A.Binary_Operator),
      n_lhs=Expr, n_rhs=Expr)
    d(A.Field_Access_Expression, n_prefix=Expr,
      n_field=A.Composite_Component, is_union_access="bool",
      is_universal="bool")
    d(A.Range_Test, n_lhs=Expr, n_lower=Expr, n_upper=Expr)
    d(A.OneOf_Expression, choices=lst(Expr))
    d(A.Action, kind="str", n_cond=Expr, n_expr=Expr)
    d(A.Conditional_Expression, actions=lst(A.Action), else_expr=Expr)
    d(A.Quantified_Expression, n_var=A.Quantified_Variable,
      n_source=A.Name_Reference, n_expr=Expr, universal="bool")
    d(A.Concrete_Type, n_package=A.Package)
    d(A.Builtin_Function, arity="int", arity_at_least="bool")
    d(A.Array_Type, lower_bound="int", upper_bound=opt("int"),
      loc_lower=E.Location, loc_upper=E.Location,
      element_type=A.Type)
    d(A.Union_Type, types=lst(A.Record_Type), _field_map="any")
    d(A.Package, symbols=A.Symbol_Table, declared_late="bool")
    d(A.Composite_Type, components=A.Symbol_Table,
      description=opt("str"), checks=lst(A.Check))
    d(A.Composite_Component, description=opt("str"),
      member_of=A.Composite_Type, optional="bool")
    d(A.Record_Type, parent=opt(A.Record_Type),
      frozen=("dict", "str", Expr), is_final="bool", is_abstract="bool")
    d(A.Tuple_Type, separators=lst(A.Separator))
    d(A.Separator, token=L.Token)
    d(A.Enumeration_Type, literals=A.Symbol_Table, description=opt("str"))
    d(A.Enumeration_Literal_Spec, description=opt("str"))
    d(A.Record_Object, field=("dict", "str", Expr),
      section=opt(lst(A.Section)), n_package=A.Package,
      n_typ=A.Record_Type)
    d(A.Section, parent=opt(A.Section))
    d(A.Symbol_Table, parent=opt(A.Symbol_Table),
      imported=lst(A.Symbol_Table), table=("dict", "str", A.Entity),
      trlc_files=lst("str"), section_names=lst(A.Section))
    d(A.Check, n_type=A.Composite_Type, n_expr=Expr,
      n_anchor=opt(A.Composite_Component), severity="str", message="str",
      extrainfo=opt("str"), _uses_field_access=opt("bool"))
    d(A.Check_Block, n_typ=A.Composite_Type, checks=lst(A.Check))
    d(A.Compilation_Unit, package=opt(A.Package), imports="any",
      raw_imports=lst(L.Token), items=lst(A.Node))
    d(L.Token_Base, location=E.Location, kind="str", value="any",
      ast_link="any")
