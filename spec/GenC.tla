-------------------------------- MODULE GenC --------------------------------
(* Gen over complex numbers: inputs are real, intermediates may be complex.  *)
EXTENDS Gen, TabC
gUn == {"neg", "exp", "log", "sin", "cos", "tanh", "sqrt", "square", "stop"}
gBin == {"add", "sub", "mul", "div"}
gKinds == <<"cplx", "cplx", "cplx", "un", "un", "un", "un", "un", "bin", "bin", "bin", "bin", "bin", "bin", "ipow",
            "lin", "lin", "cabs", "cabs", "sum", "sum", "prod", "cumsum", "cumprod",
            "reshape", "transpose", "rev", "slice", "bcast", "concat", "take", "dslice", "dus", "pad",
            "select", "scatadd", "scatset", "dot", "dot", "dot">>
gKindsDet == <<"slogdet", "slogdet", "slogdet", "slogdet", "cplx", "un", "bin", "dot", "transpose", "reshape", "concat", "take", "bcast", "un", "bin">>
gShapes == { << <<6>> >>, << <<2, 3>> >>, << <<4>> >>, << <<2, 2>> >>, << <<3>> >>,
             << <<2>>, <<2, 2>> >>, << <<3>>, <<3>> >>, << << >>, <<3>> >>, << <<2, 1, 2>> >>,
             << <<2>>, <<2>> >>, << <<1, 3>> >>, << <<1>> >>, << <<2, 2>>, <<2, 2>> >> }
gShapesDet == { << <<2, 2>>, <<2, 2>> >>, << <<3, 3>> >>, << <<2, 2>> >>, << <<2, 2, 2>> >>, << <<1, 1>>, <<1, 1>> >>, << <<1, 2, 2>>, <<2, 2>> >>, << <<3, 1, 1>> >>,
                << <<2, 1, 2, 2>> >>, << <<2, 3, 1, 1>> >>, << <<2, 2, 1, 1>>, <<2, 2, 1, 1>> >>, << <<1, 2, 2, 2>> >> }
gKindsDet2 == <<"cplx", "cplx", "slogdet", "slogdet", "slogdet", "slogdet", "un", "bin", "lin">>
gShapesDet2 == { << <<2, 1, 2, 2>> >>, << <<2, 3, 1, 1>> >>, << <<2, 2, 1, 1>>, <<2, 2, 1, 1>> >>, << <<3, 2, 1, 1>> >>, << <<2, 1, 2, 2>> >> }
gNum(k) == CRat(k, 1000)
gCNum(k) == <<RRat(k, 1000), RRat(RandomElement(-1400..1400), 1000)>>
gW1 == {CInt(1)}
gW == {CInt(1), CRat(1, 2), CInt(2), CRat(-3, 2)}
=============================================================================
