-------------------------------- MODULE GenR --------------------------------
EXTENDS Gen, TabR
gUn == {"neg", "exp", "exp2", "expm1", "log", "log1p", "sin", "cos", "tan", "tanh", "sinh", "cosh", "logistic",
        "sigmoid", "softplus", "silu", "sqrt", "rsqrt", "cbrt", "square", "asin", "acos", "atan", "abs", "relu",
        "clip", "sign", "stop", "floor", "erf", "custom"}
gBin == {"add", "sub", "mul", "div", "pow", "atan2", "max", "min", "logaddexp"}
gKinds == <<"un", "un", "un", "un", "un", "un", "un", "un", "bin", "bin", "bin", "bin", "un", "un", "un", "un", "ipow", "bin", "bin", "bin", "bin", "bin",
            "sum", "sum", "prod", "max", "min", "cumsum", "cumsum", "cumprod", "cummax", "cummin",
            "reshape", "transpose", "rev", "slice", "bcast", "concat", "concat", "take", "dslice", "dus", "pad",
            "select", "where", "scatadd", "scatmax", "scatmin", "scatset", "scatmul",
            "ddslice", "ddtake", "ddus", "sortby", "ddarg", "sort", "dot", "dot", "dot", "slogdet">>
gKindsS == <<"un","un","un","un","bin","bin","bin","bin","bin","sum","sum","prod","max","min","reshape","transpose","rev",
            "slice","bcast","concat","take","dslice","select","dot","dot">>
gKindsEl == <<"un","un","un","un","ipow","un","un","bin","transpose","slice","sum","take">>
gUnS == gUn \ {"cbrt","sinh","cosh","exp2","custom","erf","relu","clip","floor"}
gShapes == { << <<6>> >>, << <<2, 3>> >>, << <<3, 2>> >>, << <<4>> >>, << <<2, 2>> >>, << <<5>> >>, << <<3>> >>,
             << <<2>>, <<2, 2>> >>, << <<3>>, <<3>> >>, << << >>, <<3>> >>, << <<2, 1, 3>> >>, << <<1>> >>,
             << <<2>>, <<2>>, <<2>> >>, << <<1, 4>> >>, << <<2, 2>>, << >>, <<1>> >> }
gShapes1 == { << <<6>> >>, << <<2, 3>> >>, << <<3, 2>> >>, << <<4>> >>, << <<2, 2>> >>, << <<5>> >>, << <<3>> >>, << <<2, 1, 3>> >>,
              << <<1>> >>, << << >> >>, << <<1, 4>> >>, << <<2, 2, 2>> >>, << <<7>> >> }
\* determinants: square matrices with and without batch dimensions, rows completed by constants
gKindsDet == <<"slogdet", "slogdet", "slogdet", "slogdet", "slogdet", "un", "un", "bin", "bin", "dot", "transpose", "concat", "concat",
               "take", "bcast", "select", "scatset", "dus", "rev", "un", "bin", "sum">>
gShapesDet == { << <<2, 2>> >>, << <<3, 3>> >>, << <<2, 2, 2>> >>, << <<1, 2>>, <<2, 2>> >>, << <<2, 3>> >>, << <<4, 4>> >>,
                << <<1, 1>> >>, << <<3, 1, 1>> >>, << <<2, 1, 2, 2>> >>, << <<1, 3, 3>> >>, << <<2, 2>>, <<3>> >>, << <<1, 2, 2>>, <<2, 2, 2>> >> }
\* positions that depend on the inputs
gKindsDD == <<"ddslice", "ddslice", "ddtake", "ddtake", "ddus", "ddus", "sortby", "sortby", "ddarg", "ddarg", "sort", "arg", "where", "where", "where", "un", "un", "bin", "bin", "bin", "sum",
              "reshape", "bcast", "concat", "dot", "take", "cumsum", "select">>
gShapesDD == { << <<6>> >>, << <<2, 3>> >>, << <<3, 2>> >>, << <<4>>, << >> >>, << <<5>> >>, << <<3>>, <<3>> >>, << <<4>>, <<1>> >>, << <<2, 3>>, <<2>> >> }
\* functions of one or two numbers that pass through larger arrays
gKindsW == <<"bin", "bin", "bin", "bin", "bcast", "bcast", "prod", "prod", "prod", "cumprod", "cumprod", "scatmul", "cumsum", "dot", "dot", "un", "un", "un",
             "max", "sum", "cummax", "scatadd", "concat", "select", "sort", "reshape", "transpose", "slogdet", "pad">>
gShapesW == { << <<1>> >>, << << >> >>, << <<2>> >>, << << >>, <<1>> >>, << <<1, 2>> >>, << <<1, 1>> >> }
gNum2(k) == RRat(2 * k, 1000)
gNum(k) == RRat(k, 1000)
gW1 == {RInt(1)}
gW == {RInt(1), RRat(1, 2), RInt(2), RRat(-3, 2), RRat(13, 10)}
=============================================================================
