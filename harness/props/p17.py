from gen import generate, replay_programs

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenR.tla cut into two or three stages; each stage is transformed on its own (with its own
threshold) and receives the triples and plain arrays of the previous one, some of them converted to dense storage. The
results must be what the specification computes for the whole program. Non-trivial: at least two operations on inputs.'''
ASSUMPTIONS = ['Index arrays stay static between stages (one enclosing compilation); stages compiled on their own get dense triples.']


def variants(i):
    Ts = [['N', 'N'], [2, 'N'], ['N', 0], [0, 'N'], [1, 2], ['N', 0.5], [3, 1], ['N', 'N-1']]
    a, b = Ts[i % 8], Ts[(i + 3) % 8]
    cuts = [[0.5], [0.3, 0.7], [0.7], [0.2], [0.9], [0.4, 0.6]][i % 6]
    k = len(cuts) + 1
    out = [dict(Ts=(a + b)[:k]), dict(Ts=(b + a)[:k], dense=1)]
    if i % 5 == 0:
        out.append(dict(Ts=[0] * k, compiled=1))
    return cuts, out


def check(ctx):
    n = 8 if ctx.thorough else 1
    lines = generate(ctx, 100 * n, dict(Depth=9), seed=171)
    lines += generate(ctx, 40 * n, dict(Kinds='<- gKindsS', UnNames='<- gUnS', Depth=9), seed=172)
    lines = [l for l in lines if l.count('\\"o\\"') >= 3]
    replay_programs(ctx, lines, [0], mod='stages', fn='run_stages', per=lambda i: dict(zip(('cuts', 'vars'), variants(i))))
