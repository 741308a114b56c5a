""" C28: generators of combinations. """
from dessia_common.core import DessiaObject
from dessia_common.generation import DecisionTreeGenerator, RegularDecisionTreeGenerator
from symex.ctx import harness


class Model(DessiaObject):
    """ A combination. """

    def __init__(self, vector=None, name: str = ""):
        self.vector = vector
        super().__init__(name=name)


class Judge:
    """ An arbitrary validity predicate, and what was asked. """

    def __init__(self, ctx, depth, most=0):
        self.ctx = ctx
        self.depth = depth
        self.most = most
        self.known = {}
        self.numbers = {}
        self.asked = []

    def verdict(self, vector):
        vector = tuple(vector)
        if vector not in self.known:
            kinds = ["valid", "bad vector", "bad model"] if len(vector) < self.depth or self.depth == 1 else ["valid", "bad model"]
            self.known[vector] = self.ctx.choice(f"v{vector}", kinds)
        return self.known[vector]

    def ask(self, vector):
        self.asked.append(tuple(vector))
        if len(self.asked) > 400:
            self.ctx.fail("the generation comes to an end", self.known)

    def number(self, vector):
        """ How many possibilities there are below. """
        vector = tuple(vector)
        if len(vector) >= self.depth:
            return 0
        if vector not in self.numbers:
            self.numbers[vector] = self.ctx.length(f"n{vector}", 0, self.most)
        return self.numbers[vector]


class Judged:
    """ Mixed in the generators. """

    def is_vector_valid(self, vector):
        self.judge.ask(vector)
        return self.judge.verdict(vector) != "bad vector"

    def model_from_vector(self, vector):
        return Model(list(vector))

    def is_model_valid(self, model):
        return self.judge.verdict(model.vector) == "valid"

    def number_possibilities_from_model(self, model):
        return self.judge.number(model.vector)


class Free(Judged, DecisionTreeGenerator):
    """ A tree of any shape. """


class Regular(Judged, RegularDecisionTreeGenerator):
    """ The same number of choices at each depth. """


def examine(ctx, judge, got, expected, allowed):
    got = [tuple(model.vector) for model in got]
    ctx.check(got == expected, "the valid combinations, once each and in order", (got, expected, judge.known))
    for vector in judge.asked:
        prefixes = [vector[:i] for i in range(len(vector))]
        ctx.check(all(judge.known.get(p, "valid") == "valid" for p in prefixes), "nothing is explored below an invalid choice",
                  (vector, judge.known))
        ctx.check(allowed(vector), "nothing that is not asked for is explored", vector)


@harness("C28", bounds="1..2 choices among 1..3 possibilities each, or 3 choices among 1..2 (thorough); any validity of vectors and models; "
                       "sorted or not, with repetitions or not", shards=8)
def regular(ctx):
    """ Trees of regular shape. """
    depth = ctx.length("depth", 1, ctx.bound(2, 3))
    numbers = [ctx.length(f"n{i}", 1, 2 if depth == 3 else 3) for i in range(depth)]
    ordered, unique = ctx.flag("sorted"), ctx.flag("unique")
    judge = Judge(ctx, depth)
    generator = Regular(list(numbers))
    generator.judge = judge

    def allowed(vector):
        return (not ordered or list(vector) == sorted(vector)) and (not unique or len(set(vector)) == len(vector))

    def expected(vector):
        if vector and (not allowed(vector) or judge.verdict(vector) != "valid"):
            return []
        if len(vector) == depth:
            return [vector]
        return [v for i in range(numbers[len(vector)]) for v in expected(vector + (i,))]

    got = list(generator.generate(sorted_nodes=ordered, unique_nodes=unique))
    examine(ctx, judge, got, expected(()), allowed)


@harness("C28", bounds="trees of depth <= 3 with 0..2 choices at each node (0..3 in trees of depth <= 2, in thorough), any "
                       "validity of vectors and models", shards=8)
def free(ctx):
    """ Trees of any shape. """
    depth = ctx.choice("depth", [1, 2, 3])
    judge = Judge(ctx, depth, 2 if depth == 3 else ctx.bound(2, 3))
    generator = Free()
    generator.judge = judge

    def expected(vector):
        if judge.verdict(vector) != "valid":
            return []
        number = judge.number(vector)
        if not number:
            return [vector]
        return [v for i in range(number) for v in expected(vector + (i,))]

    got = list(generator.generate())
    examine(ctx, judge, got, expected(()), lambda vector: True)


@harness("C28", bounds="2 choices among 12 and 2 or 2 and 12 possibilities; any validity of 5 of the vectors; sorted or not, with "
                       "repetitions or not")
def wide(ctx):
    """ More than ten possibilities. """
    numbers = ctx.choice("numbers", [[12, 2], [2, 12]])
    ordered, unique = ctx.flag("sorted"), ctx.flag("unique")
    judge = Judge(ctx, 2)
    judged = [(1,), (10,), (0, 1), (1, 10), (11, 0)]
    judge.known = {(i,): "valid" for i in range(12) if (i,) not in judged}
    judge.known.update({(i, j): "valid" for i in range(12) for j in range(12) if (i, j) not in judged})
    generator = Regular(list(numbers))
    generator.judge = judge

    def allowed(vector):
        return (not ordered or list(vector) == sorted(vector)) and (not unique or len(set(vector)) == len(vector))

    def expected(vector):
        if vector and (not allowed(vector) or judge.verdict(vector) != "valid"):
            return []
        if len(vector) == 2:
            return [vector]
        return [v for i in range(numbers[len(vector)]) for v in expected(vector + (i,))]

    got = list(generator.generate(sorted_nodes=ordered, unique_nodes=unique))
    examine(ctx, judge, got, expected(()), allowed)
