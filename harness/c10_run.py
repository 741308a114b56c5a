""" C10: running a workflow. """
from dessia_common.workflow.core import Variable
from symex.ctx import harness
from harness.flows import Flow, Op, PERMUTATIONS, RUN, View, position_of, start, three


def check_inputs(ctx, flow):
    """ The workflow inputs are exactly the unfed variables. """
    free = flow.free_inputs()
    inputs = flow.workflow.inputs
    ctx.check(len(inputs) == len(free) and all(position_of(inputs, v) is not None for v in free),
              "the inputs are the variables nothing feeds")


def check_calls(ctx, flow, results, needed):
    """ Each block of needed was evaluated once, with the right values, after those feeding it. """
    calls = RUN["calls"]
    for b in needed:
        mine = [args for tag, args in calls if tag == flow.ops[b].tag]
        ctx.check(len(mine) == 1, "each block needed is evaluated once", f"{flow.ops[b].tag}: {len(mine)}")
        ctx.check(ctx.same(mine[0], results[b][0]), "with the values its inputs carry")
    ctx.check(all(tag in [flow.ops[b].tag for b in needed] for tag, _ in calls), "and no other block")


@harness("C10", bounds="3 blocks with 1, 2, 2 inputs and 2, 1, 1 outputs of unspecified functions, every acyclic wiring "
                       "among the offered sources (free, non-block variable, earlier outputs), every listing order of "
                       "blocks, pipes listed forwards or backwards, output on the last or second block, int values",
         shards=8)
def full_run(ctx):
    """ Workflow.run is the composition of the blocks. """
    start(ctx)
    flow = three(ctx)
    check_inputs(ctx, flow)
    values = [(v, ctx.int(f"v{i}")) for i, v in enumerate(flow.free_inputs())]
    entered = {position_of(flow.workflow.inputs, v): value for v, value in values}
    progress = []
    run = flow.workflow.run(entered, progress_callback=progress.append)
    results = flow.expected(values)
    ctx.check(ctx.eq(run.output_value, results[flow.output[0]][1][flow.output[1]]), "the output is the composition")
    check_calls(ctx, flow, results, flow.needed())
    ctx.check(run.progress == 1, "a run is complete")
    ctx.check(all(0 <= p <= 1 for p in progress) and progress[-1] == 1 and
              all(p <= q for p, q in zip(progress, progress[1:])), "progress grows from 0 to 1")
    ctx.check(ctx.same(run.input_values, entered), "the run holds the entered values")
    again = run.run_again(entered)
    ctx.check(ctx.eq(again.output_value, run.output_value), "running again gives the same")


@harness("C10", bounds="4 blocks, the last three with 2 inputs fed by any earlier block or free, listing order forwards or "
                       "backwards", shards=8)
def four_blocks(ctx):
    """ Deeper graphs. """
    start(ctx)
    blocks = [Op("f", 1), Op("g", 2), Op("h", 2), Op("k", 2)]
    out = [("out", i, 0) for i in range(3)]
    sources = [[None], [ctx.choice("g0", [None, out[0]]), ctx.choice("g1", [None, out[0]])],
               [ctx.choice("h0", [None, out[0], out[1]]), ctx.choice("h1", [None, out[0], out[1]])],
               [ctx.choice("k0", [None] + out), ctx.choice("k1", [None] + out)]]
    flow = Flow(blocks, sources, [], (3, 0), (3, 2, 1, 0) if ctx.flag("backwards") else None)
    check_inputs(ctx, flow)
    values = [(v, ctx.int(f"v{i}")) for i, v in enumerate(flow.free_inputs())]
    run = flow.workflow.run({position_of(flow.workflow.inputs, v): value for v, value in values})
    results = flow.expected(values)
    ctx.check(ctx.eq(run.output_value, results[3][1][0]), "the output is the composition")
    check_calls(ctx, flow, results, flow.needed())
    RUN["calls"] = []
    branch = flow.workflow.upstream_branch(blocks[3])
    state = flow.workflow.start_run({position_of(flow.workflow.inputs, v): value for v, value in values})
    evaluated = state.evaluate_branch(branch, {b: {} for b in branch})
    ctx.check(ctx.same(evaluated[blocks[3]], results[3][1]), "the branch computes the target's outputs")
    check_calls(ctx, flow, results, flow.needed())


def one_by_one(ctx, flow):
    """ Enters everything, evaluates block after block. """
    workflow, count = flow.workflow, len(flow.ops)
    values = [(v, ctx.int(f"v{i}")) for i, v in enumerate(flow.free_inputs())]
    results = flow.expected(values)
    needed = flow.needed()
    ctx.check(sorted(position_of(flow.ops, b) for b in workflow.runtime_blocks) == needed,
              "the runtime blocks are those the output needs")
    state = workflow.start_run({position_of(workflow.inputs, v): value for v, value in values})
    state.activate_inputs(check_all_inputs=True)
    done = []
    for _ in range(count):
        ctx.check(state.progress == len([b for b in needed if b in done]) / len(needed),
                  "progress is the share of the needed blocks evaluated so far")
        if state.progress == 1:
            break
        block = state.evaluate_next_block()
        if block is None:
            ctx.fail("a block is left to evaluate")
            return
        done.append(position_of(flow.ops, block))
    ctx.check(state.progress == 1, "the state completes")
    ctx.check(ctx.eq(state.output_value, results[count - 1][1][0]), "the output is the composition")
    tags = [op.tag for op in flow.ops]
    for tag, args in RUN["calls"]:
        ctx.check(ctx.same(args, results[tags.index(tag)][0]), "each evaluation used the values its inputs carry")
    RUN["calls"] = []
    run = workflow.run({position_of(workflow.inputs, v): value for v, value in values})
    ctx.check(ctx.eq(run.output_value, results[count - 1][1][0]), "the output of a run is the composition")
    check_calls(ctx, flow, results, needed)


def listing(ctx, count):
    """ An order in which blocks are listed. """
    order = tuple(range(count))
    listed = ctx.choice("order", ["forwards", "backwards", "rotated", "interleaved"])
    return {"forwards": order, "backwards": order[::-1], "rotated": order[2:] + order[:2],
            "interleaved": order[1::2] + order[::2]}[listed]


@harness("C10", bounds="5 (quick) / 6 (thorough) one-input blocks, each fed by any earlier one or free, output on the last, "
                       "blocks listed in 4 orders, evaluated one by one and at once", shards=8)
def trees(ctx):
    """ Chains and trees, block after block. """
    start(ctx)
    count = ctx.bound(5, 6)
    blocks = [Op(f"b{i}", 1) for i in range(count)]
    sources = [[ctx.choice(f"source{i}", [None] + [("out", j, 0) for j in range(i)])] for i in range(count)]
    one_by_one(ctx, Flow(blocks, sources, [], (count - 1, 0), listing(ctx, count)))


@harness("C10", bounds="chains of 1..8 (quick) / 1..12 (thorough) blocks, each with one input fed by the block before and one "
                       "free or fed by the first block or the one two before, blocks listed in 4 orders", shards=4)
def chains(ctx):
    """ Long chains, with shortcuts. """
    start(ctx)
    count = ctx.length("count", 1, ctx.bound(8, 12))
    blocks = [Op("b0", 1)] + [Op(f"b{i}", 2) for i in range(1, count)]
    shortcut = ctx.choice("shortcut", ["free", "first", "two before"])
    sources = [[None]]
    for i in range(1, count):
        second = {"free": None, "first": ("out", 0, 0), "two before": ("out", max(i - 2, 0), 0)}[shortcut]
        sources.append([("out", i - 1, 0), second])
    one_by_one(ctx, Flow(blocks, sources, [], (count - 1, 0), listing(ctx, count)))


WIRINGS = {"chain": [[None], [("out", 0, 0), None], [("out", 1, 0), None]],
           "diamond": [[None], [("out", 0, 1), ("out", 0, 0)], [("out", 0, 0), ("out", 1, 0)]],
           "fork": [[("nbv", 0)], [("nbv", 0), None], [("out", 0, 0), ("out", 1, 0)]],
           "secondary": [[None], [("out", 0, 0), None], [("out", 0, 1), ("nbv", 0)]]}


@harness("C10", bounds="4 wirings of 3 blocks, listing order forwards or backwards, any sequence of 4 (quick) / 5 "
                       "(thorough) steps among entering an input, evaluating a given block, evaluating the next one, "
                       "then entering what is missing and continuing", shards=8)
def step_by_step(ctx):
    """ A state evaluated in any order. """
    start(ctx)
    kind = ctx.choice("wiring", list(WIRINGS))
    blocks = [Op("f", 1, 2), Op("g", 2), Op("h", 2)]
    flow = Flow(blocks, WIRINGS[kind], [Variable(type_=int, name="in0")], (2, 0),
                (2, 1, 0) if ctx.flag("backwards") else None)
    workflow = flow.workflow
    free = flow.free_inputs()
    values = [(v, ctx.int(f"v{i}")) for i, v in enumerate(free)]
    results = flow.expected(values)
    state = workflow.start_run()
    entered, done = [], []
    needed = flow.needed()

    def ready(b):
        for i, s in enumerate(flow.sources[b]):
            if s is None and not any(flow.ops[b].inputs[i] is v for v in entered):
                return False
            if s is not None and s[0] == "nbv" and not any(flow.nbvs[s[1]] is v for v in entered):
                return False
            if s is not None and s[0] == "out" and s[1] not in done:
                return False
        return True

    def check_progress():
        share = len([b for b in needed if b in done]) / len(needed)
        ctx.check(state.progress == share, "progress is the share of the needed blocks evaluated so far")
        if share != 1:
            try:
                state.to_workflow_run()
            except ValueError:
                pass
            else:
                ctx.fail("an incomplete state is not a run")
    for n in range(ctx.bound(4, 5)):
        step = ctx.choice(f"step{n}", [f"enter{i}" for i in range(len(free))] + ["f", "g", "h", "next"])
        if step.startswith("enter"):
            v, value = values[int(step[5:])]
            state.add_input_value(position_of(workflow.inputs, v), value)
            if position_of(entered, v) is None:
                entered.append(v)
        elif step == "next":
            block = state.evaluate_next_block()
            if block is None:
                ctx.check(not any(ready(b) and b not in done for b in range(3)), "nothing is left to evaluate")
            else:
                b = position_of(flow.ops, block)
                ctx.check(ready(b), "the next block has all its values")
                if b not in done:
                    done.append(b)
        else:
            b = "fgh".index(step)
            res = state.block_evaluation(position_of(workflow.blocks, flow.ops[b]))
            if b in needed or b not in done:
                ctx.check(res == (ready(b) and b not in done), "a block is evaluated when its values are there, once")
            if res and b not in done:
                done.append(b)
        check_progress()
    for v, value in values:
        if position_of(entered, v) is None:
            state.add_input_value(position_of(workflow.inputs, v), value)
    state.continue_run()
    done.extend(b for b in needed if b not in done)
    check_progress()
    ctx.check(ctx.eq(state.output_value, results[2][1][0]), "the output is the composition")
    for tag, args in RUN["calls"]:
        ctx.check(ctx.same(args, results["fgh".index(tag)][0]), "each evaluation used the values its inputs carry")
    for b in needed:
        ctx.check(sum(1 for tag, _ in RUN["calls"] if tag == "fgh"[b]) == 1, "each block needed is evaluated once")
    run = state.to_workflow_run(name="run")
    ctx.check(ctx.eq(run.output_value, results[2][1][0]), "the run holds the output")


@harness("C10", bounds="every wiring of 3 blocks as above, target any block", shards=8)
def branches(ctx):
    """ Evaluating the branch that leads to a block. """
    start(ctx)
    flow = three(ctx, orders=False)
    target = ctx.choice("target", [0, 1, 2])
    workflow = flow.workflow
    values = [(v, ctx.int(f"v{i}")) for i, v in enumerate(flow.free_inputs())]
    state = workflow.start_run({position_of(workflow.inputs, v): value for v, value in values})
    branch = workflow.upstream_branch(flow.ops[target])
    wanted = flow.needed(target)
    ctx.check(sorted(position_of(flow.ops, b) for b in branch) == wanted,
              "the branch holds each block leading to the target, once")
    inputs = workflow.upstream_inputs(flow.ops[target].outputs[0])
    feeding = Flow([flow.ops[b] for b in wanted], [[s if s is None or s[0] == "nbv" else ("out", wanted.index(s[1]), s[2])
                                                    for s in flow.sources[b]] for b in wanted], flow.nbvs, (0, 0),
                   build=False).free_inputs()
    ctx.check(len(inputs) == len(feeding) and all(position_of(inputs, v) is not None for v in feeding),
              "the upstream inputs are those of the branch, once each")
    evaluated = state.evaluate_branch(branch, {b: {} for b in branch})
    results = flow.expected(values)
    ctx.check(ctx.same(evaluated[flow.ops[target]], results[target][1]), "the branch computes the target's outputs")
    check_calls(ctx, flow, results, wanted)


@harness("C10", bounds="every listing order of a 3-block fork; one input left out")
def missing_value(ctx):
    """ A missing input stops the run. """
    start(ctx)
    blocks = [Op("f", 1, 2), Op("g", 2), Op("h", 2)]
    flow = Flow(blocks, WIRINGS[ctx.choice("wiring", ["fork", "chain"])], [Variable(type_=int, name="in0")], (2, 0),
                ctx.choice("order", PERMUTATIONS[3]))
    free = flow.free_inputs()
    missing = ctx.choice("missing", list(range(2)))
    entered = {position_of(flow.workflow.inputs, v): ctx.int(f"v{i}") for i, v in enumerate(free) if i != missing}
    try:
        flow.workflow.run(entered)
    except ValueError:
        ctx.check(not RUN["calls"], "nothing is computed")
        return
    ctx.fail("a missing input stops the run")


@harness("C10", bounds="main branch of 2 blocks, secondary branch of 1 or 2 blocks fed by any of them, free or by a "
                       "non-block variable, displayed once or twice on the finished run or on a completed state", shards=8)
def secondary_branch(ctx):
    """ Displays are computed from the values of the run they belong to. """
    start(ctx)
    blocks = [Op("f", 1, 2), Op("g", 2), Op("k", 2), View("w", 1 if ctx.flag("one") else 2, name="v")]
    feeds = [None, ("nbv", 0), ("out", 0, 0), ("out", 1, 0)]
    sources = [[None], [ctx.choice("g0", [("out", 0, 1), ("nbv", 0)]), ("out", 0, 0)],
               [ctx.choice("k0", feeds), ctx.choice("k1", feeds)],
               [ctx.choice("w0", [("out", 2, 0), ("out", 0, 1), ("out", 1, 0)]), ctx.choice("w1", [("out", 2, 0), None])]]
    sources[3] = sources[3][:blocks[3].arity]
    flow = Flow(blocks, sources, [Variable(type_=int, name="in0")], (1, 0),
                (3, 1, 2, 0) if ctx.flag("mixed order") else None)
    workflow = flow.workflow
    values = [(v, ctx.int(f"v{i}")) for i, v in enumerate(flow.free_inputs())]
    entered = {position_of(workflow.inputs, v): value for v, value in values}
    results = flow.expected(values)
    if ctx.flag("state"):
        run = workflow.start_run(entered)
        run.continue_run()
    else:
        run = workflow.run(entered)
    ctx.check(all(tag in "fg" for tag, _ in RUN["calls"]), "secondary blocks wait until they are asked for")
    index = position_of(workflow.blocks, blocks[3])
    for _ in range(2):
        RUN["calls"] = []
        ctx.check(ctx.eq(run.block_display(index), results[3][1][0]), "the display is the composition of the branch")
        for tag, args in RUN["calls"]:
            ctx.check(ctx.same(args, results["fgkw".index(tag)][0]), "computed with the values of the run")
        ctx.check(len(RUN["calls"]) <= 2 and all(tag in "kw" for tag, _ in RUN["calls"]), "only the branch is evaluated")
    ctx.check(ctx.eq(run.output_value, results[1][1][0]), "the output is untouched")


@harness("C10", bounds="a block of 12 inputs, free or fed by one of 0, 5 or 11 blocks; blocks listed in 2 orders")
def wide(ctx):
    """ More than ten inputs, blocks and pipes. """
    start(ctx)
    fed = ctx.choice("fed", [0, 5, 11])
    blocks = [Op(f"b{i}", 1) for i in range(fed)] + [Op("last", 12)]
    sources = [[None]] * fed + [[("out", (7 * i) % 11, 0) if i < fed and (7 * i) % 11 < fed else None for i in range(12)]]
    count = len(blocks)
    flow = Flow(blocks, sources, [], (count - 1, 0), tuple(range(count))[::-1] if ctx.flag("backwards") else None)
    free = flow.free_inputs()
    values = [(v, ctx.int(f"v{i}")) for i, v in enumerate(free)]
    results = flow.expected(values)
    run = flow.workflow.run({position_of(flow.workflow.inputs, v): value for v, value in values})
    ctx.check(ctx.eq(run.output_value, results[count - 1][1][0]), "the composition of the functions")
    check_calls(ctx, flow, results, flow.needed())
