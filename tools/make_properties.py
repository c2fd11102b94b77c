import json
P=[]
S="src/evotorch/"
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Each solution gets its own fitness, evaluated exactly once",
"Evaluating a population, a part of it or a single solution computes, for every solution in it, exactly one evaluation from that solution's own decision values, and stores the resulting objective values and extra evaluation data in that solution's row and nowhere else. This holds for per-solution and vectorized objective functions, for any number of objectives, data types and extra evaluation columns, and for batches obtained by slicing, picking or splitting.",
["inputs","configurations","programs"],"all populations, objective forms (per-solution, vectorized, subclass overrides), objective counts, numeric/object dtypes, extra data widths and nested views",
"The tests evaluate a few fixed batches with one objective form each; they never cross views, objective counts, extra columns and dtypes, and do not record which rows an objective saw.",
["core.py"],[("evaluation dispatch","core.py:2527"),("batch and per-solution loops","core.py:2568"),("result writing","core.py:3952"),("per-solution result writing","core.py:4843"),("callable evaluator","core.py:3304")],
["user objective function calls (recorded trace)","batch evals before/after","after-eval hook"],
[("evals","objective values and extra data per row; NaN means not evaluated","core.py:3576")])

p("C02","Parallel evaluation equals sequential evaluation",
"With worker actors, any number of workers, any sub-batch count or size and any order in which workers finish, evaluating a population yields for every solution the same stored results as evaluating it in the main process, with each solution sent to exactly one worker. Messages and state sent to all workers reach each of them, seeded workers start with distinct reproducible seeds, and a failing objective surfaces as an error instead of a partially wrong population.",
["schedules","configurations","fault_sequences"],"all actor counts, splits, worker delays and completion orders, and worker failures",
"The suite runs ray in local mode with one CPU, so real process boundaries, completion orders, uneven splits and failures are never exercised.",
["core.py","tools/misc.py"],[("actor pool evaluation","core.py:2568"),("actor creation and splitting","core.py:1972"),("remote actor","core.py:116"),("broadcast to actors","core.py:273"),("piece bookkeeping","core.py:4589")],
["per-worker call log written by the objective function (pid, rows, times)","batch evals"],
[("pieces","sub-batches and their row intervals","core.py:4589")])

p("C03","Changing decision values always discards the stored fitness",
"Whenever decision values of solutions are changed or writable access to them is handed out through the library's interface, the stored evaluation results of exactly those solutions become unevaluated, and merely reading values or fitnesses never alters either. A solution counts as evaluated exactly when all its objective values are known, so no fitness that belongs to other decision values can be observed.",
["programs","histories"],"all interleavings of reads, writes, slices, partial evaluations and explicit keep/forget requests",
"Tests check single set/get pairs; they do not follow long mixed histories through nested views and single-solution handles against a model.",
["core.py"],[("value setting","core.py:3936"),("writable access","core.py:4152"),("forgetting","core.py:4183"),("single-solution access","core.py:4766"),("evaluated check","core.py:4929")],
["values/evals after every operation of a random history","writability of the returned tensors"],
[("evals","NaN marks unevaluated objectives","core.py:3576")])

p("C04","Batches slice, pick, split, join and copy without losing row identity",
"Slicing a population gives a view of exactly the addressed solutions whose writes are seen by the original, while picking by indices or mask, joining and copying give independent populations with exactly the addressed solutions in the stated order, values and fitnesses staying together. Splitting partitions a population into consecutive pieces that cover every row once, respect the requested count or maximum size, and report row intervals that match their content.",
["programs","inputs"],"all index forms (int, negative, slice, list, mask, tensor), nesting, split sizes and dtypes including object dtype",
"Tests cover a handful of slices and splits; index forms, nested views, uneven splits and object dtypes are sampled at isolated points.",
["core.py","tools/misc.py"],[("indexing","core.py:4417"),("picking rows","core.py:4377"),("concatenation","core.py:4357"),("pieces","core.py:4589"),("single solution handle","core.py:4728"),("workload split","tools/misc.py:1113")],
["values/evals of derived batches and of the originals after writes"])

p("C05","Best and worst records are the true extremes of everything evaluated",
"After any sequence of evaluations, for every objective the recorded best and worst solutions and fitnesses are the true extremes, in that objective's direction, over everything evaluated so far, and each recorded solution keeps the decision values that produced its recorded fitness even if the evaluated population is modified later. The recorded best never gets worse.",
["histories","inputs","configurations"],"all evaluation histories, objective senses and counts, ties, infinities and not-a-number fitnesses",
"Tests look at a best value after one or a few evaluations; ties, multi-objective records, later mutation of populations and non-finite fitnesses over long histories are not followed.",
["core.py"],[("best/worst bookkeeping","core.py:2330"),("comparison","core.py:2397"),("status report","core.py:2626")],
["problem status after every evaluation vs. a log of all evaluations"],
[("best/worst records","best and worst solution per objective so far","core.py:2330")])

p("C06","Sorting and selecting solutions always follows the objective direction",
"For a single objective or a chosen one of several, sorting, best/worst lookup, best-n selection, pairwise comparison and utility values agree with each other and with the declared direction (minimise or maximise) on every set of fitnesses, including ties. Utility values are higher for better solutions and keep the requested ranking method's scale, and selecting n best returns n solutions none of which is worse than one left out.",
["inputs","configurations"],"all fitness arrays with ties and infinities, both directions, every objective index form and ranking method",
"Tests use one or two tiny arrays; the agreement between all ordering interfaces over directions, objective indices and ties is not examined.",
["core.py","tools/ranking.py"],[("sorting","core.py:3813"),("best/worst index","core.py:3898"),("best-n selection","core.py:4391"),("utilities","core.py:4194"),("comparison","core.py:2397"),("objective index normalisation","core.py:3786")],
["return values of ordering interfaces vs. brute-force order"])

p("C07","Pareto fronts and crowding selection match their definition",
"For several objectives with any mix of directions, the computed fronts are exactly the layers of mutually non-dominated solutions, and every solution appears in exactly one front. When only part of a front can be kept, the less crowded solutions are preferred, and multi-objective best-n selection never keeps a solution from a later front while leaving out one from an earlier front.",
["inputs","configurations"],"all fitness matrices with ties and duplicates, objective counts, directions and selection sizes",
"Tests compare one fixed batch against one implementation; duplicates, more than two objectives, mixed directions and partially taken fronts are not covered.",
["core.py"],[("rank computation","core.py:3466"),("crowding distance","core.py:3418"),("sorted fronts","core.py:3540"),("best-n selection","core.py:4391")],
["ranks, fronts and selections vs. brute-force dominance"])

p("C08","Maximising a function behaves like minimising its negation",
"Running any search algorithm with the same random seed on a maximisation problem and on the minimisation of the negated objective produces the same solutions generation by generation, with negated fitness reports.",
["configurations","histories"],"all algorithms, their options, seeds and generation counts",
"No test runs an algorithm in both directions; direction handling sits in many separate places.",
["core.py","distributions.py","algorithms/distributed/gaussian.py","algorithms/cmaes.py","algorithms/ga.py","algorithms/mapelites.py","operators/base.py","tools/ranking.py"],[("gradient direction","core.py:3151"),("utilities","core.py:4194"),("tournament","operators/base.py:157"),("ranking","tools/ranking.py:24")],
["population values, evals and status per generation of paired runs"])

p("C09","Rank-based fitness shaping keeps order, scale and symmetry",
"Every fitness-shaping method gives better solutions at least as high a weight as worse ones in the stated direction, leaves shape and data type of the input intact without modifying it, and has its documented scale (zero-centred half-unit range, unit range, zero mean and unit deviation, unchanged values, or zero-sum utilities). The weights depend only on the order of the fitnesses for the rank-based methods, and only up to shift and scale for the normalised one.",
["inputs","configurations"],"all finite fitness tensors of any shape and float type, both directions, all methods",
"Tests rank one short list per method.",
["tools/ranking.py"],[("shaping functions","tools/ranking.py:24"),("method lookup","tools/ranking.py:189")],
["returned weights vs. independent formulas"])

p("C10","Search distributions sample, estimate and update as defined",
"Samples drawn from a Gaussian search distribution follow its current parameters, mirrored sampling returns exact pairs around the centre, and the estimated gradients equal the published estimator of that distribution applied to the given samples and weights. Following a gradient changes the parameters exactly as the distribution prescribes while leaving the original distribution, the samples and the inputs untouched, and deviations stay positive for the exponentially parameterised forms.",
["inputs","configurations"],"all dimensions, population sizes, parameter values, ranking methods and optional parameter settings",
"The suite has no numerical test of the gradient estimators or of parameter updates.",
["distributions.py"],[("separable Gaussian","distributions.py:411"),("mirrored Gaussian","distributions.py:614"),("exponential separable","distributions.py:774"),("full covariance","distributions.py:811"),("functional sampler and gradients","distributions.py:1021")],
["samples, gradients and updated parameters vs. float64 reference"])

p("C11","PGPE, SNES, CEM and XNES advance exactly by their update rule",
"In every generation, the new search centre and spread are those given by the algorithm's update rule applied to the previous centre and spread and to the population and fitnesses that were actually evaluated, with spread limits (minimum, maximum, maximum change) always respected. The evaluated population always has the requested size and is drawn around the currently reported centre and spread.",
["configurations","histories"],"all option combinations (optimizer, ranking, learning rates, symmetric, spread limits, restarts from given centre), objective functions and generation counts",
"Tests only check that a few default runs improve a toy objective.",
["algorithms/distributed/gaussian.py","distributions.py","optimizers.py","tools/misc.py"],[("generation step","algorithms/distributed/gaussian.py:35"),("PGPE","algorithms/distributed/gaussian.py:503"),("SNES","algorithms/distributed/gaussian.py:746"),("CEM","algorithms/distributed/gaussian.py:986"),("XNES","algorithms/distributed/gaussian.py:1183"),("limited update","tools/misc.py:711")],
["population, evals and status (centre, stdev) at every generation"],
[("distribution","current search distribution","algorithms/distributed/gaussian.py:35")])

p("C12","CMA-ES keeps a valid covariance and follows its update equations",
"In every generation of CMA-ES, the mean, step size, evolution paths and covariance are those of the published update applied to the sampled population and its fitnesses. The covariance stays symmetric and positive, the step size positive, the stored factor reproduces the covariance at each refresh, and requested spread limits are honoured.",
["configurations","histories"],"separable and full modes, active or not, population sizes, learning-rate options, spread limits, refresh intervals and objectives",
"Tests run a default instance for a few generations without checking its internal equations.",
["algorithms/cmaes.py"],[("generation step","algorithms/cmaes.py:90"),("spread limiting","algorithms/cmaes.py:49"),("stall indicator","algorithms/cmaes.py:31")],
["mean, sigma, paths, covariance, factor before/after each step"],
[("m, sigma, C, A, p_sigma, p_c","state of the strategy","algorithms/cmaes.py:90")])

p("C13","Optimizers follow their published step rules",
"For every sequence of gradients, the Adam, SGD and ClipUp ascent steps equal those of the published rules with the given hyperparameters, independently for separate optimizer instances and without modifying the gradients. ClipUp's velocity never exceeds its maximum speed, and the functional forms give the same steps as the object-oriented ones.",
["inputs","configurations","histories"],"all gradient sequences including zeros and extremes, hyperparameters, dtypes and batch shapes",
"Tests check two or three fixed steps per optimizer.",
["optimizers.py","algorithms/functional/funcadam.py","algorithms/functional/funcclipup.py","algorithms/functional/funcsgd.py"],[("torch wrapper","optimizers.py:31"),("ClipUp","optimizers.py:231"),("functional Adam","algorithms/functional/funcadam.py:105"),("functional ClipUp","algorithms/functional/funcclipup.py:95"),("functional SGD","algorithms/functional/funcsgd.py:79")],
["returned steps and states vs. float64 reference"])

p("C14","Functional algorithms are pure and treat batched searches independently",
"Asking and telling with the functional algorithms never modifies the given state, populations or fitnesses, and advances the state by the algorithm's update rule. A batch of searches run together gives for each search the same state transition as running it alone, with per-search hyperparameters applied to their own search only.",
["inputs","configurations","histories"],"all batch shapes, per-item hyperparameters, objective directions, optimizers and histories",
"Tests run one batched example per algorithm and look at convergence.",
["algorithms/functional/funccem.py","algorithms/functional/funcpgpe.py","algorithms/functional/misc.py","decorators.py"],[("functional CEM","algorithms/functional/funccem.py:198"),("functional PGPE","algorithms/functional/funcpgpe.py:330"),("optimizer lookup","algorithms/functional/misc.py:26")],
["states, populations and inputs before/after each call"])

p("C15","Variation operators respect bounds and conserve the parents' genes",
"Every crossover and mutation operator leaves its input population untouched, produces the stated number of children of the problem's data type within the problem's bounds, and marks them as unevaluated. Point crossovers pass each gene of the parents on exactly once at the same position, permutation keeps each column's multiset, cut-and-splice keeps the parents' elements, and parents chosen by tournament come from the population with preference for better solutions.",
["inputs","configurations"],"all populations, bounds, operator parameters, objective counts, dtypes and random draws",
"Tests check shapes of one or two operators; gene conservation and bounds under extreme parameters are not observed.",
["operators/base.py","operators/real.py","operators/sequence.py"],[("bounds","operators/base.py:27"),("tournament and pairing","operators/base.py:157"),("point crossover","operators/real.py:69"),("simulated binary crossover","operators/real.py:391"),("polynomial mutation","operators/real.py:484"),("permutation","operators/real.py:606"),("cut and splice","operators/sequence.py:25")],
["children values/evals vs. parents"])

p("C16","Genetic algorithms keep population size, evaluated members and the elite",
"After every generation of the genetic algorithms the population has the configured size and every member carries the fitness of its own decision values. With elitism the new population consists of the best of the old population together with the new children, so the best fitness never deteriorates; without elitism children replace parents as configured.",
["configurations","histories"],"all operator pipelines, elitism and re-evaluation settings, objective counts, dtypes and generation counts",
"Tests run a few generations and look at shapes or improvement only.",
["algorithms/ga.py","core.py"],[("extended population","algorithms/ga.py:62"),("generation step","algorithms/ga.py:266"),("steady state","algorithms/ga.py:691"),("Cosyne","algorithms/ga.py:893"),("best-n selection","core.py:4391")],
["population before/after each generation","children recorded at the operator and evaluation boundary"])

p("C17","Each MAP-Elites cell keeps the best solution that ever fit it",
"At every generation, each filled cell of the archive holds a solution whose features lie within that cell's bounds and whose fitness is at least as good as that of every solution evaluated so far that fits the cell and was offered to it, and a cell is reported filled exactly when such a solution exists. The feature grid built from bounds and bin counts covers the whole feature space with the stated bins.",
["histories","configurations","inputs"],"all grids, feature counts, directions, operators and histories",
"Tests do not follow archive contents through generations.",
["algorithms/mapelites.py","algorithms/ga.py"],[("cell selection","algorithms/mapelites.py:24"),("generation step","algorithms/mapelites.py:70"),("feature grid","algorithms/mapelites.py:70")],
["population, filled mask and all evaluated solutions"],
[("filled","which cells hold a valid solution","algorithms/mapelites.py:70")])

p("C18","Search loop runs hooks once in order and reports a truthful status",
"Every step of a search runs the before-step, evaluation, after-step, log and end-of-run hooks exactly the prescribed number of times in the prescribed order, counts steps correctly across repeated runs, and merges the values returned by hooks into the status. The reported generation, best, mean, median and population-best items always describe the current population and the evaluations made so far, no matter when or how often they are read.",
["programs","histories","configurations"],"all algorithms, hook registrations and orders, run/step interleavings and status access patterns",
"Tests check one hook or one status item at a time on one algorithm.",
["algorithms/searchalgorithm.py","tools/hook.py","core.py"],[("step and run","algorithms/searchalgorithm.py:240"),("lazy status","algorithms/searchalgorithm.py:34"),("population status","algorithms/searchalgorithm.py:450"),("hook","tools/hook.py:25"),("evaluation hooks","core.py:2527")],
["hook call trace","status items vs. recomputation"])

p("C19","Loggers record exactly the scheduled generations with true values",
"A logger attached to a search records precisely the generations demanded by its interval and first-step option, and each record contains the status values of that generation, unaffected by later generations. Saved files appear at those generations and at the end of a run if the last generation was not saved yet, and contain the requested items.",
["histories","configurations"],"all intervals, first-step options, run lengths, several loggers together and logger kinds",
"Tests run one interval per logger for a few steps.",
["logging.py"],[("interval logic","logging.py:67"),("file saving","logging.py:110"),("scalar filter","logging.py:419"),("data frame","logging.py:480")],
["logger outputs (frames, files, captured output, stand-in backends) vs. status trace"])

p("C20","Equal seeds give equal runs, independent of global random state",
"A problem given a seed produces, with any search algorithm and operator, exactly the same sequence of populations and fitness values on every run with that seed, different sequences for different seeds, and these do not depend on the global random state. Re-seeding restarts the sequence.",
["histories","configurations"],"all algorithms, operators, seeds and states of the global generator",
"No test runs an algorithm twice with the same seed while disturbing the global random state.",
["core.py","tools/misc.py","tools/tensormaker.py","distributions.py","operators/real.py","operators/base.py"],[("seeding","core.py:1611"),("generator lookup","tools/misc.py:1523"),("random tensors","tools/misc.py:1540")],
["populations and evals of repeated runs under different global generator states"])

p("C21","Clones and pickles are equal to and independent of the original",
"Cloning, deep-copying or pickling and restoring a problem, population, solution, distribution or container gives an object with equal content, including shared references inside it, whose later modification never shows in the original and vice versa. A restored problem keeps its bounds, senses, statistics and random state and can be used for evaluation and search.",
["inputs","programs"],"all object kinds, nesting and sharing patterns, dtypes and evaluation states",
"Tests clone a few containers and one problem; continuing work on the copy and comparing it with the original is not done.",
["tools/cloning.py","core.py","tools/misc.py"],[("deep clone","tools/cloning.py:25"),("serialisation","tools/cloning.py:257"),("problem state","core.py:2706"),("batch state","core.py:4430"),("solution state","core.py:5054")],
["content of original and copy after mutations of each"])

p("C22","Read-only tensors can never be used to change the data",
"No operation reachable from a read-only tensor, including in-place arithmetic, indexing assignment, out-arguments, views, slices and conversions, changes the underlying data, while computations on it yield the right values and its clones are ordinary independent tensors. Values and fitnesses handed out by populations, solutions and search status are protected in this way.",
["programs","inputs"],"all tensor operations, chains of views and all places handing out tensors",
"Tests try a small list of operations on one tensor.",
["tools/readonlytensor.py","core.py"],[("operation guard","tools/readonlytensor.py:27"),("creation","tools/readonlytensor.py:154"),("population access","core.py:4085")],
["bytes of the underlying storage before/after every attempted operation"])

p("C23","Object arrays store private immutable copies with array semantics",
"Objects put into an object array are stored as immutable copies, so later changes of the original, or attempts to change what is read back, never alter the array. Indexing, slicing, views, assignment, copying, comparison and serialisation follow the semantics of a one-dimensional array, with read-only views rejecting every modification.",
["programs","inputs"],"all nestings of containers, arrays and scalars, index forms and histories",
"Tests cover a few nested containers and indices.",
["tools/objectarray.py","tools/immutable.py"],[("object array","tools/objectarray.py:39"),("immutable conversion","tools/immutable.py:50"),("mutable copy","tools/immutable.py:99"),("immutable containers","tools/immutable.py:129")],
["array content vs. deep-frozen reference after every operation"])

p("C24","Batched containers behave like independent Python containers",
"Each item of a batched memory, dictionary, list or bag behaves exactly like an independent Python container under every sequence of reads, writes, arithmetic updates, pushes, pops and clears, with masked-out items left untouched. Invalid keys, overflows and underflows of active items are reported as errors when verification is on, and a bag returns each stored element exactly once.",
["programs","histories","configurations"],"all operation sequences, masks, key offsets, multi-keys, batch shapes, value shapes and dtypes",
"Tests run short scripted sequences; circular wrap-around, masks with invalid keys, key offsets and value ranges are not explored.",
["tools/structures.py"],[("memory","tools/structures.py:60"),("dictionary","tools/structures.py:892"),("list","tools/structures.py:1380"),("bag","tools/structures.py:2024"),("selection","tools/structures.py:33")],
["every returned value and the full contents vs. per-item Python models"],
[("begin/end","circular buffer positions","tools/structures.py:1380")])

p("C25","Generated values have the requested shape, type and range",
"Tensors and initial populations created by the library have exactly the requested shape, data type and device and values inside the requested bounds (inclusive for integers), every value of an integer range being reachable, with per-column bounds applied to their own column. Filling an existing tensor changes only that tensor, and conflicting requests raise an error.",
["inputs","configurations"],"all sizes, dtypes, bound forms, scalar/vector/matrix parameters, generators and output tensors",
"Tests sample a few sizes and dtypes.",
["tools/misc.py","tools/tensormaker.py","core.py"],[("uniform","tools/misc.py:1540"),("gaussian","tools/misc.py:1663"),("integers","tools/misc.py:1758"),("identity and constants","tools/misc.py:1312"),("population generation","core.py:1835"),("bounds handling","core.py:792")],
["returned tensors vs. request"])

p("C26","Running normalisation equals direct statistics, however data arrives",
"After any sequence of single, batched, masked or merged updates, the running count, mean and deviation equal those computed directly from all accepted observations, and normalisation equals subtracting that mean, dividing by that (floored) deviation and clipping. Updating never alters the observations, copies and merged sources stay independent, and the layer exported for policies normalises identically.",
["inputs","histories","configurations"],"all observation streams, groupings, masks, merges, shapes, clips and conversions",
"Tests feed one stream in one grouping.",
["neuroevolution/net/runningnorm.py","neuroevolution/net/runningstat.py"],[("update","neuroevolution/net/runningnorm.py:229"),("statistics","neuroevolution/net/runningnorm.py:412"),("normalise","neuroevolution/net/runningnorm.py:471"),("numpy wrapper","neuroevolution/net/runningstat.py:25")],
["count/mean/stdev/normalised values vs. float64 recomputation"])

p("C27","Networks driven by flat parameter vectors match the real modules",
"Reading a network's parameters as a flat vector and filling them back reproduces the network, and evaluating a network functionally with a flat vector gives the output of that network with those parameters, also for batches of parameter vectors, recurrent state and buffers. The library's own layers compute their documented functions, and resetting part of a batch of recurrent policies affects only that part.",
["inputs","configurations","histories"],"all architectures, parameter values, batch sizes, recurrent histories and reset patterns",
"Tests compare a few small nets for one step.",
["neuroevolution/net/misc.py","neuroevolution/net/functional.py","neuroevolution/net/layers.py","neuroevolution/net/multilayered.py","neuroevolution/net/statefulmodule.py","neuroevolution/net/vecrl.py"],[("flat fill","neuroevolution/net/misc.py:26"),("functional module","neuroevolution/net/functional.py:46"),("layers","neuroevolution/net/layers.py:24"),("layer chain with state","neuroevolution/net/multilayered.py:21"),("stateful wrapper","neuroevolution/net/statefulmodule.py:21"),("batched policy","neuroevolution/net/vecrl.py:1019")],
["outputs and states vs. plain torch modules step by step"])

p("C28","Network strings build exactly the described network",
"A network description string is turned into a network consisting of exactly the described layers with the described arguments in the described order, with named constants and indexed constants substituted, for every layer type offered by the library or torch. Malformed or unsafe descriptions are rejected with a parsing error instead of building something else.",
["inputs"],"all descriptions composed of layer calls, constants, literals, indexing and chaining, and malformed ones",
"Tests parse a few strings.",
["neuroevolution/net/parser.py"],[("parsing","neuroevolution/net/parser.py:222"),("constants","neuroevolution/net/parser.py:109"),("chaining","neuroevolution/net/parser.py:95")],
["structure and output of built networks","raised errors"])

p("C29","Policy fitness and counters equal what happened in the environment",
"For reinforcement learning problems evaluated episode by episode, a policy's fitness is the mean over its episodes of the rewards actually received, adjusted by the configured reward decrease and alive bonus, with at most the configured number of steps per episode and recurrent state cleared between episodes and policies. Reported interaction and episode counts and observation statistics equal the steps, episodes and observations that actually occurred, also when workers are used and after restoring from a pickle.",
["configurations","histories"],"all environments, episode counts, lengths, bonus schedules, policies and worker counts",
"Tests evaluate a single environment briefly without an independent record of the environment's events.",
["neuroevolution/gymne.py","neuroevolution/net/rl.py","neuroevolution/neproblem.py"],[("rollout","neuroevolution/gymne.py:361"),("counters","neuroevolution/gymne.py:548"),("synchronisation","neuroevolution/gymne.py:561"),("alive bonus","neuroevolution/net/rl.py:199"),("policy parameters","neuroevolution/neproblem.py:342")],
["event log kept by an instrumented environment","fitness, counters, statistics"])

p("C30","Vectorised policy evaluation equals one-by-one evaluation",
"Evaluating a population of policies in vectorised environments gives each policy, under the same observation statistics, the same fitness and interactions as running it alone in its own environment for the configured number of episodes, whatever the population size, the environment limit and the moments at which episodes end. The collected observation statistics are those of the observations upon which the policies acted, and the reported counts are those of the interactions and episodes that took place. Stepping several environments together returns for each the same observations, rewards and end signals as stepping it separately, and environments that have finished contribute nothing.",
["configurations","histories","inputs"],"all population sizes, environment limits, episode lengths and counts, bonus schedules, recurrent and feed-forward policies",
"Tests run one environment with one population size and check shapes.",
["neuroevolution/vecgymne.py","neuroevolution/net/vecrl.py"],[("batched rollout","neuroevolution/vecgymne.py:744"),("synchronous environments","neuroevolution/net/vecrl.py:1541"),("torch wrapper","neuroevolution/net/vecrl.py:362"),("partial reset","neuroevolution/net/vecrl.py:1281")],
["event log of scripted environments","fitness and counters"])

p("C31","Supervised fitness is the loss on the minibatches actually drawn",
"In supervised learning problems the fitness of each solution is the average loss of the network with that solution's parameters over the configured number of minibatches, all solutions evaluated together (the whole population, or one worker's piece of it) sharing the same minibatches when so configured. Minibatches come from the dataset only, and each pass over the data uses every sample exactly once.",
["configurations","histories"],"all datasets, minibatch sizes and counts, sharing modes, networks and evaluation histories",
"There is no test that recomputes supervised fitness from the drawn minibatches.",
["neuroevolution/supervisedne.py","neuroevolution/neproblem.py"],[("evaluation","neuroevolution/supervisedne.py:334"),("minibatches","neuroevolution/supervisedne.py:311"),("network parameters","neuroevolution/neproblem.py:342")],
["loss function calls and dataset index accesses"])

p("C32","Batching decorators equal an explicit loop over the batch items",
"A function declared to expect arguments of given dimensionality, or row-wise, gives for arguments with any extra leading dimensions the same result as calling it separately for every combination of batch items under broadcasting, including when only some arguments are batched. Arguments of too few dimensions are rejected, and marking decorators change only how the function is called.",
["inputs","programs"],"all argument counts, declared dimensionalities, batch shapes, dtypes, non-tensor arguments and nesting",
"Tests cover a few functions and shapes.",
["decorators.py"],[("dimension expectation","decorators.py:613"),("row-wise","decorators.py:877"),("marking decorators","decorators.py:31")],
["results vs. explicit loops"])

p("C33","Constraint penalties match their definition for every relation and batch",
"Violation, penalty and log-barrier values equal their documented formulas for every comparison kind, are zero for satisfied constraints where documented, have the sign that hurts the stated objective direction, and are computed independently for each batch item.",
["inputs","configurations"],"all comparisons, operands, batch shapes, penalty settings and directions",
"Tests use a few scalar points.",
["tools/constraints.py"],[("violation","tools/constraints.py:22"),("log barrier","tools/constraints.py:88"),("penalty","tools/constraints.py:195")],
["returned values vs. float64 formulas"])

p("C34","Distributed gradient estimation and adaptive populations add up",
"When gradients are estimated in sub-populations, in the main process or by workers, the sub-population sizes add up to the requested total, each gradient equals the estimator applied to that sub-population, and the search follows their correctly weighted average. With an interaction target, sampling continues exactly until the target or the population limit is reached and all sampled solutions count.",
["configurations","schedules","histories"],"all population sizes, worker counts, interaction targets and limits, algorithms and weighting options",
"Tests do not exercise distributed mode numerically nor the adaptive loop.",
["core.py","algorithms/distributed/gaussian.py"],[("sampling and gradients","core.py:2757"),("adaptive loop","core.py:3151"),("averaging","algorithms/distributed/gaussian.py:35")],
["returned gradient lists, sample counts, centre updates"])

p("C35","Bounded updates never leave their limits",
"Updating values under lower bounds, upper bounds and a maximum relative change yields, element by element, the target value clamped to all given limits, with in-place and copying forms agreeing and originals untouched unless in-place was requested; the batched form agrees with the plain one item by item. Spread initialisation from a value, a vector or a radius gives a deviation vector of the right length and size.",
["inputs","configurations"],"all originals, targets, limit forms (scalar, vector), dtypes and batch shapes",
"Tests check a few points.",
["tools/misc.py","algorithms/functional/misc.py"],[("limited modification","tools/misc.py:711"),("batched form","tools/misc.py:868"),("clipping","tools/misc.py:675"),("spread initialisation","tools/misc.py:1879")],
["results vs. element-wise reference"])

p("C36","Restarting searches restart exactly on their criteria and keep records",
"A restarting search runs its inner algorithm step by step, starts a fresh instance exactly when the restart condition holds, and applies the configured growth to the next instance. The overall best record, step count and status continue across restarts.",
["histories","configurations"],"all inner algorithms, growth settings, stagnation patterns and run lengths",
"No test exercises restarting.",
["algorithms/restarter/restart.py","algorithms/restarter/modify_restart.py"],[("restart loop","algorithms/restarter/restart.py:21"),("growing populations","algorithms/restarter/modify_restart.py:34")],
["inner instances created, their arguments and status"])

p("C37","Conversions keep values and give exactly what was requested",
"Converting, copying and casting values, sequences, arrays, tensors and nested containers gives exactly the requested dtype, device, length and shape with unchanged values. The source is not modified, copies share no memory with it where a copy is promised, container structure and sharing survive, and the predicates on values and dtypes classify all their forms alike. Requests which cannot be satisfied raise an error.",
["inputs","shapes","dtypes"],"all source kinds, all ways of naming a dtype, nested and self-containing containers",
"A conversion which silently picks another dtype or shares memory changes results far away from the call.",
["tools/misc.py","tools/tensormaker.py"],[("as_tensor","tools/misc.py:1824"),("length and dtype","tools/misc.py:610"),("empty_tensor_like","tools/misc.py:911"),("cast_tensors_in_container","tools/misc.py:347")],
["results vs. requested dtype, shape, device and values","fingerprints of the sources"])

p("C38","PyCMAES is the CMA-ES of the library cma run on the problem",
"A PyCMAES search evaluates in every generation exactly the points proposed by the library cma, tells it the fitnesses of the chosen objective in the right sense and order, and reports its favourite point as the center. Start, spread, population size, learning rates, spread limits, bounds, separability and seed reach cma as documented, whether given as arguments or as options; settings given twice are refused, and searches repeat with equal problem seeds.",
["configurations","histories"],"all settings, senses, objective indices, bounds and numbers of generations",
"A wrapper which drops a setting or flips a sense still optimizes something, so nothing fails visibly.",
["algorithms/pycmaes.py"],[("settings","algorithms/pycmaes.py:167"),("step","algorithms/pycmaes.py:275")],
["points asked and told, fitnesses told, populations, center; the same search made directly with cma"])

p("C39","A Problem is what it was declared to be; contradictory declarations are refused",
"A problem reports the dtype, fitness dtype, length, senses, bounds, initial bounds, number of extra fitness columns, statistics setting, generator and workers it was declared with, whatever the form in which they were given and whatever the caller does with the given objects afterwards. Its populations have those dtypes, shapes and initial limits, with all fitnesses unknown. Comparisons of solutions follow the chosen objective, seeds and workers are as requested, and a declaration or request which contradicts itself raises an error.",
["inputs","configurations"],"all combinations of declarations, all forms of naming dtypes and giving bounds, about 55 kinds of contradiction",
"Everything else in the library trusts these answers; a silently adjusted declaration optimizes another problem.",
["core.py"],[("declaration","core.py:792"),("making populations","core.py:1907"),("comparing solutions","core.py:2393"),("objective indices","core.py:2669"),("storing fitnesses","core.py:3971")],
["reported attributes vs. the declaration, before and after the caller changes the given objects","populations made","errors raised","workers created and ended"])

p("C40","The assertion helpers of evotorch.testing fail exactly when they should",
"assert_allclose, assert_eachclose, assert_almost_between, assert_dtype_matches and assert_shape_matches raise AssertionError exactly when the documented condition is not met, for tensors, arrays, lists, solutions and populations of any dtype. They change nothing, and refuse to compare without a tolerance.",
["inputs"],"all value forms, dtypes, shapes, tolerances and NaN settings",
"An assertion helper which accepts too much hides every other defect.",
["testing.py"],[("closeness","testing.py:100"),("limits","testing.py:157"),("dtypes","testing.py:204"),("shapes","testing.py:234"),("one value","testing.py:257")],
["whether the helper raised vs. a float64 evaluation of the condition"])

p("C41","A neuroevolution problem scores each solution by its own network",
"A neuroevolution problem gives its evaluator a network which has the declared structure and exactly the parameters of the solution being evaluated, whatever the evaluator does with it, and stores the returned fitnesses and extra data for that solution only. Networks made from a solution or a vector are independent copies. Network arguments and constants are used as declared, whatever the caller does with them afterwards, in the main process and in workers. Contradictory declarations and results of a wrong size raise an error.",
["inputs","configurations"],"networks as modules, strings, classes and functions with and without arguments and constants; single and several objectives; extra data; workers",
"A network carrying over weights or state from another solution silently changes what is optimized.",
["neuroevolution/neproblem.py"],[("declaration","neuroevolution/neproblem.py:66"),("making networks","neuroevolution/neproblem.py:321"),("filling parameters","neuroevolution/neproblem.py:340"),("evaluation","neuroevolution/neproblem.py:405")],
["parameters and outputs of every network handed to the evaluator","stored fitnesses","networks made","errors raised"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
