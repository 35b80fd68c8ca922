#!/usr/bin/env python3
"""generates properties.jsonl and MANIFEST.json from the definitions below and the table of checks"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))

prop("C01", "The same evidence is never counted twice",
 "Every told sentence receives a fresh evidence id; two sentences are combined (inference or revision) only if their sets of evidence ids are disjoint, and the result carries exactly the interleaved ids of both (at most 120). Hence no stored or open sentence names an evidence id twice, and a belief obtained by revising told sentences has exactly the truth value of the pooled evidence its ids name.",
 ["histories", "schedules", "inputs"], "all sequences of told sentences, all derivation histories, all stamps",
 "the tests combine one or two fixed sentences; double counting appears only along derivation histories in which evidence meets itself again",
 ["src/NarStamp.rs", "src/NarWorkingCycle.rs", "src/NarMem.rs", "src/Nar.rs"],
 [("checkOverlap / checkSame / merge", "src/NarStamp.rs"), ("overlap test before inference", "src/NarWorkingCycle.rs inference"), ("memReviseBelief", "src/NarWorkingCycle.rs"), ("stampIdCounter", "src/Nar.rs inputT2")],
 [("stamp ids", "evidential base of a sentence", "NarSentence::Sentence.stamp")])
prop("C02", "Truth functions compute the NAL definitions and stay in range",
 "For all truth values with frequency in [0,1] and confidence in [0,1) each truth function (deduction, abduction, induction, comparison, intersection, negation, revision, goal deduction, expectation, evidence counts) returns the value of its NAL definition; results are never NaN and never leave the range, revision never reaches confidence 1 and does not depend on the order of its operands.",
 ["inputs"], "all pairs of truth values and evidence counts", "no test compares a truth function with its definition over the range; borders (0, 1, equal, nearly 1) are not sampled",
 ["src/Tv.rs", "src/NarSentence.rs"], [("truth functions", "src/Tv.rs"), ("Evidence CNT/TV conversion", "src/NarSentence.rs retTv, retFreq, retConf")])
prop("C03", "One-premise inference draws exactly the sound structural conclusions",
 "From a single judgement exactly these conclusions are drawn: negation elimination, decomposition of intensional intersections in subject or predicate, product to image and image to product (binary products only), singleton sets of similarities, decomposition of parallel conjunctions of predictive implications; each carries the premise's truth value (negated for negation), its evidence and the rule's attention factor. Nothing is derived from other terms.",
 ["inputs"], "all terms and truth values", "the tests exercise two or three example terms; the wrong term shape, index or component needs other inputs",
 ["src/NarWorkingCycle.rs"], [("infNeg, infStruct*", "src/NarWorkingCycle.rs"), ("infSinglePremise", "src/NarWorkingCycle.rs")])
prop("C04", "Two-premise inference draws exactly the sound conclusions, symmetrically",
 "From two judgements exactly the conclusions of the rule table are drawn (deduction, abduction, induction, comparison, intersection, property union, conditional deduction with and without conjunction and variables), each premise paired with its own truth value, independently of the order in which the premises are presented; from an implication question and a judgement exactly the instantiated implication is drawn. Premises with common evidence yield nothing.",
 ["inputs"], "all pairs of terms, truth values and punctuations, in both orders", "the tests use single pairs and only check that some term occurs",
 ["src/NarWorkingCycle.rs"], [("infBinary, infBinaryInner", "src/NarWorkingCycle.rs"), ("infGeneralizedJudgJudg, inf3.., infCompSubj, infCompPred", "src/NarWorkingCycle.rs"), ("inference", "src/NarWorkingCycle.rs")])
prop("C05", "Unification finds exactly the consistent variable bindings",
 "Unifying a pattern with a term succeeds exactly if some assignment of the pattern's variables by non-variable subterms makes them equal (a variable used twice must match the same term); the returned bindings applied to the pattern give the term. Substitution replaces every occurrence of each bound variable and nothing else.",
 ["inputs"], "all pairs of terms with query, dependent and independent variables", "the tests contain a handful of matching examples, no repeated variables in different positions, no near misses",
 ["src/NarUnify.rs"], [("unify, unify2, unifySubst, unifySubst2", "src/NarUnify.rs")])
prop("C06", "Questions get sound, monotonically improving answers",
 "Every asked question stays registered; an answer is reported only if it is a belief or conclusion which unifies with the question, and only if its truth expectation exceeds the best one reported so far. After a reasoning cycle and the derivations it triggered, the remembered best expectation equals the best of all matching beliefs examined and conclusions drawn, and the best answer has been reported to the registered handlers.",
 ["histories", "schedules"], "all interleavings of told sentences, questions, cycles and deriver steps", "one test asks one question and looks for any answer; wrong, stale or missing answers depend on the history",
 ["src/NarWorkingCycle.rs", "src/Nar.rs"], [("qaTryAnswer", "src/NarWorkingCycle.rs"), ("question sampling in reasonCycle", "src/NarWorkingCycle.rs"), ("deriver worker Q&A", "src/NarWorkingCycle.rs deriver worker")],
 [("questionTasks", "open questions with best expectation", "NarWorkingCycle DeclarativeShared")])
prop("C07", "Beliefs are filed under all their concepts, pooled, ranked and bounded",
 "After a judgement is added, each concept named by one of its subterms holds it (or the belief revised with it) in both belief tables unless the table is full of better ranked beliefs; a table never holds two beliefs about the same statement, ranks by truth expectation or by usage, and keeps the best ones within its capacity. Other concepts are not touched, questions never change beliefs.",
 ["histories", "inputs"], "all sequences of judgements with arbitrary evidence, all capacities", "tests store one or two sentences; ranking, eviction and revision interplay only over histories",
 ["src/NarMem.rs", "src/NarWorkingCycle.rs"], [("storeInConcepts2", "src/NarMem.rs"), ("memReviseBelief", "src/NarWorkingCycle.rs")],
 [("concepts", "belief tables by term", "NarMem::Mem.concepts")])
prop("C08", "Memory and task resources stay bounded, keeping the most valuable items",
 "Sentences more complex than the configured limit are never stored or scheduled; belief tables never exceed their capacity; at every 111th cycle the open tasks are cut to the at most 30 most creditable ones (none below 0.001) and the task index is rebuilt from exactly these; limiting the concepts keeps exactly the best rated ones. Between clean-ups every open task is found under each of its subterms.",
 ["histories", "inputs"], "all histories of additions and cycles up to and over the clean-up points", "no test runs up to a clean-up with more items than allowed",
 ["src/NarWorkingCycle.rs", "src/NarMem.rs"], [("clean-up at the end of reasonCycle", "src/NarWorkingCycle.rs"), ("limitMemory", "src/NarMem.rs"), ("populateTaskByTermLookup", "src/NarWorkingCycle.rs"), ("complexity test in memAddTask", "src/NarWorkingCycle.rs")])
prop("C09", "Attention always selects the most creditable task with its related premises",
 "Each reasoning cycle pays credits exactly as defined (base credit, credit from questions sharing terms, division by complexity, decay with age, rule factor), selects the open task with the highest effective credit, removes it, and requests derivation with exactly the known tasks that share a subterm (at most 51 per term and 300 in total, simplest first), each once, marking them as used.",
 ["histories"], "all task populations and histories of cycles", "tests only look at end results of long runs; any selection would pass",
 ["src/NarWorkingCycle.rs"], [("reasonCycle", "src/NarWorkingCycle.rs"), ("taskCalcCredit, taskSelByCreditTop, divCreditByComplexity", "src/NarWorkingCycle.rs")])
prop("C10", "Every derivation request delivers exactly its conclusions",
 "When the deriver has processed a request, every conclusion of the primary premise alone, with each secondary premise and with each belief of its concept is an open task (once per statement and evidence) and stored as belief, with credit, attention factor and derivation time as defined; nothing else was added, no open task was lost or changed. Telling a judgement opens exactly the task for it and for its revision.",
 ["histories", "schedules"], "all requests arising in any history, deriver lagging arbitrarily behind", "tests look for one conclusion in a long run",
 ["src/NarWorkingCycle.rs"], [("deriver worker", "src/NarWorkingCycle.rs createMem2 worker"), ("memAddTask", "src/NarWorkingCycle.rs"), ("inference", "src/NarWorkingCycle.rs")])
prop("C11", "Procedural evidence is learned only from what really happened, in order",
 "Every observation made by perception is a predictive implication (condition, operations) =/> effect where the condition, then the registered operations, then the effect really happened in this order within the at most 20 remembered events, the effect is the last or second last event, neither condition nor effect is an operation call, and they differ; it carries exactly the evidence ids of these events, the index of the longest tabulated exponential interval (1,2,3,4,6,8,10,13,17) not longer than the time from the last operation to the effect, and as positive and total count the evidence weight of the operation; every such observation can be made. The store worker adds the counts and evidence of an observation to every stored hypothesis of the same implication with disjoint evidence and an interval at least as long, and to nothing else; if there is none it is filed (with its copy with a variable introduced for the thing which has the property) under all subterms of condition and effect, unless the evidence is already known there, keeping the best within the capacity. Nothing else changes the procedural evidence except negative evidence and the periodic limit.",
 ["histories", "schedules"], "all event and action histories, all schedules of perception and store worker, all table and memory sizes", "tests run an environment and check the score; wrong learning is masked by random exploration",
 ["src/NarProc.rs", "src/NarInfProcedural.rs", "src/NarMem.rs"], [("perceive (sample and build candidates)", "src/NarProc.rs trace.step"), ("store worker", "src/NarProc.rs narInit/workers"), ("mem_add_evidence", "src/NarProc.rs"), ("findMinTableIdx", "src/NarProc.rs"), ("matchandintro_var1_sentence", "src/NarInfProcedural.rs")],
 [("trace", "remembered events", "NarProc::ProcNar.trace"), ("evidenceMem", "procedural beliefs", "NarProc::ProcNar.evidenceMem")])
prop("C12", "Each anticipation is resolved exactly once, as confirmed or as failed",
 "Exactly when a goal operation is executed (and anticipation is enabled) one anticipation is added, for the belief the decision was based on, with deadline now + the interval tabulated for its interval index (the shortest if it has none). At the start of every step each anticipation whose predicted event is among the last two events (the perception window) is removed without any change of evidence; each remaining one whose deadline is not later than now adds exactly one to the total count (nothing to the positive count) of its belief and is removed; all others stay unchanged. Nothing else adds, removes or resolves anticipations.",
 ["histories", "schedules"], "all interleavings of events, steps, executions and deadlines", "no test observes anticipations",
 ["src/NarProc.rs"], [("confirmation and neg-confirm", "src/NarProc.rs narStep0"), ("adding of anticipations", "src/NarProc.rs narStep1")], [("anticipatedEvents", "open predictions", "NarProc::ProcNar.anticipatedEvents")])
prop("C13", "A decision executes the operation of the best applicable plan, or nothing",
 "In each step the winning plan is the one with the highest expectation among the sequence goals whose condition part unifies with one of the events of the perception window (variables filled in from that event) and a predicted chain of at most two beliefs from the last event to a stored goal. If it exceeds the decision threshold, has evidence and ends with an operation, the operation becomes an operation goal with the truth value and evidence of the belief it came from. Then the most expected still desired operation goal above the threshold is taken, if it has evidence: it is removed, its operation is invoked exactly once with its arguments (if registered), and recorded as an event. Otherwise nothing is executed except, if enabled, by random exploration, which invokes only registered operations that allow it, each of which can be chosen, with {SELF} as argument. The remembered events stay the last 20.",
 ["inputs", "histories"], "all belief sets, goals and situations", "tests measure scores of whole environments",
 ["src/NarProc.rs", "src/NarGoalSystem.rs"], [("selHighestExpGoalByState", "src/NarGoalSystem.rs"), ("decision making and execution", "src/NarProc.rs narStep1")])
prop("C14", "Subgoals are derived soundly, one step back along the plan",
 "A goal which is a sequence yields its first element as goal, with the same truth value and evidence; a goal predicted by a belief (the consequent equals the goal) yields the antecedent of the belief as goal with the truth value of goal deduction and the merged evidence, connected to that belief; nothing follows if they share evidence. The depth is one larger. Each derivation samples a stored desired goal, adds all its one-step subgoals (via every belief filed for it) and only goals which follow from stored goals in one or more such steps; existing goals are unchanged. The beliefs found for a goal (by antecedent, by consequence) are exactly the stored ones.",
 ["inputs", "histories"], "all goals, beliefs and derivation histories", "tests check only end behaviour of environments",
 ["src/NarGoalSystem.rs", "src/NarInfProcedural.rs"], [("sampleAndInference, deriveGoalsHelper", "src/NarGoalSystem.rs"), ("query_by_antecedent, query_by_consequence", "src/NarGoalSystem.rs"), ("infGoalBelief, infGoalDetach", "src/NarInfProcedural.rs")])
prop("C15", "Goal memory: each goal is kept once, ranked by usefulness and bounded",
 "A goal with the same term and evidence is stored only once. Operation goals are in the active set, others in the batch of their depth (at most 7), in one group per term; the lookup by term contains exactly the stored goals. Every 13th step the goals (active ones included) are cut to the configured maximum (20), keeping those with the highest usefulness: expectation times desirability times exp(-0.01 age). When the last event is a goal's term its desirability becomes 0 and that of no other goal; sampling returns only stored goals, never one which is alone in its group and fulfilled, and can return every desired one. Told goals are stored with their truth value at depth 0 without evidence belief; a query returns the first stored goal with that term if any.",
 ["histories"], "all histories of telling, deriving, fulfilling, sampling and limiting goals", "no test looks at the goal memory",
 ["src/NarGoalSystem.rs"], [("addEntry, limitMemory, sample, event_occurred, query", "src/NarGoalSystem.rs")], [("batchesByDepth, activeSet, entriesByTerm", "stored goals", "NarGoalSystem::GoalSystem")])
prop("C16", "Parsing is faithful and never fails other than by rejecting; printing shows exactly the sentence",
 "Every sentence of the Narsese grammar is parsed to exactly the term, truth value, punctuation and tense it denotes: names (letters and digits of any script, - _ ^), variables ?x #x $x, statements <A cop B> with one space around --> <-> ==> =/> <=>, sets {A} [A], (!A), sequences and products of two or more components, (A|B), (A&B), conjunctions of two to four components, images (R /1 A) and (R /2 A), nested up to 100 levels; spaces around * and white space after the term are ignored; punctuation . ! ?, then optionally {f c} with 0<=f<=1 and 0<=c<1, then optionally :|:. Without truth value it gets {1.0 0.9}. All other text (rest after the term, malformed or out-of-range truth value, missing punctuation, arbitrary characters, unbalanced or deeper nested parentheses) is rejected, in time linear in the nesting, without crashing. The printed form of a term shows all components in order with their connective, that of a sentence also its punctuation and (unless a question) its truth value.",
 ["inputs"], "all sentences and all strings", "about 25 sample sentences are tested, almost all without nesting, none of them malformed", ["src/NarseseParser.rs", "src/Term.rs", "src/NarSentence.rs"], [("parseNarsese, parseNarseseRetTv, parse*", "src/NarseseParser.rs"), ("convTermToStr", "src/Term.rs"), ("convSentenceTermPunctToStr", "src/NarSentence.rs")])
prop("C17", "Every input line has exactly its documented effect",
 "Each line given to the input facade has exactly the effect of the command it is, and no other: a comment (//) or an empty line changes nothing; !s performs one reasoning cycle and !sN N of them (none if N is malformed, negative or too large); !spA, !spB and !sp perform the first, the second or both halves of one procedural step; !dtf drops all open tasks; !por execinj, !por nlpRel0 and !por NOP name register that operation and nothing else; !peb 0 and !peb 1 switch exploration off and on; !dt lists every open task in one line, !dmd the number of concepts; !QQ ends the session. Every other line is a Narsese sentence: an event is recorded as event, a goal with tense is stored as goal with its truth value, a question is registered, a predictive implication becomes a procedural belief, any other judgement a belief and an open task with one fresh evidence id. A line that is none of these, an eternal goal or a sentence beyond the complexity limit changes nothing.",
 ["inputs", "histories"], "all lines and sequences of lines, in every state of the reasoner", "no test uses the facade", ["src/NarInputFacade.rs", "src/Nar.rs"], [("input", "src/NarInputFacade.rs"), ("inputN, inputT, inputT2, cycle", "src/Nar.rs")])
prop("C18", "No input or history crashes or wedges the reasoner",
 "For every sequence of input lines, commands, cycles and procedural steps, in every schedule of the main thread and the worker threads, no thread panics, no schedule is a deadlock, and the worker threads stay alive: afterwards new judgements are still taken up and conclusions from them derived, a question about them is answered, and events around an operation are still learned as procedural knowledge. No lock stays held when an input is done. The chaos, Pong and tic-tac-toe environments run to their end.",
 ["inputs", "histories", "schedules"], "all sequences of inputs, all schedules of the worker threads", "tests feed a few well-formed inputs and see one schedule; a deadlock needs a writer to arrive at one particular moment", ["src/Nar.rs", "src/NarProc.rs", "src/NarWorkingCycle.rs", "src/NarGoalSystem.rs", "src/NarInputFacade.rs", "src/NarMem.rs"], [("deriver worker, memAddTask, reasonCycle", "src/NarWorkingCycle.rs"), ("store worker, narStep0, narStep1", "src/NarProc.rs"), ("addEntry, limitMemory, sampleAndInference", "src/NarGoalSystem.rs"), ("environments", "src/ProcChaosEntry.rs, src/Reasoner1Entry.rs, src/ProcTicTacToe.rs")])
prop("C19", "The server delivers every report once, in order, to every client, and takes up every line",
 "Every line a client sends is taken up by the reasoner once, the lines of each client in the order in which they were sent, also the last ones before the client closes its side of the connection. Everything the reasoner reports from then on (results of commands, answers to questions of anybody) is sent to each client which is connected: each report exactly once, complete and as one line, in the order of the reports; a client which has just connected gets no reports made before. Only reports which are followed by 50 newer ones before the client is served (a client is served when it sends a line) may be missing. Clients which connect, disconnect, reset the connection, do not read or send bytes which are not text affect neither the reasoner nor the other clients.",
 ["schedules", "histories"], "all interleavings of clients connecting, sending, reading, disconnecting and reports", "no test starts the server", ["src/NarServer.rs"], [("acceptLoop, connectionLoop, run, QHandlerImpl::answer", "src/NarServer.rs")])
prop("C20", "The Pong environment obeys its rules",
 "In every step the ball moves by its velocity (to the side only every second step, plus the configured multiple), after bouncing at the walls; when it reaches the bat's side exactly one hit is counted if the bat is within its width of the ball and exactly one miss otherwise, and at no other time; a new ball is placed exactly when the ball reached the bat's side or a side wall, on the field in its far half; the bat moves half its width in the direction commanded last (^L: 1, ^R: -1) and stays within its range. The reasoner perceives center, left or right according to the relative position of ball and bat, and the reported positions, hits, misses, time and final ratio are those of the environment.",
 ["inputs", "histories"], "all states of the environment and all command histories", "the tests only look at the final ratio of a run", ["src/EnvPong3.rs", "src/Reasoner1Entry.rs"], [("simStep, makeEnvState", "src/EnvPong3.rs"), ("reasoner1Entry, OpPong::call", "src/Reasoner1Entry.rs")])
prop("C21", "Terms behave as algebraic values",
 "Two terms are equal exactly if they are structurally identical, and equal terms hash equally; the subterms of a term are all its occurrences, its unique subterms the set of them; complexity counts as defined for each form; operations are encoded to and decoded from terms without loss.",
 ["inputs"], "all terms", "few terms are tested", ["src/Term.rs", "src/TermApi.rs"], [("checkEqTerm, retSubterms, retUniqueSubterms, calcComplexity", "src/Term.rs"), ("decodeOp, encodeOp", "src/Term.rs, src/NarProc.rs")])
prop("C22", "Sessions process every line exactly once, in order, and end cleanly",
 "Each line of an interactive session on the standard input, or of a file of lines, takes effect exactly once and in order, also the last one without a line end and lines after unreadable ones (bytes which are not text); in an interactive session an empty line repeats the previous input. The session ends at !QQ or at the end of the input, whichever comes first, and nothing after !QQ takes effect.",
 ["inputs", "histories"], "all input texts, with any line ends and bytes", "no test covers it", ["src/NarInteractive.rs", "src/NarUtilReadn.rs", "src/NarInputFacade.rs"], [("runInteractive", "src/NarInteractive.rs"), ("readNarseseFile", "src/NarUtilReadn.rs")])
prop("C23", "Operations of the library have exactly their documented effect",
 "The NAL-9 operation exec-and-inject, given {SELF}, a sequence and a term, invokes each element of the sequence which is a call of a registered operation with exactly its arguments, in order and once (also nested), skips the others, and then records the given term as one event; with other arguments it does nothing. The relation operation tells the given relation as a judgement with truth value {1.0 0.9} and a fresh evidence id (the second component (a,and,b) of a binary product relation becomes the intersection of a and b); with other arguments or without a declarative memory it does nothing. The NOP operation does nothing. Each operation reports its own name and whether it may be used in exploration.",
 ["inputs"], "all arguments, nestings and sets of registered operations", "no test covers it", ["src/OpLib.rs"], [("call", "src/OpLib.rs Op_nal9_exeAndInject, Op_nlpRel0, Op_nop")])
prop("C24", "The tic-tac-toe environment is played by the rules",
 "Every game starts with an empty field and the reasoner's move; the reasoner and the opponent move alternately, each move puts the mover's mark on one free cell and changes nothing else; the reasoner's move is the operation it called last, and it is asked again, with the same situation, when it made none or an impossible one. The reasoner is shown exactly the current field, before each of its moves and after each of the opponent's. A winner is announced exactly when its marks fill a row, a column or a diagonal, a draw exactly when the field is full without one; the game ends then and only then, and the requested number of games is played.",
 ["histories"], "all games and all operations the reasoner calls", "a test only runs the environment", ["src/ProcTicTacToe.rs"], [("run, tryMove, retFieldAsString, OpCheckers::call", "src/ProcTicTacToe.rs")])

prop("C25", "Image maps and filters compute exactly what their operations denote",
 "For every map of any size and all coordinates, also outside of it: reading a cell outside gives the default value, writing outside changes nothing; writing, drawing a box, a circle (the cells within its radius of its center) or a line (the cells whose foot point lies between the two different end points, at most 1.5 from it) gives exactly the cells of the figure the value and changes no other; cropping gives the cells of the rectangle, the default where it leaves the map; sum, difference (cells which the second map does not have count as 0), division and sum of squares are those of the cells. The convolution of a map gives for each cell the sum over all cells of the kernel (centered at half its size) times the cell of the map below it, 0 outside; the one without border is the same inside and 0 in a border of half the kernel plus one cell. A Gabor filter has absolute values of at most 1, the cosine of the phase in its center, its values depend on wavelength, aspect and angle as in its definition. Limiting perceived items keeps the first ones up to the limit.",
 ["inputs"], "all maps, sizes, coordinates and kernels", "no test covers it", ["src/Map2d.rs", "src/ModVisionC.rs", "src/AeraishPerceptionComp.rs"], [("readAt, writeAt, crop, map2dDrawBox, map2dDrawCircle, drawLine, sub, add, divScalar, distPow2", "src/Map2d.rs"), ("convo, convWithoutBorder, generateGaborKernel", "src/ModVisionC.rs"), ("limit", "src/AeraishPerceptionComp.rs")])
prop("C26", "Prototype classifiers recognise what they learned and learn nothing else",
 "A stimulus is assigned to the most similar prototype if its similarity is at least one half, otherwise to none; similarity is exp(-d/2) with d the sum over all channels of squared differences to the mean of the prototype's stimuli (real-valued classifier), or the expectation of the pooled comparison truth values of all components of all channels (truth-value classifier, images encoded by one truth value per quantization step, true for the step of the cell only). Without learning nothing changes and no match is reported as such. With learning exactly the assigned prototype takes up the stimulus (sum and count of evidence, or revision of each truth value) and its time of use, or a new prototype equal to the stimulus is appended if there was no match; the number returned is that of this prototype. All other prototypes stay unchanged, none is removed; what was just learned is recognised again.",
 ["inputs", "histories"], "all histories of stimuli with any number of channels", "no test covers it", ["src/ModVisionB.rs", "src/ModVisionD.rs", "src/TvVec.rs"], [("classify, calc_sims, classify_max, conv_img_to_tv_vec", "src/ModVisionB.rs"), ("classify, calc_sims, classify_max", "src/ModVisionD.rs"), ("revVec, foldVec, compVec", "src/TvVec.rs")])
prop("C27", "Network helpers: derivatives, neurons, network construction and vector functions are right",
 "Sums, differences, products, quotients, exponentials, dot products, rectifier and sigmoid of dual numbers carry exactly the value and the derivative of the function (arguments of ordinary size); a neuron gives its activation function applied to the weighted sum of its inputs plus bias. Building a two-layer network uses the parameters in order from the given position, each exactly once: per neuron its weights, then its bias (times 15 in the first, times 8 in the second layer), the given activation in the first layer and the sigmoid in the second; the derivative is 1 for the selected parameter and 0 for all others, and the position afterwards is after the last parameter used. Vector sum, scaled sum, scaling, dot product, length and cosine similarity are those of linear algebra.",
 ["inputs"], "all arguments, network shapes and selected parameters", "no test covers it", ["src/ad.rs", "src/Nn.rs", "src/mlutils.rs"], [("add, sub, mul, div, exp, dot, reluAct, sigmoidAct, calc", "src/ad.rs"), ("buildNnFromParameters", "src/Nn.rs"), ("vecAddScale, vecAdd, vecScale, vecDot, vecLen, calcCosineSim", "src/mlutils.rs")])

TECH = "TLA+ specification checked by TLC; conformance by validating recorded implementation traces and replaying TLC-generated behaviours"
def main():
    os.chdir(ROOT)
    todo = dict(x for x in TODO.items())
    with open("properties.jsonl", "w") as f:
        for p in P:
            if p["id"] in DROPPED: continue
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        id = p["id"]
        if id in DROPPED: continue
        if id in CHECKS:
            checks.append(dict(property=id, quick_cmd="python3 run.py %s quick" % id, thorough_cmd="python3 run.py %s thorough" % id, evidence_file="evidence/%s.json" % id,
                technique=TECH, level="model_checking", level_note=CHECKS[id].get("note", "The TLA+ specification is model checked exhaustively for small constants; the implementation is bound to it by trace validation of recorded runs (TLC-generated and random), each event must be a step of the specification. Trusted: TLC, the projection of the implementation state in the harness; numbers are compared to 3e-4.")))
        else:
            na.append(dict(property=id, reason=todo.get(id, "the specification module and harness for it are not finished yet")))
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
             notes="No hooks are needed in /repo: the harness crate under harness/ uses public items only. Unguarded commits in /repo are repairs (fix:), see KNOWN_FINDINGS.txt.")
    json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
TODO = {}
DROPPED = []
if __name__ == "__main__":
    main()
