#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so the long strings stay readable)."""
import json, os
P = "pash_annotations/"
G = P + "annotation_generation/annotation_generators/"
D = P + "annotation_generation/datatypes/"
PAR = D + "parallelizability/"
DATA = P + "parser/command_flag_option_info/data/"
IOV = P + "datatypes/CommandInvocationWithIOVars.py"

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=hook))

PROPS = [
prop("C01", "Consecutive-chunk parallelization equals the sequential run",
 "When the library offers an implemented consecutive-chunk parallelization for an invocation with one streaming input and one streaming output, cutting that input at any line boundaries (empty chunks included), running the per-chunk command the library builds on each chunk and combining the results with the aggregator it builds, bracketed in any order-preserving way, yields byte for byte the output of the sequential command. The commands it builds read and write exactly the streams they were given plus the invocation's own side inputs. This holds for every scheduling of the parallel processes, and when a worker or aggregator dies part-way and is run again from its input.",
 ["schedules", "crash_points", "inputs", "programs"],
 "every annotated invocation offering such a parallelization (flags, options, operands in any spelling), every input, every cut, every aggregation tree, every interleaving, stall, short read/write and worker crash",
 "The tests compare the objects returned for a handful of invocations with hand-written objects; nothing is ever executed, so neither an unsound parallelizer, nor a mapper or aggregator built with wrong flags or streams, is observable for any input or schedule.",
 [G+"ParallelizabilityInfoGenerator*.py", PAR+"Parallelizer.py", PAR+"MapperSpec.py", PAR+"AggregatorSpec.py", PAR+"TransformerFlagOptionList.py", IOV],
 [("per-command case analysis over flags", G+"ParallelizabilityInfoGenerator*.py"), ("mapper construction", PAR+"MapperSpec.py"), ("aggregator construction, flag filtering, -m added for sort", PAR+"AggregatorSpec.py")],
 [("parallelizer list", "offered splitter/mapper/aggregator triples", D+"ParallelizabilityInfo.py")],
 ["bytes delivered on the output stream", "streams opened by every mapper/aggregator process"]),
prop("C02", "Round-robin blocks merged in order equal the sequential run",
 "When the library offers an implemented plain round-robin parallelization for an invocation with one streaming input and one streaming output, dealing blocks of whole lines to workers in any dynamic order, running the per-block command it builds on each block and emitting the block results in block order yields byte for byte the sequential output. This holds for every dispatch order, late, duplicated or repeated block execution, and every block size.",
 ["schedules", "crash_points", "inputs", "programs"],
 "every annotated invocation offering round robin, every input, block size, worker count, dispatch order, worker death and re-dispatch, duplicated completion",
 "No test executes a command; tests only check that the list of parallelizers for a few invocations has a round-robin entry.",
 [G+"ParallelizabilityInfoGenerator*.py", PAR+"Parallelizer.py", PAR+"Splitter.py", PAR+"MapperSpec.py"],
 [("decision to append a round-robin parallelizer", G+"ParallelizabilityInfoGenerator*.py"), ("round-robin sanity check on aggregators", PAR+"Parallelizer.py")],
 [("splitter kind", "how the input may be distributed", PAR+"Splitter.py")],
 ["bytes emitted by the in-order merge"]),
prop("C03", "Commutative commands tolerate any distribution of the input lines",
 "When the library offers the unwrapped round-robin parallelization for an invocation, which it infers from reported commutativity, handing the input's blocks of lines to the workers in any distribution and order, running the built per-worker command on each worker's stream and combining with the built aggregator in any tree shape and operand order yields byte for byte the sequential output.",
 ["schedules", "crash_points", "inputs", "programs"],
 "every invocation reported commutative, every input, every assignment of blocks to workers, every arrival order, aggregation tree and worker restart",
 "Commutativity is a flag set by hand; no test runs the inferred parallelizers, and the inference itself is not tested at all.",
 [D+"ParallelizabilityInfo.py", G+"ParallelizabilityInfoGeneratorSort.py", G+"ParallelizabilityInfoGeneratorCustomSort.py", PAR+"Parallelizer.py", PAR+"AggregatorSpec.py"],
 [("inference of round robin with unwrap from a consecutive-chunk parallelizer", D+"ParallelizabilityInfo.py"), ("commutativity flag", G+"ParallelizabilityInfoGeneratorSort.py")],
 [("is_commutative", "line order of the input is irrelevant", D+"ParallelizabilityInfo.py")],
 ["bytes delivered on the output stream"]),
prop("C04", "Auxiliary mapper-to-aggregator streams are wired consistently",
 "When a parallelization announces auxiliary streams from mapper to aggregator, each mapper it builds writes its result and exactly the announced number of auxiliary streams, in the announced order, and every pairwise aggregator reads each partner's result and auxiliaries and produces a combined result with auxiliaries in that same order, so that aggregation trees of any shape over any consecutive chunks yield the sequential output. No stream is dropped, duplicated, aliased or swapped, under any scheduling and any worker restart.",
 ["schedules", "crash_points", "inputs", "histories"],
 "every input, chunking, aggregation-tree shape, interleaving, stall and restart for the commands that declare auxiliary streams or custom two-way aggregators",
 "No test covers the commands with auxiliary streams or the two-way aggregator with auxiliaries at all.",
 [PAR+"AggregatorSpec.py", PAR+"MapperSpec.py", PAR+"Parallelizer.py", G+"ParallelizabilityInfoGeneratorBigramsAux.py", G+"ParallelizabilityInfoGeneratorAltBigramsAux.py"],
 [("two-way aggregator with auxiliaries", PAR+"AggregatorSpec.py"), ("mapper operands input, output, auxiliaries", PAR+"MapperSpec.py")],
 [("info_mapper_aggregator", "number of auxiliary streams", PAR+"Parallelizer.py")],
 ["operand order and access map of built commands", "bytes of the final output"]),
prop("C05", "Commands whose reported accesses do not conflict can run concurrently",
 "Given a script of commands, start each one as soon as every earlier command whose reported accesses conflict with its own (same file, at least one of the two writing) has finished, treating a command with no information or with outputs other than streams as conflicting with everything. Every interleaving of the file operations of the running commands then leaves the same final files, the same per-command standard output and the same per-command exit status as running the script sequentially.",
 ["schedules", "programs", "inputs", "histories"],
 "every script of annotated and unannotated commands over a shared set of files and every interleaving of their individual opens, reads, writes, renames and unlinks, with stalls",
 "The tests look at single invocations and only count reported inputs and outputs; a missing, misclassified or misnamed access is only visible as a race between two commands.",
 [G+"InputOutputInfoGenerator*.py", D+"InputOutputInfo.py", P+"datatypes/AccessKind.py", P+"parser/parser.py", DATA+"*.json", P+"annotation_generation/AnnotationGeneration.py"],
 [("operand classification per command", G+"InputOutputInfoGenerator*.py"), ("option-argument access kinds", DATA+"*.json"), ("fallback to no information", P+"annotation_generation/AnnotationGeneration.py"), ("detection of outputs other than streams", D+"InputOutputInfo.py")],
 [("access kind", "how each named file is used", P+"datatypes/AccessKind.py")],
 ["final file system", "per-command stdout and exit status"]),
prop("C06", "A command touches nothing beyond its reported accesses, faults included",
 "For an invocation reported as having only streaming outputs, every file it reads is reported as an input and every file it creates, changes or removes is reported as a streaming output. Hence making any unreported file unreadable, corrupt, missing or failing, before or during the run, changes nothing the command does, and killing the command at any point leaves every file not reported as an output unchanged.",
 ["fault_sequences", "crash_points", "programs", "inputs"],
 "every annotated invocation, every set of unreported files subjected to read errors, permission errors, corruption or disappearance at any moment, and every crash point",
 "Tests compare reported lists with expected lists for a few invocations; they never observe what the command really accesses, nor what happens under faults.",
 [G+"InputOutputInfoGenerator*.py", D+"InputOutputInfo.py", DATA+"*.json", P+"parser/parser.py"],
 [("operand and option classification", G+"InputOutputInfoGenerator_Interface.py"), ("typing of arguments as file, string or std descriptor", D+"InputOutputInfo.py")],
 [("operand/flag typers", "which argument is a file and how it is accessed", D+"InputOutputInfo.py")],
 ["files opened, created, changed, removed by the command", "stdout and exit status under faults"]),
prop("C07", "Streaming inputs and outputs can be replaced by pipes",
 "Rebuilding an invocation from its parsed and annotated form, with every reported streaming input and output replaced by a pipe, preserves its behaviour: fed the same data through pipes of any capacity, with any chunking and any relative speed of producers and consumer, the rebuilt command consumes exactly the reported inputs (all of them, nothing else) and delivers on the pipe of each reported output exactly the bytes the original command line would have put there, with the same exit status, and always terminates once its producers have finished.",
 ["schedules", "programs", "inputs", "fault_sequences"],
 "every annotated invocation in every spelling (short, long, combined, attached and '=' forms, aliases, empty strings, '-'), every pipe capacity, read/write chunking, stall and scheduling",
 "Parser tests check eight fixed command lines and generator tests use hand-built objects; whether parsed flags, options and operands in their order still denote the same command is never executed.",
 [P+"parser/parser.py", P+"parser/util_parser.py", DATA+"*.json", G+"InputOutputInfoGenerator*.py", D+"InputOutputInfo.py", IOV],
 [("command-line parser", P+"parser/parser.py"), ("flag and option data with aliases", DATA+"*.json"), ("stream substitution", IOV)],
 [("implicit streams", "use of stdin/stdout", D+"InputOutputInfo.py"), ("access map", "access of every stream variable", IOV)],
 ["bytes on output pipes, exit status, consumed inputs, termination"]),
prop("C08", "Read failures while loading command data never yield a wrong annotation",
 "If loading the per-command data fails at any point of a query (I/O error, permission, too many open files, interrupted or short reads, out of memory), the query either fails, reports no information, or gives exactly the answer it gives without the fault; it never gives a different annotation. The first query after the fault clears gives the right answer again.",
 ["fault_sequences", "crash_points", "histories", "inputs"],
 "every query, every system call or allocation made while its data is loaded, every such fault kind, any sequence of faulty and fault-free queries",
 "Tests never inject a fault; the fallback path for commands without data is taken on one exception type only, and whether a transient failure is mistaken for 'no data' is invisible to them.",
 [P+"parser/util_parser.py", P+"parser/parser.py", P+"annotation_generation/AnnotationGeneration.py", G+"InputOutputInfoGenerator_Interface.py"],
 [("fallback to default data only when no data file exists", P+"parser/util_parser.py"), ("any failure of a generator means no information", P+"annotation_generation/AnnotationGeneration.py")],
 [], ["result or exception of each query"]),
prop("C09", "The command-line tool never damages an existing file",
 "The command-line tool asked to save its report writes it only to a file that did not exist, at the path relative to the caller's working directory, and then that file holds the complete report; if the path already exists it leaves it untouched and prints the report instead. No interleaving with another process creating that path, and no crash or write failure, ever changes the content of a file the tool did not create itself, and a failed save never ends in reported success.",
 ["schedules", "crash_points", "fault_sequences", "configurations"],
 "every command invocation string, every target state (absent, present, dangling or live symlink, directory, unwritable), every point at which another process creates the path, every write fault and crash point, every working directory",
 "There is no test of the command-line tool.",
 [P+"annotation_cli.py"],
 [("existence check before saving", P+"annotation_cli.py")],
 [], ["file system before and after", "stdout, exit status"]),
prop("C10", "Queries are isolated from each other across threads and histories",
 "Every parse, annotation query and mapper or aggregator construction returns the same answer as the same call made alone in a fresh process, whatever other calls ran before it or run concurrently with it in other threads, and however its result objects are used afterwards. No call changes its arguments or any object handed out earlier, and asking the same object the same question twice gives the same answer.",
 ["schedules", "histories"],
 "every set of caller threads, every sequence of public calls in each, every preemption point inside the library's Python code",
 "Tests run single calls in one thread and look at each result once.",
 [P+"parser/parser.py", P+"annotation_generation/AnnotationGeneration.py", D+"ParallelizabilityInfo.py", D+"InputOutputInfo.py", PAR+"*.py", IOV],
 [("fresh generator and info objects per query", P+"annotation_generation/AnnotationGeneration.py"), ("defensive copies", IOV), ("inferred parallelizers computed on demand", D+"ParallelizabilityInfo.py")],
 [("parallelizer list", "must not grow when asked", D+"ParallelizabilityInfo.py")],
 ["structural snapshots of arguments and results before and after each call"]),
prop("C11", "An interrupted query leaves no trace",
 "If a call into the library is interrupted at any point (a signal handler raising, a timeout, running out of memory or stack), the call raises or returns either its normal answer or no information, never a partial or different annotation. All later calls, and all objects handed out before (other than the one an interrupted in-place operation was called on), behave as if the interrupted call had never been made.",
 ["crash_points", "histories"],
 "every public call, every line at which an exception can be delivered asynchronously, every kind of interruption, any follow-up calls",
 "Tests never interrupt a call.",
 [P+"annotation_generation/AnnotationGeneration.py", P+"parser/parser.py", PAR+"MapperSpec.py", PAR+"AggregatorSpec.py", IOV],
 [("catch-all turning failures into no information", P+"annotation_generation/AnnotationGeneration.py"), ("work on private copies", IOV)],
 [], ["result or exception of the interrupted call", "results of all later calls", "snapshots of earlier objects"]),
prop("C12", "Answers do not depend on the process environment",
 "The answer to every query, including its printed form, is a function of the invocation alone: it does not depend on hash randomisation, working directory and its content, environment variables and locale, clock, import order, or the order in which commands were first queried.",
 ["configurations", "histories", "inputs"],
 "every invocation under every hash seed, working directory (including one holding files named like the library's data), environment, clock, import order and query order",
 "The tests run under one hash seed, one working directory and one import order.",
 [P+"parser/util_parser.py", P+"parser/parser.py", P+"annotation_generation/AnnotationGeneration.py", P+"util_standard.py"],
 [("data loaded relative to the package", P+"parser/util_parser.py"), ("registration of generators at import", P+"annotation_generation/AnnotationGeneration.py")],
 [], ["repr and structural dump of parse, I/O and parallelizability answers"]),
prop("C13", "Re-plumbing keeps an invocation's streams and access records consistent",
 "Under any sequence of stream substitutions, single-stream replacements and removals applied to an invocation, the streams it mentions are exactly those its access records know, each keeps the access kind of the stream it replaced, all other arguments and their order are untouched, and the lists of streaming inputs and of outputs it reports follow argument order. An invocation re-plumbed while channels fail and are replaced therefore still consumes and produces exactly the same data, and no other invocation is affected.",
 ["histories", "fault_sequences", "schedules", "programs"],
 "every annotated invocation and every finite history of substitute/replace/remove/copy/derive operations driven by channel failures at any moment",
 "No test touches the stream-variable form of an invocation or any of its operations.",
 [IOV, P+"datatypes/BasicDatatypesWithIOVar.py", PAR+"Mapper.py", PAR+"Aggregator.py", PAR+"MapperSpec.py"],
 [("traversal of options, operands and implicit streams", IOV), ("consistent renaming in the access map", IOV)],
 [("access_map", "stream variable to access kind", IOV)],
 ["variables mentioned vs access map", "data transported after re-plumbing"]),
prop("C14", "Meaning of annotations is decided by the invocation's value alone",
 "Two invocations that denote the same command line through different spellings of the same flags and options (alias, long or short name, combined or separate letters) parse to equal values, and equal values get equal annotations.",
 ["inputs", "programs"],
 "every pair of equivalent spellings",
 "Tests cover two spellings of one sort option and one cat flag pair.",
 [P+"parser/parser.py", DATA+"*.json", P+"util_standard.py"],
 [("primary representation of aliases", P+"parser/parser.py")]),
prop("C15", "Printed form and equality of annotation objects agree",
 "Annotation objects that compare equal print identically and objects of different content compare unequal.",
 ["inputs"],
 "every pair of annotation objects",
 "Tests use equality only as an assertion helper.",
 [P+"util_standard.py", P+"datatypes/*.py", D+"*.py"],
 [("structural equality and printing helpers", P+"util_standard.py")]),
prop("C16", "The man-page converter produces loadable command data",
 "For every man page the converter script produces data the parser can load, with each flag listed once and option arguments typed.",
 ["inputs"],
 "every man page text",
 "The converter has no tests.",
 [P+"parser/command_flag_option_info/args-to-json.py", P+"parser/command_flag_option_info/manpage-to-json.sh"],
 [("regular expressions over man pages", P+"parser/command_flag_option_info/args-to-json.py")]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in PROPS:
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(PROPS))
