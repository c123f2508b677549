"""The properties: one P(...) per claimed property, N(...) per property that is not claimed."""
PROPS = []
NA = []
NOTES = ('All checks share one rustc driver that dumps the optimised-away-nothing MIR of the current working tree (cfg(unix)) and one path-partitioning '
         'value-flow engine in engine/. Undecided obligations are reported in the evidence and never raise an alarm.')
TRUST = ('Decides the stated rule on every path partition the engine enumerates in the current source; trusts rustc\'s MIR, the engine, and the models of std and of '
         'third-party crates it uses. Obligations it cannot decide are listed as undecided in the evidence. ')


def P(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=TRUST + note))


def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


P('C01', 'The exit status tells the true result of the run',
  'The process exits with 4 if the unmutated tree failed its build or tests, otherwise 3 if any mutant timed out, otherwise 2 if any mutant was missed, otherwise 0; usage errors give 1 '
  'and an internal error never ends in one of those result statuses. The status depends on nothing else, and the run of the lab is the last thing that decides it.',
  ['inputs', 'histories', 'configurations'], 'every combination of outcomes recorded in a run, every option combination, every failing step on the way',
  'The tests run a few small trees with one or two kinds of outcome each; combinations (a timeout together with missed mutants, a failed baseline with other counts) and errors on each step are not reached.',
  ['src/main.rs', 'src/outcome.rs', 'src/exit_code.rs'],
  [('exit code from the tallies', 'src/outcome.rs LabOutcome::exit_code'), ('wiring of main', 'src/main.rs main')],
  'decision-table extraction by path-partitioned value-flow over MIR',
  'Exit code as a function of recorded outcomes is compared with the specification on all orderings of zero/positive counts; main is enumerated exhaustively with its callees symbolic.')

P('C02', 'A mutant is classified by what its build and tests did',
  'A mutant counts as unviable if its build or check failed, as a timeout if a phase was stopped at its time limit, as missed only if every phase run succeeded, and as caught only if the tests failed; a mutant '
  'whose check succeeded in check-only mode is not counted as missed. A cargo command counts as successful only if it exited with status zero, as a timeout only if it was stopped for exceeding its limit, and as failed otherwise (also when killed by a signal). A command that was stopped at its limit is never recorded by the exit status it then had.',
  ['inputs', 'histories'], 'every sequence of phase results and every way a child process can end',
  'Tests observe a few exit statuses; death by signal, odd exit codes and combinations of phase results are not sampled.',
  ['src/outcome.rs', 'src/process.rs', 'src/process/unix.rs'],
  [('summary of a scenario', 'src/outcome.rs ScenarioOutcome::summary'), ('conversion of the exit status', 'src/process/unix.rs')],
  'decision-table extraction by value-flow over MIR', 'Exhaustive over phase histories up to the three phases that exist and all exit kinds.')

P('C03', 'Counts, result lists and outcomes.json agree with each outcome',
  'When a mutant\'s result is recorded, exactly the count of its class and the total grow by one, its full name and a newline are appended to exactly the list file of its class (caught, missed, timeout, unviable), '
  'and outcomes.json is rewritten including it with its scenario and phase results; the unmutated baseline enters no mutant count and no list.',
  ['histories', 'inputs'], 'every scenario kind and phase history, every earlier content of the tallies',
  'Tests check final files of a few small runs, never the effect of recording each class of outcome on arbitrary earlier state.',
  ['src/output.rs', 'src/outcome.rs'],
  [('recording', 'src/output.rs OutputDir::add_scenario_outcome'), ('tallies', 'src/outcome.rs LabOutcome::add')],
  'effect-summary extraction by value-flow over MIR', 'Effects of recording are computed symbolically for all scenario kinds and phase histories.')

P('C04', 'A mutated file is restored before anything else happens in its tree',
  'Once a mutation has been written to a file, every way of finishing that scenario, including any phase failing, timing out, being interrupted or erring, first writes the original text (with Unix line endings) back to the same file in the same tree; '
  'no other file of the tree is overwritten, and no further scenario starts in that tree with a mutation still applied.',
  ['fault_sequences', 'histories'], 'every path through a scenario, every failing step after the mutation was written',
  'Tests compare files after a few clean runs; failures between applying and reverting are not provoked.',
  ['src/lab.rs', 'src/mutant.rs', 'src/build_dir.rs'],
  [('apply and revert', 'src/mutant.rs Mutant::apply, Mutant::revert'), ('scenario', 'src/lab.rs Worker::run_one_scenario')],
  'typestate analysis (must-restore on all exits) over MIR', 'A failed restoring write itself cannot be undone and is required to be reported as an error. Process kill and panics are outside.')

P('C06', 'Every worker has a build directory to itself',
  'With any number of parallel jobs, no two workers ever use the same build directory, each build directory is a fresh copy of the source tree (or, only with --in-place, the source tree itself for the single worker), and all phases of a scenario run in its worker\'s directory.',
  ['schedules', 'configurations'], 'every number of jobs and mutants, every interleaving of workers at their lock acquisitions',
  'Parallel tests run two jobs on a tiny tree and look at the result only; two workers sharing a directory would show only as a rare race.',
  ['src/lab.rs', 'src/build_dir.rs'],
  [('workers', 'src/lab.rs test_mutants'), ('build directories', 'src/build_dir.rs BuildDir')],
  'ownership/provenance analysis by value-flow over MIR with interposed workers', 'Explicit job and mutant counts up to 5; one interposed worker at each lock acquisition.')

P('C07', 'Every selected mutant is tested exactly once, and no failure is lost',
  'For every list of selected mutants and every number of jobs, a run that ends successfully after a good (or skipped) baseline has tested each of them exactly once, using at most the requested number of workers (one if not given) and never more workers than mutants; '
  'an error in any worker makes the whole run end in an error.',
  ['schedules', 'inputs', 'fault_sequences'], 'every list length and job count, every interleaving of workers at their lock acquisitions, an error in any scenario of any worker',
  'Tests check totals on a few trees with one or two jobs, without errors in workers.',
  ['src/lab.rs'], [('work queue', 'src/lab.rs Worker::run_queue'), ('joining workers', 'src/lab.rs join_threads'), ('workers', 'src/lab.rs test_mutants')],
  'path-partitioned value-flow over MIR with interposed workers', 'Explicit lists up to 5 mutants and 4 jobs; scheduling explored at lock acquisitions with one interposed worker.')

P('C08', 'No mutant is tested unless the unmutated tree passes',
  'Unless the baseline is skipped by option, the unmutated tree is run first and once, in the first build directory, running the tests that will be run on mutants (of the whole workspace, of the named packages, or of every package with mutants); if any of its phases does not succeed, no mutant is tested and the run ends with what was recorded so far. '
  'Time limits of mutants are derived from that baseline, or from the no-baseline rule if it was skipped.',
  ['fault_sequences', 'configurations'], 'every way a baseline can end, every package selection and job count',
  'Tests have a failing build and a failing test baseline; timeouts, signals and internal errors of the baseline are not sampled.',
  ['src/lab.rs', 'src/timeouts.rs'], [('baseline gate', 'src/lab.rs test_mutants, Lab::run_baseline')],
  'must-precede analysis over path partitions of MIR', 'All outcomes of the baseline are enumerated.')

P('C37', 'A mutant is tested by exactly the tests asked for',
  'With --test-workspace every mutant is tested with the tests of the whole workspace, with --test-package by those of the packages named (each once, unknown names ignored with a warning), and otherwise by those of the very package '
  'the mutant is in; the baseline runs the tests of the same packages. This holds for every mutant of a run, whichever worker takes it.',
  ['inputs', 'configurations'], 'every list of mutants and packages, every choice of tests, every number of jobs',
  'Tests look at the arguments of one or two mutants in small workspaces; a selection that is stale, shared between mutants or wrong for other packages is not sampled.',
  ['src/lab.rs', 'src/workspace.rs', 'src/package.rs'], [('choice of tests', 'src/lab.rs TestsForMutant, Worker::run_queue'), ('lookup of names', 'src/workspace.rs Workspace::packages_by_name')],
  'path-partitioned value-flow over MIR with explicit packages', 'Explicit lists of up to 3 mutants in up to 3 packages.')

P('C09', 'Phases run in order, under their own limits, and stop at the first failure',
  'A scenario runs cargo build and then cargo test (only cargo check in check-only mode), each in the worker\'s build directory, with the packages chosen for the scenario and with the time limit of that phase; '
  'a phase runs only if the one before it succeeded, and the results recorded are exactly those of the phases that ran, in order.',
  ['histories', 'configurations', 'fault_sequences'], 'every sequence of phase results, in both modes, for baseline and mutants',
  'Tests look at logs of a few scenarios; which limit reaches which phase and what follows an unusual result is not observed.',
  ['src/lab.rs', 'src/options.rs', 'src/cargo.rs'], [('phase loop', 'src/lab.rs Worker::run_one_scenario'), ('phases', 'src/options.rs Options::phases')],
  'path-partitioned value-flow over MIR', 'Exhaustive over results of each phase.')

P('C13', 'Results are on disk as soon as they are known',
  'mutants.json with the selected mutants is written before anything is run; when a scenario finishes, its outcome has been recorded exactly once (and a failure to write it is an error) before the worker goes on to another one, and nothing recorded waits in a buffer of the process. '
  'A run that is killed therefore leaves the results of every finished scenario behind.',
  ['crash_points', 'histories'], 'every point at which the run may be killed between scenarios',
  'Tests look at the output directory only after the run has ended.',
  ['src/lab.rs', 'src/output.rs'], [('recording', 'src/output.rs OutputDir::add_scenario_outcome'), ('list of mutants', 'src/output.rs OutputDir::write_mutants_list')],
  'must-pass-through analysis over path partitions of MIR', 'Writes reach the operating system before recording returns; durability against power loss is not claimed.')

P('C10', 'No cargo process outlives its phase',
  'Every cargo child is started in a process group of its own, with no standard input and with all its output going to the log of the scenario; while it runs, its exit, its time limit and the interrupt flag are looked at in every round; '
  'when the limit is exceeded or an interrupt was seen, its whole process group is signalled and the child is waited for before the phase ends. A phase never ends with its child still running and not signalled.',
  ['schedules', 'fault_sequences', 'histories'], 'every moment at which the child exits, the limit passes or an interrupt arrives, and every failing system call on the way',
  'Tests run one hanging test with a timeout; descendants of the child, interrupts and failing calls are not sampled.',
  ['src/process.rs', 'src/process/unix.rs', 'src/cargo.rs'],
  [('running a process', 'src/process.rs Process::run, Process::start, Process::poll'), ('group and termination', 'src/process/unix.rs configure_command, terminate_child')],
  'typestate analysis over path partitions of MIR', 'A child that ignores SIGTERM is waited for without limit, as designed.')

P('C11', 'An interrupt ends the run promptly and with an error',
  'Once an interrupt signal has been received it stays noted; every file copied, every sleep while waiting and every process started is preceded by a look at it, and when it is seen the operation returns an error without copying, sleeping or starting anything further; '
  'after a phase has ended, an interrupt is reported as an error and not as a result of the mutant.',
  ['schedules', 'histories'], 'every moment at which the interrupt may arrive',
  'A signal arriving at a particular moment is not something the tests provoke.',
  ['src/interrupt.rs', 'src/copy_tree.rs', 'src/output.rs', 'src/process.rs', 'src/cargo.rs'],
  [('flag', 'src/interrupt.rs'), ('waits', 'src/process.rs Process::run, src/output.rs LockFile::acquire_lock, src/copy_tree.rs copy_tree')],
  'finite-state monitor over path partitions of MIR', 'Promptness is bounded by one file copy, one poll interval or the end of the signalled child.')

P('C21', 'Cargo gets the inherited environment plus exactly the intended settings',
  'Every cargo process run for a phase inherits the environment unchanged except that INSTA_UPDATE=no and INSTA_FORCE_PASS=0 are set, and, only if lints are to be capped, CARGO_ENCODED_RUSTFLAGS is set to the inherited CARGO_ENCODED_RUSTFLAGS, or else the words of RUSTFLAGS, '
  'followed by --cap-lints=warn (separated as cargo expects, with empty settings counting as none). Inherited flags are never dropped.',
  ['inputs', 'configurations'], 'every value of CARGO_ENCODED_RUSTFLAGS and RUSTFLAGS (absent, empty, any text), every option setting and phase',
  'Tests set two or three values of the variables.',
  ['src/cargo.rs', 'src/process.rs'], [('flags', 'src/cargo.rs encoded_rustflags'), ('environment', 'src/cargo.rs run_cargo')],
  'symbolic dataflow from inputs to the spawn call over MIR', 'Splitting of a symbolic RUSTFLAGS is checked on explicit texts and, for an arbitrary one, only for containing it and ending in the cap.')

P('C22', 'Each phase runs the intended cargo command with all of the user\'s settings',
  'The command is $CARGO (or cargo), with check --tests, test --no-run, test, nextest run --no-run or nextest run according to phase and test tool; the selected profile (--profile, or --cargo-profile for nextest), --workspace or one --package=name@version per selected package, every feature setting, '
  'and the additional cargo arguments are given exactly once in every phase, in order; additional test arguments come last and only when tests are run.',
  ['configurations', 'inputs'], 'every combination of phase, test tool, profile, package selection, feature options and extra arguments',
  'Tests compare about a dozen combinations out of hundreds.',
  ['src/cargo.rs', 'src/package.rs'], [('command line', 'src/cargo.rs cargo_argv'), ('package names', 'src/package.rs Package::version_qualified_name')],
  'decision-table extraction by value-flow over MIR', 'Whether cargo itself honours the flags is outside.')

P('C12', 'Two runs never share an output directory',
  'A run replaces an existing mutants.out only after it obtained the exclusive lock on that directory\'s lock.json; it deletes nothing but the older mutants.out.old, keeps the previous results as mutants.out.old, locks the new directory before putting anything else in it, '
  'and holds that lock until it ends. A run that finds the directory locked waits. The directory is the mutants.out in the directory given with --output (or in the configuration), otherwise in the root of the workspace, wherever in it the run was started.',
  ['schedules', 'fault_sequences'], 'every state of the output directory, every failing step, any other run holding the lock at any moment',
  'Tests start one run at a time.',
  ['src/output.rs'], [('creation and rotation', 'src/output.rs OutputDir::new'), ('lock', 'src/output.rs LockFile::acquire_lock')],
  'typestate analysis of the lock handle over path partitions of MIR', 'Exclusion rests on the operating system\'s file locks. One known finding (the lock of the old directory is released before it is renamed) is listed in known_findings.txt.')

P('C14', '--iterate skips exactly the mutants already caught or unviable',
  'With --iterate, the mutants tested are exactly the selected ones whose names appear in none of caught.txt, unviable.txt and previously_caught.txt of the previous output directory; the previous results are read before the directory is replaced; all names carried over are written to previously_caught.txt of the new directory before testing, '
  'so that repeated iteration never forgets a caught mutant. Missing files count as empty. Without --iterate nothing is skipped.',
  ['histories', 'inputs'], 'every previous state of the output directory, every chain of iterated runs, every list of mutants',
  'Tests run one chain of two or three runs over one tree.',
  ['src/output.rs', 'src/visit.rs', 'src/main.rs'],
  [('reading', 'src/output.rs load_previously_caught'), ('skipping', 'src/visit.rs Discovered::remove_previously_caught'), ('carrying over', 'src/output.rs OutputDir::write_previously_caught')],
  'value-flow over MIR with explicit abstract files and lists; ordering over partitions of main', 'Explicit files and names (present, absent, overlapping).')

P('C15', 'Shards partition the mutants',
  'For every n, the shards 0/n to n-1/n of the same tree and options are disjoint, together contain every mutant, keep the order of the list and differ in size by at most one; k/n is accepted exactly when k < n. '
  'The shard is taken last, of the complete filtered list, which is in the same order in every run; no randomised order enters before it.',
  ['inputs', 'configurations'], 'every number of shards and every list of mutants',
  'Tests use a few values of k and n on one tree.',
  ['src/shard.rs', 'src/main.rs'], [('selection', 'src/shard.rs Shard::select'), ('parsing', 'src/shard.rs Shard::from_str'), ('wiring', 'src/main.rs main')],
  'value-flow over MIR on explicit lists; ordering over partitions of main', 'Selection is checked on explicit lists up to 8 and n up to 9.')

P('C27', 'Listing shows exactly what would be tested, and changes nothing',
  '--list and --list-files apply the same selection (filters, diff, shard, iterate) as a test run with the same options, show every selected item exactly once and in order, in text and in JSON (with or without diffs), '
  'and neither create, change nor remove any file nor run any cargo command other than finding and reading the workspace metadata.',
  ['configurations', 'inputs'], 'every option combination, every list of mutants and files',
  'Tests compare a few listings with snapshots; equality with what a test run would do is not compared, nor is absence of side effects.',
  ['src/main.rs', 'src/list.rs'], [('wiring', 'src/main.rs main'), ('listing', 'src/list.rs list_mutants, list_files')],
  'relational comparison of path partitions of main; call-graph effect analysis', 'The debug log and files of cargo metadata itself are outside.')

P('C32', 'Time limits are derived from options and baseline as documented',
  'The test limit of a mutant is the explicit timeout if given, otherwise the larger of the minimum and the whole seconds rounded up of the baseline test time times the multiplier (5 by default), and 300 seconds if there is no successful baseline test to derive it from; '
  'the build limit is the explicit build timeout if given, otherwise the baseline build time times the build multiplier if one is given, otherwise none. The baseline runs under the explicit test timeout only.',
  ['inputs', 'configurations'], 'every duration, multiplier and combination of options, every baseline history',
  'Tests compute about a dozen examples.',
  ['src/timeouts.rs', 'src/options.rs', 'src/lab.rs'], [('limits', 'src/timeouts.rs Timeouts::for_baseline, from_baseline, without_baseline')],
  'formula extraction by value-flow over MIR, compared on a grid of valuations', 'The grid contains values on both sides of each maximum and rounding step.')

P('C33', 'Every scenario has a log and diff of its own',
  'No two scenarios of a run use the same log file or the same diff file, also when several mutants fall on the same line and column; a log never replaces or continues an existing file, and each process of the scenario adds its output to it, without overwriting what is there; the diff written for a mutant is the diff between the original and the very text put into the tree; '
  'the log and diff paths recorded in outcomes.json are those files, and the baseline has no diff.',
  ['histories', 'inputs'], 'every sequence of scenarios, with any repetition of names',
  'Tests check one case of repeated names.',
  ['src/output.rs', 'src/outcome.rs', 'src/lab.rs', 'src/mutant.rs'], [('names', 'src/output.rs OutputDir::start_scenario, ScenarioOutput::new'), ('diff', 'src/mutant.rs Mutant::diff')],
  'symbolic histories by value-flow over MIR', 'Histories up to eight scenarios; names whose own text ends like a numbered repetition (a_001) are not excluded.')

P('C05', 'Without --in-place the source tree is never written to',
  'Unless --in-place is given, a run creates, changes or removes files only in temporary directories it made itself and in the output directory mutants.out (with its rotated predecessor mutants.out.old); mutated code, rewritten manifests and rewritten cargo configuration go to the copy only, '
  'also when a source file of the copied tree is a symbolic link leading out of it. With --in-place only the mutated source file is written, besides the output directory.',
  ['inputs', 'configurations', 'fault_sequences'], 'every tree (including symbolic links), option combination and failing step',
  'Tests compare the source tree before and after for a few trees, not during the run and not for links leading out of the copy.',
  ['src/build_dir.rs', 'src/copy_tree.rs', 'src/manifest.rs', 'src/output.rs', 'src/mutant.rs'],
  [('build directory', 'src/build_dir.rs BuildDir'), ('writing code', 'src/build_dir.rs BuildDir::overwrite_file'), ('copy', 'src/copy_tree.rs copy_tree'), ('manifests', 'src/manifest.rs')],
  'call-graph enumeration of write effects with provenance analysis of every target path over MIR', 'What cargo and the tests themselves write is outside.')

P('C24', 'Temporary copies are removed however the run ends, unless leaked on request',
  'Every temporary copy of the tree is removed when the run ends, whether successfully, with an error or after an interrupt, unless --leak-dirs is given, in which case it is kept. It is not removed while it is in use.',
  ['fault_sequences', 'histories'], 'every way a run can end, including every failing step while the copy is being made',
  'Tests look at one clean run with and without --leak-dirs.',
  ['src/build_dir.rs', 'src/copy_tree.rs', 'src/lab.rs', 'src/interrupt.rs'], [('ownership', 'src/build_dir.rs BuildDir::copy_from'), ('guard', 'src/copy_tree.rs copy_tree')],
  'ownership analysis over path partitions of MIR, call-graph effect analysis', 'A killed or panicking-with-abort process is outside.')

P('C25', 'The copied tree is complete',
  'A successful copy contains every file (with content and permissions), directory and symbolic link of the source tree at the same relative path, except directories named mutants.out or mutants.out.old, version control directories unless --copy-vcs is set, and, if gitignore is in effect, what git ignores; '
  'hidden files are included and .ignore files have no effect. Any failure to read or copy an entry is an error, never a silently incomplete copy.',
  ['inputs', 'fault_sequences', 'configurations'], 'every tree, every failing entry, every setting of gitignore and copy_vcs',
  'Tests copy three small trees without failures.',
  ['src/copy_tree.rs', 'src/copy_tree/unix.rs'], [('copy', 'src/copy_tree.rs copy_tree'), ('links', 'src/copy_tree/unix.rs copy_symlink')],
  'value-flow over MIR on explicit abstract directory walks; decision table of the skip predicate', 'Trusts the ignore crate to walk according to its settings; entries that are neither file, directory nor link are skipped.')

P('C17', 'Skipped code is skipped entirely, and nothing else is',
  'Nothing in, or under, a node is mutated if the node carries #[test], #[cfg(test)], #[mutants::skip] or any cfg_attr that applies mutants::skip, if it is an unsafe function, a method called new, an impl of Default, or (arguments included) a call of a function or method named in skip_calls; '
  'every other function, method, default method, impl, trait, module, call, operator and match is looked into, exactly once, in the naming context of its enclosing items only.',
  ['inputs', 'configurations'], 'every node kind, attribute form, position of the attribute and list of skip_calls',
  'Tests sample a handful of attribute forms and node kinds.',
  ['src/visit.rs'], [('attributes', 'src/visit.rs attrs_excluded'), ('visitor', 'src/visit.rs impl Visit for DiscoveryVisitor')],
  'value-flow over MIR on explicit abstract syntax nodes; decision table of the attribute predicate', 'Trusts syn to visit all children of a node and to parse attributes as documented.')

P('C30', 'Each construct gives exactly the documented mutants, at exactly its place',
  'A binary operator is replaced by each of its documented replacements (== by !=, != by ==, && by ||, || by &&, < by ==, > and <=, > by ==, < and >=, <= by >, >= by <, + by - and *, - and * by + and /, / by % and *, % by / and +, << and >> by each other, & | and ^ by the other two, and '
  'assignments likewise), ! and - are deleted, a match arm is deleted when the match has a wildcard arm and the arm is neither wildcard nor guarded, a guard is replaced by true and by false, and a function body by each replacement value of its return type that differs from it. '
  'No other mutants are made. The span of a mutant covers exactly what is replaced (the operator, the arm, the guard, the first to the last statement); it names the innermost function around it, qualified by its enclosing modules, traits and impls.',
  ['inputs'], 'every operator, match and function, at every nesting',
  'Tests compare lists of mutants of sample trees that do not contain every operator, arm pattern or nesting.',
  ['src/visit.rs'], [('visitor', 'src/visit.rs impl Visit for DiscoveryVisitor'), ('recording', 'src/visit.rs DiscoveryVisitor::collect_mutant')],
  'value-flow over MIR on explicit abstract syntax nodes', 'Matches up to three arms, bodies up to three statements, up to three replacement values; attributes that skip code are property C17.')

P('C31', 'Replacement values follow the return type as documented',
  'The values offered for a return type are exactly those of the table in the book: for the primitive, string and non-zero types their listed values; for Result, Option, Vec, Box, Arc, Rc, Cow, collections, maps, arrays, slices, references, tuples and impl Iterator the listed form of every '
  'replacement (or combination of replacements) of the inner types, at any depth and wherever the type is imported from; Default::default() for any other type; nothing for ! and other impl traits. Every configured error value is offered as Err(..) for every Result, also nested ones; one that is not an expression is an error.',
  ['inputs', 'configurations'], 'every return type of any depth, every list of error values',
  'Tests check some thirty types.',
  ['src/fnvalue.rs'], [('table', 'src/fnvalue.rs type_replacements'), ('entry', 'src/fnvalue.rs return_type_replacements')],
  'value-flow over MIR per type constructor with opaque component types (structural induction)', 'One-element tuples are not covered (the code offers a value without the trailing comma, which does not compile).')

P('C19', '--in-diff keeps exactly the mutants that overlap the change',
  'With --in-diff the selected mutants are exactly those, in unchanged order and without repetition, that include an added or changed line of the new text, or a line directly before or after removed lines, whatever the number of context lines, hunks and files in the diff; files only deleted or without mutants are ignored; '
  'an empty diff selects nothing; a diff whose new text differs from a source file that has mutants is an error instead of a silently wrong selection.',
  ['inputs'], 'every diff and every list of mutants',
  'Tests use about a dozen diffs, all with context lines.',
  ['src/in_diff.rs'], [('filter', 'src/in_diff.rs diff_filter'), ('lines', 'src/in_diff.rs affected_lines')],
  'value-flow over MIR on explicit abstract patches', 'Hunks up to four lines (five in the thorough tier), two hunks, three files; trusts the patch crate to parse.')

P('C20', 'Applying a mutation replaces exactly its span',
  'For every file text and every span, mutated code is the original text with exactly the characters of the span replaced and every other character kept, including the last newline or its absence, multi-byte characters and carriage returns; the original text of a mutation is exactly the characters of the span; '
  'lines and columns mean what the parser meant when it made the span. Files are read completely, and only line endings are normalised.',
  ['inputs'], 'every text and span',
  'Tests use four short texts.',
  ['src/span.rs', 'src/mutant.rs', 'src/source.rs'], [('spans', 'src/span.rs Span::extract, Span::replace'), ('mutated code', 'src/mutant.rs Mutant::mutated_code'), ('load', 'src/source.rs SourceFile::load')],
  'value-flow over MIR on explicit texts and spans', 'Texts up to five characters over an alphabet with newline, carriage return and a multi-byte character, and longer samples.')

P('C34', 'Every source file of the selected packages is looked into, exactly once',
  'Discovery visits every file reachable from the top files of the selected packages through mod statements that are not skipped, each exactly once even if several targets or modules name it, and finds the file of a module where rustc finds it: beside a top file, a mod.rs or a file named by a path attribute, '
  'otherwise in the directory named after the file; below the enclosing inline modules; x.rs or x/mod.rs, or the path attribute. Files outside the tree are skipped; a file that does not match the file filters gives no mutants and is not listed but its modules are still followed; a file that cannot be read or parsed is an error.',
  ['inputs', 'configurations', 'fault_sequences'], 'every graph of modules, kind of parent file, nesting and path attribute',
  'Tests have a few trees of modules, in none of which a file is shared or a path attribute leads to a file with modules of its own.',
  ['src/visit.rs', 'src/source.rs', 'src/path.rs'], [('resolution', 'src/visit.rs find_mod_source'), ('walk', 'src/visit.rs walk_package'), ('mod items', 'src/visit.rs visit_item_mod'), ('outside', 'src/source.rs SourceFile::load')],
  'value-flow over MIR on explicit module graphs and paths; decision tables', 'Graphs up to five files; paths are compared as text after removing dots.')

P('C35', 'The packages and targets mutated are those selected',
  'The packages mutated are those named by --package (each once, unknown names ignored with a warning), or all with --workspace, or otherwise the package of the start directory, or the default members in the root of a virtual workspace; the start directory is that of --manifest-path, or --dir, or the current one; '
  'within a package the library, binary and procedural macro targets are mutated, never tests, examples, benchmarks or build scripts. The result does not depend on the order in which cargo lists packages and targets.',
  ['inputs', 'configurations'], 'every workspace, start directory and combination of options',
  'Tests use one workspace with three packages.',
  ['src/workspace.rs', 'src/package.rs', 'src/main.rs'], [('selection', 'src/workspace.rs Workspace::filter_packages'), ('targets', 'src/package.rs package_top_sources'), ('options', 'src/main.rs main')],
  'decision tables by value-flow over MIR; partitions of main', 'Trusts cargo metadata and cargo locate-project; workspaces up to four packages.')

P('C18', 'Filters by file and by name keep exactly what they say',
  'A source file is mutated exactly if it matches one of the --file globs (or there are none) and none of the --exclude globs; a mutant is kept exactly if its full name, with path, line and column, matches one of the --re patterns (or there are none) and none of the --exclude-re patterns. '
  'A glob containing a slash matches the path from the root of the tree as it is, any other matches a file or directory of that name anywhere; a star does not match across directories. An invalid pattern is an error, never ignored.',
  ['inputs', 'configurations'], 'every set of globs and patterns, every path and every name',
  'Tests try a few globs and patterns on one tree.',
  ['src/options.rs', 'src/glob.rs'], [('files', 'src/options.rs Options::allows_source_file_path'), ('names', 'src/options.rs Options::allows_mutant'), ('globs', 'src/glob.rs build_glob_set')],
  'decision tables by value-flow over MIR', 'Matching inside the globset and regex crates is trusted; what is decided is which sets are built, of what, how they combine and what they are asked.')

P('C23', 'Command line over configuration file over defaults, setting by setting',
  'Every option takes its value from the command line if given there, otherwise from .cargo/mutants.toml in the root of the workspace, otherwise the documented default, or is the documented combination of both (additional arguments, error values and skipped calls are joined; lists of globs, patterns and test packages given on the command line replace those of the file); '
  'no setting influences another one unless documented. With --no-config the file is not read; a missing file means defaults, an unreadable or invalid one is an error.',
  ['configurations', 'fault_sequences'], 'every combination of arguments and configuration file',
  'Tests set one or two options at a time; interactions of more than fifty settings are not sampled.',
  ['src/options.rs', 'src/config.rs', 'src/main.rs'], [('combination', 'src/options.rs Options::new'), ('file', 'src/config.rs Config::read_tree_config'), ('wiring', 'src/main.rs main')],
  'decision tables by value-flow over MIR; partitions of main', 'Each setting is varied on both sides with all others once absent and once present; parsing by clap and toml is trusted.')

P('C26', 'Path dependencies mean the same in the copied tree',
  'In a copy of the tree, every relative path in the top-level Cargo.toml that names a dependency outside of the tree (in dependencies, dev- and build-dependencies, those of a target, of the workspace, replace and patch sections) and every such entry of paths in .cargo/config.toml is rewritten to be absolute, as seen from the original tree; '
  'paths that stay within the tree are left relative, so that the copy is what is built and mutated, absolute paths and everything else in the files are left alone. A file that cannot be read, parsed or written is an error. Nothing is rewritten in place.',
  ['inputs', 'fault_sequences'], 'every manifest and configuration, every path',
  'Tests have one or two entries with ../ in the dependencies and patch sections.',
  ['src/manifest.rs', 'src/build_dir.rs', 'src/path.rs'], [('manifest', 'src/manifest.rs fix_manifest'), ('config', 'src/manifest.rs fix_cargo_config'), ('classification', 'src/path.rs ascent'), ('wiring', 'src/build_dir.rs BuildDir::copy_from')],
  'value-flow over MIR on explicit documents', 'Parsing and printing by the toml crate is trusted; manifests of members other than the top-level one are documented not to be rewritten.')

P('C36', 'A mutant is described the same way everywhere',
  'The name of a mutant is the path of its file with forward slashes, the line and column of its start where asked for, and what is changed: "replace FUNCTION -> TYPE with VALUE", "replace OPERATOR with OTHER in FUNCTION", "delete OPERATOR in FUNCTION", "replace match guard with VALUE", "delete match arm". '
  'The coloured form has the same text; the form that goes into files, filters and JSON never contains colour codes. Its JSON form, in mutants.json, outcomes.json and lists, has the package, file, function with return type and span, own span, replacement and genre of that mutant; '
  'its diff is from the original to the mutated text, headed by the path of the file and the description on one line.',
  ['inputs'], 'every genre of mutant, with or without function, return type and replacement',
  'Tests compare some names; the JSON of nested functions and the effect of forced colours on files are not sampled.',
  ['src/mutant.rs', 'src/scenario.rs', 'src/span.rs', 'src/path.rs'], [('names', 'src/mutant.rs Mutant::name'), ('parts', 'src/mutant.rs Mutant::styled_parts'), ('JSON', 'src/mutant.rs Serialize for Mutant'), ('diff', 'src/mutant.rs Mutant::diff')],
  'value-flow over MIR on explicit mutants; generic serializers analysed with a recording serializer', 'Trusts the console, similar and serde_json crates.')

P('C28', 'Bad input is an error message, never a crash',
  'Whatever the command line, the configuration file, manifests, cargo\'s answers, source files, the diff, file names, environment variables and the output of child processes contain, and whichever file operation fails, cargo-mutants ends with an error (or a warning and goes on), never with a panic: '
  'no result that depends on outside data or the operating system is unwrapped, no number from outside becomes a duration unchecked, no text from outside is cut at an unchecked offset, and nothing is printed by a macro that panics when standard output is closed or full.',
  ['inputs', 'fault_sequences'], 'every input and every failing operation, at every place where outside data is used',
  'Tests sample a handful of malformed inputs; the number of places where outside data enters is in the hundreds.',
  ['src/main.rs', 'src/options.rs', 'src/config.rs', 'src/in_diff.rs', 'src/outcome.rs', 'src/console.rs', 'src/timeouts.rs', 'src/workspace.rs', 'src/visit.rs'],
  [('options', 'src/options.rs Options::new'), ('limits', 'src/timeouts.rs'), ('logs', 'src/outcome.rs ScenarioOutcome::get_log_content'), ('diff', 'src/in_diff.rs diff_filter')],
  'call-graph and type-based effect lint over MIR', 'Covers unwrap and expect of results and of options from questions about outside text, float-to-Duration conversions, text slicing and printing to standard output, in all functions reachable from main. Arithmetic overflow, list indexing and assertions about internal state are not covered.')

P('C38', 'The terminal shows what happened, once, under its right name',
  'Each finished scenario is shown exactly once, unless it is a caught or unviable mutant and the options do not ask for those: a line beginning with the word of its outcome (ok, FAILED, caught, MISSED, TIMEOUT, unviable) and naming it with file, line and column; with --all-logs, or when the baseline fails, followed by the contents of its own log. '
  'The progress counters are raised exactly by the outcome, and the final summary counts each mutant once under its outcome and agrees with the recorded totals; nothing varying is printed when times are not to be shown.',
  ['inputs', 'configurations'], 'every phase history, every combination of display options, every count',
  'Tests look at a few words of the output of a few runs.',
  ['src/console.rs', 'src/outcome.rs', 'src/lab.rs'], [('finished', 'src/console.rs Console::scenario_finished'), ('summary', 'src/outcome.rs LabOutcome::summary_string'), ('logs', 'src/outcome.rs ScenarioOutcome::should_show_logs'), ('once', 'src/lab.rs Worker::run_one_scenario')],
  'decision tables by value-flow over MIR', 'Trusts the console and nutmeg crates; durations are not examined.')

P('C39', 'One jobserver limits the tasks of all child processes',
  'Unless turned off, one jobserver is made for the whole run before anything is run, with the number of tasks given or that of the CPUs, and every cargo process started, for the baseline and every mutant and in every phase and by every worker, is configured with it; turned off, no child has one. If it cannot be made the run ends with an error.',
  ['configurations', 'schedules', 'fault_sequences'], 'every number of jobs and tasks, every worker, phase and test tool',
  'Tests look at the parsed option only; an unlimited child is just slower, or makes timeouts.',
  ['src/lab.rs', 'src/cargo.rs', 'src/process.rs'], [('making', 'src/lab.rs test_mutants'), ('workers', 'src/lab.rs Lab::make_worker'), ('phases', 'src/lab.rs Worker::run_one_scenario'), ('child', 'src/process.rs Process::start')],
  'value-flow over all partitions of a run; builder typestate of the child command', 'Trusts the jobserver crate.')

P('C16', 'The same tree gives the same mutants in the same order',
  'The list of files and mutants, and its order, depend only on the source tree and the options: not on hash seeds, the order in which the file system lists directories, the time, random numbers, the process or the timing of threads. So separate runs (shards, --iterate, --list and testing) agree about it. '
  'Without shuffling mutants are recorded and, with one job, tested in the order of the list; they are shuffled only when asked for.',
  ['inputs', 'schedules', 'configurations'], 'every tree, every run',
  'A test that runs twice sees the same order most of the time for small inputs.',
  ['src/visit.rs', 'src/workspace.rs', 'src/in_diff.rs', 'src/main.rs', 'src/lab.rs'], [('discovery', 'src/visit.rs walk_tree'), ('packages', 'src/workspace.rs Workspace::packages_by_name'), ('diff', 'src/in_diff.rs diff_filter'), ('running', 'src/lab.rs test_mutants')],
  'call-graph effect analysis; partitions of a run', 'An iteration over a hash table in a function that also sorts something is left undecided.')

P('C43', 'Workers run side by side and never block each other for ever',
  'With --jobs N, N workers (or one per mutant if there are fewer) are started before any of them is waited for, and every one of them is waited for. No worker keeps a lock (on the list of remaining mutants, the output directory, the console or anything else) while it waits for a process, a thread or the clock or copies the tree, so none stops the others from building and testing. '
  'Locks, including that of the terminal display and of the log writers, are always taken in the same order and never twice by one thread, so a run cannot hang on them whatever the timing.',
  ['schedules', 'configurations'], 'every number of jobs and every interleaving of the workers',
  'Tests run few workers for a short time; a lock held too long only makes the run slower, and a lock cycle hangs only under rare timing.',
  ['src/lab.rs', 'src/console.rs', 'src/output.rs'], [('workers', 'src/lab.rs test_mutants'), ('scenario', 'src/lab.rs Worker::run_one_scenario'), ('display', 'src/console.rs Console'), ('output', 'src/output.rs OutputDir')],
  'lock-set dataflow over the control-flow graph with interprocedural effect summaries; lock-order acyclicity; partitions of a run', 'Trusts that locks are only taken through the standard library\'s types and nutmeg\'s view.')

P('C44', 'The progress display is truthful and can never break a run',
  'Every update of the display is for a copy, scenario or phase that was announced before, whichever way it ends, and a copy or scenario that is over is taken off. While mutants are tested the display knows when testing began and how many there are; each mutant counts once as done, the baseline not at all. '
  'In all states the lab reaches, drawing the display does not panic, shows these counts, and its estimate of the remaining time is a valid duration.',
  ['configurations', 'fault_sequences', 'schedules'], 'every end of a copy, phase or scenario, with and without baseline, any number of jobs and mutants, any elapsed time',
  'The display is not drawn when the output is not a terminal, as in tests; a panic in it ends a run of hours.',
  ['src/console.rs', 'src/lab.rs', 'src/copy_tree.rs'], [('model', 'src/console.rs LabModel'), ('drawing', 'src/console.rs LabModel::render'), ('order', 'src/lab.rs test_mutants'), ('copy', 'src/copy_tree.rs copy_tree')],
  'typestate of the display by value-flow over all partitions of copying, scenarios and the lab; evaluation of the drawing over a grid of states', 'Trusts nutmeg and console::style.')

P('C45', 'Colour codes appear where they are wanted, and only there',
  'Colours are off if NO_COLOR is set to anything but 0; otherwise on if CLICOLOR_FORCE is; otherwise on or off as --colors (or CARGO_TERM_COLOR) says; and otherwise, stream by stream, as the terminal allows. This decision holds for messages, for the progress display and for lists, and is made before any work is done; '
  'the log in the output directory and JSON never contain colour codes.',
  ['configurations'], 'every combination of option, environment variables and kinds of output streams',
  'Tests look at a few settings of one variable at a time and at the decision only, not at what is done with it; no test has a terminal.',
  ['src/options.rs', 'src/console.rs', 'src/main.rs', 'src/list.rs'], [('decision', 'src/options.rs Colors::forced_value, Colors::active_stdout'), ('streams', 'src/console.rs enable_console_colors'), ('logs', 'src/console.rs Console::setup_global_trace'), ('lists', 'src/list.rs list_mutants')],
  'decision-table extraction by value-flow over MIR; builder provenance', 'Trusts the console and tracing_subscriber crates. Values that are not UTF-8 are not examined.')

P('C46', 'The code of a replacement is written out token for token',
  'The text made out of generated code, in the source written to the copy as in names and diffs, has each of its tokens, in order, and nothing besides spaces: no token is dropped, repeated, put in or moved, brackets of each kind open and close where they belong, words that meet are kept apart, and operators of several characters are not torn apart.',
  ['inputs'], 'every sequence of tokens a type or a replacement can be made of', 'Tests write out a dozen types and values.',
  ['src/pretty.rs'], [('writing', 'src/pretty.rs ToPrettyString::to_pretty_string')],
  'decision-table extraction by value-flow over MIR on explicit sequences of tokens', 'Trusts proc_macro2 to spell single tokens. Sequences of up to three tokens (what is done with a token depends on the end of the text so far, the token, and the next); groups without delimiters are left out.')

N('C40', 'A test run is stopped within a bounded time of its limit',
  'When a phase has run for longer than its limit, the whole process group is gone within a second or two of it, on a loaded machine too, and a phase that ends earlier is never called a timeout.',
  ['schedules'], 'every load and every point in time', 'Tests use generous limits on an idle machine.',
  ['src/process.rs'], [('polling', 'src/process.rs Process::poll')],
  'Wall-clock bounds depend on scheduling by the operating system, which no static argument over this source can bound. That the limit is compared on every poll, that exceeding it kills the group and is reported as a timeout, and that nothing else is, is decided under C02, C10 and C32.')

N('C41', 'Generated mutants usually compile and change behaviour',
  'For the types the documentation lists, the generated replacement is type-correct in its context and differs in behaviour from the original, so that few mutants are unviable or equivalent.',
  ['inputs'], 'every function of every Rust program', 'Tests have a fixed set of example functions.',
  ['src/fnvalue.rs', 'src/visit.rs'], [('values', 'src/fnvalue.rs return_type_replacements')],
  'Type correctness and behaviour of generated code depend on the name resolution, traits and semantics of the user\'s program, which is not part of this source. Which replacements are generated for which syntax is decided under C30 and C31.')

N('C42', 'Testing a mutant tells the same as testing it alone by hand',
  'The outcome recorded for a mutant is what an ordinary cargo test of the mutated tree would give, whatever was built or tested in that directory before and whatever other workers do at the same time.',
  ['histories', 'schedules'], 'every tree, test suite and order of mutants', 'Tests use suites without side effects.',
  ['src/lab.rs', 'src/build_dir.rs'], [('scenario', 'src/lab.rs Worker::run_one_scenario')],
  'Depends on cargo\'s incremental rebuilding (file time stamps) and on side effects of the user\'s tests. What cargo-mutants itself contributes (own directory per worker, one mutation at a time, mutation reverted, same command lines) is decided under C04, C06, C09, C21, C22 and C25.')
