"""Planted bugs: S(id, property, needs, breaks, demo, edits...)"""
SEEDS = []
LIB = r'''# helpers for the demonstrations: a scratch directory, a small crate, a stand-in for cargo
set -u
REPO=$(pwd)
MUTANTS="$REPO/target/debug/cargo-mutants"
[ -x "$MUTANTS" ] || { echo "no binary $MUTANTS"; exit 1; }
W=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX")
trap 'rm -rf "$W"' EXIT
export TMPDIR="$W/tmp"; mkdir -p "$TMPDIR"
unset CARGO_MUTANTS_JOBS CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUST_LOG CARGO
REALCARGO=$(command -v cargo)
export REALCARGO W
fail() { echo "DEMO FAILS: $*"; exit 1; }
crate() { # crate NAME: a package with the source text on stdin
  mkdir -p "$W/$1/src"
  printf '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n' "$1" > "$W/$1/Cargo.toml"
  cat > "$W/$1/src/lib.rs"
}
# stub: a cargo that passes metadata and locate-project on and otherwise runs the script given on stdin,
# which sees PHASE (check, build or test) and the tree being tested as current directory
stub() {
  { cat <<'EOS'
#!/bin/bash
case "$1" in metadata|locate-project) exec "$REALCARGO" "$@";; esac
PHASE=$1
[ "$PHASE" = test ] && for a in "$@"; do [ "$a" = --no-run ] && PHASE=build; done
mutated() { grep -q 'cargo-mutants' src/*.rs; }
EOS
    cat
  } > "$W/stub-cargo"
  chmod +x "$W/stub-cargo"
  export CARGO="$W/stub-cargo"
}
'''


def S(id, prop, needs, breaks, demo, *edits):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, demo='#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + demo.strip('\n') + '\n', edits=list(edits)))


OUT = 'src/outcome.rs'
LAB = 'src/lab.rs'

S('revert-skipped-on-interrupt', 'C04', 'an interrupt (or any internal error) while a mutant is being tested with --in-place', 'the source file keeps the mutation', r'''
crate one <<'E'
pub fn aaa() -> bool { true }
E
cp "$W/one/src/lib.rs" "$W/orig.rs"
stub <<'E'
if [ $PHASE = test ] && mutated; then kill -INT $PPID; sleep 5; fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --in-place > "$W/out" 2>&1
rc=$?
[ $rc != 0 ] || fail "interrupted run succeeded"
cmp -s src/lib.rs "$W/orig.rs" || { cat src/lib.rs; fail "the source file was left mutated"; }
''', (LAB, '''                    if let Some(mutant) = scenario.mutant() {
                        mutant.revert(self.build_dir)?;
                    }
                    return Err(err);''', '''                    if let Some(mutant) = scenario.mutant().filter(|_| !self.options.in_place) {
                        mutant.revert(self.build_dir)?;
                    }
                    return Err(err);'''))

S('worker-interrupt-swallowed', 'C07', 'an interrupt while workers are testing mutants', 'the run counts as complete although mutants were not tested', r'''
crate two <<'E'
pub fn aaa() -> bool { true }
pub fn bbb() -> bool { true }
pub fn ccc() -> bool { true }
E
stub <<'E'
if [ $PHASE = test ] && mutated; then kill -INT $PPID; sleep 3; exit 101; fi
exit 0
E
cd "$W/two"
timeout 120 "$MUTANTS" mutants -d . -j 2 > "$W/out" 2>&1
rc=$?
[ $rc != 0 ] || { cat "$W/out"; fail "an interrupted run ended with status 0"; }
''', (LAB, '''                if err.to_string() != "interrupted" {
                    error!("Worker thread failed: {:?}", err);
                }
                Some(err)''', '''                if err.to_string() == "interrupted" {
                    return None;
                }
                error!("Worker thread failed: {:?}", err);
                Some(err)'''))

S('baseline-signal-passes', 'C08', 'the baseline test run is killed by a signal', 'mutants are tested although the unmutated tree did not pass', r'''
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if [ $PHASE = test ] && ! mutated; then kill -SEGV $$; sleep 5; fi
if mutated; then touch "$W/tested"; fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out" 2>&1
[ ! -e "$W/tested" ] || fail "a mutant was tested although the baseline died of a signal"
''', (LAB, '''            if outcome.success() {
                Timeouts::from_baseline(&outcome, options)''', '''            if !outcome.last_phase_result().is_failure() && !outcome.has_timeout() {
                Timeouts::from_baseline(&outcome, options)'''))

OUTP = 'src/output.rs'
CARGO = 'src/cargo.rs'
PROC = 'src/process.rs'
BD = 'src/build_dir.rs'
CT = 'src/copy_tree.rs'
MAN = 'src/manifest.rs'
VIS = 'src/visit.rs'
MAIN = 'src/main.rs'

S('baseline-signal-status', 'C01', 'the baseline tests die of a signal', 'the exit status says success instead of baseline failed', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if [ $PHASE = test ] && ! mutated; then kill -SEGV $$; sleep 5; fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out" 2>&1
rc=$?
[ $rc = 4 ] || { cat "$W/out"; fail "exit status $rc although the baseline died of a signal"; }
""", (OUT, """            .any(|o| !o.scenario.is_mutant() && !o.success())
        {""", """            .filter(|o| !o.scenario.is_mutant())
            .any(|o| o.check_or_build_failed() || o.has_timeout() || o.last_phase_result().is_failure())
        {"""))

S('no-tests-run-is-success', 'C02', 'nextest ends with status 4 (no tests to run) on a mutant', 'the mutant is counted as missed instead of caught', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if [ "$1" = nextest ]; then PHASE=test; for a in "$@"; do [ "$a" = --no-run ] && PHASE=build; done; fi
if [ $PHASE = test ] && mutated; then exit 4; fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 --test-tool nextest > "$W/out" 2>&1
[ -s mutants.out/caught.txt ] || { cat "$W/out"; fail "a mutant whose test command failed was not recorded as caught"; }
""", ('src/process/unix.rs', """            if code == 0 {""", """            // 4 is nextest's code for having had nothing to run, which is fine.
            if code == 0 || code == nextest_metadata::NextestExitCode::NO_TESTS_RUN {"""))

S('timeout-list-short-name', 'C03', 'a mutant that times out', 'timeout.txt has a name without position', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if [ $PHASE = test ] && mutated; then sleep 20; fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 1 > "$W/out" 2>&1
grep -q '^src/lib.rs:1:24: replace aaa -> bool with false$' mutants.out/timeout.txt || { cat mutants.out/timeout.txt "$W/out"; fail "timeout.txt does not have the full name"; }
""", (OUTP, """            let file = match scenario_outcome.summary() {
                SummaryOutcome::MissedMutant => &mut self.missed_list,
                SummaryOutcome::CaughtMutant => &mut self.caught_list,
                SummaryOutcome::Timeout => &mut self.timeout_list,
                SummaryOutcome::Unviable => &mut self.unviable_list,
                _ => return Ok(()),
            };
            writeln!(file, "{}", mutant.name(true)).context("write to list file")?;""", """            let (file, line_col) = match scenario_outcome.summary() {
                SummaryOutcome::MissedMutant => (&mut self.missed_list, true),
                SummaryOutcome::CaughtMutant => (&mut self.caught_list, true),
                SummaryOutcome::Timeout => (&mut self.timeout_list, false),
                SummaryOutcome::Unviable => (&mut self.unviable_list, true),
                _ => return Ok(()),
            };
            writeln!(file, "{}", mutant.name(line_col)).context("write to list file")?;"""))

S('large-files-hard-linked', 'C05', 'a large source file', 'the file in the source tree is mutated, because it is the same file as the one in the copy', r"""
{ echo 'pub fn aaa() -> bool { true }'; for i in $(seq 20000); do echo '// a comment to make it large'; done; } | crate one
cp "$W/one/src/lib.rs" "$W/orig.rs"
stub <<'E'
cmp -s "$W/one/src/lib.rs" "$W/orig.rs" || touch "$W/changed"
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out" 2>&1
[ ! -e "$W/changed" ] || fail "the source tree was mutated while a mutant was tested"
""", (CT, """            let bytes_copied = std::fs::copy(entry.path(), &dest_path).with_context(|| {
                format!(
                    "Failed to copy {:?} to {dest_path:?}",
                    entry.path().to_slash_lossy(),
                )
            })?;""", """            // Large files are linked if they're on the same filesystem.
            let size = entry.metadata().map_or(0, |m| m.len());
            let bytes_copied = if size > 100_000
                && std::fs::hard_link(entry.path(), &dest_path).is_ok()
            {
                size
            } else {
                std::fs::copy(entry.path(), &dest_path).with_context(|| {
                    format!(
                        "Failed to copy {:?} to {dest_path:?}",
                        entry.path().to_slash_lossy(),
                    )
                })?
            };"""))

S('workers-copy-the-baseline-tree', 'C06', 'several workers, and a baseline that leaves files behind', 'the trees of the other workers are not fresh copies of the source', r"""
crate two <<'E'
pub fn aaa() -> bool { true }
pub fn bbb() -> bool { true }
pub fn ccc() -> bool { true }
E
stub <<'E'
if ! mutated; then touch left-by-baseline; echo "$PWD" > "$W/baseline-dir"; exit 0; fi
if [ "$PWD" != "$(cat "$W/baseline-dir")" ] && [ -e left-by-baseline ]; then touch "$W/dirty"; fi
sleep 1
exit 0
E
cd "$W/two"
timeout 120 "$MUTANTS" mutants -d . -j 3 --timeout 20 > "$W/out" 2>&1
[ ! -e "$W/dirty" ] || fail "a worker's tree was copied from the tree the baseline ran in"
""", (LAB, """    let build_dir_0 = Mutex::new(Some(baseline_build_dir));""", """    let built_path = baseline_build_dir.path().to_owned();
    let build_dir_0 = Mutex::new(Some(baseline_build_dir));"""),
  (LAB, """                    BuildDir::copy_from(workspace.root(), options, console)?
                };""", """                    // Copy the tree that's already built, to save building it again.
                    BuildDir::copy_from(&built_path, options, console)?
                };"""))

S('build-timeout-goes-on-to-test', 'C09', 'a mutant whose build exceeds its time limit', 'the tests are run although the build did not succeed', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if mutated; then
  [ $PHASE = build ] && exec sleep 20
  [ $PHASE = test ] && touch "$W/tested"
fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 --build-timeout 1 > "$W/out" 2>&1
[ ! -e "$W/tested" ] || fail "the tests ran after the build was stopped at its time limit"
""", (LAB, """                    let success = phase_result.is_success(); // so we can move it away""", """                    let failed = phase_result.process_status.is_failure(); // so we can move it away"""),
  (LAB, """                    if !success {
                        break;""", """                    if failed {
                        break;"""))

S('interrupt-leaves-child', 'C10', 'an interrupt while cargo is running', 'the tests run on after the program has ended', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if [ $PHASE = test ] && mutated; then kill -INT $PPID; sleep 4; touch "$W/late"; fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out" 2>&1
sleep 6
[ ! -e "$W/late" ] || fail "the test command was still running after the interrupted run had ended"
""", (PROC, """            debug!("interrupted, terminating child process...");
            self.terminate()?;
            Err(e)""", """            // The terminal delivers ctrl-c to the child as well.
            debug!("interrupted, child process will stop too...");
            Err(e)"""))

S('interrupted-mutant-recorded', 'C11', 'an interrupt that arrives as the test command ends', 'the mutant is recorded as caught although its tests were interrupted', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if [ $PHASE = test ] && mutated; then kill -INT $PPID; exit 1; fi
exit 0
E
cd "$W/one"
for i in 1 2 3 4 5 6; do
  timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out" 2>&1
  [ ! -s mutants.out/caught.txt ] || fail "an interrupted test run was recorded as having caught the mutant"
done
""", (PROC, """        if self.timeout.is_some_and(|t| self.start.elapsed() > t) {""", """        if let Some(status) = self.child.try_wait()? {
            Ok(Some(status.into()))
        } else if self.timeout.is_some_and(|t| self.start.elapsed() > t) {"""),
  (PROC, """        } else if let Some(status) = self.child.try_wait()? {
            Ok(Some(status.into()))
        } else {
            Ok(None)""", """        } else {
            Ok(None)"""),
  (CARGO, """    check_interrupted()?;
    debug!(?process_status""", """    if process_status.is_success() {
        check_interrupted()?;
    }
    debug!(?process_status"""))

S('rotate-without-lock', 'C12', 'a second run while the first is still in its baseline', 'the second run takes the output directory of a run that is still going on', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if [ $PHASE = test ] && ! mutated && [ ! -e "$W/first" ]; then touch "$W/first"; sleep 6; fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out1" 2>&1 &
p1=$!
for i in $(seq 100); do [ -e "$W/first" ] && break; sleep 0.1; done
ino=$(stat -c %i mutants.out)
timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out2" 2>&1 &
p2=$!
sleep 3
now=$(stat -c %i mutants.out)
wait $p1; wait $p2
[ "$ino" = "$now" ] || fail "the output directory was replaced while the first run was using it"
""", (OUTP, """            LockFile::acquire_lock(output_dir.as_ref())?;
            // Now release""", """            // If there are no outcomes yet then the last run was given up early on.
            if output_dir.join("outcomes.json").exists() {
                LockFile::acquire_lock(output_dir.as_ref())?;
            }
            // Now release"""))

S('outcomes-written-in-steps', 'C13', 'a run that is killed between two rewrites of outcomes.json', 'results of finished mutants are not in outcomes.json', r"""
crate two <<'E'
pub fn aaa() -> bool { true }
pub fn bbb() -> bool { true }
pub fn ccc() -> bool { true }
pub fn ddd() -> bool { true }
E
stub <<'E'
if [ $PHASE = test ] && grep -q 'ddd.*cargo-mutants' src/lib.rs; then kill -KILL $PPID; sleep 5; fi
exit 0
E
cd "$W/two"
timeout 120 "$MUTANTS" mutants -d . --no-shuffle --timeout 20 > "$W/out" 2>&1
n=$(grep -c '"MissedMutant"' mutants.out/outcomes.json)
[ "$n" = 3 ] || { cat "$W/out"; fail "outcomes.json of a killed run has $n of 3 finished mutants"; }
""", (OUTP, """        self.lab_outcome.add(scenario_outcome.to_owned());
        self.write_lab_outcome()?;""", """        self.lab_outcome.add(scenario_outcome.to_owned());
        // Rewriting the whole file gets slow for large trees, so don't do it too often.
        if self.lab_outcome.total_mutants % 2 == 0 || !scenario_outcome.success() {
            self.write_lab_outcome()?;
        }"""))

S('iterate-forgets-unselected', 'C14', 'iterating first over one file and then over everything', 'mutants caught before are tested again', r"""
crate one <<'E'
mod other;
pub fn aaa() -> bool { true }
E
echo 'pub fn bbb() -> bool { true }' > "$W/one/src/other.rs"
stub <<'E'
if mutated; then
  grep -q 'bbb.*cargo-mutants' src/other.rs && echo bbb >> "$W/tested"
  [ $PHASE = test ] && exit 1
fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out" 2>&1
: > "$W/tested"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 --iterate -f src/lib.rs > "$W/out" 2>&1
timeout 120 "$MUTANTS" mutants -d . --timeout 20 --iterate > "$W/out" 2>&1
[ ! -s "$W/tested" ] || fail "a mutant caught in an earlier run was tested again"
""", (MAIN, """        let previously_caught = load_previously_caught(&output_parent_dir)?;
        info!(""", """        let mut previously_caught = load_previously_caught(&output_parent_dir)?;
        // Forget those that don't exist any more.
        previously_caught.retain(|name| discovered.mutants.iter().any(|m| m.name(true) == *name));
        info!("""))

S('shuffle-before-shard', 'C15', 'shards of a shuffled run', 'some mutants are in no shard', r"""
{ for i in $(seq 40); do echo "pub fn f$i() -> bool { true }"; done; } | crate one
stub <<'E'
exit 0
E
cd "$W/one"
: > "$W/all"
for k in 0 1 2 3; do
  timeout 120 "$MUTANTS" mutants -d . --timeout 20 --check --baseline skip --shuffle --shard $k/4 > "$W/out" 2>&1
  grep -o '"function_name": "f[0-9]*"' mutants.out/mutants.json >> "$W/all"
done
n=$(sort -u "$W/all" | wc -l)
[ "$n" = 40 ] || fail "only $n of 40 mutants in all shards together"
""", (MAIN, """    if let Some(shard) = &args.shard {
        mutants = shard.select(mutants);
    }""", """    if options.shuffle && !args.list {
        fastrand::shuffle(&mut mutants);
    }
    if let Some(shard) = &args.shard {
        mutants = shard.select(mutants);
    }"""), (LAB, """    mut mutants: Vec<Mutant>,
    workspace""", """    mutants: Vec<Mutant>,
    workspace"""), (LAB, """    if options.shuffle {
        fastrand::shuffle(&mut mutants);
    }
""", ""))

S('trait-attribute-ignored', 'C17', 'a trait marked with mutants::skip', 'its default methods are mutated', r"""
crate one <<'E'
#[cfg_attr(any(), mutants::skip)]
pub trait Aaa { fn aaa(&self) -> bool { true } }
pub fn bbb() -> bool { true }
E
cd "$W/one"
"$MUTANTS" mutants -d . --list > "$W/out" 2>&1
grep -q 'bbb' "$W/out" || fail "nothing listed"
! grep -q 'Aaa::aaa' "$W/out" || fail "a method of a skipped trait is mutated"
""", (VIS, """        let _span = trace_span!("trait", line = i.span().start().line, name).entered();
        if attrs_excluded(&i.attrs) {
            return;
        }""", """        let _span = trace_span!("trait", line = i.span().start().line, name).entered();
        if i.attrs.iter().any(attr_is_cfg_test) {
            return;
        }"""))

S('regex-on-shown-name', 'C18', 'a pattern that names a line, together with --line-col=false', 'the filter matches nothing', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
pub fn bbb() -> bool { true }
E
cd "$W/one"
"$MUTANTS" mutants -d . --list --line-col=false --re 'lib.rs:2:' > "$W/out" 2>&1
grep -q bbb "$W/out" && ! grep -q aaa "$W/out" || { cat "$W/out"; fail "--re does not match the line"; }
""", ('src/options.rs', """        let name = mutant.name(true);""", """        let name = mutant.name(self.show_line_col);"""))

S('diff-last-line', 'C19', 'a diff that touches only the last line of a function body', 'the mutants of that function are not selected', r"""
crate one <<'E'
pub fn aaa(x: u32) -> u32 {
    let y = x;
    y
}
E
cat > "$W/d.diff" <<'E'
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,4 @@
 pub fn aaa(x: u32) -> u32 {
     let y = x;
-    x
+    y
 }
E
cat > "$W/d2.diff" <<'E'
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,1 +3,2 @@
     y
+}
E
cd "$W/one"
cat > src/lib.rs <<'E'
pub fn bbb() {}
pub fn aaa(x: u32) -> u32 {
    let y = x;
    let z = y;
    let w = z;
    let v = w;
    v
}
E
cat > "$W/d.diff" <<'E'
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,2 +6,3 @@
     let v = w;
+    v
 }
E
"$MUTANTS" mutants -d . --list --in-diff "$W/d.diff" > "$W/out" 2>&1
grep -q 'replace aaa' "$W/out" || { cat "$W/out"; fail "a change of the last line of the body does not select its mutants"; }
""", ('src/in_diff.rs', """            for line in mutant.span.start.line..=mutant.span.end.line {""", """            // The end of the span is exclusive.
            let end_line = mutant.span.end.line.max(mutant.span.start.line + 1);
            for line in mutant.span.start.line..end_line {"""))

S('rustflags-empty-words', 'C21', 'RUSTFLAGS with more than one space between words, and --cap-lints', 'rustc gets an empty argument', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
printf '%s' "${CARGO_ENCODED_RUSTFLAGS-unset}" > "$W/flags"
exit 0
E
cd "$W/one"
RUSTFLAGS='-Ca=b  -Cc=d ' timeout 120 "$MUTANTS" mutants -d . --timeout 20 --cap-lints=true > "$W/out" 2>&1
[ "$(tr '\037' '|' < "$W/flags")" = '-Ca=b|-Cc=d|--cap-lints=warn' ] || { tr '\037' '|' < "$W/flags"; fail "wrong flags"; }
""", (CARGO, """                    .split(' ')
                    .filter(|s| !s.is_empty())
                    .chain(once("--cap-lints=warn"))""", """                    .trim()
                    .split(' ')
                    .chain(once("--cap-lints=warn"))"""))

S('nextest-build-args', 'C22', 'test arguments with nextest', 'they are passed to the build command too', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
echo "$*" >> "$W/cmds"
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --test-tool nextest --timeout 20 -- --partition count:1/2 > "$W/out" 2>&1
grep -q -e 'nextest run --verbose.*--partition count:1/2$' "$W/cmds" || { cat "$W/cmds"; fail "no test arguments"; }
! grep -e --no-run "$W/cmds" | grep -q -e --partition || { cat "$W/cmds"; fail "test arguments in the build"; }
""", (CARGO, """    if phase == Phase::Test {
        cargo_args.extend""", """    // Nextest also uses them to choose which tests to build.
    if phase == Phase::Test || (phase == Phase::Build && options.test_tool == TestTool::Nextest) {
        cargo_args.extend"""))

S('config-minimum-timeout', 'C23', 'minimum_test_timeout set in the configuration file and on the command line', 'the configuration file wins', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
mkdir -p "$W/one/.cargo"
echo 'minimum_test_timeout = 300' > "$W/one/.cargo/mutants.toml"
stub <<'E'
if [ $PHASE = test ] && mutated; then exec sleep 25; fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --minimum-test-timeout 1 > "$W/out" 2>&1
[ -s mutants.out/timeout.txt ] || { cat "$W/out"; fail "the minimum timeout given on the command line was not used"; }
""", ('src/options.rs', """            minimum_test_timeout,""", """            minimum_test_timeout: minimum_test_timeout.max(Duration::from_secs_f64(
                config.minimum_test_timeout.unwrap_or_default(),
            )),"""))

S('leaks-on-bad-manifest', 'C24', 'a copy whose configuration cannot be fixed up', 'the temporary copy is left behind', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
mkdir -p "$W/one/.cargo"
cd "$W/one"
printf 'paths = [\n' > .cargo/config.toml
cat > "$W/stub-cargo" <<'E'
#!/bin/bash
case "$1" in locate-project|metadata) mv "$W/one/.cargo/config.toml" "$W/x"; "$REALCARGO" "$@"; rc=$?; mv "$W/x" "$W/one/.cargo/config.toml"; exit $rc;; esac
exit 0
E
chmod +x "$W/stub-cargo"; export CARGO="$W/stub-cargo"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out" 2>&1
rc=$?
[ $rc != 0 ] || { cat "$W/out"; fail "no error for an invalid configuration"; }
n=$(ls "$TMPDIR" | wc -l)
[ "$n" = 0 ] || { ls "$TMPDIR"; fail "a temporary directory was left behind"; }
""", (BD, """        let temp_dir = copy_tree(source, &name_base, options, console)?;""", """        // Don't remove it if anything goes wrong from here on, so that it can be looked into.
        let temp_dir =
            std::mem::ManuallyDrop::new(copy_tree(source, &name_base, options, console)?);"""),
 (BD, """        let temp_dir = if options.leak_dirs {
            let _ = temp_dir.into_path();""", """        let temp_dir = std::mem::ManuallyDrop::into_inner(temp_dir);
        let temp_dir = if options.leak_dirs {
            let _ = temp_dir.into_path();"""))

S('dot-ignore-respected', 'C25', 'a tree with a .ignore file and --gitignore=true', 'ignored files are missing from the copy', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
echo 'data.txt' > "$W/one/.ignore"
echo hello > "$W/one/data.txt"
stub <<'E'
[ -e data.txt ] || touch "$W/missing"
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out" 2>&1
[ ! -e "$W/missing" ] || fail "a file named in .ignore was not copied"
""", (CT, """        .ignore(false) // don't use .ignore
        .require_git(true)""", """        .ignore(options.gitignore)
        .require_git(true)"""))

S('patch-section-forgotten', 'C26', 'a path outside of the tree in the replace section, next to a patch section', 'the copy refers to a path that does not exist', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
cat >> "$W/one/Cargo.toml" <<'E'
[replace]
"foo:0.1.0" = { path = "../foo" }
[patch.crates-io]
bar = { path = "../bar" }
E
cat > "$W/stub-cargo" <<'E'
#!/bin/bash
case "$1" in locate-project|metadata) d=$PWD; cd /; sed -i.bak -n '1,/^\[workspace/p' "$d/Cargo.toml"; (cd "$d"; "$REALCARGO" "$@"); rc=$?; mv "$d/Cargo.toml.bak" "$d/Cargo.toml"; exit $rc;; esac
cp Cargo.toml "$W/seen.toml"
exit 0
E
chmod +x "$W/stub-cargo"; export CARGO="$W/stub-cargo"
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 > "$W/out" 2>&1
[ -e "$W/seen.toml" ] || { cat "$W/out"; fail "nothing was run"; }
! grep -q '"\.\./' "$W/seen.toml" || { cat "$W/seen.toml"; fail "a relative path is left in the copied manifest"; }
""", (MAN, """        if let Some(replace) = top_table.get_mut("replace") {""", """        let has_patches = top_table.contains_key("patch");
        if let Some(replace) = top_table.get_mut("replace").filter(|_| !has_patches) {"""))

S('list-creates-output', 'C27', '--list together with --output naming a new directory', 'listing creates a directory', r"""
crate one <<'E'
pub fn aaa() -> u32 { 7 }
E
cd "$W/one"
"$MUTANTS" mutants -d . --list -o "$W/new" > "$W/a" 2>/dev/null
grep -q aaa "$W/a" || fail "nothing listed"
[ ! -e "$W/new" ] || fail "listing created the output directory"
""", (MAIN, """    let mut discovered = workspace.discover(&package_filter, &options, &console)?;
""", """    if !output_parent_dir.exists() {
        // Fail early if it can't be created.
        std::fs::create_dir(&output_parent_dir).context("create output parent directory")?;
    }
    let mut discovered = workspace.discover(&package_filter, &options, &console)?;
"""))

S('same-operands', 'C30', 'an operator whose two operands read the same', 'its mutants are not generated', r"""
crate one <<'E'
pub fn aaa(x: &mut f32) { *x = *x / *x; }
pub fn bbb(a: u32, b: u32) -> u32 { a / b }
E
cd "$W/one"
"$MUTANTS" mutants -d . --list > "$W/out" 2>&1
grep -q 'replace / with % in aaa' "$W/out" && grep -q 'replace / with % in bbb' "$W/out" || { cat "$W/out"; fail "mutants are missing"; }
""", (VIS, """        let replacements = match i.op {
            // We don't""", """        if i.left == i.right && matches!(i.op, BinOp::Lt(_) | BinOp::Gt(_) | BinOp::Div(_) | BinOp::Rem(_)) {
            // A constant
            return syn::visit::visit_expr_binary(self, i);
        }
        let replacements = match i.op {
            // We don't"""))

S('weak-build-limit', 'C32', 'a build timeout multiplier together with a test timeout', 'the build limit is derived from the wrong phase', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if [ $PHASE = build ] && ! mutated; then sleep 3; fi
if [ $PHASE = build ] && mutated; then sleep 4; fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 20 --build-timeout-multiplier 3 > "$W/out" 2>&1
[ -s mutants.out/missed.txt ] || { cat "$W/out"; fail "the mutant's build was stopped though it took less than three times the baseline build"; }
""", ('src/timeouts.rs', """                baseline.phase_result(Phase::Build).map(|pr| pr.duration),
                options,""", """                baseline.phase_results().iter().map(|pr| pr.duration).min(),
                options,"""))

S('log-names-wrap', 'C33', 'more than a hundred mutants at the same place', 'two scenarios get the same log file name and the run fails', r"""
crate one <<'E'
pub fn aaa() -> (i32, i32, i32, i32, i32) { (4, 5, 6, 7, 8) }
E
stub <<'E'
exit 1
E
cd "$W/one"
timeout 250 "$MUTANTS" mutants -d . --timeout 20 --baseline skip > "$W/out" 2>&1
rc=$?
n=$(ls mutants.out/log | wc -l)
[ $rc = 0 ] && [ "$n" = 243 ] || { tail -5 "$W/out"; fail "$n logs for 243 scenarios, status $rc"; }
""", (OUTP, """                let index = e.get_mut();
                *index += 1;
                format!("{scenario_name}_{index:03}")""", """                let index = e.get_mut();
                *index = (*index + 1) % 200; // keep the names short
                format!("{scenario_name}_{index:03}")"""))

S('top-file-once', 'C34', 'a module file shared by two packages, or named by several mod statements', 'files are visited twice', r"""
crate one <<'E'
mod shared;
#[path = "shared.rs"]
mod again;
E
echo 'pub fn bbb() -> bool { true }' > "$W/one/src/shared.rs"
cd "$W/one"
"$MUTANTS" mutants -d . --list-files > "$W/out" 2>&1
n=$(grep -c shared.rs "$W/out")
[ "$n" = 1 ] || { cat "$W/out"; fail "a file is visited $n times"; }
mkdir -p src/bin; echo 'mod inner; fn main() {}' > src/bin/prog.rs; mkdir -p src/bin/inner; echo 'mod leaf;' > src/bin/inner/mod.rs; echo 'pub fn ccc() -> bool { true }' > src/bin/inner/leaf.rs
"$MUTANTS" mutants -d . --list > "$W/out" 2>&1
grep -q 'src/bin/inner/leaf.rs.*ccc' "$W/out" || { cat "$W/out"; fail "a module of a mod.rs was not found"; }
""", (VIS, """    let mut search_dir = if parent.is_top
        || parent_path.ends_with("mod.rs")""", """    let mut search_dir = if parent.is_top
        || (parent_path.ends_with("mod.rs") && !parent_path.starts_with("src/bin"))"""))

S('default-members-all', 'C35', 'a virtual workspace with default members', 'other packages are mutated too', r"""
mkdir -p "$W/ws"
printf '[workspace]\nmembers = ["a", "b"]\ndefault-members = ["a"]\nresolver = "2"\n' > "$W/ws/Cargo.toml"
for p in a b; do mkdir -p "$W/ws/$p/src"; printf '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n' $p > "$W/ws/$p/Cargo.toml"; echo "pub fn f_$p() -> bool { true }" > "$W/ws/$p/src/lib.rs"; done
cd "$W/ws"
"$MUTANTS" mutants -d . --list > "$W/out" 2>&1
grep -q f_a "$W/out" && ! grep -q f_b "$W/out" || { cat "$W/out"; fail "wrong packages"; }
"$MUTANTS" mutants -d . --list -p b -p a -p b > "$W/out" 2>&1
[ "$(wc -l < "$W/out")" = 2 ] || { cat "$W/out"; fail "a package named twice"; }
cd b
"$MUTANTS" mutants --list > "$W/out" 2>&1
grep -q f_b "$W/out" && ! grep -q f_a "$W/out" || { cat "$W/out"; fail "wrong package in b"; }
""", ('src/workspace.rs', """            .sorted()
            .dedup() // in case a package is named twice
            .filter_map(""", """            .dedup() // in case a package is named twice
            .filter_map("""))

S('guard-description', 'C36', 'a mutant whose replacement text has several lines', 'the description differs between the list and the file', r"""
crate one <<'E'
pub fn aaa(a: u32) -> u32 { match a { 1 if a > 3 => 4, _ => 7 } }
E
stub <<'E'
exit 0
E
cd "$W/one"
"$MUTANTS" mutants -d . --list > "$W/list" 2>/dev/null
CLICOLOR_FORCE=1 "$MUTANTS" mutants -d . --list --colors=always > "$W/colored" 2>/dev/null
sed 's/\x1b\[[0-9;]*m//g' "$W/colored" > "$W/plain"
cmp "$W/list" "$W/plain" || { diff "$W/list" "$W/plain"; fail "the coloured list says something else"; }
"$MUTANTS" mutants -d . --list --line-col=false > "$W/list" 2>/dev/null
CLICOLOR_FORCE=1 "$MUTANTS" mutants -d . --list --colors=always --line-col=false > "$W/colored" 2>/dev/null
sed 's/\x1b\[[0-9;]*m//g' "$W/colored" > "$W/plain"
cmp "$W/list" "$W/plain" || { diff "$W/list" "$W/plain"; fail "the coloured list says something else"; }
""", ('src/mutant.rs', """        v.push(": ".to_owned());
        v.extend(self.styled_parts().into_iter().map(|x| x.to_string()));""", """        if show_line_col {
            v.push(": ".to_owned());
        }
        v.extend(self.styled_parts().into_iter().map(|x| x.to_string()));"""))

S('source-not-utf8', 'C28', 'a module file that is not UTF-8', 'cargo mutants panics instead of reporting an error', r"""
crate one <<'E'
mod other;
pub fn aaa() -> bool { true }
E
printf 'pub fn bbb() -> &\x27static str { "caf\xe9" }\n' > "$W/one/src/other.rs"
cd "$W/one"
timeout 60 "$MUTANTS" mutants -d . --list > "$W/out" 2>&1
rc=$?
[ $rc != 0 ] || fail "no error"
[ $rc != 101 ] && ! grep -q panicked "$W/out" || { tail -5 "$W/out"; fail "panicked"; }
""", ('src/source.rs', """            read_to_string(&full_path)
                .with_context(|| format!("failed to read source of {full_path:?}"))?
                .replace(""", """            String::from_utf8(
                std::fs::read(&full_path)
                    .with_context(|| format!("failed to read source of {full_path:?}"))?,
            )
            .expect("source is UTF-8")
            .replace("""), ('src/source.rs', "use std::fs::read_to_string;\n", ""))

S('many-modules-unordered', 'C16', 'a file that declares many modules', 'their order differs from run to run', r"""
{ for i in $(seq 1 40); do echo "mod m$i;"; done; } | crate one
for i in $(seq 1 40); do echo "pub fn f$i() -> bool { true }" > "$W/one/src/m$i.rs"; done
cd "$W/one"
"$MUTANTS" mutants -d . --list > "$W/first" 2>&1
for i in 1 2 3 4; do
  "$MUTANTS" mutants -d . --list > "$W/again" 2>&1
  cmp -s "$W/first" "$W/again" || fail "another order of mutants"
done
[ "$(sort -u "$W/first" | grep -c 'with false')" = 40 ] || fail "not all mutants"
""", (VIS, """        let (mut file_mutants, external_mods) = walk_file(&source_file, error_exprs, options)?;
""", """        let (mut file_mutants, mut external_mods) =
            walk_file(&source_file, error_exprs, options)?;
        if external_mods.len() > 16 {
            // Modules can be declared for several configurations: look into each once.
            external_mods = external_mods
                .into_iter()
                .map(|m| (format!("{:?}", m.parts), m))
                .collect::<std::collections::HashMap<_, _>>()
                .into_values()
                .collect();
        }
"""))

S('build-timeout-not-shown', 'C38', 'a mutant whose build takes too long', 'its outcome is not shown', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if [ $PHASE = build ] && mutated; then sleep 30; fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --build-timeout 1 --timeout 20 > "$W/out" 2>&1
[ "$(wc -l < mutants.out/timeout.txt)" = 2 ] || [ "$(wc -l < mutants.out/timeout.txt)" = 1 ] || { cat "$W/out"; fail "no timeout"; }
grep -q '^TIMEOUT.*replace aaa' "$W/out" || { cat "$W/out"; fail "the timeout is not shown"; }
""", ('src/console.rs', """                && outcome.check_or_build_failed()
""", """                && outcome.last_phase() != Phase::Test
                && !outcome.success()
"""))

S('jobserver-not-for-check', 'C39', '--check', 'the cargo processes are not limited by the jobserver', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
echo "$PHASE ${MAKEFLAGS:-none}" >> "$W/flags"
exit 0
E
unset CARGO_MAKEFLAGS MAKEFLAGS
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --check --jobserver-tasks 3 > "$W/out" 2>&1
[ -s "$W/flags" ] || { cat "$W/out"; fail "nothing was run"; }
! grep -q none "$W/flags" || { cat "$W/flags"; fail "a cargo process does not know of the jobserver"; }
""", ('src/cargo.rs', "        jobserver,\n", "        jobserver.filter(|_| phase != Phase::Check),\n"))

S('lock-held-while-testing', 'C43', 'more than one job', 'mutants are tested one after another although --jobs is given', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
pub fn bbb() -> bool { true }
E
stub <<'E'
if mutated; then
  mkdir "$W/busy" 2>/dev/null || : > "$W/together"
  sleep 2
  rmdir "$W/busy" 2>/dev/null
fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --jobs 2 --baseline skip --timeout 20 > "$W/out" 2>&1
[ "$(wc -l < mutants.out/missed.txt)" = 4 ] || [ "$(wc -l < mutants.out/missed.txt)" = 2 ] || { cat "$W/out"; fail "not all tested"; }
[ -e "$W/together" ] || fail "no two mutants were tested at the same time"
""", (LAB, """        loop {
            // Not a `for` statement so that we don't hold the lock
            // for the whole iteration.
            let Some(mutant) = work_queue.lock().expect("Lock pending work queue").next() else {
                return Ok(());
            };
""", """        while let Some(mutant) = work_queue.lock().expect("Lock pending work queue").next() {
"""), (LAB, """            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
        }
""", """            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
        }
        Ok(())
"""))

S('colors-forced-first', 'C45', 'both NO_COLOR and CLICOLOR_FORCE are set', 'lists have colour codes although NO_COLOR is set', r"""
crate one <<'E'
pub fn aaa(a: u32) -> bool { a == 3 }
E
cd "$W/one"
unset NO_COLOR CLICOLOR_FORCE CARGO_TERM_COLOR
esc=$(printf '\033')
CLICOLOR_FORCE=1 "$MUTANTS" mutants -d . --list > "$W/out" 2>/dev/null
grep -q "$esc" "$W/out" || fail "colours were forced but are not there"
NO_COLOR=1 CLICOLOR_FORCE=1 "$MUTANTS" mutants -d . --list > "$W/out" 2>/dev/null
grep -q 'replace aaa' "$W/out" || fail "no list"
! grep -q "$esc" "$W/out" || fail "colour codes in spite of NO_COLOR"
NO_COLOR=1 "$MUTANTS" mutants -d . --list --colors always > "$W/out" 2>/dev/null
! grep -q "$esc" "$W/out" || fail "colour codes in spite of NO_COLOR"
""", ('src/options.rs', '''        if env::var("NO_COLOR").is_ok_and(|x| x != "0") {
            Some(false)
        } else if env::var("CLICOLOR_FORCE").is_ok_and(|x| x != "0") {
            Some(true)
        } else {''', '''        if env::var("CLICOLOR_FORCE").is_ok_and(|x| x != "0") {
            Some(true)
        } else if env::var("NO_COLOR").is_ok_and(|x| x != "0") {
            Some(false)
        } else {'''))

S('output-beside-the-package', 'C12', 'started in a package of a workspace below the root', 'results go to another directory than the root of the workspace, where they are not found again', r"""
mkdir -p "$W/ws/a/src"
printf '[workspace]\nmembers = ["a"]\nresolver = "2"\n' > "$W/ws/Cargo.toml"
printf '[package]\nname = "a"\nversion = "0.1.0"\nedition = "2021"\n' > "$W/ws/a/Cargo.toml"
echo 'pub fn f_a() -> bool { true }' > "$W/ws/a/src/lib.rs"
{ echo '#!/bin/bash'; echo 'case "$1" in metadata|locate-project) exec "$REALCARGO" "$@";; esac'; echo 'exit 0'; } > "$W/stub-cargo"; chmod +x "$W/stub-cargo"
export CARGO="$W/stub-cargo"
cd "$W/ws/a"
timeout 120 "$MUTANTS" mutants --baseline skip --timeout 20 > "$W/out" 2>&1
[ -e "$W/ws/mutants.out/missed.txt" ] || { cat "$W/out"; fail "no mutants.out in the root of the workspace"; }
[ ! -e "$W/ws/a/mutants.out" ] || fail "a mutants.out in the package"
""", ('src/main.rs', '.unwrap_or_else(|| workspace.root().to_owned());', '.unwrap_or_else(|| start_dir.to_owned());'))

S('module-by-symlink', 'C34', 'a module whose file is a symbolic link to another file of the tree', 'the module is not mutated', r"""
crate one <<'E'
pub mod foo;
pub fn aaa() -> bool { true }
E
echo 'pub fn bbb() -> bool { true }' > "$W/one/src/the_foo.in"
ln -s the_foo.in "$W/one/src/foo.rs"
cd "$W/one"
"$MUTANTS" mutants -d . --list > "$W/out" 2>&1
grep -q 'replace aaa' "$W/out" || { cat "$W/out"; fail "no list"; }
grep -q 'replace bbb' "$W/out" || { cat "$W/out"; fail "the module is missing"; }
""", ('src/visit.rs', '''        if full_path.is_file() {
            trace!("found submodule in {full_path}");''', '''        if full_path.is_file() && !full_path.is_symlink() {
            trace!("found submodule in {full_path}");'''))

S('timeout-by-exit-status', 'C02', 'a test run that exceeds its limit and ends with an exit status when it is asked to stop', 'a mutant that times out counts as missed (or caught)', r"""
crate one <<'E'
pub fn aaa() -> bool { true }
E
stub <<'E'
if [ $PHASE = test ] && mutated; then
  trap 'exit 0' TERM
  for i in $(seq 300); do sleep 0.1; done
fi
exit 0
E
cd "$W/one"
timeout 120 "$MUTANTS" mutants -d . --timeout 1 > "$W/out" 2>&1
[ $? = 3 ] || { cat "$W/out"; fail "a timeout is not the result"; }
[ -s mutants.out/timeout.txt ] || fail "no timeout"
[ ! -s mutants.out/missed.txt ] || fail "a timeout counts as missed"
""", ('src/process.rs', '''            self.terminate()?;
            Ok(Some(Exit::Timeout))''', '''            self.terminate()?;
            match self.child.try_wait()? {
                Some(status) if status.code().is_some() => Ok(Some(status.into())),
                _ => Ok(Some(Exit::Timeout)),
            }'''))

S('glob-ignores-case', 'C18', 'names that differ in case only', 'a file is excluded that matches no pattern', r"""
crate one <<'E'
pub mod readme;
pub fn aaa() -> bool { true }
E
echo 'pub fn bbb() -> bool { true }' > "$W/one/src/readme.rs"
cd "$W/one"
"$MUTANTS" mutants -d . --list --exclude 'README.rs' --exclude 'src/LIB.rs' > "$W/out" 2>&1
grep -q 'replace aaa' "$W/out" && grep -q 'replace bbb' "$W/out" || { cat "$W/out"; fail "files are left out"; }
"$MUTANTS" mutants -d . --list --exclude 'readme.rs' > "$W/out" 2>&1
grep -q 'replace aaa' "$W/out" && ! grep -q 'replace bbb' "$W/out" || { cat "$W/out"; fail "the filter has no effect"; }
""", ('src/glob.rs', 'GlobBuilder::new(&g)', 'GlobBuilder::new(&g)\n                    .case_insensitive(true)'))

S('diff-inside-a-function', 'C19', 'a change in the middle of a long function, without context', 'the mutant of the changed function is not selected', r"""
crate one <<'E'
pub fn aaa(a: u32) -> u32 {
    let b = a;
    let c = b;
    let d = c;
    let e = d;
    e.pow(2)
}
E
cat > "$W/d.diff" <<'E'
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4 +4 @@
-    let d = 3;
+    let d = c;
E
cd "$W/one"
"$MUTANTS" mutants -d . --list --in-diff "$W/d.diff" > "$W/out" 2>&1
grep -q 'replace aaa' "$W/out" || { cat "$W/out"; fail "the changed function is left out"; }
""", ('src/in_diff.rs', '''            for line in mutant.span.start.line..=mutant.span.end.line {''', '''            for line in [mutant.span.start.line, mutant.span.end.line] {'''))

S('words-run-together', 'C46', 'an error value in which a literal follows a keyword', 'the value is written without the space between the two, so that the mutant does not compile', r"""
crate one <<'E'
pub fn aaa(a: u32) -> Result<u32, String> { Ok(a) }
E
cd "$W/one"
"$MUTANTS" mutants -d . --list --error 'match 1 { _ => "no".into() }' > "$W/out" 2> "$W/err" || { cat "$W/err"; fail "no list"; }
grep -q 'replace aaa' "$W/out" || fail "no list"
grep -q 'Err(match 1' "$W/out" || { cat "$W/out"; fail "the error value is not what was asked for"; }
""", ('src/pretty.rs', """                            Ident(_) | Literal(_) => b.push(' '),""", """                            Ident(_) => b.push(' '),
                            Literal(_) => (),"""))
