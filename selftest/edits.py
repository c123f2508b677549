"""(name, property that must fire or None when behaviour is unchanged, [(file, old, new)])"""
EDITS = []


def B(name, prop, *edits):
    EDITS.append((name, prop, list(edits)))


def Q(name, *edits):
    EDITS.append((name, None, list(edits)))


OUT = 'src/outcome.rs'
LAB = 'src/lab.rs'
OD = 'src/output.rs'
PROC = 'src/process.rs'
UNIX = 'src/process/unix.rs'
MAIN = 'src/main.rs'

# ---- C01
B('exit-missed-gt1', 'C01', (OUT, 'self.missed > 0', 'self.missed > 1'))
B('exit-swap', 'C01', (OUT, '''        } else if self.timeout > 0 {
            exit_code::TIMEOUT
        } else if self.missed > 0 {
            exit_code::FOUND_PROBLEMS''', '''        } else if self.missed > 0 {
            exit_code::FOUND_PROBLEMS
        } else if self.timeout > 0 {
            exit_code::TIMEOUT'''))
B('exit-baseline-last', 'C01', (OUT, '''            .any(|o| !o.scenario.is_mutant() && !o.success())''', '''            .any(|o| !o.scenario.is_mutant() && o.last_phase_result().is_failure())'''))
B('exit-baseline-first-only', 'C01', (OUT, '''            .any(|o| !o.scenario.is_mutant() && !o.success())''', '''            .take(1).any(|o| !o.scenario.is_mutant() && !o.success())'''))
B('exit-unviable', 'C01', (OUT, 'self.missed > 0 {\n            exit', 'self.missed > 0 && self.caught > 0 {\n            exit'))
B('exit-main-min', 'C01', (MAIN, 'exit(lab_outcome.exit_code())', 'exit(lab_outcome.exit_code().min(3))'))
B('exit-usage', 'C01', (MAIN, '2 => exit_code::USAGE', '2 => exit_code::FOUND_PROBLEMS'))
B('exit-err-swallowed', 'C01', (MAIN, 'let lab_outcome = test_mutants(mutants, &workspace, output_dir, &options, &console)?;',
   'let lab_outcome = test_mutants(mutants, &workspace, output_dir, &options, &console).unwrap_or_default();'))
Q('exit-refactor', (OUT, '''        if self
            .outcomes
            .iter()
            .any(|o| !o.scenario.is_mutant() && !o.success())
        {
            exit_code::BASELINE_FAILED
        } else if self.timeout > 0 {
            exit_code::TIMEOUT
        } else if self.missed > 0 {
            exit_code::FOUND_PROBLEMS
        } else {
            exit_code::SUCCESS
        }''', '''        for o in &self.outcomes {
            if o.scenario.is_mutant() {
                continue;
            }
            if !o.success() {
                return exit_code::BASELINE_FAILED;
            }
        }
        match (self.timeout, self.missed) {
            (0, 0) => exit_code::SUCCESS,
            (0, _) => exit_code::FOUND_PROBLEMS,
            _ => exit_code::TIMEOUT,
        }'''))
Q('main-helper', (MAIN, '''        let lab_outcome = test_mutants(mutants, &workspace, output_dir, &options, &console)?;
        exit(lab_outcome.exit_code());
    }''', '''        run_and_exit(mutants, &workspace, output_dir, &options, &console)?;
    }'''), (MAIN, '#[cfg(test)]\nmod test {', '''fn run_and_exit(mutants: Vec<Mutant>, workspace: &Workspace, output_dir: OutputDir, options: &Options, console: &Console) -> Result<()> {
    let outcome = test_mutants(mutants, workspace, output_dir, options, console)?;
    let code = outcome.exit_code();
    exit(code)
}

#[cfg(test)]
mod test {'''))

# ---- C02
B('class-signalled-caught', 'C02', (OUT, '''            && self.last_phase() == Phase::Test
            && self.last_phase_result().is_failure()''', '''            && self.last_phase() == Phase::Test
            && !self.last_phase_result().is_success()'''))
B('class-timeout-first', 'C02', (OUT, '''                if self.check_or_build_failed() {
                    SummaryOutcome::Unviable
                } else if self.has_timeout() {''', '''                if self.phase_results.iter().any(|pr| pr.phase == Phase::Build && pr.process_status.is_failure()) {
                    SummaryOutcome::Unviable
                } else if self.has_timeout() {'''))
B('class-baseline-timeout', 'C02', (OUT, '''                if self.has_timeout() {
                    SummaryOutcome::Timeout
                } else if self.success() {
                    SummaryOutcome::Success''', '''                if self.has_timeout() {
                    SummaryOutcome::Failure
                } else if self.success() {
                    SummaryOutcome::Success'''))
B('class-fail-negative', 'C02', (PROC, 'matches!(self, Exit::Failure(_))', 'matches!(self, Exit::Failure(c) if c != 1)'))
B('from-code', 'C02', (UNIX, 'if code == 0 {', 'if code == 0 || code == 130 {'))
B('from-signal-ignored', 'C02', (UNIX, 'return Exit::Signalled(signal);', 'return Exit::Failure(128 + signal);'))
Q('class-refactor', (OUT, '''    pub fn has_timeout(&self) -> bool {
        self.phase_results
            .iter()
            .any(|pr| pr.process_status.is_timeout())
    }''', '''    pub fn has_timeout(&self) -> bool {
        let mut found = false;
        for pr in self.phase_results() {
            found |= matches!(pr.process_status, Exit::Timeout);
        }
        found
    }'''), (UNIX, '''        if let Some(code) = status.code() {
            if code == 0 {
                Exit::Success
            } else {
                Exit::Failure(code)
            }
        } else if''', '''        if status.success() {
            Exit::Success
        } else if let Some(code) = status.code() {
            Exit::Failure(code)
        } else if'''))

# ---- C03
B('tally-total', 'C03', (OUT, '''            self.total_mutants += 1;
            match outcome.summary() {''', '''            match outcome.summary() {'''), (OUT, 'SummaryOutcome::CaughtMutant => self.caught += 1,', 'SummaryOutcome::CaughtMutant => { self.caught += 1; self.total_mutants += 1 }'))
B('list-name-false', 'C03', (OD, 'mutant.name(true)).context("write to list', 'mutant.name(false)).context("write to list'))
B('list-swap', 'C03', (OD, '''SummaryOutcome::Timeout => &mut self.timeout_list,
                SummaryOutcome::Unviable => &mut self.unviable_list''', '''SummaryOutcome::Timeout => &mut self.unviable_list,
                SummaryOutcome::Unviable => &mut self.timeout_list'''))
B('list-file', 'C03', (OD, '.open(output_dir.join("timeout.txt"))', '.open(output_dir.join(UNVIABLE_TXT))'))
B('json-before', 'C03', (OD, '''        self.lab_outcome.add(scenario_outcome.to_owned());
        self.write_lab_outcome()?;''', '''        self.write_lab_outcome()?;
        self.lab_outcome.add(scenario_outcome.to_owned());'''))
B('json-skip-baseline', 'C03', (OD, '''        self.write_lab_outcome()?;
        let scenario''', '''        if scenario_outcome.scenario.is_mutant() {
            self.write_lab_outcome()?;
        }
        let scenario'''))
Q('record-refactor', (OD, '''            writeln!(file, "{}", mutant.name(true)).context("write to list file")?;''', '''            let line = format!("{}\\n", mutant.name(true));
            file.write_all(line.as_bytes()).context("write to list file")?;'''), (OUT, '''                SummaryOutcome::CaughtMutant => self.caught += 1,
                SummaryOutcome::MissedMutant => self.missed += 1,''', '''                SummaryOutcome::MissedMutant => self.missed += 1,
                SummaryOutcome::CaughtMutant => self.caught = self.caught + 1,'''))

# ---- C04
B('revert-err', 'C04', (LAB, '''                    if let Some(mutant) = scenario.mutant() {
                        mutant.revert(self.build_dir)?;
                    }
                    return Err(err);''', '''                    return Err(err);'''))
B('revert-success-only', 'C04', (LAB, '''        if let Some(mutant) = scenario.mutant() {
            mutant.revert(self.build_dir)?;
        }
        self.output_mutex''', '''        if let Some(mutant) = scenario.mutant() {
            if !outcome.has_timeout() {
                mutant.revert(self.build_dir)?;
            }
        }
        self.output_mutex'''))
B('apply-then-diff', 'C04', (LAB, '''            scenario_output.write_diff(&diff)?;
            mutant.apply(self.build_dir, &mutated_code)?;''', '''            mutant.apply(self.build_dir, &mutated_code)?;
            scenario_output.write_diff(&diff)?;'''))
B('record-before-revert', 'C04', (LAB, '''        if let Some(mutant) = scenario.mutant() {
            mutant.revert(self.build_dir)?;
        }
        self.output_mutex
            .lock()
            .expect("lock output dir to add outcome")
            .add_scenario_outcome(&outcome)?;''', '''        self.output_mutex
            .lock()
            .expect("lock output dir to add outcome")
            .add_scenario_outcome(&outcome)?;
        if let Some(mutant) = scenario.mutant() {
            mutant.revert(self.build_dir)?;
        }'''))
B('revert-trim', 'C04', ('src/mutant.rs', '''            &self.source_file.tree_relative_path,
            self.source_file.code(),''', '''            &self.source_file.tree_relative_path,
            self.source_file.code().trim_end(),'''))
Q('revert-refactor', (LAB, '''                    error!(?err, ?phase, "scenario execution internal error");
                    // Some unexpected internal error that stops the program.
                    if let Some(mutant) = scenario.mutant() {
                        mutant.revert(self.build_dir)?;
                    }
                    return Err(err);''', '''                    error!(?err, ?phase, "scenario execution internal error");
                    self.undo(scenario)?;
                    return Err(err);'''), (LAB, '''        if let Some(mutant) = scenario.mutant() {
            mutant.revert(self.build_dir)?;
        }
        self.output_mutex''', '''        self.undo(scenario)?;
        self.output_mutex'''), (LAB, '''/// Which packages to test
#[derive''', '''impl Worker<'_> {
    fn undo(&self, scenario: &Scenario) -> Result<()> {
        match scenario {
            Scenario::Mutant(m) => m.revert(self.build_dir),
            Scenario::Baseline => Ok(()),
        }
    }
}

/// Which packages to test
#[derive'''))

# ---- C05
BDR = 'src/build_dir.rs'
CPT = 'src/copy_tree.rs'
MAN = 'src/manifest.rs'
B('c05-no-symlink-guard', 'C05', (BDR, '''        ensure!(
            real_path.starts_with(&real_dir),''', '''        ensure!(
            true || real_path.starts_with(&real_dir),'''))
B('c05-guard-unresolved', 'C05', (BDR, '''            real_path.starts_with(&real_dir),''', '''            full_path.starts_with(&self.path) || real_path.starts_with(&real_dir),'''))
B('c05-fix-source', 'C05', (BDR, 'fix_cargo_config(&path, &source_abs)?', 'fix_cargo_config(&source_abs, &source_abs)?'))
B('c05-fix-manifest-source', 'C05', (BDR, 'fix_manifest(&path.join("Cargo.toml"), &source_abs)?', 'fix_manifest(&source_abs.join("Cargo.toml"), &source_abs)?'))
B('c05-write-source-dir', 'C05', (MAN, '''replace_file(&config_path, &changed_toml)''', '''replace_file(&source_path.join(".cargo/config.toml"), &changed_toml)'''))
B('c05-inplace-flag', 'C05', (BDR, 'if options.in_place {', 'if options.in_place || options.leak_dirs {'))
B('c05-tempdir-in', 'C05', (CPT, '.tempdir()\n', '.tempdir_in(from_path)\n'))
B('c05-visit-cache', 'C05', ('src/source.rs', '''        let full_path = tree_path.join(tree_relative_path);
''', '''        let full_path = tree_path.join(tree_relative_path);
        let _ = std::fs::write(full_path.with_extension("cache"), "x");
'''))
B('c05-log-elsewhere', 'C05', (OD, 'File::create(self.path.join("outcomes.json"))', 'File::create("outcomes.json")'))
Q('c05-refactor', (BDR, '''        let real_path = full_path
            .canonicalize_utf8()
            .with_context(|| format!("failed to canonicalize {full_path:?}"))?;
        let real_dir = self
            .path
            .canonicalize_utf8()
            .with_context(|| format!("failed to canonicalize {:?}", self.path))?;
        ensure!(
            real_path.starts_with(&real_dir),
            "{full_path:?} is outside of the build directory, at {real_path:?}"
        );
''', '''        let real_dir = self.path().canonicalize_utf8().context("build dir")?;
        let real_path = full_path.canonicalize_utf8().context("target")?;
        if !real_path.starts_with(&real_dir) {
            anyhow::bail!("{full_path:?} is outside of the build directory, at {real_path:?}");
        }
'''))

# ---- C24
B('c24-leak-inverted-none', 'C24', (BDR, '            Some(temp_dir)\n', '            std::mem::forget(temp_dir);\n            None\n'))
B('c24-keep-on-error', 'C24', (BDR, '        fix_cargo_config(&path, &source_abs)?;\n        let temp_dir = if options.leak_dirs {', '        let temp_dir = if options.leak_dirs || fix_cargo_config(&path, &source_abs).is_err() {'))
B('c24-exit', 'C24', (LAB, '''                    error!(?err, ?phase, "scenario execution internal error");''', '''                    error!(?err, ?phase, "scenario execution internal error");
                    if self.options.leak_dirs { std::process::exit(1) }'''))
B('c24-handler-exit', 'C24', ('src/interrupt.rs', 'ctrlc::set_handler(|| INTERRUPTED.store(true, Ordering::SeqCst))', 'ctrlc::set_handler(|| if INTERRUPTED.swap(true, Ordering::SeqCst) { std::process::exit(130) })'))
B('c24-not-leaked', 'C24', (BDR, '            let _ = temp_dir.into_path();\n', '            let _ = temp_dir;\n'))
Q('c24-refactor', (BDR, '''        let temp_dir = if options.leak_dirs {
            let _ = temp_dir.into_path();
            info!(?path, "Build directory will be leaked for inspection");
            None
        } else {
            Some(temp_dir)
        };
        let build_dir = BuildDir { path, temp_dir };
        Ok(build_dir)
''', '''        if !options.leak_dirs {
            return Ok(BuildDir { temp_dir: Some(temp_dir), path });
        }
        let path = leak(temp_dir, path);
        Ok(BuildDir { path, temp_dir: None })
'''), (BDR, '''#[cfg(test)]
mod test {''', '''fn leak(d: TempDir, path: Utf8PathBuf) -> Utf8PathBuf {
    drop(d.into_path());
    path
}

#[cfg(test)]
mod test {'''))

# ---- C25
B('c25-skip-hidden', 'C25', (CPT, '.hidden(false)', '.hidden(true)'))
B('c25-dot-ignore', 'C25', (CPT, '.ignore(false)', '.ignore(options.gitignore)'))
B('c25-git-global', 'C25', (CPT, '.git_global(options.gitignore)', '.git_global(true)'))
B('c25-vcs', 'C25', (CPT, '(copy_vcs || !VCS_DIRS.contains(&name.as_ref()))', '(copy_vcs && !VCS_DIRS.contains(&name.as_ref()) || !VCS_DIRS.contains(&name.as_ref()))'))
B('c25-prefix', 'C25', (CPT, '''name != "mutants.out"
                && name != "mutants.out.old"''', '''!name.starts_with("mutants.out")'''))
B('c25-jj', 'C25', (CPT, '".jj", ', ''))
B('c25-error-ignored', 'C25', (CPT, '        let entry = entry?;\n', '        let Ok(entry) = entry else { continue };\n'))
B('c25-symlink-lost', 'C25', (CPT, '''} else if ft.is_symlink() {
            copy_symlink(''', '''} else if ft.is_symlink() && entry.path().exists() {
            copy_symlink('''))
B('c25-copy-error', 'C25', (CPT, '''            std::fs::create_dir_all(&dest_path)
                .with_context(|| format!("Failed to create directory {dest_path:?}"))?;''', '''            let _ = std::fs::create_dir_all(&dest_path);'''))
B('c25-depth', 'C25', (CPT, '.hidden(false)', '.max_depth(Some(20)).hidden(false)'))
B('c25-flat', 'C25', (CPT, '.join(relative_path)\n', '.join(relative_path.file_name().unwrap())\n'))
Q('c25-refactor', (CPT, '''        if ft.is_file() {
            let''', '''        if ft.is_dir() {
            std::fs::create_dir_all(&dest_path)
                .with_context(|| format!("Failed to create directory {dest_path:?}"))?;
        } else if ft.is_file() {
            let'''), (CPT, '''        } else if ft.is_dir() {
            std::fs::create_dir_all(&dest_path)
                .with_context(|| format!("Failed to create directory {dest_path:?}"))?;
        } else if ft.is_symlink''', '''        } else if ft.is_symlink'''), (CPT, '''            let name = entry.file_name().to_string_lossy();
            name != "mutants.out"
                && name != "mutants.out.old"
                && (copy_vcs || !VCS_DIRS.contains(&name.as_ref()))''', '''            let name = entry.file_name().to_string_lossy();
            if matches!(name.as_ref(), "mutants.out" | "mutants.out.old") {
                return false;
            }
            copy_vcs || VCS_DIRS.iter().all(|d| *d != name)'''))

VIS = 'src/visit.rs'
FNV = 'src/fnvalue.rs'
# ---- C17
B('c17-unsafe-method', 'C17', (VIS, '''        if fn_sig_excluded(&i.sig)
            || attrs_excluded(&i.attrs)
            || i.sig.ident == "new"
            || block_is_empty(&i.block)''', '''        if attrs_excluded(&i.attrs)
            || i.sig.ident == "new"
            || block_is_empty(&i.block)'''))
B('c17-trait-return', 'C17', (VIS, '''        if attrs_excluded(&i.attrs) {
            return;
        }
        self.in_namespace(&name, |v| syn::visit::visit_item_trait(v, i));''', '''        if attrs_excluded(&i.attrs) || i.items.is_empty() || i.unsafety.is_some() {
            return;
        }
        self.in_namespace(&name, |v| syn::visit::visit_item_trait(v, i));'''))
B('c17-default-any', 'C17', (VIS, 'if path_ends_with(trait_path, "Default") {', 'if trait_path.segments.iter().any(|s| s.ident == "Default") {'))
B('c17-skip-call-first', 'C17', (VIS, '''fn path_ends_with(path: &syn::Path, ident: &str) -> bool {
    path.segments.last()''', '''fn path_ends_with(path: &syn::Path, ident: &str) -> bool {
    path.segments.first()'''))
B('c17-args-not-visited', 'C17', (VIS, '''        syn::visit::visit_expr_unary(self, i);''', '''        if !matches!(i.op, UnOp::Deref(_)) {
            syn::visit::visit_expr_unary(self, i);
        }'''))
B('c17-mod-attrs', 'C17', (VIS, '''        if attrs_excluded(&node.attrs) {
            trace!("mod excluded by attrs");''', '''        if node.content.is_some() && attrs_excluded(&node.attrs) {
            trace!("mod excluded by attrs");'''))
B('c17-ns-leak', 'C17', (VIS, '''            if block_is_empty(block) {
                return;
            }
            let function = self.enter_function(&i.sig.ident, &i.sig.output, i.span());''', '''            let function = self.enter_function(&i.sig.ident, &i.sig.output, i.span());
            if block_is_empty(block) {
                return;
            }'''))
B('c17-last-attr', 'C17', (VIS, '''    attrs
        .iter()
        .any(|attr| attr_is''', '''    attrs
        .iter()
        .skip_while(|attr| attr.path().is_ident("doc"))
        .take(2)
        .any(|attr| attr_is'''))
Q('c17-refactor', (VIS, '''        if fn_sig_excluded(&i.sig)
            || attrs_excluded(&i.attrs)
            || i.sig.ident == "new"
            || block_is_empty(&i.block)
        {
            return;
        }
        let function = self.enter_function(&i.sig.ident, &i.sig.output, i.span());
        self.collect_fn_mutants(&i.sig, &i.block);
        syn::visit::visit_impl_item_fn(self, i);
        self.leave_function(function);''', '''        let skip_it = block_is_empty(&i.block) || method_excluded(&i.sig, &i.attrs);
        if !skip_it {
            let function = self.enter_function(&i.sig.ident, &i.sig.output, i.span());
            self.collect_fn_mutants(&i.sig, &i.block);
            syn::visit::visit_impl_item_fn(self, i);
            self.leave_function(function);
        }'''), (VIS, '''        if fn_sig_excluded(&i.sig) || attrs_excluded(&i.attrs) || i.sig.ident == "new" {
            return;
        }
        if let Some(block) = &i.default {''', '''        if method_excluded(&i.sig, &i.attrs) {
            return;
        }
        if let Some(block) = &i.default {'''), (VIS, '''/// True if the signature of a function is such that it should be excluded.
''', '''fn method_excluded(sig: &Signature, attrs: &[Attribute]) -> bool {
    sig.ident == "new" || fn_sig_excluded(sig) || attrs_excluded(attrs)
}

/// True if the signature of a function is such that it should be excluded.
'''))
Q('c17-refactor2', (VIS, '''    attrs
        .iter()
        .any(|attr| attr_is_cfg_test(attr) || attr_is_test(attr) || attr_is_mutants_skip(attr))''', '''    for attr in attrs {
        if attr_is_test(attr) || attr_is_mutants_skip(attr) {
            return true;
        }
        if attr_is_cfg_test(attr) {
            return true;
        }
    }
    false'''), (VIS, '''            if let Some(hit) = self
                .options
                .skip_calls
                .iter()
                .find(|s| path_ends_with(path, s))
            {
                trace!("skip call to {hit}");
                return;
            }''', '''            for s in &self.options.skip_calls {
                if path_ends_with(path, s) {
                    trace!("skip call to {s}");
                    return;
                }
            }'''))
# ---- C30
B('c30-rem', 'C30', (VIS, 'BinOp::RemAssign(_) => vec![quote! {/=}, quote! {+=}]', 'BinOp::RemAssign(_) => vec![quote! {/=}, quote! {+}]'))
B('c30-shr', 'C30', (VIS, 'BinOp::ShrAssign(_) => vec![quote! {<<=}]', 'BinOp::ShrAssign(_) => vec![quote! {>>=}]'))
B('c30-arm-wild', 'C30', (VIS, '.filter(|arm| !matches!(arm.pat, syn::Pat::Wild(_)) && arm.guard.is_none())', '.filter(|arm| !matches!(arm.pat, syn::Pat::Wild(_)))'))
B('c30-catchall-last', 'C30', (VIS, '''            .any(|arm| matches!(arm.pat, syn::Pat::Wild(_)));''', '''            .last().is_some_and(|arm| matches!(arm.pat, syn::Pat::Wild(_)));'''))
B('c30-guard-one', 'C30', (VIS, '''                self.collect_mutant(
                    guard_expr.span().into(),
                    &quote! { false },
                    Genre::MatchArmGuard,
                );''', '''                if !has_catchall {
                    self.collect_mutant(
                        guard_expr.span().into(),
                        &quote! { false },
                        Genre::MatchArmGuard,
                    );
                }'''))
B('c30-body-first', 'C30', (VIS, 'end: block.stmts.last()?.span().end().into()', 'end: block.stmts.first()?.span().end().into()'))
B('c30-op-span', 'C30', (VIS, 'self.collect_mutant(i.op.span().into(), &rep, Genre::BinaryOperator)', 'self.collect_mutant(i.span().into(), &rep, Genre::BinaryOperator)'))
B('c30-fn-first', 'C30', (VIS, 'function: self.fn_stack.last().cloned()', 'function: self.fn_stack.first().cloned()'))
B('c30-noop', 'C30', (VIS, '''                        debug!("Replacement is the same as the function body; skipping");
                    } else {''', '''                        debug!("Replacement is the same as the function body; skipping");
                        break;
                    } else {'''))
B('c30-ext-mod', 'C30', (VIS, '''            self.external_mods.push(ExternalModRef {
                parts: self.mod_namespace_stack.clone(),
            });''', '''            self.external_mods.push(ExternalModRef {
                parts: vec![mod_namespace.clone()],
            });'''))
Q('c30-refactor', (VIS, '''        replacements
            .into_iter()
            .for_each(|rep| self.collect_mutant(i.op.span().into(), &rep, Genre::BinaryOperator));''', '''        for rep in &replacements {
            let span = Span::from(i.op.span());
            self.collect_mutant(span, rep, Genre::BinaryOperator);
        }'''), (VIS, '''        i.arms
            .iter()
            .flat_map(|arm| &arm.guard)
            .for_each(|(_if, guard_expr)| {
                self.collect_mutant(
                    guard_expr.span().into(),
                    &quote! { true },
                    Genre::MatchArmGuard,
                );
                self.collect_mutant(
                    guard_expr.span().into(),
                    &quote! { false },
                    Genre::MatchArmGuard,
                );
            });''', '''        for arm in &i.arms {
            if let Some((_if, guard_expr)) = &arm.guard {
                let span: Span = guard_expr.span().into();
                for rep in [quote! { true }, quote! { false }] {
                    self.collect_mutant(span, &rep, Genre::MatchArmGuard);
                }
            }
        }'''))
# ---- C31
B('c31-i128', 'C31', (FNV, '["i8", "i16", "i32", "i64", "i128", "isize"]', '["i8", "i16", "i32", "i64", "isize"]'))
B('c31-cow', 'C31', (FNV, 'GenericArgument::Lifetime(_) => (),\n                    _ => return None,', '_ => return None,'))
B('c31-mutslice', 'C31', (FNV, '''        }) => match &**elem {
            Type::Slice(TypeSlice { elem, .. }) => iter::once(quote! { Vec::leak(Vec::new()) })
                .chain(
                    type_replacements(elem, error_exprs).map(|r| quote! { Vec::leak(vec![ #r ]) }),
                )
                .collect_vec(),
            _ => {''', '''        }) => match &**elem {
            _ => {'''))
B('c31-errs', 'C31', (FNV, '''.chain(type_replacements(some_type, error_exprs).map(|rep| {
                        quote! { Some(#rep) }''', '''.chain(type_replacements(some_type, &[]).map(|rep| {
                        quote! { Some(#rep) }'''))
B('c31-err-one', 'C31', (FNV, '.chain(error_exprs.iter().map(', '.chain(error_exprs.iter().take(1).map('))
B('c31-impl-iter', 'C31', (FNV, '''                if last_segment.ident == "Iterator" {
''', '''                if last_segment.ident != "Iterator" {
                    return None;
                } else {
'''))
B('c31-map-zip', 'C31', (FNV, '.cartesian_product(val_reps)', '.zip(val_reps)'))
Q('c31-refactor', (FNV, '''                iter::once(quote! { None })
                    .chain(type_replacements(some_type, error_exprs).map(|rep| {
                        quote! { Some(#rep) }
                    }))
                    .collect_vec()''', '''                let mut v = vec![quote! { None }];
                for rep in type_replacements(some_type, error_exprs) {
                    v.push(quote! { Some(#rep) });
                }
                v'''), (FNV, '''fn path_ends_with(path: &Path, ident: &str) -> bool {
    path.segments.last().is_some_and(|s| s.ident == ident)''', '''fn path_ends_with(path: &Path, ident: &str) -> bool {
    match path.segments.last() {
        Some(s) => s.ident == ident,
        None => false,
    }'''), (FNV, '''        Type::Slice(TypeSlice { elem, .. }) => iter::once(quote! { Vec::leak(Vec::new()) })
            .chain(type_replacements(elem, error_exprs).map(|r| quote! { Vec::leak(vec![ #r ]) }))
            .collect_vec(),''', '''        Type::Slice(TypeSlice { elem, .. }) => leak_slice(elem, error_exprs),'''), (FNV, '''fn path_is_float''', '''fn leak_slice(elem: &Type, error_exprs: &[Expr]) -> Vec<TokenStream> {
    let mut out = vec![quote! { Vec::leak(Vec::new()) }];
    out.extend(type_replacements(elem, error_exprs).map(|r| quote! { Vec::leak(vec![ #r ]) }));
    out
}

fn path_is_float'''))
Q('c31-refactor2', (FNV, '''                key_reps
                            .iter()
                            .cartesian_product(val_reps)
                            .map(|(k, v)| quote! { #collection_type::from_iter([(#k, #v)]) }),''', '''                key_reps.iter().flat_map(|k| {
                            val_reps
                                .iter()
                                .map(|v| quote! { #collection_type::from_iter([(#k, #v)]) })
                                .collect_vec()
                        }),'''))

# ---- C19
IND = 'src/in_diff.rs'
B('diff-span-exclusive', 'C19', (IND, 'mutant.span.start.line..=mutant.span.end.line', 'mutant.span.start.line..mutant.span.end.line.max(mutant.span.start.line + 1)'))
B('diff-first-line-only', 'C19', (IND, 'for line in mutant.span.start.line..=mutant.span.end.line {', 'for line in [mutant.span.start.line, mutant.span.end.line] {'))
B('diff-no-after-deletion', 'C19', (IND, '''                        affected_lines.push(lineno);
                        prev_removed = false;''', '''                        if matches!(line, Line::Add(_)) {
                            affected_lines.push(lineno);
                        }
                        prev_removed = false;'''))
B('diff-before-deletion-strict', 'C19', (IND, 'if lineno > 1\n                        &&', 'if lineno > 2\n                        &&'))
B('diff-prev-removed-lost', 'C19', (IND, '                Line::Context(_) => {\n                    lineno += 1;', '                Line::Context(_) => {\n                    prev_removed = false;\n                    lineno += 1;'),
  (IND, '''                    prev_removed = true;
                }
                Line::Add(_) | Line::Context(_) => {
                    if prev_removed {''', '''                    prev_removed = affected_lines.len() % 2 == 0;
                }
                Line::Add(_) | Line::Context(_) => {
                    if prev_removed {'''))
B('diff-mismatch-beyond-end', 'C19', (IND, 'let source_content = lines.get(lineno - 1).unwrap_or(&"");', 'let Some(source_content) = lines.get(lineno) else { continue };'))
B('diff-mismatch-trim', 'C19', (IND, 'if diff_content != *source_content {', 'if diff_content != *source_content && lineno > 4 {'))
B('diff-only-first-hunk', 'C19', (IND, '    for hunk in &patch.hunks {\n        let mut lineno: usize = hunk.new_range.start.try_into().unwrap();\n        if hunk', '    for hunk in patch.hunks.iter().take(1) {\n        let mut lineno: usize = hunk.new_range.start.try_into().unwrap();\n        if hunk'))
B('diff-dev-null-break', 'C19', (IND, "            // The file was deleted; we can't possibly match anything in it.\n            continue;", "            break;"))
B('diff-file-name', 'C19', (IND, 'path.strip_prefix("b").unwrap_or(path)', 'path.strip_prefix("b").ok().and_then(|p| p.strip_prefix("b").ok().or(Some(p))).unwrap_or(path)'))
Q('diff-refactor', (IND, '''    'mutant: for mutant in mutants {
        let path = mutant.source_file.path();
        if let Some(lines_changed) = lines_changed_by_path.get(path) {''', '''    for mutant in mutants {
        let path = mutant.source_file.path();
        let Some(lines_changed) = lines_changed_by_path.get(path) else { continue };
        {'''),
  (IND, '''            for line in mutant.span.start.line..=mutant.span.end.line {
                if lines_changed.binary_search(&line).is_ok() {
                    trace!(
                        ?path,
                        line,
                        mutant = mutant.name(true),
                        "diff matched mutant"
                    );
                    matched.push(mutant);
                    continue 'mutant;
                }
            }''', '''            let hit = lines_changed
                .iter()
                .any(|l| mutant.span.start.line <= *l && *l <= mutant.span.end.line);
            if hit {
                matched.push(mutant);
            }'''))
Q('diff-refactor-lines', (IND, '''                Line::Add(_) | Line::Context(_) => {
                    if prev_removed {
                        debug_assert!(
                            affected_lines.last().map_or(true, |last| *last < lineno),
                            "{lineno} {affected_lines:?}"
                        );
                        debug_assert!(lineno >= 1, "{lineno}");
                        affected_lines.push(lineno);
                        prev_removed = false;
                    }
                }''', '''                Line::Add(_) | Line::Context(_) if prev_removed => {
                    affected_lines.push(lineno);
                    prev_removed = false;
                }
                _ => {}'''))
Q('diff-helper', (IND, '    let mut matched: Vec<Mutant> = Vec::with_capacity(mutants.len());', '    let mut matched: Vec<Mutant> = Vec::new();'),
  (IND, '''                if lines_changed.binary_search(&line).is_ok() {''', '''                if lines_changed.contains(&line) {'''))

# ---- C20
SP = 'src/span.rs'
B('span-cr-extract', 'C20', (SP, '''            if c == '\\n' {
                line_no += 1;
                if line_no > end.line {
                    break;
                }
                col_no = 1;
            } else if c == '\\r' && chars.peek() == Some(&'\\n') {''', '''            if c == '\\n' {
                line_no += 1;
                if line_no > end.line {
                    break;
                }
                col_no = 1;
            } else if c == '\\r' {'''))
B('span-tail', 'C20', (SP, '''        if line_no == start.line && col_no == start.column {
            r.push_str(replacement);
        }
        r
''', '''        if line_no == start.line && col_no == start.column && !s.ends_with('\\n') {
            r.push_str(replacement);
        }
        r
'''))
B('span-end-line', 'C20', (SP, '|| (line_no == end.line && col_no >= end.column)\n            {\n                r.push(c);', '|| (line_no == end.line && line_no > start.line && col_no >= end.column)\n                || (line_no == end.line && line_no == start.line && col_no > end.column - 1 && c != \'\\n\')\n            {\n                r.push(c);'))
B('span-width', 'C20', (SP, '                r.push(c);\n            }\n            if c == \'\\n\' {\n                line_no += 1;\n                col_no = 1;\n            } else if c == \'\\r\' && chars.peek() == Some(&\'\\n\') {\n                // counts as part of the last column, not a separate column\n            } else {\n                col_no += 1;',
  '                r.push(c);\n            }\n            if c == \'\\n\' {\n                line_no += 1;\n                col_no = 1;\n            } else if c == \'\\r\' && chars.peek() == Some(&\'\\n\') {\n                // counts as part of the last column, not a separate column\n            } else {\n                col_no += c.len_utf8();'))
B('source-trim', 'C20', ('src/source.rs', '.replace("\\r\\n", "\\n"),', '.replace("\\r\\n", "\\n").trim_start().to_owned(),'))
B('source-cr', 'C20', ('src/source.rs', '.replace("\\r\\n", "\\n"),', '.replace("\\r", ""),'))
Q('span-refactor', (SP, '''            if line_no < start.line
                || line_no > end.line
                || (line_no == start.line && col_no < start.column)
                || (line_no == end.line && col_no >= end.column)
            {
                r.push(c);
            }''', '''            let before = line_no < start.line || (line_no == start.line && col_no < start.column);
            let after = line_no > end.line || (line_no == end.line && col_no >= end.column);
            if !before && !after {
            } else {
                r.push(c);
            }'''))
Q('span-tuple', (SP, '''            if line_no == start.line && col_no == start.column {
                r.push_str(replacement);
            }
            if''', '''            if (line_no, col_no) == (start.line, start.column) {
                r.push_str(replacement);
            }
            if'''))

# ---- C34
VIS = 'src/visit.rs'
B('mods-excluded-not-followed', 'C34', (VIS, '''        for mod_namespace in &external_mods {''', '''        if !options.allows_source_file_path(&source_file.tree_relative_path) {
            continue;
        }
        for mod_namespace in &external_mods {'''))
B('mods-modrs-first-parent', 'C34', (VIS, 'parent_path.ends_with("mod.rs")', 'parent_path.as_str().ends_with("mod.rs")'))
B('mods-order', 'C34', (VIS, '[".rs", "/mod.rs"]', '["/mod.rs", ".rs"]'))
B('mods-only-rs', 'C34', (VIS, '[".rs", "/mod.rs"]\n            .iter()', '[".rs", "/mod.rs"]\n            .iter()\n            .take(if mod_parents.is_empty() { 2 } else { 1 })'))
B('mods-inline-attr', 'C34', (VIS, 'search_dir.extend(mod_parents.iter().map(ModNamespace::get_filesystem_name));', 'search_dir.extend(mod_parents.iter().map(|m| Utf8Path::new(&m.name)));'))
B('mods-with-extension', 'C34', (VIS, 'parent_path.with_extension("") // foo.rs -> foo/', 'parent_path.with_file_name(parent_path.file_name().unwrap().split(\'.\').next().unwrap())'))
B('mods-stack', 'C34', (VIS, '''                parts: self.mod_namespace_stack.clone(),''', '''                parts: self.mod_namespace_stack.iter().rev().take(2).rev().cloned().collect(),'''))
B('mods-unreadable', 'C34', (VIS, '''SourceFile::load(workspace_dir, &path, package, package_top)?
''', '''SourceFile::load(workspace_dir, &path, package, package_top).unwrap_or_default()
'''))
B('mods-allows', 'C34', (VIS, 'file_mutants.retain(|m| options.allows_mutant(m));', 'if package_top { file_mutants.retain(|m| options.allows_mutant(m)); }'))
B('mods-outside-stop', 'C34', (VIS, '''            info!("Skipping source file outside of tree: {path:?}");
            continue;''', '''            info!("Skipping source file outside of tree: {path:?}");
            break;'''))
B('mods-ascent', 'C34', ('src/path.rs', '''            "." => (),
            _ => ascent -= 1,''', '''            "." => (),
            _ => ascent = 0,'''))
B('mods-top-all', 'C34', (VIS, 'filename_queue.push_back((mod_path, by_path_attribute));', 'filename_queue.push_back((mod_path, by_path_attribute || package_top));'))
B('mods-stack-left', 'C34', (VIS, '''                error!(?path_attribute, ?definition_site, %mod_name, "invalid filesystem traversal in mod path attribute");
                return;''', '''                error!(?path_attribute, ?definition_site, %mod_name, "invalid filesystem traversal in mod path attribute");
                None'''))
Q('mods-refactor', (VIS, '''    while let Some((path, package_top)) = filename_queue.pop_front() {
        if !visited.insert(path.clone()) {''', '''    loop {
        let Some((path, package_top)) = filename_queue.pop_front() else { break };
        let first = visited.insert(path.clone());
        if !first {'''),
  (VIS, '''        for mod_namespace in &external_mods {
            if let Some(mod_path) = find_mod_source(workspace_dir, &source_file, mod_namespace) {''', '''        for mod_namespace in external_mods.iter() {
            let found = find_mod_source(workspace_dir, &source_file, mod_namespace);
            if let Some(mod_path) = found {'''),
  (VIS, '''        if !options.allows_source_file_path(&source_file.tree_relative_path) {
            continue;
        }
        mutants.append(&mut file_mutants);
        files.push(source_file);''', '''        if options.allows_source_file_path(&source_file.tree_relative_path) {
            mutants.extend(file_mutants);
            files.push(source_file);
        }'''))
Q('mods-find-refactor', (VIS, '''    let mut tried_paths = Vec::new();
    for relative_path in mod_child_candidates {
        let full_path = tree_root.join(&relative_path);
        if full_path.is_file() {
            trace!("found submodule in {full_path}");
            return Some(relative_path);
        }
        tried_paths.push(full_path);
    }''', '''    let tried_paths: Vec<Utf8PathBuf> = mod_child_candidates.iter().map(|p| tree_root.join(p)).collect();
    if let Some(found) = mod_child_candidates.iter().find(|p| tree_root.join(p).is_file()) {
        return Some(found.clone());
    }'''))

# ---- C35
PKG = 'src/package.rs'
WS = 'src/workspace.rs'
B('pkg-kind-first', 'C35', (PKG, 'target.kind.iter().any(|kind| {', 'target.kind.iter().take(1).any(|kind| {'))
B('pkg-rlib', 'C35', (PKG, '                | TargetKind::RLib\n', ''))
B('pkg-example', 'C35', (PKG, '                | TargetKind::RLib\n', '                | TargetKind::RLib\n                | TargetKind::CustomBuild\n'))
B('pkg-nodedup', 'C35', (PKG, '    found.dedup();\n', ''))
B('pkg-auto-prefix', 'C35', (WS, 'if root.join(&package.relative_dir) == package_dir {', 'if package_dir.starts_with(root.join(&package.relative_dir)) {'))
B('pkg-by-name-prefix', 'C35', (WS, 'self.packages.iter().find(|p| p.name == name)', 'self.packages.iter().find(|p| p.name.starts_with(name))'))
B('pkg-workspace-over-package', 'C35', (MAIN, '''    let package_filter = if !args.mutate_packages.is_empty() {
        PackageFilter::explicit(&args.mutate_packages)
    } else if args.workspace {
        PackageFilter::All
    } else {''', '''    let package_filter = if args.workspace {
        PackageFilter::All
    } else if !args.mutate_packages.is_empty() {
        PackageFilter::explicit(&args.mutate_packages)
    } else {'''))
B('pkg-auto-cwd', 'C35', (MAIN, 'PackageFilter::Auto(start_dir.to_owned())', 'PackageFilter::Auto(workspace.root().to_owned())'))
B('pkg-default-unsorted', 'C35', (WS, '''                ensure!(
                    package_dir == root,
                    "package {package_dir:?} doesn't match any child and doesn't match the workspace root {root:?}?",
                );
''', ''))
Q('pkg-refactor', (WS, '''                for package in &self.packages {
                    // If this package is one of the workspace members, then select this package.
                    if root.join(&package.relative_dir) == package_dir {
                        debug!(
                            package = package.name,
                            ?package_dir,
                            "Resolved auto package filter based on enclosing directory"
                        );
                        return Ok(PackageSelection::Explicit(vec![package.clone()]));
                    }
                }''', '''                if let Some(package) = self.packages.iter().find(|package| package_dir == root.join(&package.relative_dir)) {
                    return Ok(PackageSelection::Explicit(vec![Arc::clone(package)]));
                }'''),
  (PKG, '''    for target in &package_metadata.targets {
        if should_mutate_target(target) {
            if let''', '''    for target in package_metadata.targets.iter() {
        let mutate = should_mutate_target(target);
        if mutate {
            if let'''))
Q('pkg-main-refactor', (MAIN, '''    let package_filter = if !args.mutate_packages.is_empty() {
        PackageFilter::explicit(&args.mutate_packages)
    } else if args.workspace {
        PackageFilter::All
    } else {
        PackageFilter::Auto(start_dir.to_owned())
    };''', '''    let package_filter = match (args.mutate_packages.as_slice(), args.workspace) {
        ([], true) => PackageFilter::All,
        ([], false) => PackageFilter::Auto(start_dir.to_path_buf()),
        (names, _) => PackageFilter::explicit(names),
    };'''))

# ---- C18
OPT = 'src/options.rs'
B('filt-exclude-any', 'C18', (OPT, '(self.examine_names.is_empty() || self.examine_names.is_match(&name))\n            && (', '(self.examine_names.is_empty() || self.examine_names.is_match(&name))\n            || !self.exclude_names.is_empty() && ('))
B('filt-name-nocol', 'C18', (OPT, 'let name = mutant.name(true);', 'let name = mutant.name(false);'))
B('filt-exclude-if-examine', 'C18', (OPT, '            && !self\n                .exclude_globset', '            && self.examine_globset.is_some() || !self\n                .exclude_globset'))
B('glob-nosep', 'C18', ('src/glob.rs', '.literal_separator(true)', '.literal_separator(match_whole_path)'))
B('glob-nodir', 'C18', ('src/glob.rs', '''                Cow::Owned(format!("**/{glob_str}/**")),
''', ''))
B('glob-slash-start', 'C18', ('src/glob.rs', "glob_str.contains('/')", "glob_str.trim_start_matches('/').contains('/')"))
Q('filt-refactor', (OPT, '''        let name = mutant.name(true);
        (self.examine_names.is_empty() || self.examine_names.is_match(&name))
            && (self.exclude_names.is_empty() || !self.exclude_names.is_match(&name))''', '''        let name = mutant.name(true);
        if !self.exclude_names.is_empty() && self.exclude_names.is_match(&name) {
            return false;
        }
        self.examine_names.len() == 0 || self.examine_names.is_match(&name)'''),
  (OPT, '''        self.examine_globset
            .as_ref()
            .map_or(true, |g| g.is_match(path))
            && !self
                .exclude_globset
                .as_ref()
                .is_some_and(|g| g.is_match(path))''', '''        if let Some(g) = &self.exclude_globset {
            if g.is_match(path) {
                return false;
            }
        }
        match &self.examine_globset {
            Some(g) => g.is_match(path),
            None => true,
        }'''),
  ('src/glob.rs', '''        let adjusted = if match_whole_path {
            vec![Cow::Borrowed(glob_str)]
        } else {
            vec![
                Cow::Owned(format!("**/{glob_str}")),
                Cow::Owned(format!("**/{glob_str}/**")),
            ]
        };
        for g in adjusted {''', '''        let mut adjusted: Vec<Cow<str>> = Vec::new();
        if match_whole_path {
            adjusted.push(glob_str.into());
        } else {
            for tail in ["", "/**"] {
                adjusted.push(format!("**/{glob_str}{tail}").into());
            }
        }
        for g in &adjusted {'''))

# ---- C23
B('opt-swap-or', 'C23', (OPT, 'args.copy_vcs.or(config.copy_vcs)', 'config.copy_vcs.or(args.copy_vcs)'))
B('opt-caplints', 'C23', (OPT, 'args.cap_lints.unwrap_or(config.cap_lints)', 'args.cap_lints.unwrap_or(false) || config.cap_lints'))
B('opt-re-swap', 'C23', (OPT, 'or_slices(&args.exclude_re, &config.exclude_re)', 'or_slices(&config.exclude_re, &args.exclude_re)'))
B('opt-glob-cross', 'C23', (OPT, 'or_slices(&args.exclude, &config.exclude_globs)', 'or_slices(&args.exclude, &config.examine_globs)'))
B('opt-join-order', 'C23', (OPT, 'join_slices(&args.cargo_arg, &config.additional_cargo_args)', 'join_slices(&config.additional_cargo_args, &args.cargo_arg)'))
B('opt-error-only-args', 'C23', (OPT, 'error_values: join_slices(&args.error, &config.error_values)', 'error_values: or_slices(&args.error, &config.error_values).to_vec()'))
B('opt-mult-cross', 'C23', (OPT, '.or(config.build_timeout_multiplier)', '.or(config.timeout_multiplier)'))
B('opt-skip-default', 'C23', (OPT, '''            .skip_calls_defaults
            .or(config.skip_calls_defaults)
            .unwrap_or(true)''', '''            .skip_calls_defaults
            .or(config.skip_calls_defaults)
            .unwrap_or(config.skip_calls.is_empty())'''))
B('opt-skip-nosplit', 'C23', (OPT, '.chain(config.skip_calls.iter().cloned())', '.chain(config.skip_calls.iter().skip(args.skip_calls.len()).cloned())'))
B('opt-testws', 'C23', (OPT, 'args.test_workspace.is_none() && config.test_workspace == Some(true)', 'config.test_workspace == Some(true)'))
B('opt-testpkg-prio', 'C23', (OPT, 'if args.test_workspace == Some(true) {', 'if args.test_workspace == Some(true) || (args.test_package.is_empty() && config.test_workspace == Some(true)) {'))
B('opt-mintimeout', 'C23', (OPT, '.unwrap_or(20f64)', '.unwrap_or(10f64)'))
B('opt-jobs-cap', 'C23', (OPT, 'jobs: args.jobs,', 'jobs: args.jobs.map(|j| j.min(8)),'))
B('opt-build-timeout', 'C23', (OPT, 'build_timeout: args.build_timeout.map(', 'build_timeout: args.build_timeout.or(args.timeout).map('))
B('opt-config-ignored-error', 'C23', (MAIN, 'config::Config::read_tree_config(workspace.root())?', 'config::Config::read_tree_config(workspace.root()).unwrap_or_default()'))
B('opt-noconfig', 'C23', (MAIN, 'let config = if args.no_config {', 'let config = if args.no_config && !args.in_place {'))
Q('opt-refactor', (OPT, '''        let test_package = if args.test_workspace == Some(true) {
            TestPackages::Workspace
        } else if !args.test_package.is_empty() {''', '''        let test_package = if let Some(true) = args.test_workspace {
            TestPackages::Workspace
        } else if args.test_package.len() > 0 {'''),
  (OPT, '''        let mut skip_calls: Vec<String> = args
            .skip_calls
            .iter()
            .flat_map(|s| s.split(','))
            .map(ToString::to_string)
            .chain(config.skip_calls.iter().cloned())
            .collect();''', '''        let mut skip_calls: Vec<String> = Vec::new();
        for s in &args.skip_calls {
            for part in s.split(',') {
                skip_calls.push(part.to_owned());
            }
        }
        skip_calls.extend(config.skip_calls.iter().cloned());'''),
  (OPT, '''            copy_vcs: args.copy_vcs.or(config.copy_vcs).unwrap_or(false),''', '''            copy_vcs: match (args.copy_vcs, config.copy_vcs) {
                (Some(x), _) | (None, Some(x)) => x,
                (None, None) => false,
            },'''),
  (OPT, '''    a.iter().chain(b).cloned().collect()''', '''    [a, b].concat()'''),
  (OPT, '''            cap_lints: args.cap_lints.unwrap_or(config.cap_lints),''', '''            cap_lints: if let Some(c) = args.cap_lints { c } else { config.cap_lints },'''))
Q('opt-refactor-config', ('src/config.rs', '''        if path.exists() {
            Config::read_file(path.as_ref())
        } else {
            Ok(Config::default())
        }''', '''        if !path.exists() {
            return Ok(Config::default());
        }
        Config::read_file(path.as_std_path())'''))

# ---- C26
MAN = 'src/manifest.rs'
B('man-inside', 'C26', ('src/path.rs', '                ascent += 1;\n                max_ascent = max(ascent, max_ascent);', '                ascent += 1;\n                max_ascent = ascent;'))
B('man-last', 'C26', ('src/path.rs', '    max_ascent\n}', '    max(ascent, 0)\n}'))
B('man-dot', 'C26', ('src/path.rs', '            "." => (),', '            "." => ascent -= 1,'))
B('man-prefix', 'C26', (MAN, 'if path.is_absolute() || ascent(path) == 0 {', 'if path.is_absolute() || !path.starts_with("..") {'))
B('man-once', 'C26', (MAN, 'for (_, value) in dependencies_table.iter_mut() {', 'for (_, value) in dependencies_table.iter_mut().take(8) {') if False else (MAN, 'for (_name, dependencies) in patch_table {', 'for (_name, dependencies) in patch_table.iter_mut().take(1) {'))
B('man-config-base', 'C26', ('src/build_dir.rs', 'fix_cargo_config(&path, &source_abs)?;', 'fix_cargo_config(&path, source)?;'))
B('man-config-err', 'C26', ('src/build_dir.rs', 'fix_cargo_config(&path, &source_abs)?;', 'if options.gitignore { fix_cargo_config(&path, &source_abs)?; }'))
B('man-config-first', 'C26', (MAN, '                    changed = true;\n', '                    changed = true;\n                    break;\n'))
B('man-write-ignored', 'C26', (MAN, '''        replace_file(manifest_scratch_path, &toml_str).with_context(|| {
            format!("Failed to write fixed manifest to {manifest_scratch_path}")
        })?;''', '''        let _ = replace_file(manifest_scratch_path, &toml_str);'''))
B('man-string-dep', 'C26', (MAN, '            if let Some(dependency_table) = value.as_table_mut() {', '            let Some(dependency_table) = value.as_table_mut() else { break };\n            {'))
Q('man-refactor', (MAN, '''    if let Some(dependencies_table) = dependencies.as_table_mut() {
        for (_, value) in dependencies_table.iter_mut() {
            if let Some(dependency_table) = value.as_table_mut() {
                if let Some(path_value) = dependency_table.get_mut("path") {
                    if let Some(path_str) = path_value.as_str() {
                        if let Some(new_path) = fix_path(path_str, manifest_source_dir) {
                            *path_value = toml::Value::String(new_path);
                        }
                    }
                }
            }
        }
    }''', '''    let Some(dependencies_table) = dependencies.as_table_mut() else {
        return;
    };
    for (_name, value) in dependencies_table {
        let Some(path_value) = value.get_mut("path") else { continue };
        if let Some(new_path) = path_value.as_str().and_then(|s| fix_path(s, manifest_source_dir)) {
            *path_value = new_path.into();
        }
    }'''), (MAN, '''    if value == orig_value {
        Ok(None)
    } else {
        Ok(Some(value))
    }''', '''    Ok((value != orig_value).then_some(value))'''),
  ('src/path.rs', '''    for component in path.components().map(|c| c.as_str()) {
        match component {''', '''    for component in path.components() {
        match component.as_str() {'''))
Q('man-refactor2', (MAN, '''        let mut new_path = source_dir.to_owned();
        new_path.push(path);
        let new_path_str = new_path.to_string();''', '''        let new_path_str = source_dir.join(path).into_string();'''),
  (MAN, '''    let mut changed = false;
    if let Some(paths) = value.get_mut("paths").and_then(|p| p.as_array_mut()) {
        for path_value in paths {
            if let Some(path_str) = path_value.as_str() {
                if let Some(new_path) = fix_path(path_str, source_dir) {
                    *path_value = toml::Value::String(new_path);
                    changed = true;
                }
            }
        }
    }
    if changed {
        Ok(Some(toml::to_string_pretty(&value)?))
    } else {
        Ok(None)
    }''', '''    let mut n_changed = 0;
    if let Some(paths) = value.get_mut("paths").and_then(|p| p.as_array_mut()) {
        for path_value in paths.iter_mut() {
            let fixed = path_value.as_str().and_then(|p| fix_path(p, source_dir));
            if let Some(new_path) = fixed {
                *path_value = toml::Value::String(new_path);
                n_changed += 1;
            }
        }
    }
    if n_changed == 0 {
        return Ok(None);
    }
    Ok(Some(toml::to_string_pretty(&value)?))'''))

# ---- C36 and the JSON of C03
MUT = 'src/mutant.rs'
B('name-noforce', 'C36', (MUT, '''                .map(|x| x.force_styling(false).to_string()),
        );
        v.join("")''', '''                .map(|x| x.to_string()),
        );
        v.join("")'''))
B('name-describe-noforce', 'C36', (MUT, '''            .map(|x| x.force_styling(false).to_string())
            .collect::<String>()''', '''            .map(|x| x.to_string())
            .collect::<String>()'''))
B('name-guard-orig', 'C36', (MUT, '''                v.push(s("replace match guard with "));
                v.push(s(self.replacement_text()).yellow());''', '''                v.push(s("replace match guard with "));
                v.push(s(self.original_text()).yellow());'''))
B('name-fn-rt', 'C36', (MUT, 'if !function.return_type.is_empty() {', 'if function.return_type.len() > 5 {'))
B('name-end', 'C36', (MUT, '''                ":{}:{}",
                self.span.start.line, self.span.start.column''', '''                ":{}:{}",
                self.span.start.line, self.span.end.column'''))
B('json-span', 'C36', (MUT, '''        ss.serialize_field("span", &self.span)?;
        ss.serialize_field("replacement"''', '''        ss.serialize_field("span", self.function.as_ref().map_or(&self.span, |f| &f.span))?;
        ss.serialize_field("replacement"'''))
B('json-diff-swap', 'C36', (MUT, 'TextDiff::from_lines(self.source_file.code(), mutated_code)', 'TextDiff::from_lines(mutated_code, self.source_file.code())'))
B('json-pkg', 'C36', ('src/span.rs', '#[derive(Clone, Copy, PartialEq, Eq, Serialize)]\npub struct Span {', '#[derive(Clone, Copy, PartialEq, Eq, Serialize)]\npub struct Span {\n    #[serde(rename(serialize = "begin"))]') if False else (MUT, 'ss.serialize_field("function", &self.function.as_ref().map(Arc::as_ref))?;', 'ss.serialize_field("function", &self.function.as_ref().map(Arc::as_ref).filter(|_| self.genre == Genre::FnValue))?;'))
B('json-summary', 'C03', (OUT, 'ss.serialize_field("summary", &self.summary())?;', 'ss.serialize_field("summary", &if self.success() { SummaryOutcome::Success } else { self.summary() })?;'))
B('json-phase-last', 'C03', (OUT, 'ss.serialize_field("phase_results", &self.phase_results)?;', 'ss.serialize_field("phase_results", &self.phase_results[..self.phase_results.len().min(1)])?;'))
B('json-skip-zero', 'C03', (OUT, '    pub unviable: usize,\n', '    #[serde(rename = "failed")]\n    pub unviable: usize,\n'))
Q('name-refactor', (MUT, '''        let mut v = Vec::new();
        v.push(self.source_file.tree_relative_slashes());
        if show_line_col {
            v.push(format!(
                ":{}:{}: ",
                self.span.start.line, self.span.start.column
            ));
        } else {
            v.push(": ".to_owned());
        }
        v.extend(
            self.styled_parts()
                .into_iter()
                .map(|x| x.force_styling(false).to_string()),
        );
        v.join("")''', '''        let mut name = self.source_file.tree_relative_slashes();
        if show_line_col {
            let start = self.span.start;
            name.push_str(&format!(":{}:{}", start.line, start.column));
        }
        name.push_str(": ");
        name += &self.describe_change();
        name'''), (MUT, '''                if self.replacement.is_empty() {
                    v.push(s("delete "));
                } else {
                    v.push(s("replace "));
                }
                v.push(s(self.original_text()).yellow());
                if !self.replacement.is_empty() {
                    v.push(s(" with "));
                    v.push(s(&self.replacement).bright().yellow());
                }''', '''                let original = s(self.original_text()).yellow();
                if self.replacement.is_empty() {
                    v.extend([s("delete "), original]);
                } else {
                    v.extend([s("replace "), original, s(" with "), s(&self.replacement).bright().yellow()]);
                }'''))
Q('json-refactor', (MUT, '''        let mut ss = serializer.serialize_struct("Mutant", 7)?;
        ss.serialize_field("package", &self.source_file.package.name)?;''', '''        let package_name = self.source_file.package.name.as_str();
        let mut ss = serializer.serialize_struct("Mutant", 6)?;
        ss.serialize_field("package", package_name)?;'''), (MUT, 'ss.serialize_field("function", &self.function.as_ref().map(Arc::as_ref))?;', 'ss.serialize_field("function", &self.function.as_deref())?;'))

# ---- C06
B('dir-shared', 'C06', (LAB, 'let build_dir_0 = build_dir_0.lock().expect("lock build dir 0").take(); // separate for lock\n                let build_dir = &if let Some(d) = build_dir_0 {\n                    d\n                } else {\n                    BuildDir::copy_from(workspace.root(), options, console)?\n                };',
   'let build_dir_0 = build_dir_0.lock().expect("lock build dir 0").take();\n                let build_dir = &if let Some(d) = build_dir_0 {\n                    d\n                } else {\n                    BuildDir::for_baseline(workspace, options, console)?\n                };'))
B('dir-inplace-jobs', 'C06', (LAB, 'BuildDir::copy_from(workspace.root(), options, console)?\n                };', 'BuildDir::in_place(workspace.root())?\n                };'))
# ---- C07
B('queue-extra', 'C07', (LAB, '                return Ok(());\n            };', '                return Ok(());\n            };\n            if mutant.replacement.is_empty() && self.options.check_only { continue; }'))
B('queue-skip-err', 'C07', (LAB, 'self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;', 'if self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts).is_err() { continue; }'))
B('queue-err-last', 'C07', (LAB, 'if let Some(first_err) = errors.into_iter().next() {', 'if let Some(first_err) = errors.into_iter().nth(1) {'))
B('queue-threads', 'C07', (LAB, '.filter_map(|thread| match thread.join() {\n            Err(panic) => resume_unwind(panic),', '.filter_map(|thread| match thread.join() {\n            Err(_panic) => None,'))
B('queue-zero', 'C07', (LAB, 'let n_threads = max(1, min(options.jobs.unwrap_or(1), mutants.len()));', 'let n_threads = min(options.jobs.unwrap_or(1), mutants.len());'))
B('queue-copyerr', 'C07', (LAB, '                    BuildDir::copy_from(workspace.root(), options, console)?\n                };', '                    match BuildDir::copy_from(workspace.root(), options, console) { Ok(d) => d, Err(_) => return Ok(()) }\n                };'))
B('queue-truncate', 'C07', (LAB, '    output_dir.write_mutants_list(&mutants)?;\n', '    output_dir.write_mutants_list(&mutants)?;\n    mutants.truncate(10_000);\n'))
B('queue-dedup', 'C07', (LAB, '    output_dir.write_mutants_list(&mutants)?;\n', '    output_dir.write_mutants_list(&mutants)?;\n    mutants.dedup_by_key(|m| m.name(false));\n'))
# ---- C08
B('base-summary', 'C08', (LAB, 'if outcome.success() {\n                Timeouts', 'if outcome.success() || outcome.has_timeout() {\n                Timeouts'))
B('base-last', 'C08', (OUT, '''        self.last_phase_result().is_success()''', '''        self.phase_results[0].process_status.is_success()'''))
B('base-skip', 'C08', (LAB, '        BaselineStrategy::Run => {', '        BaselineStrategy::Run if mutants.len() > 1 || !options.in_place => {'), (LAB, 'BaselineStrategy::Skip => Timeouts', '_ => Timeouts'))
B('base-pkgs', 'C08', (LAB, '''                    .unique()
                    .collect_vec(),''', '''                    .unique()
                    .take(1)
                    .collect_vec(),'''))
B('base-named', 'C08', (LAB, '''            TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
        };
        self.make_worker''', '''            TestsForMutant::Explicit(_) => PackageSelection::Explicit(vec![Arc::clone(&mutants[0].source_file.package)]),
        };
        self.make_worker'''))
# ---- C37
B('tests-byname-first', 'C37', ('src/workspace.rs', '            .dedup() // in case a package is named twice', '            .take(1)'))
B('tests-byname-prefix', 'C37', ('src/workspace.rs', 'self.packages.iter().find(|p| p.name == name)', 'self.packages.iter().find(|p| p.name.starts_with(name))'))
B('tests-workspace', 'C37', (LAB, '            TestPackages::Workspace => TestsForMutant::Workspace,', '            TestPackages::Workspace if workspace.packages_by_name(&["x"]).is_empty() => TestsForMutant::Workspace,\n            TestPackages::Workspace => TestsForMutant::Mutated,'))
Q('tests-refactor', (LAB, '''            let test_packages = match self.tests_for_mutant {
                TestsForMutant::Workspace => PackageSelection::All,
                TestsForMutant::Mutated => {
                    PackageSelection::Explicit(vec![mutant.source_file.package.clone()])
                }
                TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
            };
''', '''            let test_packages = self.packages_for(&mutant);
'''), (LAB, '''    fn run_one_scenario(
        &mut self,''', '''    fn packages_for(&self, mutant: &Mutant) -> PackageSelection {
        let mut selected = Vec::new();
        match self.tests_for_mutant {
            TestsForMutant::Workspace => return PackageSelection::All,
            TestsForMutant::Mutated => selected.push(Arc::clone(&mutant.source_file.package)),
            TestsForMutant::Explicit(packages) => selected.clone_from(packages),
        }
        PackageSelection::Explicit(selected)
    }

    fn run_one_scenario(
        &mut self,'''))
# ---- C09
B('phase-timeout-swap', 'C09', (LAB, '''                Phase::Test => timeouts.test,
                Phase::Build | Phase::Check => timeouts.build,''', '''                Phase::Test => timeouts.test,
                Phase::Build => timeouts.build,
                Phase::Check => timeouts.test,'''))
B('phase-continue', 'C09', (LAB, '                    if !success {\n                        break;', '                    if !success && phase != Phase::Check {\n                        break;') if False else (LAB, '                    if !success {\n                        break;', '                    if outcome.last_phase_result().is_failure() {\n                        break;'))
B('phase-order', 'C09', (OPT, '            &[Phase::Build, Phase::Test]', '            &[Phase::Test]'))
# ---- C10
B('kill-single', 'C10', (UNIX, 'killpg(pid, Signal::SIGTERM)', 'nix::sys::signal::kill(pid, Signal::SIGTERM)'))
B('kill-nogroup', 'C10', (UNIX, '    command.process_group(0);', '    if std::env::var_os("MUTANTS_NO_GROUP").is_none() { command.process_group(0); }'))
B('kill-nowait', 'C10', (PROC, 'match self.child.wait() {', 'match self.child.try_wait() {'))
B('kill-timeout-noterm', 'C10', (PROC, '''            debug!("timeout, terminating child process...",);
            self.terminate()?;
            Ok(Some''', '''            debug!("timeout, terminating child process...",);
            if self.child.try_wait()?.is_none() { let _ = self.child.kill(); }
            Ok(Some'''))
B('kill-interrupt-noterm', 'C10', (PROC, '''            debug!("interrupted, terminating child process...");
            self.terminate()?;''', '''            debug!("interrupted, terminating child process...");'''))
B('kill-cfg-missing', 'C10', (PROC, '        configure_command(&mut command);\n', '        if jobserver.is_none() { configure_command(&mut command); }\n'))
# ---- C11
B('int-run-cargo', 'C11', ('src/cargo.rs', '    check_interrupted()?;\n    debug!(?process_status', '    debug!(?process_status'))
B('int-poll-order', 'C11', (PROC, '''        } else if let Err(e) = check_interrupted() {
            debug!("interrupted, terminating child process...");
            self.terminate()?;
            Err(e)
        } else if let Some(status) = self.child.try_wait()? {
            Ok(Some(status.into()))''', '''        } else if let Some(status) = self.child.try_wait()? {
            Ok(Some(status.into()))
        } else if let Err(e) = check_interrupted() {
            debug!("interrupted, terminating child process...");
            self.terminate()?;
            Err(e)'''), ('src/cargo.rs', '    check_interrupted()?;\n    debug!(?process_status', '    debug!(?process_status'))
B('int-lock', 'C11', (OD, '            check_interrupted()?;\n            sleep(LOCK_POLL);', '            sleep(LOCK_POLL);'))
B('int-handler', 'C11', (MAIN, '    interrupt::install_handler();', '    if !args.in_place { interrupt::install_handler(); }'))
B('int-reset', 'C11', ('src/interrupt.rs', 'if INTERRUPTED.load(Ordering::SeqCst) {', 'if INTERRUPTED.swap(false, Ordering::SeqCst) {'))
B('int-copy', 'C11', ('src/copy_tree.rs', '        check_interrupted()?;\n', ''))
# ---- C12
B('lock-shared', 'C12', (OD, 'lock_file.try_lock_exclusive()', 'lock_file.try_lock_shared()'))
B('lock-giveup', 'C12', (OD, '            check_interrupted()?;\n            sleep(LOCK_POLL);', '            check_interrupted()?;\n            sleep(LOCK_POLL);\n            if !first { break; }'))
B('lock-dropped', 'C12', (OD, '''        let lock_file = LockFile::acquire_lock(output_dir.as_std_path())
            .context("create lock.json lock file")?;''', '''        let lock_file = LockFile::acquire_lock(output_dir.as_std_path())
            .context("create lock.json lock file")?;
        lock_file.unlock()?;'''))
B('lock-existing', 'C12', (OD, '            LockFile::acquire_lock(output_dir.as_ref())?;\n', '            if output_dir.join("caught.txt").exists() { LockFile::acquire_lock(output_dir.as_ref())?; }\n'))
B('lock-create-all', 'C12', (OD, '''        create_dir(&output_dir)
            .with_context(|| format!("create output directory {:?}", &output_dir))?;''', '''        std::fs::create_dir_all(&output_dir)
            .with_context(|| format!("create output directory {:?}", &output_dir))?;'''))
B('lock-take', 'C12', (OD, '    pub fn take_lab_outcome(self) -> LabOutcome {\n        self.lab_outcome', '    pub fn take_lab_outcome(self) -> LabOutcome {\n        self.lab_outcome') if False else (OD, '            rename(&output_dir, &rotated)\n', '            let _ = &rotated; std::fs::remove_dir_all(&output_dir)\n'))
# ---- C13
B('disk-json-late', 'C13', (OD, '        self.write_lab_outcome()?;\n', '        if self.lab_outcome.outcomes.len() % 10 == 1 { self.write_lab_outcome()?; }\n'))
B('disk-mutants-list', 'C13', (LAB, '    output_dir.write_mutants_list(&mutants)?;\n    console.discovered_mutants(&mutants);', '    console.discovered_mutants(&mutants);'))
B('disk-order', 'C13', (LAB, '''        self.output_mutex
            .lock()
            .expect("lock output dir to add outcome")
            .add_scenario_outcome(&outcome)?;''', '''        let _ = self.output_mutex
            .lock()
            .expect("lock output dir to add outcome")
            .add_scenario_outcome(&outcome);'''))
# ---- C14
B('iter-timeout', 'C14', (OD, 'for filename in [CAUGHT_TXT, UNVIABLE_TXT, PREVIOUSLY_CAUGHT_TXT] {', 'for filename in [CAUGHT_TXT, UNVIABLE_TXT, PREVIOUSLY_CAUGHT_TXT, "timeout.txt"] {'))
B('iter-noprev', 'C14', (OD, 'for filename in [CAUGHT_TXT, UNVIABLE_TXT, PREVIOUSLY_CAUGHT_TXT] {', 'for filename in [CAUGHT_TXT, UNVIABLE_TXT] {'))
B('iter-read-err', 'C14', (OD, '''                read_to_string(&p)
                    .with_context(|| format!("Read previously caught mutants from {p:?}"))?
                    .lines()''', '''                read_to_string(&p)
                    .unwrap_or_default()
                    .lines()'''))
B('iter-write', 'C14', (MAIN, '            output_dir.write_previously_caught(&previously_caught)?;', '            if args.shard.is_none() { output_dir.write_previously_caught(&previously_caught)?; }'))
B('iter-name', 'C14', ('src/visit.rs', 'let c = previously_caught.contains(&name);', 'let c = previously_caught.iter().any(|p| p.starts_with(&name));'))
B('iter-trim', 'C14', (OD, '            b.push_str(l);\n            b.push(\'\\n\');', '            b.push_str(l.trim_start());\n            b.push(\' \');'))
# ---- C15
B('shard-parse', 'C15', ('src/shard.rs', 'ensure!(k < n,', 'ensure!(k <= n,'))
B('shard-swap', 'C15', (MAIN, '''    if let Some(shard) = &args.shard {
        mutants = shard.select(mutants);
    }''', '''    if let Some(shard) = &args.shard {
        if mutants.len() > shard.n { mutants = shard.select(mutants); }
    }'''))
B('shard-chunk', 'C15', ('src/shard.rs', '''        mutants
            .into_iter()
            .enumerate()
            .filter_map(|(i, m)| if i % self.n == self.k { Some(m) } else { None })
            .collect()''', '''        mutants.into_iter().skip(self.k).step_by(self.n.max(2)).collect()'''))
B('shard-shuffled', 'C15', (MAIN, '''    if let Some(shard) = &args.shard {
        mutants = shard.select(mutants);
    }''', '''    if let Some(shard) = &args.shard {
        if options.shuffle { fastrand::shuffle(&mut mutants); }
        mutants = shard.select(mutants);
    }'''))
# ---- C21
CAR = 'src/cargo.rs'
B('env-insta', 'C21', (CAR, '("INSTA_UPDATE".to_owned(), "no".to_owned()),', '("INSTA_UPDATE".to_owned(), "new".to_owned()),'))
B('env-clear', 'C21', (PROC, '            .envs(os_env)', '            .env_remove("RUSTFLAGS")\n            .envs(os_env)'))
B('env-rustflags', 'C21', (CAR, '''        if encoded.is_empty() {
            Some(cap_lints_arg.to_owned())
        } else {
            Some(encoded + separator + cap_lints_arg)
        }''', '''        if encoded.is_empty() {
            Some(cap_lints_arg.to_owned())
        } else {
            Some(encoded + " " + cap_lints_arg)
        }'''))
B('env-priority', 'C21', (CAR, 'env::var("CARGO_ENCODED_RUSTFLAGS")', 'env::var("CARGO_BUILD_RUSTFLAGS")'))
B('env-caplints', 'C21', (CAR, '    if !options.cap_lints {\n        None', '    if !options.cap_lints && env::var("RUSTFLAGS").is_err() {\n        None'))
B('env-stdin', 'C10', (PROC, '            .stdin(Stdio::null())', '            .stdin(Stdio::inherit())'))
# ---- C22
B('argv-test-args', 'C22', (CAR, 'if phase == Phase::Test {\n        cargo_args', 'if phase != Phase::Check {\n        cargo_args'))
B('argv-features', 'C22', (CAR, '    if features.all_features {', '    if features.all_features && features.features.is_empty() {'))
B('argv-verbose-args', 'C22', (CAR, 'cargo_args.extend(options.additional_cargo_args.iter().cloned());', 'cargo_args.extend(options.additional_cargo_args.iter().filter(|a| !a.is_empty()).take(16).cloned());'))
B('argv-pkg', 'C22', (CAR, 'format!("--package={}", p.version_qualified_name())', 'format!("--package={}", p.name)'))
B('argv-nextest-profile', 'C22', (CAR, '                cargo_args.push(format!("--cargo-profile={profile}"));', '                cargo_args.push(format!("--profile={profile}"));'))
B('argv-check', 'C22', (CAR, '            cargo_args.push("--tests".to_string());', '            if options.test_tool == TestTool::Cargo { cargo_args.push("--tests".to_string()); }'))
B('argv-cwd', 'C10', (PROC, '            .current_dir(cwd);', '            .current_dir(cwd.parent().unwrap_or(cwd));'))
B('argv-testpkg', 'C37', (LAB, 'PackageSelection::Explicit(vec![mutant.source_file.package.clone()])', 'PackageSelection::All'))
# ---- C27
B('list-shard', 'C27', (MAIN, '    if let Some(shard) = &args.shard {', '    if let Some(shard) = args.shard.as_ref().filter(|_| !args.list) {'))
B('list-diffs', 'C27', ('src/list.rs', '            list.push(obj);', '            if !list.contains(&obj) { list.push(obj); }'))
B('list-lock', 'C27', (MAIN, '    if args.list {\n        print_stdout', '    if args.list {\n        let _ = OutputDir::new(&output_parent_dir)?;\n        print_stdout'))
B('list-linecol', 'C27', ('src/list.rs', 'out.push_str(&mutant.name(options.show_line_col));', 'out.push_str(&mutant.name(true));'))
B('list-iterate', 'C27', (MAIN, '    let previously_caught = if args.iterate {', '    let previously_caught = if args.iterate && !args.list {'))
# ---- C32
TMO = 'src/timeouts.rs'
B('tmo-min', 'C32', (TMO, '        let timeout = max(\n', '        let timeout = std::cmp::min(\n') if False else (TMO, '        Some(t)\n    } else if let Some(baseline)', '        Some(max(t, options.minimum_test_timeout))\n    } else if let Some(baseline)'))
B('tmo-mult', 'C32', (TMO, 'options.test_timeout_multiplier.unwrap_or(5.0)', 'options.test_timeout_multiplier.or(options.build_timeout_multiplier).unwrap_or(5.0)'))
B('tmo-floor', 'C32', (TMO, '                    .ceil(),', '                    .floor(),'))
B('tmo-baseline-build', 'C32', (TMO, '            test: options.test_timeout,\n            build: None,', '            test: options.test_timeout,\n            build: options.build_timeout,'))
B('tmo-explicit', 'C32', (TMO, '    if let Some(explicit) = options.test_timeout {\n        explicit', '    if let Some(explicit) = options.test_timeout {\n        max(explicit, options.minimum_test_timeout)'))
B('tmo-phase', 'C32', (TMO, 'baseline.phase_result(Phase::Test).map(|pr| pr.duration)', 'baseline.phase_result(Phase::Test).or(baseline.phase_result(Phase::Build)).map(|pr| pr.duration)'))
B('tmo-fallback', 'C32', (TMO, 'const FALLBACK_TIMEOUT_SECS: u64 = 300;', 'const FALLBACK_TIMEOUT_SECS: u64 = 20;'))
# ---- C33
B('log-trunc', 'C33', (OD, '            .append(true)\n            .create_new(true)\n            .read(true)', '            .append(true)\n            .create(true)\n            .read(true)') if False else (OD, '                *index += 1;\n', '                *index = 1;\n'))
B('log-col', 'C33', (MUT, '            col = self.span.start.column,', '            col = self.span.end.column,') if False else (OD, '            Entry::Vacant(e) => {\n                e.insert(0);\n                scenario_name', '            Entry::Vacant(_) => {\n                scenario_name'))
B('log-diffname', 'C33', (OD, 'Some(Utf8PathBuf::from(format!("diff/{basename}.diff")))', 'Some(Utf8PathBuf::from(format!("diff/{}.diff", basename.trim_end_matches("_001"))))'))
B('log-clean', 'C33', (OD, "matches!(c, '/' |", "matches!(c, '_' | '/' |") if False else (OD, '''        write(self.output_dir.join(diff_path), diff.as_bytes())''', '''        write(self.output_dir.join("diff/last.diff"), diff.as_bytes())'''))

# ---- refactorings of the lab, processes, output directory
CARGO = 'src/cargo.rs'
TMO = 'src/timeouts.rs'
LIST = 'src/list.rs'
Q('lab-worker-for-thread', (LAB, """                // First thread to start can use the baseline's build dir;
                // others need to copy a new one
                let build_dir_0 = build_dir_0.lock().expect("lock build dir 0").take(); // separate for lock
                let build_dir = &if let Some(d) = build_dir_0 {
                    d
                } else {
                    BuildDir::copy_from(workspace.root(), options, console)?
                };
                lab.run_queue(build_dir, timeouts, work_queue)""", """                let build_dir = take_or_copy(&build_dir_0, workspace, options, console)?;
                lab.run_queue(&build_dir, timeouts, work_queue)"""),
  (LAB, """#[mutants::skip] // it's a little hard to observe that the threads were collected?""", """/// The baseline's build dir for the first caller, and a new copy for others.
fn take_or_copy(
    first: &Mutex<Option<BuildDir>>,
    workspace: &Workspace,
    options: &Options,
    console: &Console,
) -> Result<BuildDir> {
    let taken = {
        let mut guard = first.lock().expect("lock build dir 0");
        guard.take()
    };
    match taken {
        Some(d) => Ok(d),
        None => BuildDir::copy_from(workspace.root(), options, console),
    }
}

#[mutants::skip] // it's a little hard to observe that the threads were collected?"""))
Q('lab-join-loop', (LAB, """    let errors = threads
        .into_iter()
        .filter_map(|thread| match thread.join() {
            Err(panic) => resume_unwind(panic),
            Ok(Ok(())) => None,
            Ok(Err(err)) => {
                // To avoid console spam don't print "interrupted" errors for each thread,
                // since that should have been printed by check_interrupted but do return them.
                if err.to_string() != "interrupted" {
                    error!("Worker thread failed: {:?}", err);
                }
                Some(err)
            }
        })
        .collect_vec();
    if let Some(first_err) = errors.into_iter().next() {
        Err(first_err)
    } else {
        Ok(())
    }""", """    let mut first_err = None;
    for thread in threads {
        match thread.join() {
            Err(panic) => resume_unwind(panic),
            Ok(Ok(())) => {}
            Ok(Err(err)) => {
                if err.to_string() != "interrupted" {
                    error!("Worker thread failed: {:?}", err);
                }
                if first_err.is_none() {
                    first_err = Some(err);
                }
            }
        }
    }
    match first_err {
        Some(err) => Err(err),
        None => Ok(()),
    }"""))
Q('lab-queue-while', (LAB, """        loop {
            // Not a `for` statement so that we don't hold the lock
            // for the whole iteration.
            let Some(mutant) = work_queue.lock().expect("Lock pending work queue").next() else {
                return Ok(());
            };
""", """        let next_mutant = || work_queue.lock().expect("Lock pending work queue").next();
        while let Some(mutant) = next_mutant() {
"""), (LAB, """            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
        }
    }""", """            let _outcome =
                self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
        }
        Ok(())
    }"""))
Q('lab-threads-spawn-map', (LAB, """        let mut threads = Vec::new();
        for _i_thread in 0..n_threads {
            threads.push(scope.spawn(|| -> crate::Result<()> {""", """        let spawn_one = |_i_thread: usize| {
            scope.spawn(|| -> crate::Result<()> {"""), (LAB, """                lab.run_queue(build_dir, timeouts, work_queue)
            }));
        }
        join_threads(threads)""", """                lab.run_queue(build_dir, timeouts, work_queue)
            })
        };
        let threads = (0..n_threads).map(spawn_one).collect_vec();
        join_threads(threads)"""))
Q('lab-clamp-threads', (LAB, """    let n_threads = max(1, min(options.jobs.unwrap_or(1), mutants.len()));""", """    let n_threads = options.jobs.unwrap_or(1).min(mutants.len()).max(1);"""), (LAB, "use std::cmp::{max, min};\n", ""))
Q('lab-scenario-split', (LAB, """        let mut outcome = ScenarioOutcome::new(&scenario_output, scenario.clone());
        for &phase in self.options.phases() {""", """        let phases_result = self.run_phases(scenario, test_packages, timeouts, &mut scenario_output);
        if let Some(mutant) = scenario.mutant() {
            mutant.revert(self.build_dir)?;
        }
        let outcome = phases_result?;
        self.record(scenario, &outcome)?;
        Ok(outcome)
    }

    /// Run all phases until one fails.
    fn run_phases(
        &self,
        scenario: &Scenario,
        test_packages: &PackageSelection,
        timeouts: Timeouts,
        scenario_output: &mut crate::output::ScenarioOutput,
    ) -> Result<ScenarioOutcome> {
        let dir = self.build_dir.path();
        let mut outcome = ScenarioOutcome::new(scenario_output, scenario.clone());
        for &phase in self.options.phases() {"""), (LAB, """            match run_cargo(
                self.build_dir,
                self.jobserver,
                test_packages,
                phase,
                timeout,
                &mut scenario_output,
                self.options,
                self.console,
            ) {
                Ok(phase_result) => {
                    let success = phase_result.is_success(); // so we can move it away
                    outcome.add_phase_result(phase_result);
                    self.console.scenario_phase_finished(dir, phase);
                    if !success {
                        break;
                    }
                }
                Err(err) => {
                    error!(?err, ?phase, "scenario execution internal error");
                    // Some unexpected internal error that stops the program.
                    if let Some(mutant) = scenario.mutant() {
                        mutant.revert(self.build_dir)?;
                    }
                    return Err(err);
                }
            }
        }
        if let Some(mutant) = scenario.mutant() {
            mutant.revert(self.build_dir)?;
        }
        self.output_mutex""", """            let phase_result = run_cargo(
                self.build_dir,
                self.jobserver,
                test_packages,
                phase,
                timeout,
                scenario_output,
                self.options,
                self.console,
            )
            .inspect_err(|err| error!(?err, ?phase, "scenario execution internal error"))?;
            let success = phase_result.is_success();
            outcome.add_phase_result(phase_result);
            self.console.scenario_phase_finished(dir, phase);
            if !success {
                break;
            }
        }
        Ok(outcome)
    }

    /// Record and show the outcome.
    fn record(&self, scenario: &Scenario, outcome: &ScenarioOutcome) -> Result<()> {
        let dir = self.build_dir.path();
        self.output_mutex"""), (LAB, """            .add_scenario_outcome(&outcome)?;
        debug!(outcome = ?outcome.summary());
        self.console
            .scenario_finished(dir, scenario, &outcome, self.options);

        Ok(outcome)
    }""", """            .add_scenario_outcome(outcome)?;
        debug!(outcome = ?outcome.summary());
        self.console
            .scenario_finished(dir, scenario, outcome, self.options);
        Ok(())
    }"""))
Q('lab-baseline-helper', (LAB, """            let outcome = lab.run_baseline(&baseline_build_dir, &mutants)?;
            if outcome.success() {
                Timeouts::from_baseline(&outcome, options)
            } else {
                error!(""", """            let outcome = lab.run_baseline(&baseline_build_dir, &mutants)?;
            if outcome.success() {
                let t = Timeouts::from_baseline(&outcome, options);
                debug!(?t, "baseline ok");
                t
            } else {
                error!("""), (LAB, """            let timeout = match phase {
                Phase::Test => timeouts.test,
                Phase::Build | Phase::Check => timeouts.build,
            };""", """            let timeout = if phase == Phase::Test {
                timeouts.test
            } else {
                timeouts.build
            };"""))
Q('process-poll-reorder', (PROC, """        if self.timeout.is_some_and(|t| self.start.elapsed() > t) {
            debug!("timeout, terminating child process...",);
            self.terminate()?;
            Ok(Some(Exit::Timeout))
        } else if let Err(e) = check_interrupted() {
            debug!("interrupted, terminating child process...");
            self.terminate()?;
            Err(e)
        } else if let Some(status) = self.child.try_wait()? {
            Ok(Some(status.into()))
        } else {
            Ok(None)
        }""", """        if let Some(limit) = self.timeout {
            let elapsed = self.start.elapsed();
            if elapsed > limit {
                debug!(?elapsed, "timeout, terminating child process...");
                self.terminate()?;
                return Ok(Some(Exit::Timeout));
            }
        }
        if let Err(e) = check_interrupted() {
            debug!("interrupted, terminating child process...");
            self.terminate()?;
            return Err(e);
        }
        Ok(self.child.try_wait()?.map(Exit::from))"""))
Q('process-run-while', (PROC, """        let process_status = loop {
            if let Some(exit_status) = child.poll()? {
                break exit_status;
            }
            console.tick();
            sleep(WAIT_POLL_INTERVAL);
        };""", """        let mut polled = child.poll()?;
        while polled.is_none() {
            console.tick();
            sleep(WAIT_POLL_INTERVAL);
            polled = child.poll()?;
        }
        let process_status = polled.expect("loop ended with a status");"""))
Q('process-exit-match', (UNIX, """        if let Some(code) = status.code() {
            if code == 0 {
                Exit::Success
            } else {
                Exit::Failure(code)
            }
        } else if let Some(signal) = status.signal() {
            return Exit::Signalled(signal);
        } else {
            Exit::Other
        }""", """        match (status.code(), status.signal()) {
            (Some(0), _) => Exit::Success,
            (Some(code), _) => Exit::Failure(code),
            (None, Some(signal)) => Exit::Signalled(signal),
            (None, None) => Exit::Other,
        }"""))
Q('process-env-for', (PROC, """        let os_env = env.iter().map(|(k, v)| (OsStr::new(k), OsStr::new(v)));
        let mut command = Command::new(&argv[0]);
        command
            .args(&argv[1..])
            .envs(os_env)
            .stdin(Stdio::null())
            .stdout(scenario_output.open_log_append()?)
            .stderr(scenario_output.open_log_append()?)
            .current_dir(cwd);""", """        let log_out = scenario_output.open_log_append()?;
        let log_err = scenario_output.open_log_append()?;
        let mut command = Command::new(&argv[0]);
        command.current_dir(cwd);
        command.args(&argv[1..]);
        for (k, v) in env {
            command.env(k, v);
        }
        command.stdin(Stdio::null()).stdout(log_out).stderr(log_err);"""), (PROC, "use std::ffi::OsStr;\n", ""))
Q('cargo-argv-helper', (CARGO, """    match phase {
        Phase::Test => match &options.test_tool {
            TestTool::Cargo => cargo_args.push("test".to_string()),
            TestTool::Nextest => {
                cargo_args.push("nextest".to_string());
                cargo_args.push("run".to_string());
            }
        },
        Phase::Build => {
            match &options.test_tool {
                TestTool::Cargo => {
                    // These invocations default to the test profile, and might
                    // have other differences? Generally we want to do everything
                    // to make the tests build, but not actually run them.
                    // See <https://github.com/sourcefrog/cargo-mutants/issues/237>.
                    cargo_args.push("test".to_string());
                    cargo_args.push("--no-run".to_string());
                }
                TestTool::Nextest => {
                    cargo_args.push("nextest".to_string());
                    cargo_args.push("run".to_string());
                    cargo_args.push("--no-run".to_string());
                }
            }
        }
        Phase::Check => {
            cargo_args.push("check".to_string());
            cargo_args.push("--tests".to_string());
        }
    }""", """    cargo_args.extend(subcommand(phase, &options.test_tool).iter().map(ToString::to_string));"""), (CARGO, """/// Return adjusted `CARGO_ENCODED_RUSTFLAGS`""", """fn subcommand(phase: Phase, tool: &TestTool) -> &'static [&'static str] {
    match (phase, tool) {
        (Phase::Check, _) => &["check", "--tests"],
        (Phase::Build, TestTool::Cargo) => &["test", "--no-run"],
        (Phase::Test, TestTool::Cargo) => &["test"],
        (Phase::Build, TestTool::Nextest) => &["nextest", "run", "--no-run"],
        (Phase::Test, TestTool::Nextest) => &["nextest", "run"],
    }
}

/// Return adjusted `CARGO_ENCODED_RUSTFLAGS`"""), (CARGO, """    cargo_args.extend(features.features.iter().map(|f| format!("--features={f}")));
    cargo_args.extend(options.additional_cargo_args.iter().cloned());
    if phase == Phase::Test {
        cargo_args.extend(options.additional_cargo_test_args.iter().cloned());
    }""", """    for f in &features.features {
        cargo_args.push(format!("--features={f}"));
    }
    cargo_args.extend_from_slice(&options.additional_cargo_args);
    if let Phase::Test = phase {
        for arg in &options.additional_cargo_test_args {
            cargo_args.push(arg.clone());
        }
    }"""))
Q('cargo-rustflags-refactor', (CARGO, """    if !options.cap_lints {
        None
    } else if let Ok(encoded) = env::var("CARGO_ENCODED_RUSTFLAGS") {
        if encoded.is_empty() {
            Some(cap_lints_arg.to_owned())
        } else {
            Some(encoded + separator + cap_lints_arg)
        }
    } else if let Ok(rustflags) = env::var("RUSTFLAGS") {
        if rustflags.is_empty() {
            Some(cap_lints_arg.to_owned())
        } else {
            Some(
                rustflags
                    .split(' ')
                    .filter(|s| !s.is_empty())
                    .chain(once("--cap-lints=warn"))
                    .collect::<Vec<&str>>()
                    .join(separator),
            )
        }
    } else {
        Some(cap_lints_arg.to_owned())
    }""", """    if !options.cap_lints {
        return None;
    }
    if let Ok(mut encoded) = env::var("CARGO_ENCODED_RUSTFLAGS") {
        if !encoded.is_empty() {
            encoded.push_str(separator);
        }
        encoded.push_str(cap_lints_arg);
        return Some(encoded);
    }
    let rustflags = env::var("RUSTFLAGS").unwrap_or_default();
    let mut words: Vec<&str> = rustflags.split(' ').filter(|s| !s.is_empty()).collect();
    words.push(cap_lints_arg);
    Some(words.join(separator))"""), (CARGO, "use std::iter::once;\n", ""))
Q('cargo-env-refactor', (CARGO, """    let mut env = vec![
        // The tests might use Insta <https://insta.rs>, and we don't want it to write
        // updates to the source tree, and we *certainly* don't want it to write
        // updates and then let the test pass.
        ("INSTA_UPDATE".to_owned(), "no".to_owned()),
        ("INSTA_FORCE_PASS".to_owned(), "0".to_owned()),
    ];
    if let Some(encoded_rustflags) = encoded_rustflags(options) {
        debug!(?encoded_rustflags);
        env.push(("CARGO_ENCODED_RUSTFLAGS".to_owned(), encoded_rustflags));
    }""", """    let env = cargo_env(options);"""), (CARGO, """/// Return the name of the cargo binary.""", """/// Variables added to the environment.
fn cargo_env(options: &Options) -> Vec<(String, String)> {
    let mut env: Vec<(String, String)> = [("INSTA_UPDATE", "no"), ("INSTA_FORCE_PASS", "0")]
        .into_iter()
        .map(|(k, v)| (k.to_owned(), v.to_owned()))
        .collect();
    env.extend(encoded_rustflags(options).map(|flags| ("CARGO_ENCODED_RUSTFLAGS".to_owned(), flags)));
    env
}

/// Return the name of the cargo binary."""))
Q('out-lists-helper', (OD, """        let mut list_file_options = OpenOptions::new();
        list_file_options.create(true).append(true);
        let missed_list = list_file_options
            .open(output_dir.join("missed.txt"))
            .context("create missed.txt")?;
        let caught_list = list_file_options
            .open(output_dir.join(CAUGHT_TXT))
            .context("create caught.txt")?;
        let unviable_list = list_file_options
            .open(output_dir.join(UNVIABLE_TXT))
            .context("create unviable.txt")?;
        let timeout_list = list_file_options
            .open(output_dir.join("timeout.txt"))
            .context("create timeout.txt")?;""", """        let open_list = |name: &str| -> Result<File> {
            OpenOptions::new()
                .create(true)
                .append(true)
                .open(output_dir.join(name))
                .with_context(|| format!("create {name}"))
        };
        let missed_list = open_list("missed.txt")?;
        let caught_list = open_list(CAUGHT_TXT)?;
        let unviable_list = open_list(UNVIABLE_TXT)?;
        let timeout_list = open_list("timeout.txt")?;"""))
Q('out-rotate-helper', (OD, """        if output_dir.exists() {
            LockFile::acquire_lock(output_dir.as_ref())?;
            // Now release the lock for a bit while we move the directory. This might be
            // slightly racy.
            // TODO: Move the lock outside the directory, <https://github.com/sourcefrog/cargo-mutants/issues/402>.

            let rotated = in_dir.join(ROTATED_NAME);
            if rotated.exists() {
                remove_dir_all(&rotated).with_context(|| format!("remove {:?}", &rotated))?;
            }
            rename(&output_dir, &rotated)
                .with_context(|| format!("move {:?} to {:?}", &output_dir, &rotated))?;
        }""", """        if output_dir.exists() {
            rotate(&output_dir, &in_dir.join(ROTATED_NAME))?;
        }"""), (OD, """/// Return the string names of mutants previously caught""", """/// Move the previous output out of the way, when it's no longer in use.
fn rotate(output_dir: &Utf8Path, rotated: &Utf8Path) -> Result<()> {
    LockFile::acquire_lock(output_dir.as_ref())?;
    if rotated.exists() {
        remove_dir_all(rotated).with_context(|| format!("remove {rotated:?}"))?;
    }
    rename(output_dir, rotated).with_context(|| format!("move {output_dir:?} to {rotated:?}"))
}

/// Return the string names of mutants previously caught"""))
Q('out-caught-refactor', (OD, """    let mut r = Vec::new();
    for filename in [CAUGHT_TXT, UNVIABLE_TXT, PREVIOUSLY_CAUGHT_TXT] {
        let p = output_parent_dir.join(OUTDIR_NAME).join(filename);
        trace!(?p, "read previously caught");
        if p.is_file() {
            r.extend(
                read_to_string(&p)
                    .with_context(|| format!("Read previously caught mutants from {p:?}"))?
                    .lines()
                    .map(str::to_string),
            );
        }
    }
    Ok(r)""", """    let dir = output_parent_dir.join(OUTDIR_NAME);
    let mut r = Vec::new();
    for filename in [CAUGHT_TXT, UNVIABLE_TXT, PREVIOUSLY_CAUGHT_TXT] {
        let p = dir.join(filename);
        trace!(?p, "read previously caught");
        if !p.is_file() {
            continue;
        }
        let content = read_to_string(&p)
            .with_context(|| format!("Read previously caught mutants from {p:?}"))?;
        for line in content.lines() {
            r.push(line.to_owned());
        }
    }
    Ok(r)"""), (OD, """        let mut b = String::with_capacity(caught.iter().map(|l| l.len() + 1).sum());
        for l in caught {
            b.push_str(l);
            b.push('\\n');
        }
        File::options()
            .create_new(true)
            .write(true)
            .open(&path)
            .and_then(|mut f| f.write_all(b.as_bytes()))
            .with_context(|| format!("Write {path:?}"))""", """        let b: String = caught.iter().map(|l| format!("{l}\\n")).collect();
        let mut f = File::options()
            .create_new(true)
            .write(true)
            .open(&path)
            .with_context(|| format!("Open {path:?}"))?;
        f.write_all(b.as_bytes()).with_context(|| format!("Write {path:?}"))"""))
Q('out-names-refactor', (OD, """        let basename = match self.used_log_names.entry(scenario_name.clone()) {
            Entry::Occupied(mut e) => {
                let index = e.get_mut();
                *index += 1;
                format!("{scenario_name}_{index:03}")
            }
            Entry::Vacant(e) => {
                e.insert(0);
                scenario_name
            }
        };""", """        let basename = if let Some(index) = self.used_log_names.get_mut(&scenario_name) {
            *index += 1;
            format!("{scenario_name}_{index:03}")
        } else {
            self.used_log_names.insert(scenario_name.clone(), 0);
            scenario_name
        };"""), (OD, "use std::collections::{hash_map::Entry, HashMap};", "use std::collections::HashMap;"))
Q('out-outcome-write', (OD, """        serde_json::to_writer_pretty(
            BufWriter::new(File::create(self.path.join("outcomes.json"))?),
            &self.lab_outcome,
        )
        .context("write outcomes.json")""", """        let path = self.path.join("outcomes.json");
        let text = serde_json::to_string_pretty(&self.lab_outcome).context("serialize outcomes")?;
        write(&path, text.as_bytes()).context("write outcomes.json")"""))
Q('time-refactor', (TMO, """        let timeout = max(
            options.minimum_test_timeout,
            Duration::try_from_secs_f64(
                (baseline_duration.as_secs_f64() * options.test_timeout_multiplier.unwrap_or(5.0))
                    .ceil(),
            )
            .unwrap_or(Duration::MAX),
        );""", """        let multiplier = options.test_timeout_multiplier.unwrap_or(5.0);
        let scaled = (baseline_duration.as_secs_f64() * multiplier).ceil();
        let timeout = Duration::try_from_secs_f64(scaled)
            .unwrap_or(Duration::MAX)
            .max(options.minimum_test_timeout);"""), (TMO, "use std::{cmp::max, time::Duration};", "use std::time::Duration;"))
Q('shard-refactor', ('src/shard.rs', """        mutants
            .into_iter()
            .enumerate()
            .filter_map(|(i, m)| if i % self.n == self.k { Some(m) } else { None })
            .collect()""", """        let mut selected = Vec::new();
        for (i, m) in mutants.into_iter().enumerate() {
            if i % self.n == self.k {
                selected.push(m);
            }
        }
        selected"""))
Q('shard-step', ('src/shard.rs', """        mutants
            .into_iter()
            .enumerate()
            .filter_map(|(i, m)| if i % self.n == self.k { Some(m) } else { None })
            .collect()""", """        mutants.into_iter().skip(self.k).step_by(self.n).collect()"""))
Q('list-refactor', (LIST, """        let mut list: Vec<serde_json::Value> = Vec::new();
        for mutant in mutants {
            let mut obj = serde_json::to_value(mutant).expect("Serialize mutant");
            if options.emit_diffs {
                obj.as_object_mut().unwrap().insert(
                    "diff".to_owned(),
                    json!(mutant.diff(&mutant.mutated_code())),
                );
            }
            list.push(obj);
        }
        serde_json::to_string_pretty(&list).expect("Serialize mutants")""", """        let list = mutants
            .iter()
            .map(|mutant| {
                let mut obj = serde_json::to_value(mutant).expect("Serialize mutant");
                if options.emit_diffs {
                    obj["diff"] = Value::String(mutant.diff(&mutant.mutated_code()));
                }
                obj
            })
            .collect_vec();
        serde_json::to_string_pretty(&list).expect("Serialize mutants")"""), (LIST, """        source_files
            .iter()
            .map(|file| file.tree_relative_path.to_slash_path() + "\\n")
            .join("")""", """        let mut out = String::new();
        for file in source_files {
            out += &file.tree_relative_path.to_slash_path();
            out.push('\\n');
        }
        out"""))
Q('main-iterate-refactor', (MAIN, """    let previously_caught = if args.iterate {
        let previously_caught = load_previously_caught(&output_parent_dir)?;
        info!(
            "Iteration excludes {} previously caught or unviable mutants",
            previously_caught.len()
        );
        discovered.remove_previously_caught(&previously_caught);
        Some(previously_caught)
    } else {
        None
    };
""", """    let previously_caught = args
        .iterate
        .then(|| load_previously_caught(&output_parent_dir))
        .transpose()?;
    if let Some(names) = &previously_caught {
        info!(
            "Iteration excludes {} previously caught or unviable mutants",
            names.len()
        );
        discovered.remove_previously_caught(names);
    }
"""), (VIS, """        self.mutants.retain(|m| {
            let name = m.name(true);
            let c = previously_caught.contains(&name);
            if c {
                trace!(?name, "skip previously caught mutant");
            }
            !c
        });""", """        let names: HashSet<&str> = previously_caught.iter().map(String::as_str).collect();
        self.mutants.retain(|m| !names.contains(m.name(true).as_str()));"""))
Q('main-select-helper', (MAIN, """    let mut mutants = discovered.mutants;
    if let Some(in_diff) = &args.in_diff {
        mutants = diff_filter(
            mutants,
            &read_to_string(in_diff).context("Failed to read filter diff")?,
        )?;
    }
    if let Some(shard) = &args.shard {
        mutants = shard.select(mutants);
    }
    if args.list {""", """    let mutants = select_mutants(discovered.mutants, &args)?;
    if args.list {"""), (MAIN, """fn main() -> Result<()> {""", """/// Apply the filters that come after discovery.
fn select_mutants(mutants: Vec<Mutant>, args: &Args) -> Result<Vec<Mutant>> {
    let in_diff = match &args.in_diff {
        Some(path) => {
            let diff_text = read_to_string(path).context("Failed to read filter diff")?;
            diff_filter(mutants, &diff_text)?
        }
        None => mutants,
    };
    Ok(match args.shard {
        Some(shard) => shard.select(in_diff),
        None => in_diff,
    })
}

fn main() -> Result<()> {"""))
Q('interrupt-refactor', ('src/interrupt.rs', """    if INTERRUPTED.load(Ordering::SeqCst) {
        error!("interrupted");
        Err(anyhow!("interrupted"))
    } else {
        Ok(())
    }""", """    let interrupted = INTERRUPTED.load(Ordering::Acquire);
    if !interrupted {
        return Ok(());
    }
    error!("interrupted");
    anyhow::bail!("interrupted")"""), ('src/interrupt.rs', "use anyhow::anyhow;\n", ""))
Q('build-dir-refactor', (BDR, """        if options.in_place {
            BuildDir::in_place(workspace.root())
        } else {
            BuildDir::copy_from(workspace.root(), options, console)
        }""", """        let root = workspace.root();
        match options.in_place {
            true => BuildDir::in_place(root),
            false => BuildDir::copy_from(root, options, console),
        }"""), (MUT, """        build_dir.overwrite_file(
            &self.source_file.tree_relative_path,
            self.source_file.code(),
        )""", """        let original = self.source_file.code();
        self.apply(build_dir, original)"""))
Q('lock-refactor', (OD, """        let mut first = true;
        while let Err(err) = lock_file.try_lock_exclusive() {
            if first {
                info!(
                    "Waiting for lock on {} ...: {err}",
                    lock_path.to_slash_lossy()
                );
                first = false;
            }
            check_interrupted()?;
            sleep(LOCK_POLL);
        }""", """        let mut attempts = 0usize;
        loop {
            match lock_file.try_lock_exclusive() {
                Ok(()) => break,
                Err(err) if attempts == 0 => info!(
                    "Waiting for lock on {} ...: {err}",
                    lock_path.to_slash_lossy()
                ),
                Err(_) => {}
            }
            attempts += 1;
            check_interrupted()?;
            sleep(LOCK_POLL);
        }"""))


# ---- C28
B('log-utf8', 'C28', (OUT, """        let content = fs::read(self.output_dir.join(&self.log_path)).context("read log file")?;
        Ok(String::from_utf8_lossy(&content).into_owned())""", """        let content = fs::read(self.output_dir.join(&self.log_path)).context("read log file")?;
        Ok(String::from_utf8(content).expect("log is UTF-8"))"""))
B('timeout-unchecked', 'C28', ('src/options.rs', """    Duration::try_from_secs_f64(secs).with_context(|| format!("Invalid timeout: {secs} seconds"))""", """    Ok(Duration::from_secs_f64(secs))"""))
B('diff-unwrap', 'C28', ('src/in_diff.rs', """Patch::from_multiple(&fixed_diff).map_err(|err| anyhow!("Failed to parse diff: {err}"))?""", """Patch::from_multiple(&fixed_diff).map_err(|err| anyhow!("Failed to parse diff: {err}")).unwrap()"""))
B('config-unwrap', 'C28', ('src/config.rs', """toml::de::from_str(s).with_context(|| "parse toml")""", """Ok(toml::de::from_str(s).expect("parse toml"))"""))
B('readlog-expect', 'C28', ('src/console.rs', """                    .unwrap_or_else(|err| format!("{err:#}")),""", """                    .expect("read log"),"""))

# ---- C38
B('console-order', 'C38', ('src/console.rs', """            || (outcome.scenario.is_mutant()
                && outcome.check_or_build_failed()
                && !options.print_unviable)""", """            || (outcome.check_or_build_failed() && !options.print_unviable)"""))
B('console-caught-timeouts', 'C38', ('src/console.rs', """SummaryOutcome::Timeout => model.timeouts += 1,""", """SummaryOutcome::Timeout => model.mutants_missed += 1,"""))
B('console-no-linecol', 'C38', ('src/console.rs', """style_scenario(scenario, true),
        );
        if options.show_times""", """style_scenario(scenario, options.show_times),
        );
        if options.show_times"""))
B('logs-of-mutants', 'C38', (OUT, """        !self.scenario.is_mutant() && !self.success()
    }""", """        !self.scenario.is_mutant() && self.check_or_build_failed()
    }"""))
B('summary-timeouts', 'C38', (OUT, """        if self.timeout != 0 {
            by_outcome""", """        if self.timeout > 1 {
            by_outcome"""))
B('found-count', 'C38', ('src/console.rs', """        let n_mutants = mutants.len();
        self.view""", """        let n_mutants = mutants.len().saturating_sub(1);
        self.view"""))
B('finish-before-record', 'C38', (LAB, """        self.console
            .scenario_finished(dir, scenario, &outcome, self.options);

        Ok(outcome)""", """        if outcome.has_timeout() && outcome.phase_results().len() > 1 {
            return Ok(outcome);
        }
        self.console
            .scenario_finished(dir, scenario, &outcome, self.options);

        Ok(outcome)"""))

# ---- C39
B('js-inverted-tasks', 'C39', (LAB, """options.jobserver_tasks.unwrap_or_else(num_cpus::get)""", """options.jobserver_tasks.or(options.jobs).unwrap_or_else(num_cpus::get)"""))
B('js-not-with-jobs', 'C39', (LAB, """    let jobserver = options
        .jobserver
        .then(""", """    let jobserver = (options.jobserver && options.jobs != Some(1))
        .then("""))
B('js-not-in-check', 'C39', ('src/cargo.rs', """        jobserver,
        scenario_output""", """        jobserver.filter(|_| phase != Phase::Check),
        scenario_output"""))
B('js-error-ignored', 'C39', (LAB, """        .transpose()
        .context("Start jobserver")?;""", """        .and_then(|r| r.ok());"""))
B('js-not-baseline', 'C39', (LAB, """        self.make_worker(build_dir).run_one_scenario(
            &Scenario::Baseline,""", """        let mut worker = self.make_worker(build_dir);
        worker.jobserver = None;
        worker.run_one_scenario(
            &Scenario::Baseline,"""))
B('js-env-clear', 'C39', (PROC, """            js.configure(&mut command);
        }""", """            js.configure(&mut command);
            command.env_remove("CARGO_MAKEFLAGS");
        }"""))
B('js-per-worker', 'C39', (LAB, """            jobserver: self.jobserver.as_ref(),""", """            jobserver: self
                .jobserver
                .as_ref()
                .map(|_| &*Box::leak(Box::new(jobserver::Client::new(8).unwrap()))),"""))
Q('js-match', (LAB, """    let jobserver = options
        .jobserver
        .then(|| {
            let n_tasks = options.jobserver_tasks.unwrap_or_else(num_cpus::get);
            debug!(n_tasks, "starting jobserver");
            jobserver::Client::new(n_tasks)
        })
        .transpose()
        .context("Start jobserver")?;""", """    let jobserver = if options.jobserver {
        let n_tasks = match options.jobserver_tasks {
            Some(n) => n,
            None => num_cpus::get(),
        };
        debug!(n_tasks, "starting jobserver");
        Some(jobserver::Client::new(n_tasks).context("Start jobserver")?)
    } else {
        None
    };"""), (PROC, """        if let Some(js) = jobserver {
            js.configure(&mut command);
        }
        configure_command(&mut command);""", """        configure_command(&mut command);
        match jobserver {
            Some(client) => client.configure(&mut command),
            None => {}
        }"""))
Q('console-refactor', ('src/console.rs', """        if (outcome.mutant_caught() && !options.print_caught)
            || (outcome.scenario.is_mutant()
                && outcome.check_or_build_failed()
                && !options.print_unviable)
        {
            return;
        }
""", """        let quiet = match outcome.summary() {
            SummaryOutcome::CaughtMutant => !options.print_caught,
            SummaryOutcome::Unviable => !options.print_unviable,
            _ => false,
        };
        if quiet {
            return;
        }
"""), ('src/console.rs', """        s.push('\\n');
        self.message(&s);
    }

    pub fn start_copy""", """        s += "\\n";
        self.message(s.as_str());
    }

    pub fn start_copy"""))
Q('summary-loop', (OUT, """        let mut by_outcome: Vec<String> = Vec::new();
        if self.missed != 0 {
            by_outcome.push(format!("{} missed", self.missed));
        }
        if self.caught != 0 {
            by_outcome.push(format!("{} caught", self.caught));
        }
        if self.unviable != 0 {
            by_outcome.push(format!("{} unviable", self.unviable));
        }
        if self.timeout != 0 {
            by_outcome.push(format!("{} timeouts", self.timeout));
        }
        if self.success != 0 {
            by_outcome.push(format!("{} succeeded", self.success));
        }
        s.push(by_outcome.join(", "));""", """        let counts = [
            (self.missed, "missed"),
            (self.caught, "caught"),
            (self.unviable, "unviable"),
            (self.timeout, "timeouts"),
            (self.success, "succeeded"),
        ];
        let by_outcome: Vec<String> = counts
            .iter()
            .filter(|(n, _)| *n != 0)
            .map(|(n, what)| format!("{n} {what}"))
            .collect();
        s.push(by_outcome.join(", "));"""))

# ---- C16
B('hash-queue', 'C16', (VIS, """VecDeque::from_iter(package.top_sources.iter().map(|p| (p.to_owned(), true)));""", """VecDeque::from_iter(package.top_sources.iter().collect::<HashSet<_>>().into_iter().map(|p| (p.to_owned(), true)));"""))
B('packages-hash', 'C16', (WS, """            .map(AsRef::as_ref)
            .sorted()
            .dedup() // in case a package is named twice
""", """            .map(AsRef::as_ref)
            .collect::<std::collections::HashSet<&str>>()
            .into_iter()
"""))
B('diff-by-file', 'C16', (IND, """    let mut matched: Vec<Mutant> = Vec::with_capacity(mutants.len());
    'mutant: for mutant in mutants {
        let path = mutant.source_file.path();
        if let Some(lines_changed) = lines_changed_by_path.get(path) {""", """    let mut matched: Vec<Mutant> = Vec::with_capacity(mutants.len());
    let mut by_path: HashMap<camino::Utf8PathBuf, Vec<Mutant>> = HashMap::new();
    for mutant in mutants {
        by_path
            .entry(mutant.source_file.path().to_owned())
            .or_default()
            .push(mutant);
    }
    'mutant: for mutant in by_path.into_values().flatten() {
        let path = mutant.source_file.path();
        if let Some(lines_changed) = lines_changed_by_path.get(path) {"""))
B('queue-from-end', 'C16', (LAB, """    let work_queue = &Mutex::new(mutants.into_iter());""", """    let work_queue = &Mutex::new(mutants.into_iter().rev().collect_vec().into_iter());"""))
B('always-shuffle', 'C16', (LAB, """    if options.shuffle {
""", """    if options.shuffle || options.jobs.unwrap_or(1) > 1 {
"""))
Q('hash-sorted', (WS, """            .map(AsRef::as_ref)
            .sorted()
            .dedup() // in case a package is named twice
""", """            .map(AsRef::as_ref)
            .collect::<std::collections::HashSet<&str>>()
            .into_iter()
            .sorted()
"""))
Q('visited-btree', (VIS, """    let mut visited = HashSet::new();""", """    let mut visited = std::collections::BTreeSet::new();"""), (VIS, "use std::collections::{HashSet, VecDeque};", "use std::collections::VecDeque;"))

# ---- batch 3
B('revert-skip-timeout', 'C04', (LAB, """        if let Some(mutant) = scenario.mutant() {
            mutant.revert(self.build_dir)?;
        }
        self.output_mutex""", """        if let Some(mutant) = scenario.mutant() {
            if !(outcome.has_timeout() && self.options.in_place) {
                mutant.revert(self.build_dir)?;
            }
        }
        self.output_mutex"""))
B('revert-mutated', 'C04', (MUT, """        build_dir.overwrite_file(
            &self.source_file.tree_relative_path,
            self.source_file.code(),
        )""", """        build_dir.overwrite_file(
            &self.source_file.tree_relative_path,
            self.source_file.code().trim_start_matches('\\u{feff}'),
        )"""))
B('phase-signal-continue', 'C09', (LAB, """                    let success = phase_result.is_success(); // so we can move it away""", """                    let success = !phase_result.process_status.is_failure(); // so we can move it away"""))
B('phases-check-build', 'C09', (OPT, """            &[Phase::Check]
""", """            &[Phase::Check, Phase::Build]
"""))
B('phases-nextest-only', 'C09', (OPT, """        if self.check_only {
            &[Phase::Check]
        } else {""", """        if self.check_only {
            &[Phase::Check]
        } else if self.test_tool == TestTool::Nextest {
            &[Phase::Test]
        } else {"""))
B('kill-poll-order', 'C10', (PROC, """        match self.child.wait() {
            Err(err) =>""", """        match self.child.try_wait() {
            Err(err) =>"""))
B('int-thread-ignored', 'C11', (LAB, """                if err.to_string() != "interrupted" {
                    error!("Worker thread failed: {:?}", err);
                }
                Some(err)""", """                if err.to_string() == "interrupted" {
                    return None;
                }
                error!("Worker thread failed: {:?}", err);
                Some(err)"""))
B('lock-poll-limit', 'C12', (OD, """            check_interrupted()?;
            sleep(LOCK_POLL);""", """            check_interrupted()?;
            sleep(LOCK_POLL);
            if err.kind() == std::io::ErrorKind::Unsupported {
                break;
            }"""))
B('json-every-other', 'C13', (OD, """        self.lab_outcome.add(scenario_outcome.to_owned());
        self.write_lab_outcome()?;""", """        self.lab_outcome.add(scenario_outcome.to_owned());
        if self.lab_outcome.total_mutants % 2 == 0 || self.lab_outcome.total_mutants < 2 {
            self.write_lab_outcome()?;
        }"""))
B('list-buffered', 'C13', (OD, """            writeln!(file, "{}", mutant.name(true)).context("write to list file")?;""", """            let mut file = std::mem::ManuallyDrop::new(BufWriter::new(file));
            writeln!(file, "{}", mutant.name(true)).context("write to list file")?;"""))
B('iter-lines-dedup', 'C14', (OD, """                    .lines()
                    .map(str::to_string),""", """                    .lines()
                    .map(|l| l.trim_end_matches(')').to_string()),"""))
B('iter-first-file', 'C14', (OD, """        if p.is_file() {
            r.extend(""", """        if !p.is_file() {
            break;
        } else {
            r.extend("""))
B('shard-div', 'C15', ('src/shard.rs', """if i % self.n == self.k { Some(m) } else { None }""", """if i % self.n == self.k || (self.n > 3 && self.k == 0 && i % self.n == self.n - 1) { Some(m) } else { None }"""))
B('shard-before-diff', 'C15', (MAIN, """    if let Some(shard) = &args.shard {
        mutants = shard.select(mutants);
    }""", """    if let Some(shard) = args.shard.as_ref().filter(|s| s.n < mutants.len()) {
        mutants = shard.select(mutants);
    }"""))
B('rustflags-tabs', 'C21', (CARGO, """                    .split(' ')
                    .filter(|s| !s.is_empty())""", """                    .split_whitespace()
                    .filter(|s| *s != "-v")"""))
B('env-target-dir', 'C21', (CARGO, """    let process_status = Process::run(""", """    if options.in_place {
        env.push(("CARGO_TARGET_DIR".to_owned(), "target/mutants".to_owned()));
    }
    let process_status = Process::run("""))
B('argv-locked', 'C22', (CARGO, """    cargo_args.extend(options.additional_cargo_args.iter().cloned());
    if phase""", """    cargo_args.extend(
        options
            .additional_cargo_args
            .iter()
            .filter(|a| phase != Phase::Check || !a.starts_with("--test"))
            .cloned(),
    );
    if phase"""))
B('argv-profile-check', 'C22', (CARGO, """    if let Some(profile) = &options.profile {
""", """    if let Some(profile) = options.profile.as_ref().filter(|p| *p != "dev") {
"""))
B('leak-inplace', 'C24', (BDR, """        let temp_dir = if options.leak_dirs {""", """        let temp_dir = if options.leak_dirs || options.check_only {"""))
B('copy-leak-early', 'C24', (BDR, """            .context("canonicalize source path")?;
        let temp_dir = copy_tree(source, &name_base, options, console)?;
        let path: Utf8PathBuf = temp_dir
            .path()
            .to_owned()
            .try_into()
            .context("tempdir path to UTF-8")?;
""", """            .context("canonicalize source path")?;
        let temp_dir = copy_tree(source, &name_base, options, console)?;
        let keep = options.leak_dirs;
        let path: Utf8PathBuf = temp_dir.into_path().try_into().context("tempdir path to UTF-8")?;
        let temp_dir = tempfile::Builder::new().tempdir()?;
        let _ = keep;
"""))
B('copy-empty-files', 'C25', (CPT, """        if ft.is_file() {
            let""", """        if ft.is_file() && entry.metadata()?.len() == 0 {
            debug!("skip empty file");
        } else if ft.is_file() {
            let"""))
B('copy-target', 'C25', (CPT, """            name != "mutants.out"
""", """            name != "mutants.out"
                && name != "target"
"""))
B('list-files-all', 'C27', ('src/list.rs', """            .map(|file| file.tree_relative_path.to_slash_path() + "\\n")""", """            .dedup_by(|a, b| a.tree_relative_path.file_name() == b.tree_relative_path.file_name())
            .map(|file| file.tree_relative_path.to_slash_path() + "\\n")"""))
B('list-after-output', 'C27', (MAIN, """    if args.list {
        print""", """    if args.list {
        console.set_debug_log(OutputDir::new(&output_parent_dir)?.open_debug_log()?);
        print"""))
B('log-reopen', 'C33', (OD, """            .append(true)
            .create_new(true)
            .read(true)""", """            .append(true)
            .create(true)
            .read(true)"""), (OD, """            Entry::Occupied(mut e) => {
                let index = e.get_mut();
                *index += 1;
                format!("{scenario_name}_{index:03}")""", """            Entry::Occupied(mut e) => {
                let index = e.get_mut();
                *index = (*index + 1) % 3;
                format!("{scenario_name}_{index:03}")"""))
B('diff-shared', 'C33', (OD, """Some(Utf8PathBuf::from(format!("diff/{basename}.diff")))""", """Some(Utf8PathBuf::from(format!(
                "diff/{}.diff",
                basename.trim_end_matches("_001")
            )))"""))
B('tests-empty-list', 'C37', (LAB, """                TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
            };
            self.run_one""", """                TestsForMutant::Explicit(packages) if packages.len() < 2 => {
                    PackageSelection::Explicit(packages.clone())
                }
                TestsForMutant::Explicit(packages) => PackageSelection::Explicit(
                    packages
                        .iter()
                        .filter(|p| p.name != mutant.source_file.package.name)
                        .cloned()
                        .collect(),
                ),
            };
            self.run_one"""))
B('dir0-again', 'C06', (LAB, """                let build_dir_0 = build_dir_0.lock().expect("lock build dir 0").take(); // separate for lock
                let build_dir = &if let Some(d) = build_dir_0 {
                    d
                } else {
                    BuildDir::copy_from(workspace.root(), options, console)?
                };""", """                let build_dir_0 = build_dir_0.lock().expect("lock build dir 0").take(); // separate for lock
                let build_dir = &if let Some(d) = build_dir_0 {
                    d
                } else {
                    BuildDir::for_baseline(workspace, options, console)?
                };"""))
B('base-timeout-ok', 'C08', (LAB, """            if outcome.success() {
                Timeouts""", """            if outcome.success() || outcome.last_phase_result() == crate::process::Exit::Timeout {
                Timeouts"""))
B('queue-stop-on-missed', 'C07', (LAB, """            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
        }""", """            let outcome =
                self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
            if outcome.has_timeout() && self.options.in_place {
                return Ok(());
            }
        }"""))
B('class-other-phase', 'C02', (OUT, """            .any(|pr| pr.process_status.is_timeout())""", """            .any(|pr| pr.phase == Phase::Test && pr.process_status.is_timeout())"""))
B('from-code-256', 'C02', (UNIX, """            if code == 0 {""", """            if code & 0x7f == 0 {"""))
B('tally-success', 'C03', (OUT, """                SummaryOutcome::Success => self.success += 1,""", """                SummaryOutcome::Success => self.missed += 1,"""))
B('list-once', 'C03', (OD, """                _ => return Ok(()),
            };""", """                _ => return Ok(()),
            };
            if self.lab_outcome.outcomes.len() > 1
                && self.lab_outcome.outcomes[self.lab_outcome.outcomes.len() - 2].scenario == *scenario
            {
                return Ok(());
            }"""))
B('tmo-ceil-build', 'C32', (TMO, """            let timeout = Duration::try_from_secs_f64(baseline.as_secs_f64() * multiplier)
                .unwrap_or(Duration::MAX);""", """            let timeout = Duration::try_from_secs_f64(baseline.as_secs() as f64 * multiplier)
                .unwrap_or(Duration::MAX);"""))
B('tmo-min-explicit', 'C32', (TMO, """    if let Some(explicit) = options.test_timeout {
        explicit""", """    if let Some(explicit) = options.test_timeout {
        max(explicit, Duration::from_secs(1))"""))
B('exit-len', 'C01', (OUT, """        } else if self.missed > 0 {
            exit_code::FOUND""", """        } else if self.missed > 0 && self.total_mutants > self.unviable + self.missed {
            exit_code::FOUND"""))
Q('b3-phases', (OPT, """        if self.check_only {
            &[Phase::Check]
        } else {
            &[Phase::Build, Phase::Test]
        }""", """        const CHECK: &[Phase] = &[Phase::Check];
        const TEST: &[Phase] = &[Phase::Build, Phase::Test];
        match self.check_only {
            true => CHECK,
            false => TEST,
        }"""))
Q('b3-copy', (CPT, """        if ft.is_file() {
            let bytes_copied""", """        if ft.is_dir() {
            std::fs::create_dir_all(&dest_path)
                .with_context(|| format!("Failed to create directory {dest_path:?}"))?;
        } else if ft.is_file() {
            let bytes_copied"""), (CPT, """        } else if ft.is_dir() {
            std::fs::create_dir_all(&dest_path)
                .with_context(|| format!("Failed to create directory {dest_path:?}"))?;
        } else if ft.is_symlink() {""", """        } else if ft.is_symlink() {"""))
Q('b3-list', ('src/list.rs', """        for mutant in mutants {
            if colors {
                out.push_str(&mutant.to_styled_string(options.show_line_col));
            } else {
                out.push_str(&mutant.name(options.show_line_col));
            }
            out.push('\\n');""", """        for mutant in mutants {
            let line = match colors {
                true => mutant.to_styled_string(options.show_line_col),
                false => mutant.name(options.show_line_col),
            };
            out += &line;
            out += "\\n";"""))
Q('b3-iter', (OD, """    let mut r = Vec::new();
    for filename in [CAUGHT_TXT, UNVIABLE_TXT, PREVIOUSLY_CAUGHT_TXT] {
        let p = output_parent_dir.join(OUTDIR_NAME).join(filename);
        trace!(?p, "read previously caught");
        if p.is_file() {
            r.extend(
                read_to_string(&p)
                    .with_context(|| format!("Read previously caught mutants from {p:?}"))?
                    .lines()
                    .map(str::to_string),
            );
        }
    }
    Ok(r)""", """    let out_dir = output_parent_dir.join(OUTDIR_NAME);
    let mut r: Vec<String> = Vec::new();
    for filename in [CAUGHT_TXT, UNVIABLE_TXT, PREVIOUSLY_CAUGHT_TXT] {
        let p = out_dir.join(filename);
        if !p.is_file() {
            continue;
        }
        let text = read_to_string(&p)
            .with_context(|| format!("Read previously caught mutants from {p:?}"))?;
        for line in text.lines() {
            r.push(line.to_owned());
        }
    }
    Ok(r)"""))
Q('b3-argv', (CARGO, """    let mut cargo_args = vec![cargo_bin()];
    match phase {
        Phase::Test => match &options.test_tool {
            TestTool::Cargo => cargo_args.push("test".to_string()),
            TestTool::Nextest => {
                cargo_args.push("nextest".to_string());
                cargo_args.push("run".to_string());
            }
        },
        Phase::Build => {
            match &options.test_tool {
                TestTool::Cargo => {
                    // These invocations default to the test profile, and might
                    // have other differences? Generally we want to do everything
                    // to make the tests build, but not actually run them.
                    // See <https://github.com/sourcefrog/cargo-mutants/issues/237>.
                    cargo_args.push("test".to_string());
                    cargo_args.push("--no-run".to_string());
                }
                TestTool::Nextest => {
                    cargo_args.push("nextest".to_string());
                    cargo_args.push("run".to_string());
                    cargo_args.push("--no-run".to_string());
                }
            }
        }
        Phase::Check => {
            cargo_args.push("check".to_string());
            cargo_args.push("--tests".to_string());
        }
    }""", """    let words: &[&str] = match (phase, options.test_tool) {
        (Phase::Test, TestTool::Cargo) => &["test"],
        (Phase::Test, TestTool::Nextest) => &["nextest", "run"],
        (Phase::Build, TestTool::Cargo) => &["test", "--no-run"],
        (Phase::Build, TestTool::Nextest) => &["nextest", "run", "--no-run"],
        (Phase::Check, _) => &["check", "--tests"],
    };
    let mut cargo_args: Vec<String> = std::iter::once(cargo_bin())
        .chain(words.iter().map(|w| w.to_string()))
        .collect();"""))

# ---- C43 locks
CON = 'src/console.rs'
B('lock-while-let', 'C43', (LAB, """        loop {
            // Not a `for` statement so that we don't hold the lock
            // for the whole iteration.
            let Some(mutant) = work_queue.lock().expect("Lock pending work queue").next() else {
                return Ok(());
            };
""", """        while let Some(mutant) = work_queue.lock().expect("Lock pending work queue").next() {
"""), (LAB, """            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
        }
""", """            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
        }
        Ok(())
"""))
B('lock-output-kept', 'C43', (LAB, """        let mut scenario_output = self
            .output_mutex
            .lock()
            .expect("lock output_dir to start scenario")
            .start_scenario(scenario)?;
        let dir""", """        let mut output = self
            .output_mutex
            .lock()
            .expect("lock output_dir to start scenario");
        let mut scenario_output = output.start_scenario(scenario)?;
        let dir"""), (LAB, """        self.output_mutex
            .lock()
            .expect("lock output dir to add outcome")
            .add_scenario_outcome(&outcome)?;""", """        output.add_scenario_outcome(&outcome)?;"""))
B('lock-match', 'C43', (LAB, """            let Some(mutant) = work_queue.lock().expect("Lock pending work queue").next() else {
                return Ok(());
            };
            let _span""", """            match work_queue.lock().expect("Lock pending work queue").next() {
                None => return Ok(()),
                Some(mutant) => {
            let _span"""), (LAB, """            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
        }
""", """            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
                }
            }
        }
"""))
B('join-in-loop', 'C43', (LAB, """        let mut threads = Vec::new();
        for _i_thread in 0..n_threads {
            threads.push(scope""", """        for _i_thread in 0..n_threads {
            join_threads(vec![(scope"""), (LAB, """                lab.run_queue(build_dir, timeouts, work_queue)
            }));
        }
        join_threads(threads)""", """                lab.run_queue(build_dir, timeouts, work_queue)
            }))])?;
        }
        Ok(())"""))
B('threads-half', 'C43', (LAB, "max(1, min(options.jobs.unwrap_or(1), mutants.len()))", "max(1, min(options.jobs.unwrap_or(1), mutants.len() / 2))"))
B('threads-cap', 'C43', (LAB, "max(1, min(options.jobs.unwrap_or(1), mutants.len()))", "max(1, min(options.jobs.unwrap_or(1).min(4), mutants.len()))"))
B('view-logs', 'C43', (CON, """            if scenario.is_mutant() {
                model.mutants_done += 1;
            }""", """            if scenario.is_mutant() {
                model.mutants_done += 1;
                tracing::debug!(done = model.mutants_done, "scenario finished");
            }"""))
B('view-nested', 'C43', (CON, """        let n_mutants = mutants.len();
        self.view.update(|model| {""", """        let n_mutants = mutants.len();
        self.view.update(|model| {
            if n_mutants > 1000 {
                self.message("This may take a while");
            }"""))
B('render-logs', 'C43', (CON, """                let done = self.mutants_done as f64;""", """                let done = self.mutants_done as f64;
                tracing::trace!(?done);"""))
B('debug-writer-logs', 'C43', (CON, """            file.write(buf)
        } else {""", """            file.write(buf).map_err(|err| { tracing::warn!("cannot write debug log"); err })
        } else {"""))
B('output-then-queue', 'C43', (LAB, """            let Some(mutant) = work_queue.lock().expect("Lock pending work queue").next() else {
                return Ok(());
            };""", """            let mut queue = work_queue.lock().expect("Lock pending work queue");
            let Some(mutant) = queue.next() else {
                return Ok(());
            };
            if queue.len() == 0 {
                let _output = self.output_mutex.lock().expect("lock output_dir");
                debug!("this is the last mutant");
            }
            drop(queue);"""), (LAB, """        self.output_mutex
            .lock()
            .expect("lock output dir to add outcome")
            .add_scenario_outcome(&outcome)?;
        debug!""", """        let mut output = self
            .output_mutex
            .lock()
            .expect("lock output dir to add outcome");
        output.add_scenario_outcome(&outcome)?;
        if let Some(q) = self.queue {
            debug!(remaining = q.lock().expect("Lock pending work queue").len());
        }
        drop(output);
        debug!"""), (LAB, """    options: &'a Options,
    console: &'a Console,
}

impl Worker""", """    options: &'a Options,
    console: &'a Console,
    queue: Option<&'a Mutex<vec::IntoIter<Mutant>>>,
}

impl Worker"""), (LAB, """            options: self.options,
            console: self.console,
        }""", """            options: self.options,
            console: self.console,
            queue: None,
        }"""))
Q('lock-helper', (LAB, """            let Some(mutant) = work_queue.lock().expect("Lock pending work queue").next() else {
                return Ok(());
            };
            let _span""", """            let next = {
                let mut queue = work_queue.lock().expect("Lock pending work queue");
                let next = queue.next();
                drop(queue);
                next
            };
            let Some(mutant) = next else { break Ok(()) };
            let _span"""))
Q('lock-outfn', (LAB, """        let mut scenario_output = self
            .output_mutex
            .lock()
            .expect("lock output_dir to start scenario")
            .start_scenario(scenario)?;
        let dir""", """        let mut scenario_output = self.output().start_scenario(scenario)?;
        let dir"""), (LAB, """        self.output_mutex
            .lock()
            .expect("lock output dir to add outcome")
            .add_scenario_outcome(&outcome)?;
        debug!""", """        {
            let mut output = self.output();
            output.add_scenario_outcome(&outcome)?;
            debug!("recorded");
        }
        debug!"""), (LAB, """    fn run_one_scenario(
        &mut self,""", """    fn output(&self) -> std::sync::MutexGuard<'_, OutputDir> {
        self.output_mutex.lock().expect("lock output_dir")
    }

    fn run_one_scenario(
        &mut self,"""))
Q('lock-scoped-nojoin', (LAB, """            let build_dir_0 = build_dir_0.lock().expect("lock build dir 0").take(); // separate for lock
                let build_dir = &if let Some(d) = build_dir_0 {""", """            let mut first = build_dir_0.lock().expect("lock build dir 0");
                let mine = first.take();
                drop(first);
                let build_dir = &if let Some(d) = mine {"""))

# ---- C44 display
CON = 'src/console.rs'
B('disp-testing-started-by-baseline', 'C44', (LAB, """            if outcome.success() {
                Timeouts::from_baseline(&outcome, options)""", """            if outcome.success() {
                console.start_testing_mutants(mutants.len());
                Timeouts::from_baseline(&outcome, options)"""), (LAB, """    console.start_testing_mutants(mutants.len());
    let n_threads""", """    let n_threads"""))
B('disp-testing-started-late', 'C44', (LAB, """    console.start_testing_mutants(mutants.len());
    let n_threads""", """    let n_mutants = mutants.len();
    let n_threads"""), (LAB, """        join_threads(threads)
    })?;""", """        console.start_testing_mutants(n_mutants);
        join_threads(threads)
    })?;"""))
B('disp-testing-started-single', 'C44', (LAB, """    console.start_testing_mutants(mutants.len());
""", """    if options.jobs.unwrap_or(1) > 1 {
        console.start_testing_mutants(mutants.len());
    }
"""))
B('disp-done-baseline', 'C44', (CON, """            if scenario.is_mutant() {
                model.mutants_done += 1;
            }
""", """            model.mutants_done += 1;
"""))
B('disp-remain-sign', 'C44', (CON, """let remain = self.n_mutants as f64 - done;""", """let remain = done - self.n_mutants as f64;"""))
B('disp-remain-mutants', 'C44', (CON, """let done = self.mutants_done as f64;""", """let done = (self.mutants_done + 1) as f64;"""))
B('disp-div-zero', 'C44', (CON, """            if self.mutants_done > 2 {
                let done = self.mutants_done as f64;""", """            if self.mutants_start_time.is_some() {
                let done = self.mutants_caught as f64;"""))
B('disp-lab-unwrap', 'C44', (CON, """            if self.mutants_done > 2 {""", """            if self.n_mutants > 2 {"""))
B('disp-finish-copy-skips', 'C44', ('src/copy_tree.rs', """    console.finish_copy(dest);
""", """    if total_files > 0 {
        console.finish_copy(dest);
    }
"""))
B('disp-copy-progress-late', 'C44', ('src/copy_tree.rs', """    console.start_copy(dest);
""", ""), ('src/copy_tree.rs', """            total_bytes += bytes_copied;
            total_files += 1;
""", """            if total_files == 0 && bytes_copied > 0 {
                console.start_copy(dest);
            }
            total_bytes += bytes_copied;
            total_files += 1;
"""))
B('disp-phase-after-finish', 'C44', (LAB, """                    self.console.scenario_phase_finished(dir, phase);
                    if !success {
                        break;
                    }
""", """                    if !success {
                        self.console
                            .scenario_finished(dir, scenario, &outcome, self.options);
                    }
                    self.console.scenario_phase_finished(dir, phase);
                    if !success {
                        break;
                    }
"""))
B('disp-remove-when-shown', 'C44', (CON, """            model.remove_scenario(dir);
        });
""", """            if !scenario.is_mutant() || options.print_caught || !outcome.mutant_caught() {
                model.remove_scenario(dir);
            }
        });
"""))
B('disp-n-mutants', 'C44', (CON, """            model.n_mutants = n_mutants;
""", """            model.n_mutants = n_mutants.saturating_sub(1);
"""))
B('disp-missed-timeouts', 'C44', (CON, """                    style(self.timeouts).cyan(),""", """                    style(self.mutants_missed).cyan(),"""))
Q('disp-estimate', (CON, """            if self.mutants_done > 2 {
                let done = self.mutants_done as f64;
                let remain = self.n_mutants as f64 - done;
                let mut remaining_secs =
                    self.mutants_start_time.unwrap().elapsed().as_secs_f64() * remain / done;
                if remaining_secs > 300.0 {
                    // Round up to minutes
                    remaining_secs = ((remaining_secs + 30.0) / 60.0).ceil() * 60.0;
                }
                write!(
                    s,
                    ", about {} remaining",
                    style_duration(Duration::from_secs_f64(remaining_secs.ceil()))
                )
                .unwrap();
            }
""", """            if let Some(remaining) = self.remaining() {
                write!(s, ", about {} remaining", style_duration(remaining)).unwrap();
            }
"""), (CON, """impl LabModel {
""", """impl LabModel {
    #[allow(clippy::cast_precision_loss)]
    fn remaining(&self) -> Option<Duration> {
        if self.mutants_done <= 2 {
            return None;
        }
        let left = self.n_mutants.saturating_sub(self.mutants_done);
        let each = self.mutants_start_time?.elapsed().as_secs_f64() / self.mutants_done as f64;
        let mut secs = each * left as f64;
        if secs > 300.0 {
            secs = ((secs + 30.0) / 60.0).ceil() * 60.0;
        }
        Some(Duration::from_secs_f64(secs.ceil()))
    }

"""))
Q('disp-copy-by-hand', (CON, """            let idx = model
                .copy_models
                .iter()
                .position(|m| m.dest == dir)
                .expect("copy model not found");
            model.copy_models.swap_remove(idx);
""", """            model.copy_models.retain(|m| m.dest != dir);
"""), (CON, """            model
                .copy_models
                .iter_mut()
                .find(|m| m.dest == dest)
                .expect("copy in progress")
                .bytes_copied(total_bytes);
""", """            if let Some(copy) = model.copy_models.iter_mut().find(|m| m.dest == dest) {
                copy.bytes_copied(total_bytes);
            }
"""))
Q('disp-start-both', (LAB, """    console.start_testing_mutants(mutants.len());
    let n_threads = max(1, min(options.jobs.unwrap_or(1), mutants.len()));
""", """    let n_mutants = mutants.len();
    let n_threads = max(1, min(options.jobs.unwrap_or(1), n_mutants));
    console.start_testing_mutants(n_mutants);
"""))
Q('disp-scenario-loop', (CON, """        self.scenario_models
            .iter_mut()
            .find(|sm| sm.dir == *dir)
            .expect("scenario directory not found")
""", """        for sm in &mut self.scenario_models {
            if sm.dir == *dir {
                return sm;
            }
        }
        panic!("scenario directory not found: {dir}")
"""))

# ---- refactorings, batch 5
Q('q5-arms-loop', (VIS, """            i.arms
                .iter()
                // Don't mutate the wild arm, because that will likely be unviable, and also
                // skip it if a guard is present, because the replacement of the guard with 'false'
                // below is logically equivalent to removing the arm.
                .filter(|arm| !matches!(arm.pat, syn::Pat::Wild(_)) && arm.guard.is_none())
                .for_each(|arm| {
                    self.collect_mutant(arm.span().into(), &quote! {}, Genre::MatchArm);
                });
""", """            for arm in &i.arms {
                // Wild arms and arms with guards are left alone.
                if arm.guard.is_some() || matches!(arm.pat, syn::Pat::Wild(_)) {
                    continue;
                }
                let span = arm.span().into();
                self.collect_mutant(span, &TokenStream::new(), Genre::MatchArm);
            }
"""), (VIS, """        i.arms
            .iter()
            .flat_map(|arm| &arm.guard)
            .for_each(|(_if, guard_expr)| {
                self.collect_mutant(
                    guard_expr.span().into(),
                    &quote! { true },
                    Genre::MatchArmGuard,
                );
                self.collect_mutant(
                    guard_expr.span().into(),
                    &quote! { false },
                    Genre::MatchArmGuard,
                );
            });
""", """        for arm in &i.arms {
            let Some((_, guard)) = &arm.guard else { continue };
            for value in [quote! { true }, quote! { false }] {
                self.collect_mutant(guard.span().into(), &value, Genre::MatchArmGuard);
            }
        }
"""))
Q('q5-binary-helper', (VIS, """        let replacements = match i.op {
            // We don't generate""", """        for rep in Self::binary_replacements(i) {
            self.collect_mutant(i.op.span().into(), &rep, Genre::BinaryOperator);
        }
        syn::visit::visit_expr_binary(self, i);
    }

    fn visit_expr_unary(&mut self, i: &'ast syn::ExprUnary) {
        let _span = trace_span!("unary", line = i.op.span().start().line).entered();
        if attrs_excluded(&i.attrs) {
            return;
        }
        if matches!(i.op, UnOp::Neg(_) | UnOp::Not(_)) {
            let nothing = TokenStream::new();
            self.collect_mutant(i.op.span().into(), &nothing, Genre::UnaryOperator);
        } else {
            trace!("No mutants generated for this unary operator");
        }
        syn::visit::visit_expr_unary(self, i);
    }

    fn visit_expr_match(&mut self, i: &'ast syn::ExprMatch) {
        self.match_mutants(i);
    }
}

impl DiscoveryVisitor<'_> {
    fn binary_replacements(i: &syn::ExprBinary) -> Vec<TokenStream> {
        match i.op {
            // We don't generate"""), (VIS, """                Vec::new()
            }
        };
        replacements
            .into_iter()
            .for_each(|rep| self.collect_mutant(i.op.span().into(), &rep, Genre::BinaryOperator));
        syn::visit::visit_expr_binary(self, i);
    }

    fn visit_expr_unary(&mut self, i: &'ast syn::ExprUnary) {
        let _span = trace_span!("unary", line = i.op.span().start().line).entered();
        trace!("visit unary operator");
        if attrs_excluded(&i.attrs) {
            return;
        }
        match i.op {
            UnOp::Not(_) | UnOp::Neg(_) => {
                self.collect_mutant(i.op.span().into(), &quote! {}, Genre::UnaryOperator);
            }
            _ => {
                trace!(
                    op = i.op.to_pretty_string(),
                    "No mutants generated for this unary operator"
                );
            }
        }
        syn::visit::visit_expr_unary(self, i);
    }

    fn visit_expr_match(&mut self, i: &'ast syn::ExprMatch) {
""", """                Vec::new()
            }
        }
    }

    fn match_mutants(&mut self, i: &syn::ExprMatch) {
"""))
Q('q5-fn-common', (VIS, """        trace!("visit fn");
        if fn_sig_excluded(&i.sig) || attrs_excluded(&i.attrs) || block_is_empty(&i.block) {
            return;
        }
        let function = self.enter_function(&i.sig.ident, &i.sig.output, i.span());
        self.collect_fn_mutants(&i.sig, &i.block);
        syn::visit::visit_item_fn(self, i);
        self.leave_function(function);
""", """        trace!("visit fn");
        if !attrs_excluded(&i.attrs) {
            self.in_function(&i.sig, &i.block, i.span(), |v| {
                syn::visit::visit_item_fn(v, i);
            });
        }
"""), (VIS, """        if fn_sig_excluded(&i.sig)
            || attrs_excluded(&i.attrs)
            || i.sig.ident == "new"
            || block_is_empty(&i.block)
        {
            return;
        }
        let function = self.enter_function(&i.sig.ident, &i.sig.output, i.span());
        self.collect_fn_mutants(&i.sig, &i.block);
        syn::visit::visit_impl_item_fn(self, i);
        self.leave_function(function);
""", """        if i.sig.ident == "new" || attrs_excluded(&i.attrs) {
            return;
        }
        self.in_function(&i.sig, &i.block, i.span(), |v| {
            syn::visit::visit_impl_item_fn(v, i);
        });
"""), (VIS, """    fn leave_function(&mut self,""", """    fn in_function<F>(&mut self, sig: &Signature, block: &Block, span: proc_macro2::Span, f: F)
    where
        F: FnOnce(&mut Self),
    {
        if block_is_empty(block) || fn_sig_excluded(sig) {
            return;
        }
        let function = self.enter_function(&sig.ident, &sig.output, span);
        self.collect_fn_mutants(sig, block);
        f(self);
        self.leave_function(function);
    }

    fn leave_function(&mut self,"""))
Q('q5-walk-package', (VIS, """        for mod_namespace in &external_mods {
            if let Some(mod_path) = find_mod_source(workspace_dir, &source_file, mod_namespace) {
                // A file named by a path attribute has its own modules next to it, like a top file.
                let by_path_attribute = mod_namespace
                    .parts
                    .last()
                    .is_some_and(|part| part.path_attribute.is_some());
                filename_queue.push_back((mod_path, by_path_attribute));
            }
        }
        if !options.allows_source_file_path(&source_file.tree_relative_path) {
            continue;
        }
        mutants.append(&mut file_mutants);
        files.push(source_file);
    }
    Ok((mutants, files))
}
""", """        filename_queue.extend(submodules(workspace_dir, &source_file, &external_mods));
        if options.allows_source_file_path(&source_file.tree_relative_path) {
            files.push(source_file);
            mutants.extend(file_mutants);
        }
    }
    Ok((mutants, files))
}

fn submodules(
    workspace_dir: &Utf8Path,
    source_file: &SourceFile,
    external_mods: &[ExternalModRef],
) -> Vec<(Utf8PathBuf, bool)> {
    external_mods
        .iter()
        .filter_map(|m| {
            let path = find_mod_source(workspace_dir, source_file, m)?;
            let last = m.parts.last()?;
            Some((path, last.path_attribute.is_some()))
        })
        .collect()
}
"""))
Q('q5-find-mod', (VIS, """    let mut search_dir = if parent.is_top
        || parent_path.ends_with("mod.rs")
        // NOTE: Path attribute on a top-level `mod foo;` (no enclosing block)
        //       or on the outermost enclosing block ignores the parent module path
        || mod_namespace.parts[0].path_attribute.is_some()
    {
        parent_path
            .parent()
            .expect("mod path has no parent")
            .to_owned() // src/lib.rs -> src/
    } else {
        parent_path.with_extension("") // foo.rs -> foo/
    };

    search_dir.extend(mod_parents.iter().map(ModNamespace::get_filesystem_name));

    let mod_child_candidates = if let Some(filesystem_name) = &mod_child.path_attribute {
        vec![search_dir.join(filesystem_name)]
    } else {
        [".rs", "/mod.rs"]
            .iter()
            .map(|tail| search_dir.join(mod_child.name.clone() + tail))
            .collect()
    };
""", """    let outermost = mod_namespace.parts.first().expect("mod namespace is empty");
    let beside = outermost.path_attribute.is_some()
        || parent.is_top
        || parent_path.file_name() == Some("mod.rs");
    let mut search_dir = match (beside, parent_path.parent()) {
        (true, Some(dir)) => dir.to_path_buf(),
        (true, None) => panic!("mod path has no parent"),
        (false, _) => parent_path.with_extension(""),
    };
    for part in mod_parents {
        search_dir.push(part.get_filesystem_name());
    }
    let mod_child_candidates = match mod_child.path_attribute.as_ref() {
        Some(named) => vec![search_dir.join(named)],
        None => vec![
            search_dir.join(format!("{}.rs", mod_child.name)),
            search_dir.join(&mod_child.name).join("mod.rs"),
        ],
    };
"""))
Q('q5-attrs-loop', (VIS, """    attrs
        .iter()
        .any(|attr| attr_is_cfg_test(attr) || attr_is_test(attr) || attr_is_mutants_skip(attr))
}
""", """    for attr in attrs {
        if attr_is_mutants_skip(attr) || attr_is_test(attr) || attr_is_cfg_test(attr) {
            return true;
        }
    }
    false
}
"""), (VIS, """    path.segments.iter().map(|ps| &ps.ident).eq(idents.iter())
""", """    path.segments.len() == idents.len()
        && path
            .segments
            .iter()
            .zip(idents)
            .all(|(segment, ident)| segment.ident == ident)
"""), (VIS, """    path.segments.last().is_some_and(|s| s.ident == ident)
""", """    match path.segments.last() {
        Some(segment) => segment.ident == ident,
        None => false,
    }
"""))
Q('q5-mutants-skip', (VIS, """    match attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated) {
        Ok(metas) => metas
            .iter()
            .any(|meta| path_is(meta.path(), &["mutants", "skip"])),
        Err(err) => {
            debug!(
                ?attr,
                ?err,
                "Attribute is not a path with attributes; skipping"
            );
            false
        }
    }
""", """    let Ok(metas) = attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated) else {
        debug!(?attr, "Attribute is not a path with attributes; skipping");
        return false;
    };
    for meta in &metas {
        if path_is(meta.path(), &["mutants", "skip"]) {
            return true;
        }
    }
    false
"""))
Q('q5-skip-calls', (VIS, """            if let Some(hit) = self
                .options
                .skip_calls
                .iter()
                .find(|s| path_ends_with(path, s))
            {
                trace!("skip call to {hit}");
                return;
            }
        }
""", """            if path.segments.last().is_some_and(|s| self.skips(&s.ident)) {
                trace!("skip call");
                return;
            }
        }
"""), (VIS, """        if let Some(hit) = self.options.skip_calls.iter().find(|s| i.method == s) {
            trace!("skip method call to {hit}");
            return;
        }
""", """        if self.skips(&i.method) {
            trace!("skip method call");
            return;
        }
"""), (VIS, """    /// Record that we generated some mutants.
""", """    /// Calls of this name are left alone.
    fn skips(&self, name: &Ident) -> bool {
        self.options.skip_calls.iter().any(|s| name == s.as_str())
    }

    /// Record that we generated some mutants.
"""))
Q('q5-caught-set', (VIS, """        self.mutants.retain(|m| {
            let name = m.name(true);
            let c = previously_caught.contains(&name);
            if c {
                trace!(?name, "skip previously caught mutant");
            }
            !c
        });
""", """        let caught: HashSet<&str> = previously_caught.iter().map(String::as_str).collect();
        let all = std::mem::take(&mut self.mutants);
        self.mutants = all
            .into_iter()
            .filter(|m| !caught.contains(m.name(true).as_str()))
            .collect();
"""))
Q('q5-walk-tree', (VIS, """    for package in packages {
        let (mut package_mutants, mut package_files) =
            walk_package(workspace_dir, package, &error_exprs, &progress, options)?;
        mutants.append(&mut package_mutants);
        files.append(&mut package_files);
    }
    progress.finish();
    Ok(Discovered { mutants, files })
""", """    for package in packages {
        let found = walk_package(workspace_dir, package, &error_exprs, &progress, options)?;
        mutants.extend(found.0);
        files.extend(found.1);
    }
    let discovered = Discovered { files, mutants };
    progress.finish();
    Ok(discovered)
"""))
Q('q5-impl-name', (VIS, """        let type_name = i.self_ty.to_pretty_string();
        let name = if let Some((_, trait_path, _)) = &i.trait_ {
            if path_ends_with(trait_path, "Default") {
                // Can't think of how to generate a viable different default.
                return;
            }
            format!("<impl {trait} for {type_name}>", trait = trait_path.to_pretty_string())
        } else {
            type_name
        };
        self.in_namespace(""", """        let name = match &i.trait_ {
            Some((_, path, _)) if path_ends_with(path, "Default") => return,
            Some((_, path, _)) => format!(
                "<impl {} for {}>",
                path.to_pretty_string(),
                i.self_ty.to_pretty_string()
            ),
            None => i.self_ty.to_pretty_string(),
        };
        self.in_namespace("""))
Q('q5-fn-mutants', (VIS, """        if let Some(function) = self.fn_stack.last().cloned() {
            let body_span = function_body_span(block).expect("Empty function body");
            let repls = return_type_replacements(&sig.output, self.error_exprs);
            if repls.is_empty() {
                debug!(
                    function_name = function.function_name,
                    return_type = function.return_type,
                    "No mutants generated for this return type"
                );
            } else {
                let orig_block = block.to_token_stream().to_pretty_string();
                for rep in repls {""", """        if self.fn_stack.is_empty() {
            warn!("collect_fn_mutants called while not in a function?");
        } else {
            let body_span = function_body_span(block).expect("Empty function body");
            let repls = return_type_replacements(&sig.output, self.error_exprs);
            {
                let orig_block = block.to_token_stream().to_pretty_string();
                for rep in repls {"""), (VIS, """                    if orig_block == new_block {
                        debug!("Replacement is the same as the function body; skipping");
                    } else {
                        self.collect_mutant(body_span, &rep, Genre::FnValue);
                    }
                }
            }
        } else {
            warn!("collect_fn_mutants called while not in a function?");
        }
""", """                    if orig_block != new_block {
                        self.collect_mutant(body_span, &rep, Genre::FnValue);
                    }
                }
            }
        }
"""))
Q('q5-main-helpers', (MAIN, """    let start_dir: &Utf8Path = if let Some(manifest_path) = &args.manifest_path {
        ensure!(manifest_path.is_file(), "Manifest path is not a file");
        let parent = manifest_path
            .parent()
            .ok_or(anyhow!("Manifest path has no parent"))?;
        if parent.as_str().is_empty() {
            Utf8Path::new(".") // just `Cargo.toml`
        } else {
            parent
        }
    } else if let Some(dir) = &args.dir {
        dir
    } else {
        Utf8Path::new(".")
    };
""", """    let start_dir = start_dir(&args)?;
"""), (MAIN, """    let package_filter = if !args.mutate_packages.is_empty() {
        PackageFilter::explicit(&args.mutate_packages)
    } else if args.workspace {
        PackageFilter::All
    } else {
        PackageFilter::Auto(start_dir.to_owned())
    };

    let output_parent_dir = options
        .output_in_dir
        .clone()
        .unwrap_or_else(|| workspace.root().to_owned());
""", """    let package_filter = match (args.mutate_packages.is_empty(), args.workspace) {
        (false, _) => PackageFilter::explicit(&args.mutate_packages),
        (true, true) => PackageFilter::All,
        (true, false) => PackageFilter::Auto(start_dir.to_owned()),
    };

    let output_parent_dir = match &options.output_in_dir {
        Some(dir) => dir.clone(),
        None => workspace.root().to_owned(),
    };
"""), (MAIN, """    if args.list {
        print_stdout(&list_mutants(&mutants, &options))?;
    } else {
        let output_dir = OutputDir::new(&output_parent_dir)?;
        if let Some(previously_caught) = previously_caught {
            output_dir.write_previously_caught(&previously_caught)?;
        }
        console.set_debug_log(output_dir.open_debug_log()?);
        let lab_outcome = test_mutants(mutants, &workspace, output_dir, &options, &console)?;
        exit(lab_outcome.exit_code());
    }
    Ok(())
}
""", """    if args.list {
        print_stdout(&list_mutants(&mutants, &options))?;
        return Ok(());
    }
    let output_dir = OutputDir::new(&output_parent_dir)?;
    if let Some(names) = &previously_caught {
        output_dir.write_previously_caught(names)?;
    }
    console.set_debug_log(output_dir.open_debug_log()?);
    let code = test_mutants(mutants, &workspace, output_dir, &options, &console)?.exit_code();
    exit(code)
}

fn start_dir(args: &Args) -> Result<&Utf8Path> {
    match (&args.manifest_path, &args.dir) {
        (Some(manifest_path), _) => {
            ensure!(manifest_path.is_file(), "Manifest path is not a file");
            match manifest_path.parent() {
                None => Err(anyhow!("Manifest path has no parent")),
                Some(parent) if parent.as_str().is_empty() => Ok(Utf8Path::new(".")),
                Some(parent) => Ok(parent),
            }
        }
        (None, Some(dir)) => Ok(dir),
        (None, None) => Ok(Utf8Path::new(".")),
    }
}
"""))
Q('q5-main-exit', (MAIN, """        let lab_outcome = test_mutants(mutants, &workspace, output_dir, &options, &console)?;
        exit(lab_outcome.exit_code());
    }
    Ok(())
""", """        match test_mutants(mutants, &workspace, output_dir, &options, &console) {
            Ok(outcome) => exit(outcome.exit_code()),
            Err(err) => return Err(err),
        }
    }
    Ok(())
"""))
Q('q5-options', (OPT, """        let name = mutant.name(true);
        (self.examine_names.is_empty() || self.examine_names.is_match(&name))
            && (self.exclude_names.is_empty() || !self.exclude_names.is_match(&name))
""", """        let name = mutant.name(true);
        if !self.exclude_names.is_empty() && self.exclude_names.is_match(&name) {
            return false;
        }
        if self.examine_names.is_empty() {
            return true;
        }
        self.examine_names.is_match(&name)
"""), (OPT, """        self.examine_globset
            .as_ref()
            .map_or(true, |g| g.is_match(path))
            && !self
                .exclude_globset
                .as_ref()
                .is_some_and(|g| g.is_match(path))
""", """        if let Some(exclude) = &self.exclude_globset {
            if exclude.is_match(path) {
                return false;
            }
        }
        match &self.examine_globset {
            Some(examine) => examine.is_match(path),
            None => true,
        }
"""), (OPT, """        self.error_values
            .iter()
            .map(|e| {
                syn::parse_str(e).with_context(|| format!("Failed to parse error value {e:?}"))
            })
            .collect()
""", """        let mut exprs = Vec::with_capacity(self.error_values.len());
        for e in &self.error_values {
            let expr =
                syn::parse_str(e).with_context(|| format!("Failed to parse error value {e:?}"))?;
            exprs.push(expr);
        }
        Ok(exprs)
"""))
Q('q5-workspace', (WS, """        names
            .iter()
            .map(AsRef::as_ref)
            .sorted()
            .dedup() // in case a package is named twice
            .filter_map(|name| {
                if let Some(p) = self.packages.iter().find(|p| p.name == name) {
                    Some(Arc::clone(p))
                } else {
                    warn!("Package {name:?} not found in source tree");
                    None
                }
            })
            .collect()
""", """        let names: std::collections::BTreeSet<&str> = names.iter().map(AsRef::as_ref).collect();
        let mut found = Vec::new();
        for name in names {
            match self.packages.iter().find(|p| p.name == name) {
                Some(p) => found.push(Arc::clone(p)),
                None => warn!("Package {name:?} not found in source tree"),
            }
        }
        found
"""), (WS, """                for package in &self.packages {
                    // If this package is one of the workspace members, then select this package.
                    if root.join(&package.relative_dir) == package_dir {
                        debug!(
                            package = package.name,
                            ?package_dir,
                            "Resolved auto package filter based on enclosing directory"
                        );
                        return Ok(PackageSelection::Explicit(vec![package.clone()]));
                    }
                }
""", """                if let Some(package) = self
                    .packages
                    .iter()
                    .find(|p| root.join(&p.relative_dir) == package_dir)
                {
                    return Ok(PackageSelection::Explicit(vec![Arc::clone(package)]));
                }
"""))
Q('q5-package', (PKG, """    metadata
        .workspace_packages()
        .into_iter()
        .sorted_by_key(|p| &p.name)
        .filter_map(|p| Package::from_cargo_metadata(p, &metadata.workspace_root))
        .map(Arc::new)
        .collect()
""", """    let mut members = metadata.workspace_packages();
    members.sort_by(|a, b| a.name.cmp(&b.name));
    let mut packages = Vec::new();
    for member in members {
        if let Some(package) = Package::from_cargo_metadata(member, &metadata.workspace_root) {
            packages.push(Arc::new(package));
        }
    }
    packages
"""))
Q('q5-glob', ('src/glob.rs', """        let adjusted = if match_whole_path {
            vec![Cow::Borrowed(glob_str)]
        } else {
            vec![
                Cow::Owned(format!("**/{glob_str}")),
                Cow::Owned(format!("**/{glob_str}/**")),
            ]
        };
        for g in adjusted {
            builder.add(
                GlobBuilder::new(&g)
                    .literal_separator(true) // * does not match /
                    .build()
                    .with_context(|| format!("Failed to build glob from {glob_str:?}"))?,
            );
        }
""", """        let mut adjusted: Vec<Cow<str>> = Vec::new();
        if match_whole_path {
            adjusted.push(glob_str.into());
        } else {
            let anywhere = format!("**/{glob_str}");
            let below = anywhere.clone() + "/**";
            adjusted.push(anywhere.into());
            adjusted.push(below.into());
        }
        for g in &adjusted {
            let glob = GlobBuilder::new(g)
                .literal_separator(true)
                .build()
                .with_context(|| format!("Failed to build glob from {glob_str:?}"))?;
            builder.add(glob);
        }
"""))
Q('q5-mutant-name', (MUT, """        let mut v = Vec::new();
        v.push(self.source_file.tree_relative_slashes());
        if show_line_col {
            v.push(format!(
                ":{}:{}: ",
                self.span.start.line, self.span.start.column
            ));
        } else {
            v.push(": ".to_owned());
        }
        v.extend(
            self.styled_parts()
                .into_iter()
                .map(|x| x.force_styling(false).to_string()),
        );
        v.join("")
""", """        let mut name = self.source_file.tree_relative_slashes();
        if show_line_col {
            let start = self.span.start;
            name += &format!(":{}:{}", start.line, start.column);
        }
        name.push_str(": ");
        name.push_str(&self.describe_change());
        name
"""), (MUT, """            _ => {
                if self.replacement.is_empty() {
                    v.push(s("delete "));
                } else {
                    v.push(s("replace "));
                }
                v.push(s(self.original_text()).yellow());
                if !self.replacement.is_empty() {
                    v.push(s(" with "));
                    v.push(s(&self.replacement).bright().yellow());
                }
""", """            Genre::BinaryOperator | Genre::UnaryOperator => {
                let original = s(self.original_text()).yellow();
                if self.replacement.is_empty() {
                    v.extend([s("delete "), original]);
                } else {
                    v.extend([s("replace "), original, s(" with ")]);
                    v.push(s(&self.replacement).bright().yellow());
                }
"""))
Q('q5-mutant-write', (MUT, """        build_dir.overwrite_file(&self.source_file.tree_relative_path, mutated_code)
    }
""", """        self.write_code(build_dir, mutated_code)
    }

    fn write_code(&self, build_dir: &BuildDir, code: &str) -> Result<()> {
        build_dir.overwrite_file(self.source_file.path(), code)
    }
"""), (MUT, """        build_dir.overwrite_file(
            &self.source_file.tree_relative_path,
            self.source_file.code(),
        )
""", """        self.write_code(build_dir, self.source_file.code())
"""))
Q('q5-manifest', (MAN, """    if let Some(dependencies_table) = dependencies.as_table_mut() {
        for (_, value) in dependencies_table.iter_mut() {
            if let Some(dependency_table) = value.as_table_mut() {
                if let Some(path_value) = dependency_table.get_mut("path") {
                    if let Some(path_str) = path_value.as_str() {
                        if let Some(new_path) = fix_path(path_str, manifest_source_dir) {
                            *path_value = toml::Value::String(new_path);
                        }
                    }
                }
            }
        }
    }
""", """    let Some(dependencies_table) = dependencies.as_table_mut() else {
        return;
    };
    for (_, value) in dependencies_table.iter_mut() {
        let Some(path_value) = value.as_table_mut().and_then(|t| t.get_mut("path")) else {
            continue;
        };
        let fixed = path_value
            .as_str()
            .and_then(|path_str| fix_path(path_str, manifest_source_dir));
        if let Some(new_path) = fixed {
            *path_value = toml::Value::String(new_path);
        }
    }
"""), (MAN, """    let path = Utf8Path::new(path_str);
    if path.is_absolute() || ascent(path) == 0 {
        None
    } else {
        let mut new_path = source_dir.to_owned();
        new_path.push(path);
        let new_path_str = new_path.to_string();
        debug!("fix path {path_str} -> {new_path_str}");
        Some(new_path_str)
""", """    let path = Utf8Path::new(path_str);
    if path.is_relative() && ascent(path) > 0 {
        let fixed = source_dir.join(path).into_string();
        debug!("fix path {path_str} -> {fixed}");
        Some(fixed)
    } else {
        None
"""))
Q('q5-source', ('src/source.rs', """        let full_path = tree_path.join(tree_relative_path);
        let code = Arc::new(
            read_to_string(&full_path)
                .with_context(|| format!("failed to read source of {full_path:?}"))?
                .replace("\\r\\n", "\\n"),
        );
        Ok(Some(SourceFile {
            tree_relative_path: tree_relative_path.to_owned(),
            code,
            package: Arc::new(package.clone()),
            is_top,
        }))
""", """        let code = read_code(&tree_path.join(tree_relative_path))?;
        let source_file = SourceFile {
            package: Arc::new(package.to_owned()),
            tree_relative_path: tree_relative_path.to_path_buf(),
            code: code.into(),
            is_top,
        };
        Ok(Some(source_file))
"""), ('src/source.rs', """impl SourceFile {
""", """fn read_code(path: &Utf8Path) -> Result<String> {
    let text = read_to_string(path).with_context(|| format!("failed to read source of {path:?}"))?;
    Ok(text.replace("\\r\\n", "\\n"))
}

impl SourceFile {
"""))
Q('q5-fnvalue', (FNV, """            } else if path_ends_with(path, "Result") {
                if let Some(ok_type) = match_first_type_arg(path, "Result") {
                    type_replacements(ok_type, error_exprs)
                        .map(|rep| {
                            quote! { Ok(#rep) }
                        })
                        .collect_vec()
                } else {
                    // A result with no type arguments, like `fmt::Result`; hopefully
                    // the Ok value can be constructed with Default.
                    vec![quote! { Ok(Default::default()) }]
                }
                .into_iter()
                .chain(error_exprs.iter().map(|error_expr| {
                    quote! { Err(#error_expr) }
                }))
                .collect_vec()
""", """            } else if path_ends_with(path, "Result") {
                let mut reps = Vec::new();
                match match_first_type_arg(path, "Result") {
                    Some(ok_type) => {
                        for rep in type_replacements(ok_type, error_exprs).collect_vec() {
                            reps.push(quote! { Ok(#rep) });
                        }
                    }
                    None => reps.push(quote! { Ok(Default::default()) }),
                }
                for error_expr in error_exprs {
                    reps.push(quote! { Err(#error_expr) });
                }
                reps
"""), (FNV, """                iter::once(quote! { #collection_type::new() })
                    .chain(
                        key_reps
                            .iter()
                            .cartesian_product(val_reps)
                            .map(|(k, v)| quote! { #collection_type::from_iter([(#k, #v)]) }),
                    )
                    .collect_vec()
""", """                let mut reps = vec![quote! { #collection_type::new() }];
                for k in &key_reps {
                    for v in &val_reps {
                        reps.push(quote! { #collection_type::from_iter([(#k, #v)]) });
                    }
                }
                reps
"""))
Q('q5-fnvalue-iterator', (FNV, """    for bound in bounds {
        if let TypeParamBound::Trait(TraitBound { path, .. }) = bound {
            if let Some(last_segment) = path.segments.last() {
                if last_segment.ident == "Iterator" {
                    if let PathArguments::AngleBracketed(AngleBracketedGenericArguments {
                        args,
                        ..
                    }) = &last_segment.arguments
                    {
                        if let Some(GenericArgument::AssocType(AssocType { ident, ty, .. })) =
                            args.first()
                        {
                            if ident == "Item" {
                                return Some(ty);
                            }
                        }
                    }
                }
            }
        }
    }
    None
""", """    bounds.iter().find_map(|bound| {
        let TypeParamBound::Trait(TraitBound { path, .. }) = bound else {
            return None;
        };
        let last = path.segments.last().filter(|s| s.ident == "Iterator")?;
        let PathArguments::AngleBracketed(generics) = &last.arguments else {
            return None;
        };
        match generics.args.first()? {
            GenericArgument::AssocType(AssocType { ident, ty, .. }) if ident == "Item" => Some(ty),
            _ => None,
        }
    })
"""))
# output.rs
Q('q5-start-scenario-counter', (OD, """        let basename = match self.used_log_names.entry(scenario_name.clone()) {
            Entry::Occupied(mut e) => {
                let index = e.get_mut();
                *index += 1;
                format!("{scenario_name}_{index:03}")
            }
            Entry::Vacant(e) => {
                e.insert(0);
                scenario_name
            }
        };
        ScenarioOutput::new(&self.path, scenario, &basename)
""", """        let entry = self.used_log_names.entry(scenario_name.clone());
        let basename = if let Entry::Occupied(mut e) = entry {
            let next = *e.get() + 1;
            e.insert(next);
            format!("{scenario_name}_{next:03}")
        } else {
            entry.or_insert(0);
            scenario_name
        };
        ScenarioOutput::new(&self.path, scenario, basename.as_str())
"""))
Q('q5-add-scenario-letelse', (OD, """        let scenario = &scenario_outcome.scenario;
        if let Scenario::Mutant(mutant) = scenario {
            let file = match scenario_outcome.summary() {
                SummaryOutcome::MissedMutant => &mut self.missed_list,
                SummaryOutcome::CaughtMutant => &mut self.caught_list,
                SummaryOutcome::Timeout => &mut self.timeout_list,
                SummaryOutcome::Unviable => &mut self.unviable_list,
                _ => return Ok(()),
            };
            writeln!(file, "{}", mutant.name(true)).context("write to list file")?;
        }
        Ok(())
""", """        let Scenario::Mutant(mutant) = &scenario_outcome.scenario else {
            return Ok(());
        };
        let summary = scenario_outcome.summary();
        let list = if summary == SummaryOutcome::Unviable {
            Some(&mut self.unviable_list)
        } else if summary == SummaryOutcome::CaughtMutant {
            Some(&mut self.caught_list)
        } else if summary == SummaryOutcome::MissedMutant {
            Some(&mut self.missed_list)
        } else if summary == SummaryOutcome::Timeout {
            Some(&mut self.timeout_list)
        } else {
            None
        };
        match list {
            Some(file) => {
                let mut line = mutant.name(true);
                line.push('\\n');
                file.write_all(line.as_bytes()).context("write to list file")
            }
            None => Ok(()),
        }
"""))
Q('q5-load-prev-flat', (OD, """        let p = output_parent_dir.join(OUTDIR_NAME).join(filename);
        trace!(?p, "read previously caught");
        if p.is_file() {
            r.extend(
                read_to_string(&p)
                    .with_context(|| format!("Read previously caught mutants from {p:?}"))?
                    .lines()
                    .map(str::to_string),
            );
        }
    }
""", """        let mut p = output_parent_dir.join(OUTDIR_NAME);
        p.push(filename);
        trace!(?p, "read previously caught");
        if !p.is_file() {
            continue;
        }
        let content = read_to_string(&p)
            .with_context(|| format!("Read previously caught mutants from {p:?}"))?;
        for line in content.lines() {
            r.push(line.to_owned());
        }
    }
"""))
Q('q5-previously-caught-loop', (OD, """        let mut b = String::with_capacity(caught.iter().map(|l| l.len() + 1).sum());
        for l in caught {
            b.push_str(l);
            b.push('\\n');
        }
        File::options()
            .create_new(true)
            .write(true)
            .open(&path)
            .and_then(|mut f| f.write_all(b.as_bytes()))
            .with_context(|| format!("Write {path:?}"))
""", """        let b: String = caught.iter().map(|l| format!("{l}\\n")).collect();
        let mut f = File::options()
            .write(true)
            .create_new(true)
            .open(&path)
            .with_context(|| format!("Create {path:?}"))?;
        f.write_all(b.as_bytes())
            .with_context(|| format!("Write {path:?}"))
"""))
Q('q5-diffpath-then', (OD, """        let diff_path = if scenario.is_mutant() {
            Some(Utf8PathBuf::from(format!("diff/{basename}.diff")))
        } else {
            None
        };
""", """        let diff_path = match scenario {
            Scenario::Mutant(_) => Some(Utf8PathBuf::from("diff").join(format!("{basename}.diff"))),
            Scenario::Baseline => None,
        };
"""))
Q('q5-outputdir-lists-helper', (OD, """        let mut list_file_options = OpenOptions::new();
        list_file_options.create(true).append(true);
        let missed_list = list_file_options
            .open(output_dir.join("missed.txt"))
            .context("create missed.txt")?;
        let caught_list = list_file_options
            .open(output_dir.join(CAUGHT_TXT))
            .context("create caught.txt")?;
        let unviable_list = list_file_options
            .open(output_dir.join(UNVIABLE_TXT))
            .context("create unviable.txt")?;
        let timeout_list = list_file_options
            .open(output_dir.join("timeout.txt"))
            .context("create timeout.txt")?;
""", """        let open_list = |name: &str| -> Result<File> {
            OpenOptions::new()
                .append(true)
                .create(true)
                .open(output_dir.join(name))
                .with_context(|| format!("create {name}"))
        };
        let timeout_list = open_list("timeout.txt")?;
        let unviable_list = open_list(UNVIABLE_TXT)?;
        let caught_list = open_list(CAUGHT_TXT)?;
        let missed_list = open_list("missed.txt")?;
"""))
Q('q5-rotate-helper', (OD, """            let rotated = in_dir.join(ROTATED_NAME);
            if rotated.exists() {
                remove_dir_all(&rotated).with_context(|| format!("remove {:?}", &rotated))?;
            }
            rename(&output_dir, &rotated)
                .with_context(|| format!("move {:?} to {:?}", &output_dir, &rotated))?;
        }
""", """            rotate_out(in_dir, &output_dir)?;
        }
"""), (OD, """/// A `mutants.out` directory holding logs and other output information.
""", """fn rotate_out(in_dir: &Utf8Path, output_dir: &Utf8Path) -> Result<()> {
    let rotated = in_dir.join(ROTATED_NAME);
    if rotated.exists() {
        remove_dir_all(&rotated).with_context(|| format!("remove {:?}", &rotated))?;
    }
    rename(output_dir, &rotated)
        .with_context(|| format!("move {:?} to {:?}", output_dir, &rotated))?;
    Ok(())
}

/// A `mutants.out` directory holding logs and other output information.
"""))
Q('q5-lock-loop', (OD, """        let mut first = true;
        while let Err(err) = lock_file.try_lock_exclusive() {
            if first {
                info!(
                    "Waiting for lock on {} ...: {err}",
                    lock_path.to_slash_lossy()
                );
                first = false;
            }
            check_interrupted()?;
            sleep(LOCK_POLL);
        }
        lock_file.set_len(0)?;
        lock_file
            .write_all(serde_json::to_string_pretty(&LockFile::new())?.as_bytes())
            .context("write lock.json")?;
""", """        let mut announced = false;
        loop {
            let Err(err) = lock_file.try_lock_exclusive() else {
                break;
            };
            check_interrupted()?;
            if !announced {
                announced = true;
                info!(
                    "Waiting for lock on {} ...: {err}",
                    lock_path.to_slash_lossy()
                );
            }
            sleep(LOCK_POLL);
        }
        let content = serde_json::to_string_pretty(&LockFile::new())?;
        lock_file.set_len(0)?;
        lock_file
            .write_all(content.as_bytes())
            .context("write lock.json")?;
"""))
# outcome.rs
Q('q5-add-early', (OUT, """        if outcome.scenario.is_mutant() {
            self.total_mutants += 1;
            match outcome.summary() {
                SummaryOutcome::CaughtMutant => self.caught += 1,
                SummaryOutcome::MissedMutant => self.missed += 1,
                SummaryOutcome::Timeout => self.timeout += 1,
                SummaryOutcome::Unviable => self.unviable += 1,
                SummaryOutcome::Success => self.success += 1,
                SummaryOutcome::Failure => {
                    // We don't expect to see failures that don't fit into the other categories.
                    warn!("Unclassified failure for mutant {:?}", outcome.scenario);
                }
            }
        }
        self.outcomes.push(outcome);
""", """        if !outcome.scenario.is_mutant() {
            self.outcomes.push(outcome);
            return;
        }
        let counter = match outcome.summary() {
            SummaryOutcome::Success => Some(&mut self.success),
            SummaryOutcome::Unviable => Some(&mut self.unviable),
            SummaryOutcome::Timeout => Some(&mut self.timeout),
            SummaryOutcome::MissedMutant => Some(&mut self.missed),
            SummaryOutcome::CaughtMutant => Some(&mut self.caught),
            SummaryOutcome::Failure => None,
        };
        if let Some(counter) = counter {
            *counter += 1;
        } else {
            warn!("Unclassified failure for mutant {:?}", outcome.scenario);
        }
        self.total_mutants += 1;
        self.outcomes.push(outcome);
"""))
Q('q5-exitcode-match', (OUT, """        if self
            .outcomes
            .iter()
            .any(|o| !o.scenario.is_mutant() && !o.success())
        {
            exit_code::BASELINE_FAILED
        } else if self.timeout > 0 {
            exit_code::TIMEOUT
        } else if self.missed > 0 {
            exit_code::FOUND_PROBLEMS
        } else {
            exit_code::SUCCESS
        }
""", """        for o in &self.outcomes {
            if o.should_show_logs() {
                return exit_code::BASELINE_FAILED;
            }
        }
        match (self.timeout, self.missed) {
            (0, 0) => exit_code::SUCCESS,
            (0, _) => exit_code::FOUND_PROBLEMS,
            _ => exit_code::TIMEOUT,
        }
"""))
Q('q5-summary-flat', (OUT, """        match self.scenario {
            Scenario::Baseline => {
                if self.has_timeout() {
                    SummaryOutcome::Timeout
                } else if self.success() {
                    SummaryOutcome::Success
                } else {
                    SummaryOutcome::Failure
                }
            }
            Scenario::Mutant(_) => {
                if self.check_or_build_failed() {
                    SummaryOutcome::Unviable
                } else if self.has_timeout() {
                    SummaryOutcome::Timeout
                } else if self.mutant_caught() {
                    SummaryOutcome::CaughtMutant
                } else if self.mutant_missed() {
                    SummaryOutcome::MissedMutant
                } else if self.success() {
                    SummaryOutcome::Success
                } else {
                    // Some unattributed failure; should be rare or impossible?
                    SummaryOutcome::Failure
                }
            }
        }
""", """        let mutant = self.scenario.is_mutant();
        if mutant && self.check_or_build_failed() {
            return SummaryOutcome::Unviable;
        }
        if self.has_timeout() {
            return SummaryOutcome::Timeout;
        }
        if mutant && self.last_phase() == Phase::Test {
            match self.last_phase_result() {
                Exit::Success => return SummaryOutcome::MissedMutant,
                Exit::Failure(_) => return SummaryOutcome::CaughtMutant,
                _ => (),
            }
        }
        match self.last_phase_result() {
            Exit::Success => SummaryOutcome::Success,
            _ => SummaryOutcome::Failure,
        }
"""))
Q('q5-summary-string', (OUT, """        let mut s = Vec::new();
        s.push(format!("{} tested", plural(self.total_mutants, "mutant")));
        if options.show_times {
            s.push(format!(
                " in {}",
                format_duration(Duration::from_secs(start_time.elapsed().as_secs()))
            ));
        }
        s.push(": ".into());
        let mut by_outcome: Vec<String> = Vec::new();
        if self.missed != 0 {
            by_outcome.push(format!("{} missed", self.missed));
        }
        if self.caught != 0 {
            by_outcome.push(format!("{} caught", self.caught));
        }
        if self.unviable != 0 {
            by_outcome.push(format!("{} unviable", self.unviable));
        }
        if self.timeout != 0 {
            by_outcome.push(format!("{} timeouts", self.timeout));
        }
        if self.success != 0 {
            by_outcome.push(format!("{} succeeded", self.success));
        }
        s.push(by_outcome.join(", "));
        s.join("")
""", """        let mut s = format!("{} tested", plural(self.total_mutants, "mutant"));
        if options.show_times {
            let secs = start_time.elapsed().as_secs();
            s.push_str(" in ");
            s.push_str(&format_duration(Duration::from_secs(secs)).to_string());
        }
        s += ": ";
        let by_outcome = [
            (self.missed, "missed"),
            (self.caught, "caught"),
            (self.unviable, "unviable"),
            (self.timeout, "timeouts"),
            (self.success, "succeeded"),
        ]
        .into_iter()
        .filter(|(n, _)| *n > 0)
        .map(|(n, what)| format!("{n} {what}"))
        .collect::<Vec<String>>();
        s += &by_outcome.join(", ");
        s
"""))
# timeouts.rs
Q('q5-test-timeout-early', (TMO, """    if let Some(explicit) = options.test_timeout {
        explicit
    } else if let Some(baseline_duration) = baseline_duration {
        let timeout = max(
            options.minimum_test_timeout,
            Duration::try_from_secs_f64(
                (baseline_duration.as_secs_f64() * options.test_timeout_multiplier.unwrap_or(5.0))
                    .ceil(),
            )
            .unwrap_or(Duration::MAX),
        );
""", """    if let Some(explicit) = options.test_timeout {
        return explicit;
    }
    if let Some(baseline_duration) = baseline_duration {
        let multiplier = options.test_timeout_multiplier.unwrap_or(5.0);
        let secs = (multiplier * baseline_duration.as_secs_f64()).ceil();
        let scaled = match Duration::try_from_secs_f64(secs) {
            Ok(d) => d,
            Err(_) => Duration::MAX,
        };
        let timeout = if scaled > options.minimum_test_timeout {
            scaled
        } else {
            options.minimum_test_timeout
        };
"""))
Q('q5-build-timeout-combinators', (TMO, """    if let Some(t) = options.build_timeout {
        Some(t)
    } else if let Some(baseline) = baseline_duration {
        if let Some(multiplier) = options.build_timeout_multiplier {
            let timeout = Duration::try_from_secs_f64(baseline.as_secs_f64() * multiplier)
                .unwrap_or(Duration::MAX);
            if options.show_times {
                info!(
                    "Auto-set build timeout to {}",
                    humantime::format_duration(timeout)
                );
            }
            Some(timeout)
        } else {
            None
        }
    } else {
        None
    }
""", """    options.build_timeout.or_else(|| {
        let baseline = baseline_duration?;
        let multiplier = options.build_timeout_multiplier?;
        let secs = baseline.as_secs_f64() * multiplier;
        let timeout = Duration::try_from_secs_f64(secs).unwrap_or(Duration::MAX);
        if options.show_times {
            info!(
                "Auto-set build timeout to {}",
                humantime::format_duration(timeout)
            );
        }
        Some(timeout)
    })
"""))
Q('q5-from-baseline-lets', (TMO, """        Timeouts {
            build: build_timeout(
                baseline.phase_result(Phase::Build).map(|pr| pr.duration),
                options,
            ),
            test: Some(test_timeout(
                baseline.phase_result(Phase::Test).map(|pr| pr.duration),
                options,
            )),
        }
""", """        let duration_of = |phase| match baseline.phase_result(phase) {
            Some(pr) => Some(pr.duration),
            None => None,
        };
        let test = test_timeout(duration_of(Phase::Test), options);
        let build = build_timeout(duration_of(Phase::Build), options);
        Timeouts {
            build,
            test: Some(test),
        }
"""))
# process.rs
Q('q5-poll-early', (PROC, """        if self.timeout.is_some_and(|t| self.start.elapsed() > t) {
            debug!("timeout, terminating child process...",);
            self.terminate()?;
            Ok(Some(Exit::Timeout))
        } else if let Err(e) = check_interrupted() {
            debug!("interrupted, terminating child process...");
            self.terminate()?;
            Err(e)
        } else if let Some(status) = self.child.try_wait()? {
            Ok(Some(status.into()))
        } else {
            Ok(None)
        }
""", """        if let Some(limit) = self.timeout {
            if self.start.elapsed() > limit {
                debug!("timeout, terminating child process...",);
                self.terminate()?;
                return Ok(Some(Exit::Timeout));
            }
        }
        if let Err(e) = check_interrupted() {
            debug!("interrupted, terminating child process...");
            self.terminate()?;
            return Err(e);
        }
        let status = self.child.try_wait()?;
        Ok(status.map(Exit::from))
"""))
Q('q5-run-while', (PROC, """        let process_status = loop {
            if let Some(exit_status) = child.poll()? {
                break exit_status;
            }
            console.tick();
            sleep(WAIT_POLL_INTERVAL);
        };
""", """        let mut finished = child.poll()?;
        while finished.is_none() {
            console.tick();
            sleep(WAIT_POLL_INTERVAL);
            finished = child.poll()?;
        }
        let process_status = finished.unwrap();
"""))
Q('q5-start-statements', (PROC, """        let os_env = env.iter().map(|(k, v)| (OsStr::new(k), OsStr::new(v)));
        let mut command = Command::new(&argv[0]);
        command
            .args(&argv[1..])
            .envs(os_env)
            .stdin(Stdio::null())
            .stdout(scenario_output.open_log_append()?)
            .stderr(scenario_output.open_log_append()?)
            .current_dir(cwd);
        if let Some(js) = jobserver {
            js.configure(&mut command);
        }
        configure_command(&mut command);
""", """        let (program, args) = argv.split_first().expect("argv is not empty");
        let stdout_log = scenario_output.open_log_append()?;
        let stderr_log = scenario_output.open_log_append()?;
        let mut command = Command::new(program);
        configure_command(&mut command);
        command.current_dir(cwd);
        for arg in args {
            command.arg(arg);
        }
        for (k, v) in env {
            command.env(OsStr::new(k), OsStr::new(v));
        }
        command.stdin(Stdio::null());
        command.stderr(stderr_log).stdout(stdout_log);
        if let Some(js) = jobserver {
            js.configure(&mut command);
        }
"""))
Q('q5-terminate-iflet', (PROC, """        match self.child.wait() {
            Err(err) => debug!(?err, "Failed to wait for child after termination"),
            Ok(exit) => debug!("terminated child exit status {exit:?}"),
        }
        Ok(())
""", """        let waited = self.child.wait();
        if let Ok(exit) = waited {
            debug!("terminated child exit status {exit:?}");
        } else if let Err(err) = waited {
            debug!(?err, "Failed to wait for child after termination");
        }
        Ok(())
"""))
# build_dir.rs, copy_tree.rs
Q('q5-overwrite-check-helper', (BDR, """        let real_path = full_path
            .canonicalize_utf8()
            .with_context(|| format!("failed to canonicalize {full_path:?}"))?;
        let real_dir = self
            .path
            .canonicalize_utf8()
            .with_context(|| format!("failed to canonicalize {:?}", self.path))?;
        ensure!(
            real_path.starts_with(&real_dir),
            "{full_path:?} is outside of the build directory, at {real_path:?}"
        );
        write(&full_path, code.as_bytes())
            .with_context(|| format!("failed to write code to {full_path:?}"))
    }
""", """        self.check_inside(&full_path)?;
        write(&full_path, code).with_context(|| format!("failed to write code to {full_path:?}"))
    }

    fn check_inside(&self, full_path: &Utf8Path) -> Result<()> {
        let canon = |p: &Utf8Path| {
            p.canonicalize_utf8()
                .with_context(|| format!("failed to canonicalize {p:?}"))
        };
        let real_dir = canon(&self.path)?;
        let real_path = canon(full_path)?;
        if !real_path.starts_with(&real_dir) {
            anyhow::bail!("{full_path:?} is outside of the build directory, at {real_path:?}");
        }
        Ok(())
    }
"""))
Q('q5-copy-from-early', (BDR, """        let temp_dir = if options.leak_dirs {
            let _ = temp_dir.into_path();
            info!(?path, "Build directory will be leaked for inspection");
            None
        } else {
            Some(temp_dir)
        };
        let build_dir = BuildDir { path, temp_dir };
        Ok(build_dir)
""", """        if !options.leak_dirs {
            return Ok(BuildDir {
                temp_dir: Some(temp_dir),
                path,
            });
        }
        info!(?path, "Build directory will be leaked for inspection");
        let _leaked = temp_dir.into_path();
        Ok(BuildDir {
            temp_dir: None,
            path,
        })
"""))
Q('q5-copytree-filter-fn', (CPT, """        .filter_entry(move |entry| {
            let name = entry.file_name().to_string_lossy();
            name != "mutants.out"
                && name != "mutants.out.old"
                && (copy_vcs || !VCS_DIRS.contains(&name.as_ref()))
        });
""", """        .filter_entry(move |entry| {
            let name = entry.file_name().to_string_lossy();
            if name == "mutants.out.old" || name == "mutants.out" {
                return false;
            }
            let is_vcs = VCS_DIRS.iter().any(|d| *d == name);
            !is_vcs || copy_vcs
        });
"""))
Q('q5-copytree-match-type', (CPT, """            total_bytes += bytes_copied;
            total_files += 1;
            console.copy_progress(dest, total_bytes);
        } else if ft.is_dir() {
            std::fs::create_dir_all(&dest_path)
                .with_context(|| format!("Failed to create directory {dest_path:?}"))?;
        } else if ft.is_symlink() {
            copy_symlink(
                ft,
                entry
                    .path()
                    .try_into()
                    .context("Convert filename to UTF-8")?,
                &dest_path,
            )?;
        } else {
            warn!("Unexpected file type: {:?}", entry.path());
        }
    }
""", """            total_files += 1;
            total_bytes += bytes_copied;
            console.copy_progress(dest, total_bytes);
            continue;
        }
        if ft.is_symlink() {
            let link: &Utf8Path = entry
                .path()
                .try_into()
                .context("Convert filename to UTF-8")?;
            copy_symlink(ft, link, &dest_path)?;
            continue;
        }
        if !ft.is_dir() {
            warn!("Unexpected file type: {:?}", entry.path());
            continue;
        }
        std::fs::create_dir_all(&dest_path)
            .with_context(|| format!("Failed to create directory {dest_path:?}"))?;
    }
"""))
# ---- standard output closed or full
B('print-list', 'C28', (MAIN, "        print_stdout(&list_mutants(&mutants, &options))?;", '        print!("{}", list_mutants(&mutants, &options));'))
B('print-message', 'C28', (CON, "        let _ = io::Write::write_all(&mut io::stdout(), message.as_bytes());", '        print!("{message}");'))
B('print-message-expect', 'C28', (CON, "        let _ = io::Write::write_all(&mut io::stdout(), message.as_bytes());", '        io::Write::write_all(&mut io::stdout(), message.as_bytes()).expect("write message");'))
B('print-completions', 'C28', (MAIN, """        generate(shell, &mut Cargo::command(), "cargo", &mut script);
        print_stdout""", """        generate(shell, &mut Cargo::command(), "cargo", &mut io::stdout().lock());
        print_stdout"""), (MAIN, "let mut script = Vec::new();", "let script: Vec<u8> = Vec::new();"))
B('print-list-to-nowhere', 'C27', (MAIN, "        print_stdout(&list_mutants(&mutants, &options))?;", "        let _ = list_mutants(&mutants, &options);"))
B('print-list-stderr', 'C27', (MAIN, "        print_stdout(&list_mutants(&mutants, &options))?;", "        io::stderr().write_all(list_mutants(&mutants, &options).as_bytes())?;"))
Q('print-message-writefmt', (CON, "        let _ = io::Write::write_all(&mut io::stdout(), message.as_bytes());", '        use std::io::Write as _;\n        let mut out = io::stdout().lock();\n        let _ = out.write_fmt(format_args!("{message}"));'))
Q('print-stdout-steps', (MAIN, """    let mut stdout = io::stdout().lock();
    stdout
        .write_all(s.as_bytes())
        .and_then(|()| stdout.flush())
        .context("write to stdout")
""", """    let stdout = io::stdout();
    let mut lock = stdout.lock();
    write!(lock, "{s}").context("write to stdout")?;
    lock.flush().context("flush stdout")?;
    Ok(())
"""))
# ---- independent bugs, batch 6
B('n6-copy-check-every-64', 'C11', (CPT, "        check_interrupted()?;\n        let entry = entry?;", "        if total_files % 64 == 0 {\n            check_interrupted()?;\n        }\n        let entry = entry?;"))
B('n6-rotate-old-first', 'C12', (OD, """        if output_dir.exists() {
            LockFile::acquire_lock(output_dir.as_ref())?;
            // Now release the lock for a bit while we move the directory. This might be
            // slightly racy.
            // TODO: Move the lock outside the directory, <https://github.com/sourcefrog/cargo-mutants/issues/402>.

            let rotated = in_dir.join(ROTATED_NAME);
            if rotated.exists() {
                remove_dir_all(&rotated).with_context(|| format!("remove {:?}", &rotated))?;
            }
""", """        if output_dir.exists() {
            let rotated = in_dir.join(ROTATED_NAME);
            if rotated.exists() {
                remove_dir_all(&rotated).with_context(|| format!("remove {:?}", &rotated))?;
            }
            LockFile::acquire_lock(output_dir.as_ref())?;
"""))
B('n6-lock-last', 'C12', (OD, """        let lock_file = LockFile::acquire_lock(output_dir.as_std_path())
            .context("create lock.json lock file")?;
        let log_dir = output_dir.join("log");
        create_dir(&log_dir).with_context(|| format!("create log directory {:?}", &log_dir))?;
        let diff_dir = output_dir.join("diff");
        create_dir(diff_dir).context("create diff dir")?;
""", """        let log_dir = output_dir.join("log");
        create_dir(&log_dir).with_context(|| format!("create log directory {:?}", &log_dir))?;
        let diff_dir = output_dir.join("diff");
        create_dir(diff_dir).context("create diff dir")?;
        let lock_file = LockFile::acquire_lock(output_dir.as_std_path())
            .context("create lock.json lock file")?;
"""))
B('n6-iterate-old-dir', 'C14', (OD, "        let p = output_parent_dir.join(OUTDIR_NAME).join(filename);", """        let mut p = output_parent_dir.join(OUTDIR_NAME).join(filename);
        if !p.exists() {
            p = output_parent_dir.join(ROTATED_NAME).join(filename);
        }"""))
B('n6-iterate-empty-output', 'C14', (MAIN, """    let previously_caught = if args.iterate {""", """    let previously_caught = if args.iterate && args.output.is_none() {"""))
B('n6-errors-hashset', 'C16', (OPT, "            error_values: join_slices(&args.error, &config.error_values),", """            error_values: join_slices(&args.error, &config.error_values)
                .into_iter()
                .collect::<std::collections::HashSet<_>>()
                .into_iter()
                .collect(),"""))
B('n6-cfg-any-test', 'C17', (VIS, """        if meta.path.is_ident("test") {
            contains_test = true;
        }
        Ok(())""", """        if meta.path.is_ident("test") {
            contains_test = true;
        } else if meta.path.is_ident("not") {
            meta.parse_nested_meta(|inner| {
                contains_test |= inner.path.is_ident("test");
                Ok(())
            })?;
        }
        Ok(())"""))
B('n6-test-last-segment', 'C17', (VIS, """    attr.path().is_ident("test")
""", """    path_ends_with(attr.path(), "test")
"""))
B('n6-skip-suffix', 'C17', (VIS, "find(|s| i.method == s)", "find(|s| i.method.to_string().starts_with(s.as_str()))"))
B('n6-mutants-anything', 'C17', (VIS, """    if path_is(attr.path(), &["mutants", "skip"]) {
        return true;
    }""", """    if attr.path().segments.first().is_some_and(|s| s.ident == "mutants") {
        return true;
    }"""))
B('n6-follow-links', 'C25', (CPT, "        .hidden(false) // copy hidden files", "        .follow_links(true)\n        .hidden(false) // copy hidden files"))
B('n6-max-filesize', 'C25', (CPT, "        .hidden(false) // copy hidden files", "        .max_filesize(Some(100 * 1024 * 1024))\n        .hidden(false) // copy hidden files"))
B('n6-same-fs', 'C25', (CPT, "        .hidden(false) // copy hidden files", "        .same_file_system(true)\n        .hidden(false) // copy hidden files"))
B('n6-no-parents', 'C25', (CPT, "        .hidden(false) // copy hidden files", "        .parents(false)\n        .hidden(false) // copy hidden files"))
B('n6-permissions', 'C25', (CPT, "let bytes_copied = std::fs::copy(entry.path(), &dest_path).with_context(|| {", "let bytes_copied = std::fs::read(entry.path())\n                .and_then(|b| std::fs::write(&dest_path, &b).map(|()| b.len() as u64))\n                .with_context(|| {"))
B('n6-tmo-total', 'C32', (TMO, "baseline.phase_result(Phase::Test).map(|pr| pr.duration),", "baseline\n                    .phase_result(Phase::Test)\n                    .map(|_| baseline.phase_results().iter().map(|pr| pr.duration).sum()),"))
B('n6-tmo-min-only-default', 'C32', (TMO, "            options.minimum_test_timeout,\n", "            if options.test_timeout_multiplier.is_some() {\n                Duration::ZERO\n            } else {\n                options.minimum_test_timeout\n            },\n"))
B('n6-forget-copy', 'C24', (BDR, """        fix_cargo_config(&path, &source_abs)?;
        let temp_dir = if options.leak_dirs {""", """        if let Err(err) = fix_cargo_config(&path, &source_abs) {
            std::mem::forget(temp_dir);
            return Err(err);
        }
        let temp_dir = if options.leak_dirs {"""))
B('n6-baseline-check-mutated', 'C37', ('src/lab.rs', """            TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
        };
        self.make_worker""", """            TestsForMutant::Explicit(packages) if packages.len() == 1 => PackageSelection::All,
            TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
        };
        self.make_worker"""))
B('n6-unviable-build-only', 'C02', (OUT, "pr.phase != Phase::Test && pr.process_status.is_failure()", "pr.phase == Phase::Build && pr.process_status.is_failure()"))
B('n6-exit-caught-needed', 'C01', (OUT, "        } else if self.timeout > 0 {", "        } else if self.timeout > 0 && self.caught == 0 {"))
B('n6-exit-only-run', 'C01', (MAIN, "        exit(lab_outcome.exit_code());", "        if lab_outcome.outcomes.len() > 1 {\n            exit(lab_outcome.exit_code());\n        }"))
B('n6-nopg-nojob', 'C10', (PROC, "        configure_command(&mut command);\n", "        if jobserver.is_some() {\n            configure_command(&mut command);\n        }\n"))
B('n6-esrch-err', 'C10', (UNIX, "killpg(pid, Signal::SIGTERM)", "killpg(pid, Signal::SIGCONT)"))
B('n6-sem-jobserver-tasks', 'C39', ('src/lab.rs', "        .jobserver\n        .then(", "        .jobserver\n        .then_some(())\n        .filter(|()| options.jobs.is_some() || options.jobserver_tasks.is_some())\n        .map(").__class__(('src/lab.rs', "        .jobserver\n        .then(|| {", "        .jobserver\n        .then_some(())\n        .filter(|()| options.jobs.is_some() || options.jobserver_tasks.is_some())\n        .map(|()| {")))
B('n6-interrupt-relaxed-reset', 'C11', ('src/interrupt.rs', "    if INTERRUPTED.load(Ordering::SeqCst) {", "    if INTERRUPTED.swap(false, Ordering::SeqCst) {"))
B('n6-same-log-casefold', 'C33', (OD, "self.used_log_names.entry(scenario_name.clone())", "self.used_log_names.entry(scenario_name.to_lowercase())"), (OD, "format!(\"{scenario_name}_{index:03}\")", "format!(\"{scenario_name}\")"))
B('n6-shard-from-one', 'C15', ('src/shard.rs', '        ensure!(k < n, "shard k must be less than n"); // implies n>0', '        ensure!(k < n || k == n && n > 1, "shard k must be less than n"); // implies n>0'))
B('n6-list-shard-late', 'C27', (MAIN, """    if let Some(shard) = &args.shard {
        mutants = shard.select(mutants);
    }
    if args.list {""", """    if let Some(shard) = args.shard.as_ref().filter(|_| !args.list || args.json) {
        mutants = shard.select(mutants);
    }
    if args.list {"""))
B('n6-lock-copy', 'C43', ('src/lab.rs', """                let build_dir_0 = build_dir_0.lock().expect("lock build dir 0").take(); // separate for lock
                let build_dir = &if let Some(d) = build_dir_0 {
                    d
                } else {
                    BuildDir::copy_from(workspace.root(), options, console)?
                };
                lab.run_queue(build_dir, timeouts, work_queue)""", """                let mut first = build_dir_0.lock().expect("lock build dir 0");
                let build_dir = &if let Some(d) = first.take() {
                    d
                } else {
                    BuildDir::copy_from(workspace.root(), options, console)?
                };
                lab.run_queue(build_dir, timeouts, work_queue)"""))

# ---- refactorings, batch 7 (functions no earlier refactoring touched)
Q('q7-console-outcome-words', (CON, '''    match outcome.summary() {
        SummaryOutcome::CaughtMutant => style("caught").green(),
        SummaryOutcome::MissedMutant => style("MISSED").red().bold(),
        SummaryOutcome::Failure => style("FAILED").red().bold(),
        SummaryOutcome::Success => style("ok").green(),
        SummaryOutcome::Unviable => style("unviable").blue(),
        SummaryOutcome::Timeout => style("TIMEOUT").red().bold(),
    }
''', '''    let summary = outcome.summary();
    let word = match summary {
        SummaryOutcome::CaughtMutant => "caught",
        SummaryOutcome::MissedMutant => "MISSED",
        SummaryOutcome::Failure => "FAILED",
        SummaryOutcome::Success => "ok",
        SummaryOutcome::Unviable => "unviable",
        SummaryOutcome::Timeout => "TIMEOUT",
    };
    match summary {
        SummaryOutcome::CaughtMutant | SummaryOutcome::Success => style(word).green(),
        SummaryOutcome::Unviable => style(word).blue(),
        _ => style(word).red().bold(),
    }
'''), (CON, '''    match scenario {
        Scenario::Baseline => Cow::Borrowed("Unmutated baseline"),
        Scenario::Mutant(mutant) => Cow::Owned(mutant.to_styled_string(line_col)),
    }
''', '''    if let Some(mutant) = scenario.mutant() {
        mutant.to_styled_string(line_col).into()
    } else {
        "Unmutated baseline".into()
    }
'''), (CON, '''    if n == 1 {
        format!("{n} {noun}")
    } else {
        format!("{n} {noun}s")
    }
''', '''    let suffix = if n == 1 { "" } else { "s" };
    format!("{n} {noun}{suffix}")
'''))
Q('q7-console-phases', (CON, '''            model.find_scenario_mut(dir).phase_started(phase);
        });
''', '''            let scenario_model = model.find_scenario_mut(dir);
            scenario_model.phase_started(phase);
        });
'''), (CON, '''        self.phase = Some(phase);
        self.phase_start = Instant::now();
''', '''        self.phase_start = Instant::now();
        self.phase.replace(phase);
'''), (CON, '''        debug_assert_eq!(self.phase, Some(phase));
        self.previous_phase_durations
            .push((phase, self.phase_start.elapsed()));
        self.phase = None;
''', '''        let elapsed = self.phase_start.elapsed();
        let current = self.phase.take();
        debug_assert_eq!(current, Some(phase));
        self.previous_phase_durations.push((phase, elapsed));
'''), (CON, '''        let start = Instant::now();
        let scenario_model = ScenarioModel::new(dir, scenario, start, log_file);
        self.view.update(|model| {
            model.scenario_models.push(scenario_model);
        });
''', '''        let scenario_model = ScenarioModel::new(dir, scenario, Instant::now(), log_file);
        self.view
            .update(|model| model.scenario_models.push(scenario_model));
'''), (CON, '''        self.view.update(|model| {
            model.scenario_models.clear();
        });
        self.message(&format!(
            "{}\\n",
            lab_outcome.summary_string(start_time, options)
        ));
''', '''        let mut summary = lab_outcome.summary_string(start_time, options);
        summary.push('\\n');
        self.view.update(|model| model.scenario_models.clear());
        self.message(&summary);
'''), (CON, '''        self.message(&format!(
            "Found {} to test\\n",
            plural(mutants.len(), "mutant")
        ));
        let n_mutants = mutants.len();
        self.view.update(|model| {
''', '''        let n_mutants = mutants.len();
        let found = plural(n_mutants, "mutant");
        self.message(&format!("Found {found} to test\\n"));
        self.view.update(|model| {
'''))
Q('q7-console-writers', (CON, '''        if let Some(file) = self.0.lock().unwrap().as_mut() {
            file.write(buf)
        } else {
            Ok(buf.len())
        }
''', '''        let mut guard = self.0.lock().unwrap();
        match guard.as_mut() {
            Some(file) => file.write(buf),
            None => Ok(buf.len()),
        }
'''), (CON, '''        if let Some(file) = self.0.lock().unwrap().as_mut() {
            file.flush()
        } else {
            Ok(())
        }
''', '''        let mut guard = self.0.lock().unwrap();
        let Some(file) = guard.as_mut() else {
            return Ok(());
        };
        file.flush()
'''), (CON, '''        self.view.message(std::str::from_utf8(buf).unwrap());
        Ok(buf.len())
''', '''        let text = std::str::from_utf8(buf).unwrap();
        self.view.message(text);
        Ok(text.len())
'''), (CON, '''        self.view.update(|model| {
            model.walk_tree.as_mut().unwrap().files_done += files_done;
        });
''', '''        self.view.update(|model| {
            if let Some(walk) = model.walk_tree.as_mut() {
                walk.files_done += files_done;
            }
        });
'''), (CON, '''    if let Some(colors) = colors.forced_value() {
        ::console::set_colors_enabled(colors);
        ::console::set_colors_enabled_stderr(colors);
    }
''', '''    let Some(forced) = colors.forced_value() else {
        return;
    };
    ::console::set_colors_enabled(forced);
    ::console::set_colors_enabled_stderr(forced);
'''))
Q('q7-fnvalue-one-arg', (FNV, '''    if ["Box", "Cell", "RefCell", "Arc", "Rc", "Mutex"]
        .iter()
        .any(|v| last.ident == v)
    {
        if let PathArguments::AngleBracketed(AngleBracketedGenericArguments { args, .. }) =
            &last.arguments
        {
            // TODO: Skip lifetime args.
            // TODO: Return the path with args stripped out.
            if args.len() == 1 {
                if let Some(GenericArgument::Type(inner_type)) = args.first() {
                    return Some((&last.ident, inner_type));
                }
            }
        }
    }
    None
}
''', '''    if ["Box", "Cell", "RefCell", "Arc", "Rc", "Mutex"]
        .iter()
        .any(|v| last.ident == v)
    {
        single_type_arg(last).map(|inner| (&last.ident, inner))
    } else {
        None
    }
}

/// If this segment has exactly one generic argument, and that's a type, return it.
fn single_type_arg(segment: &syn::PathSegment) -> Option<&Type> {
    let PathArguments::AngleBracketed(AngleBracketedGenericArguments { args, .. }) =
        &segment.arguments
    else {
        return None;
    };
    if args.len() != 1 {
        return None;
    }
    match args.first() {
        Some(GenericArgument::Type(inner_type)) => Some(inner_type),
        _ => None,
    }
}
'''), (FNV, '''    .any(|v| last.ident == v)
    {
        return None;
    }
    if let PathArguments::AngleBracketed(AngleBracketedGenericArguments { args, .. }) =
        &last.arguments
    {
        // TODO: Skip lifetime args.
        // TODO: Return the path with args stripped out.
        if args.len() == 1 {
            if let Some(GenericArgument::Type(inner_type)) = args.first() {
                return Some((&last.ident, inner_type));
            }
        }
    }
    None
}
''', '''    .any(|v| last.ident == v)
    {
        return None;
    }
    let inner = single_type_arg(last)?;
    Some((&last.ident, inner))
}
'''))
Q('q7-fnvalue-names', (FNV, '''    if let Some(l) = path.segments.last().map(|p| p.ident.to_string()) {
        matches!(
            l.as_str(),
            "NonZeroIsize"
                | "NonZeroI8"
                | "NonZeroI16"
                | "NonZeroI32"
                | "NonZeroI64"
                | "NonZeroI128",
        )
    } else {
        false
    }
''', '''    path.segments.last().is_some_and(|p| {
        [
            "NonZeroIsize",
            "NonZeroI8",
            "NonZeroI16",
            "NonZeroI32",
            "NonZeroI64",
            "NonZeroI128",
        ]
        .iter()
        .any(|name| p.ident == name)
    })
'''), (FNV, '''    if let Some(l) = path.segments.last().map(|p| p.ident.to_string()) {
        matches!(
            l.as_str(),
            "NonZeroUsize"
                | "NonZeroU8"
                | "NonZeroU16"
                | "NonZeroU32"
                | "NonZeroU64"
                | "NonZeroU128",
        )
    } else {
        false
    }
''', '''    let Some(last) = path.segments.last() else {
        return false;
    };
    let name = last.ident.to_string();
    matches!(
        name.strip_prefix("NonZero"),
        Some("Usize" | "U8" | "U16" | "U32" | "U64" | "U128")
    )
'''), (FNV, '''    ["u8", "u16", "u32", "u64", "u128", "usize"]
        .iter()
        .any(|s| path.is_ident(s))
''', '''    const UNSIGNED: [&str; 6] = ["u8", "u16", "u32", "u64", "u128", "usize"];
    path.get_ident()
        .is_some_and(|ident| UNSIGNED.iter().any(|name| ident == name))
'''), (FNV, '''    ["i8", "i16", "i32", "i64", "i128", "isize"]
        .iter()
        .any(|s| path.is_ident(s))
''', '''    path.is_ident("isize")
        || path.is_ident("i8")
        || path.is_ident("i16")
        || path.is_ident("i32")
        || path.is_ident("i64")
        || path.is_ident("i128")
'''))
Q('q7-fnvalue-first-arg', (FNV, '''    if last.ident == expected_ident {
        if let PathArguments::AngleBracketed(AngleBracketedGenericArguments { args, .. }) =
            &last.arguments
        {
            for arg in args {
                match arg {
                    GenericArgument::Type(arg_type) => return Some(arg_type),
                    GenericArgument::Lifetime(_) => (),
                    _ => return None,
                }
            }
        }
    }
    None
}
''', '''    if last.ident != expected_ident {
        return None;
    }
    let PathArguments::AngleBracketed(generics) = &last.arguments else {
        return None;
    };
    let first = generics
        .args
        .iter()
        .find(|arg| !matches!(arg, GenericArgument::Lifetime(_)));
    if let Some(GenericArgument::Type(arg_type)) = first {
        Some(arg_type)
    } else {
        None
    }
}
'''), (FNV, '''        let type_args: Vec<_> = args
            .iter()
            .filter_map(|a| match a {
                GenericArgument::Type(t) => Some(t),
                _ => None,
            })
            .collect();
        // TODO: Return the path with args stripped out.
        if type_args.len() == 1 {
            return Some((&last.ident, type_args.first().unwrap()));
        }
    }
    None
}
''', '''        let mut type_args = args.iter().filter_map(|a| {
            if let GenericArgument::Type(t) = a {
                Some(t)
            } else {
                None
            }
        });
        // TODO: Return the path with args stripped out.
        if let (Some(only), None) = (type_args.next(), type_args.next()) {
            return Some((&last.ident, only));
        }
    }
    None
}
'''), (FNV, '''        if let Some((GenericArgument::Type(ref key_type), GenericArgument::Type(ref value_type))) =
            args.iter().collect_tuple()
        {
            return Some((&last.ident, key_type, value_type));
        }
    }
    None
}
''', '''        if args.len() == 2 {
            if let (GenericArgument::Type(key_type), GenericArgument::Type(value_type)) =
                (&args[0], &args[1])
            {
                return Some((&last.ident, key_type, value_type));
            }
        }
    }
    None
}
'''), (FNV, '''    match return_type {
        ReturnType::Default => vec![quote! { () }],
        ReturnType::Type(_rarrow, type_) => type_replacements(type_, error_exprs).collect_vec(),
    }
''', '''    if let ReturnType::Type(_, type_) = return_type {
        type_replacements(type_, error_exprs).collect()
    } else {
        vec![quote! { () }]
    }
'''))
Q('q7-diff-check', (IND, '''    let mut source_by_name: HashMap<&Utf8Path, &SourceFile> = HashMap::new();
    for mutant in mutants {
        source_by_name
            .entry(mutant.source_file.path())
            .or_insert_with(|| &mutant.source_file);
    }
    for patch in patches {
        let path = strip_patch_path(&patch.new.path);
        if let Some(source_file) = source_by_name.get(&path) {
            let reconstructed = partial_new_file(patch);
            let lines = source_file.code().lines().collect_vec();
            for (lineno, diff_content) in reconstructed {
''', '''    let source_by_name: HashMap<&Utf8Path, &SourceFile> = mutants
        .iter()
        .map(|mutant| (mutant.source_file.path(), &mutant.source_file))
        .collect();
    for patch in patches {
        let path = strip_patch_path(&patch.new.path);
        if let Some(source_file) = source_by_name.get(&path) {
            let lines: Vec<&str> = source_file.code().lines().collect();
            for (lineno, diff_content) in partial_new_file(patch) {
'''), (IND, '''            match line {
                Line::Context(text) | Line::Add(text) => {
                    debug_assert!(lineno >= 1, "{lineno}");
                    debug_assert!(
                        r.last().map_or(true, |last| last.0 < lineno),
                        "{lineno} {r:?}"
                    );
                    r.push((lineno, text));
                    lineno += 1;
                }
                Line::Remove(_) => {}
            }
''', '''            let text = match line {
                Line::Remove(_) => continue,
                Line::Context(text) | Line::Add(text) => *text,
            };
            debug_assert!(lineno >= 1, "{lineno}");
            r.push((lineno, text));
            lineno += 1;
'''))
Q('q7-lab-worker', (LAB, '''        let test_packages = match &self.tests_for_mutant {
            TestsForMutant::Workspace => PackageSelection::All,
            TestsForMutant::Mutated => PackageSelection::Explicit(
                mutants
                    .iter()
                    .map(|m| Arc::clone(&m.source_file.package))
                    .sorted_by_key(|p| p.name.clone())
                    .unique()
                    .collect_vec(),
            ),
            TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
        };
        self.make_worker(build_dir).run_one_scenario(
            &Scenario::Baseline,
            &test_packages,
            Timeouts::for_baseline(self.options),
        )
''', '''        let timeouts = Timeouts::for_baseline(self.options);
        let test_packages = self.baseline_packages(mutants);
        let mut worker = self.make_worker(build_dir);
        worker.run_one_scenario(&Scenario::Baseline, &test_packages, timeouts)
    }

    fn baseline_packages(&self, mutants: &[Mutant]) -> PackageSelection {
        match &self.tests_for_mutant {
            TestsForMutant::Workspace => PackageSelection::All,
            TestsForMutant::Mutated => {
                let packages = mutants
                    .iter()
                    .map(|m| Arc::clone(&m.source_file.package))
                    .sorted_by_key(|p| p.name.clone())
                    .unique()
                    .collect_vec();
                PackageSelection::Explicit(packages)
            }
            TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.to_vec()),
        }
'''), (LAB, '''        Worker {
            build_dir,
            output_mutex: &self.output_mutex,
            jobserver: self.jobserver.as_ref(),
            tests_for_mutant: &self.tests_for_mutant,
            options: self.options,
            console: self.console,
        }
''', '''        let Lab {
            output_mutex,
            jobserver,
            tests_for_mutant,
            options,
            console,
        } = self;
        Worker {
            build_dir,
            output_mutex,
            jobserver: jobserver.as_ref(),
            tests_for_mutant,
            options,
            console,
        }
'''))
Q('q7-manifest', (MAN, '''    if let Some(changed_toml) = fix_manifest_toml(&toml_str, source_dir)? {
        let toml_str =
            toml::to_string_pretty(&changed_toml).context("serialize changed manifest")?;
        replace_file(manifest_scratch_path, &toml_str).with_context(|| {
            format!("Failed to write fixed manifest to {manifest_scratch_path}")
        })?;
    }
    Ok(())
''', '''    let Some(changed_toml) = fix_manifest_toml(&toml_str, source_dir)? else {
        return Ok(());
    };
    let fixed = toml::to_string_pretty(&changed_toml).context("serialize changed manifest")?;
    replace_file(manifest_scratch_path, &fixed)
        .with_context(|| format!("Failed to write fixed manifest to {manifest_scratch_path}"))
'''), (MAN, '''    for section in ["dependencies", "dev-dependencies", "build-dependencies"] {
        if let Some(dependencies) = table.get_mut(section) {
            fix_dependency_table(dependencies, manifest_source_dir);
        }
    }
''', '''    const SECTIONS: &[&str] = &["build-dependencies", "dependencies", "dev-dependencies"];
    for (name, value) in table.iter_mut() {
        if SECTIONS.contains(&name.as_str()) {
            fix_dependency_table(value, manifest_source_dir);
        }
    }
'''))

Q('q7-mutant-text', (MUT, '''        let mut v = Vec::new();
        v.push(self.source_file.tree_relative_slashes());
        if show_line_col {
            v.push(format!(
                ":{}:{}",
                self.span.start.line, self.span.start.column
            ));
        }
        v.push(": ".to_owned());
        v.extend(self.styled_parts().into_iter().map(|x| x.to_string()));
        v.join("")
''', '''        let mut s = self.source_file.tree_relative_slashes();
        if show_line_col {
            let start = self.span.start;
            s += &format!(":{}:{}", start.line, start.column);
        }
        s += ": ";
        for part in self.styled_parts() {
            s += &part.to_string();
        }
        s
'''), (MUT, '''        self.styled_parts()
            .into_iter()
            .map(|x| x.force_styling(false).to_string())
            .collect::<String>()
''', '''        let mut description = String::new();
        for part in self.styled_parts() {
            description.push_str(&part.force_styling(false).to_string());
        }
        description
'''), (MUT, '''        self.span.replace(
            self.source_file.code(),
            &format!("{} {}", &self.replacement, MUTATION_MARKER_COMMENT),
        )
''', '''        let mut replacement = self.replacement.clone();
        replacement.push(' ');
        replacement.push_str(MUTATION_MARKER_COMMENT);
        self.span.replace(self.source_file.code(), &replacement)
'''))
Q('q7-mutant-log-name', (MUT, '''        format!(
            "{filename}_line_{line}_col_{col}",
            filename = clean_filename(&self.source_file.tree_relative_slashes()),
            line = self.span.start.line,
            col = self.span.start.column,
        )
''', '''        let filename = clean_filename(&self.source_file.tree_relative_slashes());
        let start = &self.span.start;
        [
            filename,
            format!("line_{}", start.line),
            format!("col_{}", start.column),
        ]
        .join("_")
'''), (MUT, '''        let old_label = self.source_file.tree_relative_slashes();
        // There shouldn't be any newlines, but just in case...
        let new_label = self.describe_change().replace('\\n', " ");
        TextDiff::from_lines(self.source_file.code(), mutated_code)
            .unified_diff()
            .context_radius(8)
            .header(&old_label, &new_label)
            .to_string()
''', '''        let code = self.source_file.code();
        let text_diff = TextDiff::from_lines(code, mutated_code);
        let mut unified = text_diff.unified_diff();
        unified.context_radius(8).header(
            &self.source_file.tree_relative_slashes(),
            // There shouldn't be any newlines, but just in case...
            &self.describe_change().replace('\\n', " "),
        );
        format!("{unified}")
'''))
Q('q7-output-names', (OD, '''    s.replace('/', "__")
        .chars()
        .map(|c| match c {
            '\\\\' | ' ' | ':' | '<' | '>' | '?' | '*' | '|' | '"' => '_',
            c => c,
        })
        .collect::<String>()
''', '''    let mut cleaned = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '/' => cleaned.push_str("__"),
            '\\\\' | ' ' | ':' | '<' | '>' | '?' | '*' | '|' | '"' => cleaned.push('_'),
            _ => cleaned.push(c),
        }
    }
    cleaned
'''), (OD, '''        serde_json::to_writer_pretty(
            BufWriter::new(File::create(self.path.join("mutants.json"))?),
            mutants,
        )
        .context("write mutants.json")
''', '''        let json_path = self.path.join("mutants.json");
        let writer = BufWriter::new(File::create(json_path)?);
        serde_json::to_writer_pretty(writer, mutants).context("write mutants.json")?;
        Ok(())
'''), (OD, '''        let path = self.output_dir.join(&self.log_path);
        OpenOptions::new()
            .append(true)
            .open(&path)
            .with_context(|| format!("reopen {path} for append"))
''', '''        let path = self.output_dir.join(&self.log_path);
        let mut open_options = OpenOptions::new();
        open_options.append(true);
        match open_options.open(&path) {
            Ok(file) => Ok(file),
            Err(err) => Err(err).with_context(|| format!("reopen {path} for append")),
        }
'''), (OD, '''        self.message(&format!("mutation diff:\\n{diff}"))?;
        let diff_path = self.diff_path.as_ref().expect("should know the diff path");
        write(self.output_dir.join(diff_path), diff.as_bytes())
            .with_context(|| format!("write diff to {diff_path}"))
''', '''        let diff_path = self
            .diff_path
            .clone()
            .expect("should know the diff path");
        let full_path = self.output_dir.join(&diff_path);
        self.message(&format!("mutation diff:\\n{diff}"))?;
        write(full_path, diff).with_context(|| format!("write diff to {diff_path}"))
'''))
Q('q7-package', (PKG, '''        let Some(relative_dir) = manifest_path
            .strip_prefix(workspace_root)
            .ok()
            .and_then(|p| p.parent())
            .map(ToOwned::to_owned)
        else {
            warn!(
                "manifest path {manifest_path:?} for package {name:?} is not within \\
                the detected source root path {workspace_root:?} or has no parent"
            );
            return None;
        };
        Some(Package {
            name,
            top_sources: package_top_sources(workspace_root, package_metadata),
            version: package_metadata.version.to_string(),
            relative_dir,
        })
''', '''        let relative_dir = match manifest_path.strip_prefix(workspace_root) {
            Ok(relative_manifest) => relative_manifest.parent(),
            Err(_) => None,
        };
        if let Some(relative_dir) = relative_dir {
            let top_sources = package_top_sources(workspace_root, package_metadata);
            Some(Package {
                name,
                version: package_metadata.version.to_string(),
                relative_dir: relative_dir.to_path_buf(),
                top_sources,
            })
        } else {
            warn!(
                "manifest path {manifest_path:?} for package {name:?} is not within \\
                the detected source root path {workspace_root:?} or has no parent"
            );
            None
        }
'''), (PKG, '''    target.kind.iter().any(|kind| {
        matches!(
            kind,
            TargetKind::Bin
                | TargetKind::ProcMacro
                | TargetKind::CDyLib
                | TargetKind::DyLib
                | TargetKind::Lib
                | TargetKind::RLib
                | TargetKind::StaticLib
        )
    })
''', '''    for kind in &target.kind {
        match kind {
            TargetKind::Bin
            | TargetKind::ProcMacro
            | TargetKind::CDyLib
            | TargetKind::DyLib
            | TargetKind::Lib
            | TargetKind::RLib
            | TargetKind::StaticLib => return true,
            _ => {}
        }
    }
    false
'''))
Q('q7-process', (PROC, '''    let mut r = String::new();
    for s in argv {
        if !r.is_empty() {
            r.push(' ');
        }
        for c in s.as_ref().chars() {
            match c {
                '\\t' => r.push_str(r"\\t"),
                '\\n' => r.push_str(r"\\n"),
                '\\r' => r.push_str(r"\\r"),
                ' ' | '\\\\' | '\\'' | '"' => {
                    r.push('\\\\');
                    r.push(c);
                }
                _ => r.push(c),
            }
        }
    }
    r
''', '''    let mut r = String::new();
    for s in argv {
        if !r.is_empty() {
            r.push(' ');
        }
        for c in s.as_ref().chars() {
            let escaped = match c {
                '\\t' => 't',
                '\\n' => 'n',
                '\\r' => 'r',
                ' ' | '\\\\' | '\\'' | '"' => c,
                _ => {
                    r.push(c);
                    continue;
                }
            };
            r.push('\\\\');
            r.push(escaped);
        }
    }
    r
'''), (UNIX, '''    match killpg(pid, Signal::SIGTERM) {
        Ok(()) => Ok(()),
        Err(Errno::ESRCH) => {
            Ok(()) // Probably already gone
        }
        Err(Errno::EPERM) if cfg!(target_os = "macos") => {
            Ok(()) // If the process no longer exists then macos can return EPERM (maybe?)
        }
        Err(errno) => {
            // TODO: Maybe strerror?
            let message = format!("failed to terminate child: error {errno}");
            warn!("{}", message);
            bail!(message);
        }
    }
''', '''    let Err(errno) = killpg(pid, Signal::SIGTERM) else {
        return Ok(());
    };
    let already_gone =
        errno == Errno::ESRCH || (cfg!(target_os = "macos") && errno == Errno::EPERM);
    if already_gone {
        return Ok(());
    }
    // TODO: Maybe strerror?
    let message = format!("failed to terminate child: error {errno}");
    warn!("{}", message);
    bail!(message)
'''))
Q('q7-visit-mod', (VIS, '''        let path_attribute = match find_path_attribute(&node.attrs) {
            Ok(path) => path,
            Err(path_attribute) => {
                let definition_site = self
                    .source_file
                    .format_source_location(source_location.start);
                error!(?path_attribute, ?definition_site, %mod_name, "invalid filesystem traversal in mod path attribute");
                return;
            }
        };
        let mod_namespace = ModNamespace {
            name: mod_name,
            path_attribute,
            source_location,
        };
        self.mod_namespace_stack.push(mod_namespace.clone());
''', '''        let mod_namespace = match find_path_attribute(&node.attrs) {
            Err(path_attribute) => {
                let definition_site = self
                    .source_file
                    .format_source_location(source_location.start);
                error!(?path_attribute, ?definition_site, %mod_name, "invalid filesystem traversal in mod path attribute");
                return;
            }
            Ok(path_attribute) => ModNamespace {
                name: mod_name,
                path_attribute,
                source_location,
            },
        };
        self.mod_namespace_stack.push(mod_namespace.clone());
'''), (VIS, '''        if node.content.is_none() {
            // If we're already inside `mod a { ... }` and see `mod b;` then
            // remember [a, b] as an external module to visit later.
            self.external_mods.push(ExternalModRef {
                parts: self.mod_namespace_stack.clone(),
            });
        }
        self.in_namespace(&mod_namespace.name, |v| syn::visit::visit_item_mod(v, node));
        assert_eq!(self.mod_namespace_stack.pop(), Some(mod_namespace));
''', '''        let is_external = node.content.is_none();
        if is_external {
            // If we're already inside `mod a { ... }` and see `mod b;` then
            // remember [a, b] as an external module to visit later.
            let parts = self.mod_namespace_stack.to_vec();
            self.external_mods.push(ExternalModRef { parts });
        }
        self.in_namespace(&mod_namespace.name, |v| syn::visit::visit_item_mod(v, node));
        let popped = self.mod_namespace_stack.pop();
        assert_eq!(popped, Some(mod_namespace));
'''))
Q('q7-visit-attrs', (VIS, '''    if !path_is(attr.path(), &["cfg"]) {
        return false;
    }
    let mut contains_test = false;
    if let Err(err) = attr.parse_nested_meta(|meta| {
        if meta.path.is_ident("test") {
            contains_test = true;
        }
        Ok(())
    }) {
        debug!(
            ?err,
            attr = attr.to_pretty_string(),
            "Attribute is in an unrecognized form so skipped",
        );
        return false;
    }
    contains_test
''', '''    let mut contains_test = false;
    path_is(attr.path(), &["cfg"])
        && match attr.parse_nested_meta(|meta| {
            contains_test |= meta.path.is_ident("test");
            Ok(())
        }) {
            Ok(()) => contains_test,
            Err(err) => {
                debug!(
                    ?err,
                    attr = attr.to_pretty_string(),
                    "Attribute is in an unrecognized form so skipped",
                );
                false
            }
        }
'''), (VIS, '''    attrs
        .iter()
        .find_map(|attr| match &attr.meta {
            syn::Meta::NameValue(meta) if meta.path.is_ident("path") => {
                let syn::Expr::Lit(expr_lit) = &meta.value else {
                    return None;
                };
                let syn::Lit::Str(lit_str) = &expr_lit.lit else {
                    return None;
                };
                let path = lit_str.value();

                // refuse to follow absolute paths
                if path.starts_with('/') {
                    Some(Err(path))
                } else {
                    Some(Ok(Utf8PathBuf::from(path)))
                }
            }
            _ => None,
        })
        .transpose()
''', '''    for attr in attrs {
        let syn::Meta::NameValue(meta) = &attr.meta else {
            continue;
        };
        if !meta.path.is_ident("path") {
            continue;
        }
        if let syn::Expr::Lit(syn::ExprLit {
            lit: syn::Lit::Str(lit_str),
            ..
        }) = &meta.value
        {
            let path = lit_str.value();
            // refuse to follow absolute paths
            return if path.starts_with('/') {
                Err(path)
            } else {
                Ok(Some(path.into()))
            };
        }
    }
    Ok(None)
'''))
Q('q7-visit-fns', (VIS, '''        self.namespace_stack.push(function_name.to_string());
        let full_function_name = self.namespace_stack.join("::");
        let function = Arc::new(Function {
            function_name: full_function_name,
            return_type: return_type.to_pretty_string(),
            span: span.into(),
        });
        self.fn_stack.push(Arc::clone(&function));
        function
''', '''        self.namespace_stack.push(function_name.to_string());
        let function = Arc::new(Function {
            function_name: self.namespace_stack.join("::"),
            return_type: return_type.to_pretty_string(),
            span: Span::from(span),
        });
        let pushed = Arc::clone(&function);
        self.fn_stack.push(pushed);
        function
'''), (VIS, '''        self.mutants.push(Mutant {
            source_file: self.source_file.clone(),
            function: self.fn_stack.last().cloned(),
            span,
            replacement: replacement.to_pretty_string(),
            genre,
        });
''', '''        let replacement = replacement.to_pretty_string();
        let function = self.fn_stack.last().map(Arc::clone);
        let mutant = Mutant {
            source_file: self.source_file.clone(),
            function,
            span,
            replacement,
            genre,
        };
        self.mutants.push(mutant);
'''), (VIS, '''    Some(Span {
        start: block.stmts.first()?.span().start().into(),
        end: block.stmts.last()?.span().end().into(),
    })
''', '''    let (first, last) = match block.stmts.as_slice() {
        [] => return None,
        [only] => (only, only),
        [first, .., last] => (first, last),
    };
    Some(Span {
        start: first.span().start().into(),
        end: last.span().end().into(),
    })
'''), (VIS, '''    if sig.unsafety.is_some() {
        trace!("Skip unsafe fn");
        true
    } else {
        false
    }
''', '''    let is_unsafe = sig.unsafety.is_some();
    if is_unsafe {
        trace!("Skip unsafe fn");
    }
    is_unsafe
'''))
Q('q7-workspace', (WS, '''        match catch_unwind(|| metadata.workspace_default_packages()) {
            Ok(default_packages) => {
                let default_package_names: Vec<&str> = default_packages
                    .iter()
                    .map(|pmeta| pmeta.name.as_str())
                    .sorted() // for reproducibility
                    .collect();
                debug!(
                    ?default_package_names,
                    "Manifest defines explicit default packages"
                );
                PackageSelection::Explicit(self.packages_by_name(&default_package_names))
            }
            Err(err) => {
                warn!(
                    cargo_metadata_error = err.downcast::<String>().unwrap_or_default(),
                    "workspace_default_packages is not supported; testing all packages",
                );
                PackageSelection::All
            }
        }
''', '''        let default_packages = match catch_unwind(|| metadata.workspace_default_packages()) {
            Ok(default_packages) => default_packages,
            Err(err) => {
                warn!(
                    cargo_metadata_error = err.downcast::<String>().unwrap_or_default(),
                    "workspace_default_packages is not supported; testing all packages",
                );
                return PackageSelection::All;
            }
        };
        let mut default_package_names: Vec<&str> = Vec::new();
        for pmeta in &default_packages {
            default_package_names.push(&pmeta.name);
        }
        default_package_names.sort_unstable(); // for reproducibility
        debug!(
            ?default_package_names,
            "Manifest defines explicit default packages"
        );
        PackageSelection::Explicit(self.packages_by_name(&default_package_names))
'''), (WS, '''        walk_tree(
            self.root(),
            &self.expand_selection(self.filter_packages(package_filter)?),
            options,
            console,
        )
''', '''        let selection = self.filter_packages(package_filter)?;
        let packages = self.expand_selection(selection);
        walk_tree(self.root(), &packages, options, console)
'''))
Q('q7-locate', (WS, '''    let mut args: Vec<&str> = vec!["locate-project"];
    if workspace {
        args.push("--workspace");
    }
''', '''    let args: &[&str] = if workspace {
        &["locate-project", "--workspace"]
    } else {
        &["locate-project"]
    };
'''), (WS, '''        .args(&args)
        .current_dir(path)''', '''        .args(args)
        .current_dir(path)'''), (WS, '''    let root = cargo_toml_path
        .parent()
        .ok_or_else(|| anyhow!("cargo locate-project root {cargo_toml_path:?} has no parent"))?
        .to_owned();
    ensure!(
        root.is_dir(),
        "apparent project root directory {root:?} is not a directory"
    );
    Ok(root)
''', '''    let Some(root) = cargo_toml_path.parent() else {
        bail!("cargo locate-project root {cargo_toml_path:?} has no parent");
    };
    if !root.is_dir() {
        bail!("apparent project root directory {root:?} is not a directory");
    }
    Ok(root.to_path_buf())
'''))
Q('q7-small-predicates', (OUT, '''        self.phase_results
            .iter()
            .any(|pr| pr.phase != Phase::Test && pr.process_status.is_failure())
''', '''        for pr in &self.phase_results {
            if pr.phase != Phase::Test && pr.process_status.is_failure() {
                return true;
            }
        }
        false
'''), (OUT, '''        self.scenario.is_mutant()
            && self.last_phase() == Phase::Test
            && self.last_phase_result().is_failure()
''', '''        if !self.scenario.is_mutant() {
            return false;
        }
        match self.last_phase() {
            Phase::Test => self.last_phase_result().is_failure(),
            Phase::Check | Phase::Build => false,
        }
'''), (OUT, '''        self.scenario.is_mutant()
            && self.last_phase() == Phase::Test
            && self.last_phase_result().is_success()
''', '''        let tests_passed =
            self.last_phase() == Phase::Test && self.last_phase_result().is_success();
        self.scenario.is_mutant() && tests_passed
'''), (OPT, '''    if a.is_empty() {
        b
    } else {
        a
    }
''', '''    match a {
        [] => b,
        _ => a,
    }
'''), ('src/shard.rs', '''        let parts = s.split_once('/').ok_or(anyhow!("shard must be k/n"))?;
        let k = parts.0.parse().context("shard k")?;
        let n = parts.1.parse().context("shard n")?;
        ensure!(k < n, "shard k must be less than n"); // implies n>0
        Ok(Shard { k, n })
''', '''        let Some((k, n)) = s.split_once('/') else {
            return Err(anyhow!("shard must be k/n"));
        };
        let shard = Shard {
            k: k.parse().context("shard k")?,
            n: n.parse().context("shard n")?,
        };
        // implies n>0
        if shard.k >= shard.n {
            return Err(anyhow!("shard k must be less than n"));
        }
        Ok(shard)
'''))
Q('q7-span', (SP, '''        let mut chars = s.chars().peekable();
        while let Some(c) = chars.next() {
            if ((line_no == start.line && col_no >= start.column) || line_no > start.line)
                && (line_no < end.line || (line_no == end.line && col_no < end.column))
            {
                r.push(c);
            }
''', '''        let mut chars = s.chars().peekable();
        while let Some(c) = chars.next() {
            let after_start = (line_no, col_no) >= (start.line, start.column);
            let before_end = (line_no, col_no) < (end.line, end.column);
            if after_start && before_end {
                r.push(c);
            }
'''))
Q('q7-path-scenario', ('src/path.rs', '''        self.components()
            .map(|c| c.as_str())
            .filter(|c| !c.is_empty())
            .map(|c| if c == "/" || c == "\\\\" { "" } else { c })
            .collect::<Vec<_>>()
            .join("/")
''', '''        let mut parts: Vec<&str> = Vec::new();
        for component in self.components() {
            match component.as_str() {
                "" => (),
                "/" | "\\\\" => parts.push(""),
                c => parts.push(c),
            }
        }
        parts.join("/")
'''), ('src/scenario.rs', '''        match self {
            Scenario::Baseline => None,
            Scenario::Mutant(mutant) => Some(mutant),
        }
''', '''        if let Scenario::Mutant(mutant) = self {
            Some(mutant)
        } else {
            None
        }
'''), ('src/scenario.rs', '''            Scenario::Baseline => f.write_str("baseline"),
            Scenario::Mutant(mutant) => f.write_str(&mutant.name(true)),
''', '''            Scenario::Baseline => write!(f, "baseline"),
            Scenario::Mutant(mutant) => write!(f, "{}", mutant.name(true)),
'''), ('src/timeouts.rs', '''        Timeouts {
            build: build_timeout(None, options),
            test: Some(test_timeout(None, options)),
        }
''', '''        let test = test_timeout(None, options);
        let build = build_timeout(None, options);
        Timeouts {
            test: Some(test),
            build,
        }
'''), ('src/tail_file.rs', '''        if let Some(new_last) = String::from_utf8_lossy(&self.read_buf)
            .lines()
            .filter(|l| !l.trim().is_empty())
            .next_back()
        {
            new_last.clone_into(&mut self.last_line_seen);
        }
        Ok(self.last_line_seen.as_str())
''', '''        let new_text = String::from_utf8_lossy(&self.read_buf);
        let mut nonempty = new_text.lines().rev().filter(|l| !l.trim().is_empty());
        if let Some(new_last) = nonempty.next() {
            self.last_line_seen = new_last.to_owned();
        }
        Ok(&self.last_line_seen)
'''))

# ---- independent bugs, batch 7
B('n7-revert-by-replacing', 'C04', (MUT, '''        build_dir.overwrite_file(
            &self.source_file.tree_relative_path,
            self.source_file.code(),
        )''', '''        let path = build_dir.path().join(&self.source_file.tree_relative_path);
        let mutated = std::fs::read_to_string(path)?;
        let original = self.span.extract(self.source_file.code());
        let restored = mutated.replacen(
            &format!("{} {}", self.replacement, MUTATION_MARKER_COMMENT),
            &original,
            1,
        );
        build_dir.overwrite_file(&self.source_file.tree_relative_path, &restored)'''))
B('n7-queue-quota', 'C07', (LAB, '''        let _span = debug_span!("worker thread", build_dir = ?self.build_dir.path()).entered();
        loop {
''', '''        let _span = debug_span!("worker thread", build_dir = ?self.build_dir.path()).entered();
        let quota = work_queue
            .lock()
            .expect("Lock pending work queue")
            .len()
            .div_ceil(self.options.jobs.unwrap_or(1));
        for _ in 0..quota {
'''), (LAB, '''            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
        }
    }''', '''            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
        }
        Ok(())
    }'''))
B('n7-queue-try-lock', 'C07', (LAB, '''            let Some(mutant) = work_queue.lock().expect("Lock pending work queue").next() else {
                return Ok(());
            };''', '''            let Some(mutant) = work_queue.try_lock().ok().and_then(|mut q| q.next()) else {
                return Ok(());
            };'''))
B('n7-base-in-place', 'C08', (LAB, 'BaselineStrategy::Run => {', 'BaselineStrategy::Run if options.in_place && options.test_timeout.is_some() => {\n            Timeouts::without_baseline(options)\n        }\n        BaselineStrategy::Run => {'))
B('n7-phase-shared-limit', 'C09', (LAB, '''                Phase::Test => timeouts.test,
''', '''                Phase::Test => timeouts.test.map(|t| {
                    outcome
                        .phase_results()
                        .iter()
                        .fold(t, |left, pr| left.saturating_sub(pr.duration))
                }),
'''))
B('n7-rotate-failure-ignored', 'C12', (OD, '''            rename(&output_dir, &rotated)
                .with_context(|| format!("move {:?} to {:?}", &output_dir, &rotated))?;
        }
        create_dir(&output_dir)
            .with_context(|| format!("create output directory {:?}", &output_dir))?;''', '''            if let Err(err) = rename(&output_dir, &rotated) {
                warn!(?err, "failed to move old output directory");
            }
        }
        std::fs::create_dir_all(&output_dir)
            .with_context(|| format!("create output directory {:?}", &output_dir))?;'''), (OD, '''        create_dir(&log_dir)''', '''        std::fs::create_dir_all(&log_dir)'''), (OD, '''        create_dir(diff_dir)''', '''        std::fs::create_dir_all(diff_dir)'''), (OD, 'use tracing::{', 'use tracing::{warn, '))
B('n7-iter-either', 'C14', (OD, '''    for filename in [CAUGHT_TXT, UNVIABLE_TXT, PREVIOUSLY_CAUGHT_TXT] {''', '''    for filename in [CAUGHT_TXT, UNVIABLE_TXT, PREVIOUSLY_CAUGHT_TXT] {
        if filename == PREVIOUSLY_CAUGHT_TXT && r.is_empty() {
            break;
        }'''))
B('n7-shard-floor', 'C15', ('src/shard.rs', '''        mutants
            .into_iter()
            .enumerate()
            .filter_map(|(i, m)| if i % self.n == self.k { Some(m) } else { None })
            .collect()''', '''        let mutants: Vec<M> = mutants.into_iter().collect();
        let per_shard = mutants.len() / self.n;
        mutants
            .into_iter()
            .skip(self.k)
            .step_by(self.n)
            .take(per_shard.max(1))
            .collect()'''))
B('n7-inner-attrs', 'C17', (VIS, '''    attrs
        .iter()
        .any(|attr| attr_is_cfg_test(attr) || attr_is_test(attr) || attr_is_mutants_skip(attr))''', '''    attrs
        .iter()
        .filter(|attr| matches!(attr.style, syn::AttrStyle::Outer))
        .any(|attr| attr_is_cfg_test(attr) || attr_is_test(attr) || attr_is_mutants_skip(attr))'''))
B('n7-glob-caseless', 'C18', ('src/glob.rs', 'GlobBuilder::new(&g)', 'GlobBuilder::new(&g)\n                    .case_insensitive(true)'))
B('n7-regex-caseless', 'C18', (OPT, 'exclude_names: RegexSet::new(or_slices(&args.exclude_re, &config.exclude_re))', 'exclude_names: regex::RegexSetBuilder::new(or_slices(&args.exclude_re, &config.exclude_re))\n                .case_insensitive(true)\n                .build()'))
B('n7-diff-ends-only', 'C19', (IND, '''            for line in mutant.span.start.line..=mutant.span.end.line {''', '''            for line in [mutant.span.start.line, mutant.span.end.line] {'''))
B('n7-diff-dup-merged', 'C19', (IND, '''        if lines_changed_by_path
            .insert(path, affected_lines(patch))
            .is_some()
        {
            bail!("Patch input contains repeated filename: {path:?}");
        }''', '''        lines_changed_by_path
            .entry(path)
            .or_default()
            .extend(affected_lines(patch));'''))
B('n7-env-wrapper', 'C21', (PROC, '''            .envs(os_env)
''', '''            .envs(os_env)
            .env_remove("RUSTC_WRAPPER")
'''))
B('n7-argv-test-args-first', 'C22', (CAR, '''    if phase == Phase::Test {
        cargo_args.extend(options''', '''    if phase == Phase::Test && !cargo_args.contains(&"--".to_owned()) {
        cargo_args.extend(options'''))
B('n7-opt-mintimeout-max', 'C23', (OPT, '''            args.minimum_test_timeout
                .or(config.minimum_test_timeout)''', '''            args.minimum_test_timeout
                .into_iter()
                .chain(config.minimum_test_timeout)
                .reduce(f64::max)'''))
B('n7-copy-tilde', 'C25', (CPT, '''            name != "mutants.out"
''', '''            !name.ends_with('~')
                && name != "mutants.out"
'''))
B('n7-slice-name', 'C28', (CON, '''        parts.push(self.name.to_string());
        parts.push("...".to_string());''', '''        let name = self.name.to_string();
        parts.push(name[..name.len().min(_width.max(20))].to_string());
        parts.push("...".to_string());'''))
B('n7-slice-tail', 'C28', ('src/tail_file.rs', '''            new_last.clone_into(&mut self.last_line_seen);''', '''            new_last[..new_last.len().min(240)].clone_into(&mut self.last_line_seen);'''))
B('n7-required-features', 'C35', (PKG, '''    target.kind.iter().any(|kind| {''', '''    target.required_features.is_empty() && target.kind.iter().any(|kind| {'''))
B('n7-logs-baseline-timeout', 'C38', (OUT, '''        !self.scenario.is_mutant() && !self.success()''', '''        !self.scenario.is_mutant() && self.last_phase_result().is_failure()'''))
B('n7-dir0-held', 'C43', (LAB, '''                let build_dir_0 = build_dir_0.lock().expect("lock build dir 0").take(); // separate for lock
                let build_dir = &if let Some(d) = build_dir_0 {''', '''                let build_dir = &if let Some(d) =
                    build_dir_0.lock().expect("lock build dir 0").take()
                {'''))
B('n7-retest-caught', 'C07', (LAB, '''            self.run_one_scenario(&Scenario::Mutant(mutant), &test_packages, timeouts)?;
''', '''            let scenario = Scenario::Mutant(mutant);
            let outcome = self.run_one_scenario(&scenario, &test_packages, timeouts)?;
            if outcome.has_timeout() && self.options.jobs.is_some_and(|j| j > 1) {
                // it may have been slowed down by the others
                self.run_one_scenario(&scenario, &test_packages, timeouts)?;
            }
'''))
B('n7-mod-both', 'C34', (VIS, '''        if full_path.is_file() {
            trace!("found submodule in {full_path}");''', '''        if full_path.is_file() && !full_path.is_symlink() {
            trace!("found submodule in {full_path}");'''))
B('n7-progress-filter', 'C18', (VIS, '''        if !options.allows_source_file_path(&source_file.tree_relative_path) {
            continue;
        }
        mutants.append(&mut file_mutants);''', '''        if !package_top && !options.allows_source_file_path(&source_file.tree_relative_path) {
            continue;
        }
        mutants.append(&mut file_mutants);'''))
B('n7-queue-by-file', 'C34', (VIS, '''        if !visited.insert(path.clone()) {''', '''        if !visited.insert(path.file_stem().map(ToOwned::to_owned).filter(|_| !package_top).unwrap_or(path.to_string())) {'''))
B('n7-kill-try-wait', 'C10', (PROC, '''        match self.child.wait() {''', '''        match self.child.try_wait() {'''))
B('n7-log-not-append', 'C33', (OD, '''        OpenOptions::new()
            .append(true)
            .open(&path)''', '''        OpenOptions::new()
            .write(true)
            .open(&path)'''))
B('n7-timeout-child-status', 'C02', (PROC, '''            self.terminate()?;
            Ok(Some(Exit::Timeout))''', '''            self.terminate()?;
            match self.child.try_wait()? {
                Some(status) if status.code().is_some() => Ok(Some(status.into())),
                _ => Ok(Some(Exit::Timeout)),
            }'''))
B('n7-exit-unwind', 'C07', (LAB, '''            Err(panic) => resume_unwind(panic),''', '''            Err(_) => {
                error!("Worker thread panicked");
                None
            }'''))
B('n7-tests-name-only', 'C37', (LAB, 'workspace.packages_by_name(package_names)', 'workspace.packages_by_name(&package_names[..1])'))
B('n7-js-tasks-min', 'C39', (LAB, '''options.jobserver_tasks.unwrap_or_else(num_cpus::get)''', '''options.jobserver_tasks.unwrap_or_else(num_cpus::get).max(options.jobs.unwrap_or(1))'''))
B('n7-leak-error', 'C24', (LAB, '''                lab.run_queue(build_dir, timeouts, work_queue)
            }));''', '''                let result = lab.run_queue(build_dir, timeouts, work_queue);
                if result.is_err() {
                    std::process::exit(crate::exit_code::SOFTWARE);
                }
                result
            }));'''))

# ---- symbolic links in the copy
B('sl-manifest-write', 'C05', (MAN, "replace_file(manifest_scratch_path, &toml_str)", "write(manifest_scratch_path, toml_str.as_bytes())"))
B('sl-config-write', 'C05', (MAN, 'replace_file(&config_path, &changed_toml)', 'write(&config_path, changed_toml.as_bytes())'))
B('sl-config-outside', 'C05', (MAN, '''            ensure!(
                real_config_dir.starts_with(build_path.canonicalize_utf8()?),
                ".cargo is outside of the build directory, at {real_config_dir:?}"
            );
''', '''            debug!(?real_config_dir);
'''), (MAN, 'use anyhow::{ensure, Context};', 'use anyhow::Context;'))
B('sl-replace-exists', 'C05', (MAN, 'if path.is_symlink() {', 'if path.is_symlink() && !path.exists() {'))
Q('sl-refactor', (MAN, '''    if path.is_symlink() {
        remove_file(path)?;
    }
    write(path, content.as_bytes())?;
    Ok(())
''', '''    let is_link = path.is_symlink();
    if is_link {
        remove_file(path).with_context(|| format!("remove {path}"))?;
    }
    Ok(write(path, content)?)
'''))

# ---- colours
B('col-clicolor-wins', 'C45', (OPT, '''        if env::var("NO_COLOR").is_ok_and(|x| x != "0") {
            Some(false)
        } else if env::var("CLICOLOR_FORCE").is_ok_and(|x| x != "0") {
            Some(true)
        } else {''', '''        if env::var("CLICOLOR_FORCE").is_ok_and(|x| x != "0") {
            Some(true)
        } else if env::var("NO_COLOR").is_ok_and(|x| x != "0") {
            Some(false)
        } else {'''))
B('col-nocolor-zero', 'C45', (OPT, 'if env::var("NO_COLOR").is_ok_and(|x| x != "0")', 'if env::var("NO_COLOR").is_ok()'))
B('col-force-one', 'C45', (OPT, 'env::var("CLICOLOR_FORCE").is_ok_and(|x| x != "0")', 'env::var("CLICOLOR_FORCE").is_ok_and(|x| x == "1")'))
B('col-option-wins', 'C45', (OPT, 'if env::var("NO_COLOR").is_ok_and(|x| x != "0") {', 'if self != Colors::Always && env::var("NO_COLOR").is_ok_and(|x| x != "0") {'))
B('col-stdout-stderr', 'C45', (OPT, '.unwrap_or_else(::console::colors_enabled)', '.unwrap_or_else(::console::colors_enabled_stderr)'))
B('col-stderr-not-set', 'C45', (CON, '''        ::console::set_colors_enabled_stderr(colors);
''', ''))
B('col-only-off', 'C45', (CON, 'if let Some(colors) = colors.forced_value() {', 'if let Some(colors @ false) = colors.forced_value() {'))
B('col-log-ansi', 'C45', (CON, '.with_ansi(false)', '.with_ansi(stderr_colors)'))
B('col-terminal-stdout', 'C45', (CON, '.unwrap_or_else(::console::colors_enabled_stderr)', '.unwrap_or_else(::console::colors_enabled)'))
B('col-args-default', 'C45', (MAIN, 'console.setup_global_trace(args.level, args.colors);', 'console.setup_global_trace(args.level, Colors::default());'))
Q('col-late', (MAIN, '''    enable_console_colors(args.colors);
''', ''), (MAIN, '''    let workspace = Workspace::open(start_dir)?;
''', '''    let workspace = Workspace::open(start_dir)?;
    enable_console_colors(args.colors);
'''))
B('col-list-always', 'C45', (LIST, 'if colors {', 'if colors || options.show_line_col {'))
Q('col-refactor', (OPT, '''        if env::var("NO_COLOR").is_ok_and(|x| x != "0") {
            Some(false)
        } else if env::var("CLICOLOR_FORCE").is_ok_and(|x| x != "0") {
            Some(true)
        } else {
            match self {
                Colors::Always => Some(true),
                Colors::Never => Some(false),
                Colors::Auto => None, // library should decide
            }
        }''', '''        let set = |name: &str| matches!(env::var(name), Ok(value) if value != "0");
        match (set("NO_COLOR"), set("CLICOLOR_FORCE"), self) {
            (true, _, _) | (false, false, Colors::Never) => Some(false),
            (_, true, _) | (_, _, Colors::Always) => Some(true),
            (_, _, Colors::Auto) => None, // library should decide
        }'''), (OPT, '''        self.forced_value()
            .unwrap_or_else(::console::colors_enabled)''', '''        match self.forced_value() {
            Some(forced) => forced,
            None => ::console::colors_enabled(),
        }'''), (CON, '''        let stderr_colors = colors
            .forced_value()
            .unwrap_or_else(::console::colors_enabled_stderr);
''', '''        let stderr_colors = if let Some(forced) = colors.forced_value() {
            forced
        } else {
            ::console::colors_enabled_stderr()
        };
'''), (CON, '''            .with_ansi(false)
            .with_file(true) // source file name
            .with_line_number(true)
            .with_timer(uptime)
            .with_writer(self.make_debug_log_writer());''', '''            .with_writer(self.make_debug_log_writer())
            .with_ansi(false)
            .with_file(true) // source file name
            .with_line_number(true)
            .with_timer(uptime);'''))

# ---- batch 8
B('out-dir-startdir', 'C12', (MAIN, '.unwrap_or_else(|| workspace.root().to_owned());', '.unwrap_or_else(|| start_dir.to_owned());'))
B('out-dir-ignored', 'C12', (MAIN, '''        let output_dir = OutputDir::new(&output_parent_dir)?;''', '''        let output_dir = OutputDir::new(workspace.root())?;'''))
B('col-from-zero', 'C20', (SP, 'column: l.column + 1,', 'column: l.column.max(1),'))
B('span-from-ref', 'C20', (SP, '''    fn from(s: &proc_macro2::Span) -> Self {
        Span {
            start: s.start().into(),
            end: s.end().into(),''', '''    fn from(s: &proc_macro2::Span) -> Self {
        Span {
            start: s.start().into(),
            end: s.start().into(),'''))
B('cfg-start-dir', 'C23', (MAIN, 'config::Config::read_tree_config(workspace.root())?', 'config::Config::read_tree_config(start_dir)?'))
B('inplace-dot', 'C06', (BDR, 'BuildDir::in_place(workspace.root())', 'BuildDir::in_place(Utf8Path::new("."))'))
B('copy-root-relative', 'C06', (BDR, 'BuildDir::copy_from(workspace.root(), options, console)', 'BuildDir::copy_from(Utf8Path::new("."), options, console)'))
B('noconfig-ignored-when-dir', 'C23', (MAIN, 'if args.no_config {', 'if args.no_config && args.dir.is_none() {'))
B('auto-locates-root', 'C35', ('src/workspace.rs', 'locate_project(dir, false)?', 'locate_project(dir, true)?'))
B('discover-all', 'C35', ('src/workspace.rs', '&self.expand_selection(self.filter_packages(package_filter)?),', '&self.expand_selection(self.filter_packages(package_filter).unwrap_or(PackageSelection::All)),'))
B('locate-cwd', 'C35', ('src/workspace.rs', '''        .current_dir(path)
        .output()''', '''        .output()'''))
B('all-members-only-default', 'C35', ('src/workspace.rs', 'PackageFilter::All => Ok(PackageSelection::All)', 'PackageFilter::All => Ok(self.default_packages())'))

# ---- batch 9
B('no-tuple-arm', 'C31', (FNV, """        Type::Tuple(TypeTuple { elems, .. }) => {
            // Generate the cartesian product of replacements of every type within the tuple.
            elems
                .iter()
                .map(|elem| type_replacements(elem, error_exprs).collect_vec())
                .multi_cartesian_product()
                .map(|reps| {
                    quote! { ( #( #reps ),* ) }
                })
                .collect_vec()
        }
""", ''))
PRE = 'src/pretty.rs'
B('pretty-literal', 'C46', (PRE, "Ident(_) | Literal(_) => b.push(' '),", "Ident(_) => b.push(' '),\n                            Literal(_) => (),"))
B('pretty-bracket', 'C46', (PRE, "Delimiter::Bracket => b.push(']'),", "Delimiter::Bracket => b.push(')'),"))
B('pretty-colon-space', 'C46', (PRE, "pc == ',' || pc == ';')", "pc == ',' || pc == ';' || pc == ':')"))
B('pretty-last-comma', 'C46', (PRE, """                    let pc = p.as_char();
                    b.push(pc);
""", """                    let pc = p.as_char();
                    if pc == ',' && ts.peek().is_none() {
                        continue;
                    }
                    b.push(pc);
"""))
B('pretty-raw', 'C46', (PRE, 'Ident(i) => b.push_str(&i.to_string()),', "Ident(i) => b.push_str(i.to_string().trim_start_matches(\"r#\")),"))
B('pretty-tight', 'C46', (PRE, """                            Punct(p) => match p.as_char() {
                                ',' | ';' | '<' | '>' | ':' | '.' | '!' => (),
                                _ => b.push(' '),
                            },""", """                            Punct(p) => match p.as_char() {
                                ',' | ';' | '<' | '>' | ':' | '.' | '!' => (),
                                '?' => b.push_str(" ;"),
                                _ => b.push(' '),
                            },"""))
Q('pretty-helper', (PRE, """        let mut b = String::with_capacity(200);
        let mut ts = self.to_token_stream().into_iter().peekable();""", """        fn ends(g: &proc_macro2::Group) -> (&'static str, &'static str) {
            match g.delimiter() {
                Delimiter::Brace => ("{", "}"),
                Delimiter::Bracket => ("[", "]"),
                Delimiter::Parenthesis => ("(", ")"),
                Delimiter::None => ("", ""),
            }
        }
        let mut b = String::new();
        let mut ts = self.to_token_stream().into_iter().peekable();"""),
  (PRE, """                    match g.delimiter() {
                        Delimiter::Brace => b.push('{'),
                        Delimiter::Bracket => b.push('['),
                        Delimiter::Parenthesis => b.push('('),
                        Delimiter::None => (),
                    }
                    b += &g.stream().to_pretty_string();
                    match g.delimiter() {
                        Delimiter::Brace => b.push('}'),
                        Delimiter::Bracket => b.push(']'),
                        Delimiter::Parenthesis => b.push(')'),
                        Delimiter::None => (),
                    }""", """                    let (open, close) = ends(&g);
                    b.push_str(open);
                    b.push_str(&g.stream().to_pretty_string());
                    b.push_str(close);"""))
Q('pretty-free', (PRE, """    fn to_pretty_string(&self) -> String {
        use TokenTree::{Group, Ident, Literal, Punct};
        let mut b = String::with_capacity(200);
        let mut ts = self.to_token_stream().into_iter().peekable();
        while let Some(tt) = ts.next() {""", """    fn to_pretty_string(&self) -> String {
        let mut b = String::with_capacity(200);
        write_tokens(&mut b, self.to_token_stream());
        b
    }
}

fn write_tokens(b: &mut String, stream: proc_macro2::TokenStream) {
        use TokenTree::{Group, Ident, Literal, Punct};
        let mut ts = stream.into_iter().peekable();
        while let Some(tt) = ts.next() {"""), (PRE, "b += &g.stream().to_pretty_string();", "write_tokens(b, g.stream());"), (PRE, """        debug_assert!(
            !b.ends_with(' '),
            "generated a trailing space: ts={ts:?}, b={b:?}",
            ts = self.to_token_stream(),
        );
        b
    }
}""", "}"))
B('errval-drop-bad', 'C31', (OPT, """        self.error_values
            .iter()
            .map(|e| {""", """        self.error_values
            .iter()
            .filter(|e| syn::parse_str::<Expr>(e).is_ok())
            .map(|e| {"""))
B('errval-first', 'C31', (OPT, """        self.error_values
            .iter()
            .map(|e| {""", """        self.error_values
            .iter()
            .take(1)
            .map(|e| {"""))
Q('errval-loop', (OPT, """        self.error_values
            .iter()
            .map(|e| {
                syn::parse_str(e).with_context(|| format!("Failed to parse error value {e:?}"))
            })
            .collect()""", """        let mut exprs = Vec::with_capacity(self.error_values.len());
        for e in &self.error_values {
            let expr: Expr =
                syn::parse_str(e).with_context(|| format!("Failed to parse error value {e:?}"))?;
            exprs.push(expr);
        }
        Ok(exprs)"""))
B('errval-swallow', 'C31', (VIS, 'options.parsed_error_exprs()?;', 'options.parsed_error_exprs().unwrap_or_default();'))
B('errval-not-handed-on', 'C31', (VIS, 'walk_package(workspace_dir, package, &error_exprs, &progress, options)?', 'walk_package(workspace_dir, package, if packages.len() > 1 { &[] } else { &error_exprs }, &progress, options)?'))
