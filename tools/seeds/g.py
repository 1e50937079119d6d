"""Planted bugs in the task runner. The demo builds it with stand-ins for cargo, git and rustup that only record their arguments."""
HEAD = r'''#!/bin/bash
# builds the task runner of the current directory with stand-ins for cargo, git and rustup (they only record what they were called with)
set -u
R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/bin" "$T/work"; L="$T/log"
export STAND_IN_LOG="$L" HOME=/root CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target}
for n in cargo git rustup; do cat > "$T/bin/$n" <<'EOF'
#!/bin/bash
n=${0##*/}; echo "$n $*" >> "$STAND_IN_LOG"
case "$n $*" in
%s
esac
exit 0
EOF
chmod +x "$T/bin/$n"; done
cat > "$T/wrap" <<EOF
#!/bin/bash
export CARGO="$T/bin/cargo"
exec "\$@"
EOF
chmod +x "$T/wrap"
PATH=/root/.cargo/bin:$PATH RUSTC_WRAPPER="$T/wrap" RUSTFLAGS="--cap-lints allow" cargo build --offline --quiet --manifest-path "$R/xtask/Cargo.toml" || exit 2
X="$CARGO_TARGET_DIR/debug/xtask"
cd "$T/work"; echo old > CHANGELOG.md
export PATH="$T/bin:/usr/bin:/bin"
'''
U = 'xtask/src/util.rs'; C = 'xtask/src/task/changelog.rs'; S = 'xtask/src/task/setup.rs'
SEEDS = [
 dict(id='c26-killed', prop='C26', edits=[(U, '''    match self.success() {
      true => Ok(()),
      false => Err(anyhow!(
        "Process exited with error code {}",
        self.code().unwrap_or(-1)
      )),
    }''', '''    match self.code().unwrap_or_default() {
      0 => Ok(()),
      code => Err(anyhow!("Process exited with error code {code}")),
    }''')],
   needs='an external command that is ended by a signal instead of exiting', breaks='a command killed by a signal counts as having succeeded',
   sh=HEAD % '  "rustup component"*) kill -9 $$ ;;' + r'''
"$X" setup > /dev/null 2>&1; rc=$?
grep -q '^rustup component add' "$L" || { echo "rustup was never called"; exit 2; }
[ $rc -ne 0 ] || { echo "rustup was killed, and the runner exited with 0"; exit 1; }
"$X" test > /dev/null 2>&1 || { echo "all commands succeed, and the runner fails"; exit 1; }
'''),
 dict(id='c26-partial-output', prop='C26', edits=[(U, '''    output.check()?;
    Ok(String::from_utf8(output.stdout)?)''', '''    if output.stdout.is_empty() {
      output.check()?;
    }
    Ok(String::from_utf8(output.stdout)?)''')],
   needs='a command whose output is captured, which prints something and then fails', breaks='the output of a failed command is used and the failure is not reported',
   sh=HEAD % '  "git show"*abc2*) echo "half a mess"; exit 128 ;;\n  "git show"*) echo "a message" ;;\n  "git log -1"*) echo abc9 ;;\n  "git log"*) printf "abc1\\nabc2\\nabc3\\n" ;;' + r'''
"$X" changelog --since 0.1 > /dev/null 2>&1; rc=$?
grep -q 'git show.*abc2' "$L" || { echo "git show was never called"; exit 2; }
[ $rc -ne 0 ] || { echo "git show failed, and the runner exited with 0"; exit 1; }
[ "$(cat CHANGELOG.md)" = old ] || { echo "git show failed, and the changelog was rewritten"; exit 1; }
'''),
 dict(id='c26-skip-commit', prop='C26', edits=[(C, '''      let message = git("show")
        .with_args(["--quiet", "--pretty=format:%B", commit])
        .run_with_output()?;
''', '''      let Ok(message) = git("show")
        .with_args(["--quiet", "--pretty=format:%B", commit])
        .run_with_output()
      else {
        continue;
      };
''')],
   needs='git show failing for one of several commits', breaks='the changelog is written without the commit, and the runner exits with success',
   sh=HEAD % '  "git show"*abc2*) exit 128 ;;\n  "git show"*) echo "a message" ;;\n  "git log -1"*) echo abc9 ;;\n  "git log"*) printf "abc1\\nabc2\\nabc3\\n" ;;' + r'''
"$X" changelog --since 0.1 > /dev/null 2>&1; rc=$?
grep -q 'git show.*abc2' "$L" || { echo "git show was never called"; exit 2; }
[ $rc -ne 0 ] || { echo "git show failed, and the runner exited with 0"; exit 1; }
[ "$(cat CHANGELOG.md)" = old ] || { echo "git show failed, and the changelog was rewritten"; exit 1; }
'''),
]
