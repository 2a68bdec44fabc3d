"""Builds /repo's crate and the generated harnesses."""
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

REPO = os.environ.get('BFV_REPO', '/repo')
TOOLCHAIN = 'nightly-2026-02-27'


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTDOCFLAGS', 'CARGO_ENCODED_RUSTFLAGS',
              'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e['HOME'] = e.get('HOME', '/root')
    return e


class Builder:
    def __init__(self, work):
        self.work = work
        self.crates = {}

    def build_crate(self, crate=None):
        """cargo-build from the working tree of /repo: the bitfields crate (None), the same with chosen Cargo
        features ('facade', features), or the macro crate itself with chosen features ('impl', features)"""
        if crate in self.crates:
            return self.crates[crate][0]
        if crate is not None and crate[0] == 'nostd':      # the plain build, used from a no_std crate
            self.build_crate()
            self.crates[crate] = self.crates[None]
            return self.crates[crate][0]
        w = os.path.join(self.work, 'dep%d' % len(self.crates))
        os.makedirs(os.path.join(w, 'src'), exist_ok=True)
        feat = ''
        if crate is not None:
            feat = ', default-features = false, features = [%s]' % ', '.join('"%s"' % f for f in crate[1])
        impl = crate is not None and crate[0] == 'impl'
        dep = ('bitfields = { package = "bitfields-impl", path = "%s/bitfields_impl"%s }' if impl else
               'bitfields = { path = "%s/bitfields"%s }') % (REPO, feat)
        with open(os.path.join(w, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "bfvdep"\nversion = "0.0.0"\nedition = "2021"\n\n[lib]\npath = "src/lib.rs"\n\n'
                    '[dependencies]\n%s\n\n[workspace]\n'
                    '[profile.dev]\ndebug = false\nincremental = false\n' % dep)
        with open(os.path.join(w, 'src', 'lib.rs'), 'w') as f:
            f.write('pub use bitfields::*;\n')
        lock = os.path.join(REPO, 'Cargo.lock')
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(w, 'Cargo.lock'))
        td = os.path.join(self.work, 'target')
        r = subprocess.run(['cargo', 'build', '--offline', '--message-format=json', '--target-dir', td],
                           cwd=w, env=env(), capture_output=True, text=True)
        if r.returncode:
            raise BuildError('building the bitfields crate failed:\n' + r.stderr[-4000:])
        lib = None
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-artifact' and \
                    m['target']['name'] == ('bitfields_impl' if impl else 'bitfields'):
                for fn in m['filenames']:
                    if fn.endswith('.so' if impl else '.rlib'):
                        lib = fn
        if not lib:
            raise BuildError('no library for bitfields')
        deps = os.path.dirname(lib)
        if os.path.basename(deps) != 'deps':
            deps = os.path.join(deps, 'deps')
        # a later build with other features replaces the files under their plain names
        if crate is not None:
            keep = os.path.join(self.work, 'crate%d' % len(self.crates))
            os.makedirs(keep)
            if impl:
                lib = shutil.copy(lib, keep)
                deps = keep
            else:
                deps = shutil.copytree(deps, os.path.join(keep, 'deps'))
                lib = shutil.copy(lib, keep)
        self.crates[crate] = (lib, deps)
        return lib

    def rustc(self, src, out, extra, crate=None):
        lib, deps = self.crates[crate]
        cmd = ['rustc', '--edition', '2024', src, '-o', out, '--cap-lints', 'allow', '-C', 'debuginfo=0',
               '--extern', 'bitfields=' + lib, '-L', 'dependency=' + deps, '--error-format=short'] + extra
        r = subprocess.run(cmd, env=env(), capture_output=True, text=True)
        return r.returncode, r.stderr

    # the optimisation level the harnesses are lowered with; the later ones are
    # only used for harnesses the first lowering leaves undecided
    LEVELS = ('1', '2', 's')
    IR_FLAGS = ['--crate-type', 'lib', '--emit=llvm-ir', '-C', 'codegen-units=1',
                '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'panic=abort',
                '-C', 'overflow-checks=on', '-C', 'llvm-args=-unroll-threshold=0 -unroll-full-max-count=0']
    DEV_FLAGS = ['--crate-type', 'cdylib', '--cfg', 'bfv_native', '-C', 'opt-level=0', '-C', 'overflow-checks=on',
                 '-C', 'debug-assertions=on', '-C', 'panic=abort', '-C', 'codegen-units=16']
    REL_FLAGS = ['--crate-type', 'cdylib', '--cfg', 'bfv_native', '-C', 'opt-level=3', '-C', 'overflow-checks=off', '-C', 'panic=abort']

    def ir(self, name, text, level='1', crate=None):
        src = os.path.join(self.work, name + '.rs')
        with open(src, 'w') as f:
            f.write(text)
        out = os.path.join(self.work, name + '.ll')
        rc, err = self.rustc(src, out, self.IR_FLAGS + ['-C', 'opt-level=' + level], crate)
        return rc, err, out

    def dylib(self, name, text, release, crate=None):
        src = os.path.join(self.work, name + '.rs')
        with open(src, 'w') as f:
            f.write(text)
        out = os.path.join(self.work, 'lib%s_%s.so' % (name, 'rel' if release else 'dev'))
        rc, err = self.rustc(src, out, self.REL_FLAGS if release else self.DEV_FLAGS, crate)
        return rc, err, out
